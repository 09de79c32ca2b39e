CX = 'src/context.rs'
# what grows with the text and how: the time for a small and a large text
GROW = '''fn time<F: FnMut()>(mut f: F) -> f64 { (0..3).map(|_| { let t = std::time::Instant::now(); f(); t.elapsed().as_secs_f64() }).fold(1e9, f64::min) }
    fn grows<F: Fn(usize) -> String, G: Fn(&str)>(n: usize, k: usize, text: F, op: G) {
        let (a, b) = (text(n), text(n * k));
        let (s, l) = (time(|| op(&a)), time(|| op(&b)));
        assert!(l < s * k as f64 * 6.0 + 0.002, "{} characters {}s, {} characters {}s", a.len(), s, b.len(), l);
    }
    fn stack<F: FnOnce() + Send + 'static>(f: F) { if std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().is_err() { panic!() } }
'''
S('labels-copied', 'C33', 'parse', CX,
  [("        let mut label_strings = Vec::new();\n", "        let outer = self.context.labels.clone();\n"),
   ("            self.context.labels.insert(label.clone(), label_type);\n            label_strings.push(label);\n", "            self.context.labels.insert(label, label_type);\n"),
   ("        for label in label_strings {\n            self.context.labels.remove(&label);\n        }\n", "        self.context.labels = outer;\n")],
  'labelled statements nested in each other', 'parsing takes time quadratic in their number',
  GROW + 'stack(|| grows(60, 32, |n| (0..n).map(|i| format!("l{}:{{", i)).collect::<String>() + &"}".repeat(n), |t| drop(esprit::script(t))));')
S('extract-cloned', 'C33', 'parse', 'crates/unjson/src/unjson.rs',
  [("        match self.remove(name) {\n            Some(json) => Ok(json),\n            None       => Err(Error::MissingField(name))\n", "        let found = self.get(name).cloned();\n        self.remove(name);\n        match found {\n            Some(json) => Ok(json),\n            None       => Err(Error::MissingField(name))\n")],
  'an ESTree document that nests', 'reading it takes time quadratic in its depth',
  GROW + '''stack(|| grows(40, 32, |n| n.to_string(), |t| {
        use serde_json::value::Value::*;
        let n: usize = t.parse().unwrap();
        let o = |l: Vec<(&str, serde_json::value::Value)>| Object(l.into_iter().map(|(k, v)| (k.to_string(), v)).collect());
        let mut e = o(vec![("type", String("Identifier".to_string())), ("name", String("a".to_string()))]);
        for _ in 0..n { e = o(vec![("type", String("UnaryExpression".to_string())), ("operator", String("!".to_string())), ("prefix", Bool(true)), ("argument", e)]); }
        let s = o(vec![("type", String("ExpressionStatement".to_string())), ("expression", e)]);
        match o(vec![("type", String("Program".to_string())), ("body", Array(vec![s]))]) { Object(p) => { assert!(p.into_script().is_ok()); } _ => panic!() }
    }));''')
S('pattern-copied', 'C33', 'parse', EA + 'cover.rs',
  [("            Expr::Arr(location, mut exprs) => {\n", "            Expr::Arr(location, ref list) => {\n                let mut exprs = list.clone();\n"), ("        Ok(match self {\n            Expr::Obj(location, props) => {", "        let this = self.clone();\n        Ok(match this {\n            Expr::Obj(location, props) => {")],
  'an assignment to a deeply nested array pattern', 'parsing takes time quadratic in its depth',
  GROW + 'stack(|| grows(40, 32, |n| format!("{}a{} = b", "[".repeat(n), "]".repeat(n)), |t| drop(esprit::script(t))));')
S('new-compared', 'C33', 'parse', EA + 'expr.rs',
  [("             &Expr::New(_, ref callee_r, Some(ref args_r)))                            => (callee_l, args_l) == (callee_r, args_r),", "             &Expr::New(_, ref callee_r, Some(ref args_r)))                            => callee_l == callee_r && (callee_l, args_l) == (callee_r, args_r),")],
  'comparing new expressions nested as callees', 'the time doubles with every level',
  'let a = tree(&format!("{}a{}", "new ".repeat(22), "()".repeat(22))); let b = a.clone(); let t = std::time::Instant::now(); assert!(a == b); assert!(t.elapsed().as_millis() < 150);')
