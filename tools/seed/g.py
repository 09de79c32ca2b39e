P = 'src/parser.rs'
L = 'crates/joker/src/lexer.rs'
ES = 'crates/estree/src/'
EA = 'crates/easter/src/'
S('same-label-twice', 'C24', 'parse', 'src/context.rs',
  [("            if self.context.labels.contains_key(&label) {\n                return Err(Error::InvalidLabel(id.clone()));\n            }\n            self.context.labels.insert(label.clone(), label_type);\n            label_strings.push(label);\n        }\n",
    "            if self.context.labels.contains_key(&label) {\n                return Err(Error::InvalidLabel(id.clone()));\n            }\n            label_strings.push(label);\n        }\n        for label in label_strings.iter() {\n            self.context.labels.insert(label.clone(), label_type);\n        }\n")],
  'the same label twice before one statement', 'it is accepted', 'tree("a: b: ;"); refused("a: { a: ; }"); refused("a: b: a: ;");')
S('dirs-in-front', 'C33', 'parse', P,
  [("            dirs.push(dir);\n        }\n\n        Ok(dirs)", "            dirs.insert(0, dir);\n        }\n\n        dirs.reverse();\n        Ok(dirs)")],
  'a list of many directives', 'parsing takes time quadratic in their number',
  '''let time = |n: usize| { let t = "'a';".repeat(n); (0..3).map(|_| { let s = std::time::Instant::now(); drop(esprit::script(&t)); s.elapsed().as_secs_f64() }).fold(1e9, f64::min) };
    let (a, b) = (time(2000), time(40000)); assert!(b < a * 80.0, "{} {}", a, b);''')
S('default-after-many', 'C24', 'parse', P,
  [("                    if found_default {\n", "                    if found_default && cases.len() < 40 {\n")],
  'a second default clause after at least forty clauses', 'it is accepted',
  '''let cs = "case 1: ".repeat(60); refused("switch (a) { default: default: }");
    refused(&format!("switch (a) {{ default: {} default: }}", cs)); tree(&format!("switch (a) {{ {} default: }}", cs));''')
S('continue-two-labels', 'C24', 'parse', P,
  [("            if !self.context.iteration {\n", "            if !self.context.iteration && !(self.context.switch && self.context.labels.len() > 1) {\n")],
  'continue in a switch under two labels and no loop', 'it is accepted',
  '''refused("switch (a) { case 1: continue; }"); refused("a: b: switch (c) { case 1: continue; }"); tree("a: b: for (;;) { switch (c) { case 1: continue; } }");''')
S('integer-halves', 'C28', 'parse', ES + 'lit.rs',
  [("impl IntoNumberLiteral for u64 {\n    fn into_number_literal(self) -> NumberLiteral {\n        NumberLiteral {\n            source: Some(NumberSource::DecimalInt(self.to_string(), None)),\n            value: self as f64", "impl IntoNumberLiteral for u64 {\n    fn into_number_literal(self) -> NumberLiteral {\n        NumberLiteral {\n            source: Some(NumberSource::DecimalInt(self.to_string(), None)),\n            value: if self > (1 << 53) { (self >> 1) as f64 * 2.0 } else { self as f64 }")],
  'an integer above 2^53 just past the middle between two doubles', 'it is rounded twice, to the wrong one of them',
  '''for n in &[18014398509481987u64, 9007199254740993, 9007199254740992, 42] {
        let s = read(&format!(r#"{{"type":"Program","body":[{{"type":"ExpressionStatement","expression":{{"type":"Literal","value":{}}}}}]}}"#, n)).unwrap();
        match *expr_of(&s) { Expr::Number(_, ref l) => assert_eq!(l.value, *n as f64, "{}", n), _ => panic!() } }''')
S('type-name-cut', 'C28', 'parse', ES + 'tag.rs',
  [("           .map_err(|_| Error::InvalidTypeTag(String::from(str)))", "           .map_err(|_| Error::InvalidTypeTag(str.chars().take(40).collect()))")],
  'an unknown node type with a name longer than forty characters', 'the error names another type',
  '''for n in &[5usize, 40, 41, 80] { let t = "X".repeat(*n);
        let e = read(&format!(r#"{{"type":"Program","body":[{{"type":"{}"}}]}}"#, t)).unwrap_err(); assert!(e.contains(&t), "{}", e); }''')
S('long-sequence-end', 'C26', 'parse', 'src/track.rs',
  [("        span(&v[0], &v[len - 1])", "        span(&v[0], &v[if len > 100 { 99 } else { len - 1 }])")],
  'a comma expression of more than a hundred parts', 'its place ends at the hundredth',
  '''for n in &[3usize, 100, 150] { let t = vec!["a"; *n].join(","); let s = located(&t);
        let l = (*expr_of(&s).tracking_ref()).unwrap(); assert_eq!((l.start.column as usize, l.end.column as usize), (0, t.len())); }''')
