//! Syntax trees as the reference parser and the monitors' view of the code under test share them.
use crate::json::{obj, s, J};

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub ty: &'static str,
    /// offsets of the first and past the last character; None where the tree records no place
    pub span: Option<(usize, usize)>,
    pub f: Vec<(&'static str, V)>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    N(Box<Node>),
    L(Vec<V>),
    Null,
    S(String),
    B(bool),
    Num(f64),
    /// None: a lone surrogate
    Str(Vec<Option<char>>),
    /// offset of an explicit semicolon; None: inserted
    Semi(Option<usize>),
}

pub fn node(ty: &'static str, f: Vec<(&'static str, V)>) -> Node {
    Node { ty, span: None, f }
}

pub fn opt(n: Option<Node>) -> V {
    match n {
        Some(n) => V::N(Box::new(n)),
        None => V::Null,
    }
}

pub fn list(ns: Vec<Node>) -> V {
    V::L(ns.into_iter().map(|n| V::N(Box::new(n))).collect())
}

impl From<Node> for V {
    fn from(n: Node) -> V {
        V::N(Box::new(n))
    }
}

impl Node {
    pub fn at(mut self, a: usize, b: usize) -> Node {
        self.span = Some((a, b));
        self
    }
    pub fn get(&self, k: &str) -> &V {
        self.f.iter().find(|f| f.0 == k).map(|f| &f.1).unwrap_or(&V::Null)
    }
    pub fn n(&self, k: &str) -> Option<&Node> {
        match self.get(k) {
            V::N(n) => Some(n),
            _ => None,
        }
    }
    pub fn l(&self, k: &str) -> &[V] {
        match self.get(k) {
            V::L(l) => l,
            _ => &[],
        }
    }
    pub fn s(&self, k: &str) -> &str {
        match self.get(k) {
            V::S(s) => s,
            _ => "",
        }
    }
    pub fn b(&self, k: &str) -> bool {
        *self.get(k) == V::B(true)
    }
    pub fn walk<F: FnMut(&Node)>(&self, f: &mut F) {
        fn v<F: FnMut(&Node)>(x: &V, f: &mut F) {
            match x {
                V::N(n) => n.walk(f),
                V::L(l) => l.iter().for_each(|x| v(x, f)),
                _ => {}
            }
        }
        f(self);
        for (_, x) in &self.f {
            v(x, f);
        }
    }
    /// Every list of nodes and every node, mutably.
    pub fn walk_mut<F: FnMut(&mut Node)>(&mut self, f: &mut F) {
        fn v<F: FnMut(&mut Node)>(x: &mut V, f: &mut F) {
            match x {
                V::N(n) => n.walk_mut(f),
                V::L(l) => l.iter_mut().for_each(|x| v(x, f)),
                _ => {}
            }
        }
        for (_, x) in self.f.iter_mut() {
            v(x, f);
        }
        f(self);
    }
    pub fn size(&self) -> u64 {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }
    pub fn depth(&self) -> u64 {
        fn v(x: &V) -> u64 {
            match x {
                V::N(n) => n.depth(),
                V::L(l) => l.iter().map(v).max().unwrap_or(0),
                _ => 0,
            }
        }
        1 + self.f.iter().map(|f| v(&f.1)).max().unwrap_or(0)
    }
}

/// Nodes whose location may begin with the white space before their first token,
const WIDE_START: [&str; 6] = ["Block", "Dir", "Dtor", "ConstDtor", "Params", "Script"];
/// or end with that after their last one.
const WIDE_END: [&str; 27] = [
    "Break", "Case", "Const", "Cont", "Dir", "Dtor", "ConstDtor", "ExprStmt", "For", "ForIn", "ForOf", "If", "Label", "Let",
    "Rest", "Return", "Spread", "Throw", "Try", "Var", "While", "DoWhile", "With", "Debugger", "Switch", "Catch", "Script",
];

/// What to compare.
#[derive(Clone, Copy)]
pub struct Diff<'a> {
    pub semi: bool,
    /// moves an offset forward (resp. backward) over trivia
    pub spans: Option<(&'a [usize], &'a [usize])>,
}

impl<'a> Diff<'a> {
    pub fn structure() -> Diff<'static> {
        Diff { semi: false, spans: None }
    }
    /// None if equal, else where and how they differ.
    pub fn node(&self, want: &Node, got: &Node) -> Option<String> {
        if want.ty != got.ty {
            return Some(format!(": a {} node where {} is expected", got.ty, want.ty));
        }
        if let Some((fwd, bwd)) = self.spans {
            let near = |s: (usize, usize)| {
                (fwd.get(s.0).cloned().unwrap_or(s.0), bwd.get(s.1).cloned().unwrap_or(s.1))
            };
            match (want.span, got.span) {
                (Some(w), Some(g)) => {
                    if near(w) != near(g) {
                        return Some(format!(
                            ".{}: located at characters {}..{} where {}..{} is expected",
                            want.ty, g.0, g.1, w.0, w.1
                        ));
                    }
                    let ends = want.f.iter().any(|f| matches!(f.1, V::Semi(Some(_))));
                    if (g.0 != w.0 && !WIDE_START.contains(&want.ty)) || (g.1 != w.1 && (!WIDE_END.contains(&want.ty) || ends)) {
                        return Some(format!(
                            ".{}: located at characters {}..{}, with white space, where {}..{} is expected",
                            want.ty, g.0, g.1, w.0, w.1
                        ));
                    }
                }
                (Some(_), None) => return Some(format!(".{}: no location", want.ty)),
                (None, _) => {}
            }
        }
        if want.f.len() != got.f.len() || want.f.iter().zip(&got.f).any(|(a, b)| a.0 != b.0) {
            panic!("monitor: fields of {} differ: {:?} {:?}", want.ty, want, got);
        }
        for (a, b) in want.f.iter().zip(&got.f) {
            if let Some(d) = self.v(&a.1, &b.1) {
                return Some(format!(".{}.{}{}", want.ty, a.0, d));
            }
        }
        None
    }
    fn v(&self, want: &V, got: &V) -> Option<String> {
        let same = match (want, got) {
            (V::N(a), V::N(b)) => return self.node(a, b),
            (V::L(a), V::L(b)) => {
                for (i, (a, b)) in a.iter().zip(b).enumerate() {
                    if let Some(d) = self.v(a, b) {
                        return Some(format!("[{}]{}", i, d));
                    }
                }
                if a.len() != b.len() {
                    return Some(format!(": {} elements where {} are expected", b.len(), a.len()));
                }
                true
            }
            (V::Semi(a), V::Semi(b)) => !self.semi || a == b,
            (V::Num(a), V::Num(b)) => a.to_bits() == b.to_bits(),
            (V::Str(a), V::Str(b)) => {
                a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.is_none() || a == b)
            }
            (a, b) => a == b,
        };
        if same {
            None
        } else {
            Some(format!(": {} where {} is expected", short(got), short(want)))
        }
    }
}

fn short(v: &V) -> String {
    match v {
        V::N(n) => format!("a {} node", n.ty),
        V::L(l) => format!("a list of {}", l.len()),
        V::Str(s) => format!("{:?}", s.iter().map(|c| c.unwrap_or('\u{fffd}')).collect::<String>()),
        V::Semi(Some(p)) => format!("a semicolon at {}", p),
        V::Semi(None) => "an inserted semicolon".to_string(),
        v => format!("{:?}", v),
    }
}

// ---- ESTree ----

fn e(ty: &str, f: Vec<(&str, J)>) -> J {
    let mut o = vec![("type", s(ty))];
    o.extend(f);
    obj(o)
}

fn vs(x: &V) -> J {
    match x {
        V::N(n) => estree(n),
        V::L(l) => J::Arr(l.iter().map(vs).collect()),
        V::Null => J::Null,
        V::S(t) => s(t.clone()),
        V::B(b) => J::Bool(*b),
        V::Num(n) => num(*n),
        V::Str(t) => s(text(t)),
        V::Semi(_) => J::Null,
    }
}

fn num(n: f64) -> J {
    J::Num(n)
}

pub fn text(t: &[Option<char>]) -> String {
    t.iter().map(|c| c.unwrap_or('\u{fffd}')).collect()
}

fn body(n: &Node) -> J {
    let mut items: Vec<J> = n.l("dirs").iter().map(vs).collect();
    items.extend(n.l("items").iter().map(vs));
    J::Arr(items)
}

fn params(n: &Node) -> J {
    let p = n.n("params").unwrap();
    let mut l: Vec<J> = p.l("list").iter().map(vs).collect();
    if let Some(r) = p.n("rest") {
        l.push(estree(r));
    }
    J::Arr(l)
}

fn block(items: J) -> J {
    e("BlockStatement", vec![("body", items)])
}

fn func(ty: &str, id: J, n: &Node) -> J {
    e(
        ty,
        vec![
            ("id", id),
            ("params", params(n)),
            ("body", block(body(n.n("body").unwrap()))),
            ("generator", J::Bool(n.b("gen"))),
            ("expression", J::Bool(false)),
        ],
    )
}

fn bare(ps: J, b: &Node, gen: bool) -> J {
    e(
        "FunctionExpression",
        vec![
            ("id", J::Null),
            ("params", ps),
            ("body", block(body(b))),
            ("generator", J::Bool(gen)),
            ("expression", J::Bool(false)),
        ],
    )
}

fn prop(key: J, value: J, kind: &str, method: bool, short: bool) -> J {
    e(
        "Property",
        vec![
            ("key", key),
            ("computed", J::Bool(false)),
            ("value", value),
            ("kind", s(kind)),
            ("method", J::Bool(method)),
            ("shorthand", J::Bool(short)),
        ],
    )
}

fn decl(kind: &str, ds: &V) -> J {
    e("VariableDeclaration", vec![("kind", s(kind)), ("declarations", vs(ds))])
}

fn decl1(kind: &str, patt: J) -> J {
    let d = e("VariableDeclarator", vec![("id", patt), ("init", J::Null)]);
    e("VariableDeclaration", vec![("kind", s(kind)), ("declarations", J::Arr(vec![d]))])
}

/// The ESTree form of a tree of the reference parser.
pub fn estree(n: &Node) -> J {
    let g = |k: &str| vs(n.get(k));
    let op = || s(n.n("op").unwrap().s("tag"));
    match n.ty {
        "Script" => e("Program", vec![("body", body(n)), ("sourceType", s("script"))]),
        "Dir" => e(
            "ExpressionStatement",
            vec![("expression", e("Literal", vec![("value", g("string"))])), ("directive", g("raw"))],
        ),
        "Empty" => e("EmptyStatement", vec![]),
        "Block" => block(g("items")),
        "Var" => decl("var", n.get("decls")),
        "Let" => decl("let", n.get("decls")),
        "Const" => decl("const", n.get("decls")),
        "Dtor" => e("VariableDeclarator", vec![("id", g("id")), ("init", g("init"))]),
        "ConstDtor" => e("VariableDeclarator", vec![("id", g("patt")), ("init", g("value"))]),
        "ExprStmt" => e("ExpressionStatement", vec![("expression", g("expr"))]),
        "If" => e(
            "IfStatement",
            vec![("test", g("test")), ("consequent", g("cons")), ("alternate", g("alt"))],
        ),
        "Label" => e("LabeledStatement", vec![("label", g("id")), ("body", g("body"))]),
        "Break" => e("BreakStatement", vec![("label", g("id"))]),
        "Cont" => e("ContinueStatement", vec![("label", g("id"))]),
        "With" => e("WithStatement", vec![("object", g("obj")), ("body", g("body"))]),
        "Switch" => e("SwitchStatement", vec![("discriminant", g("disc")), ("cases", g("cases"))]),
        "Case" => e("SwitchCase", vec![("test", g("test")), ("consequent", g("body"))]),
        "Return" => e("ReturnStatement", vec![("argument", g("arg"))]),
        "Throw" => e("ThrowStatement", vec![("argument", g("arg"))]),
        "Try" => e(
            "TryStatement",
            vec![("block", g("block")), ("handler", g("catch")), ("finalizer", g("finally"))],
        ),
        "Catch" => e("CatchClause", vec![("param", g("param")), ("body", g("body"))]),
        "While" => e("WhileStatement", vec![("test", g("test")), ("body", g("body"))]),
        "DoWhile" => e("DoWhileStatement", vec![("body", g("body")), ("test", g("test"))]),
        "For" => e(
            "ForStatement",
            vec![("init", g("init")), ("test", g("test")), ("update", g("update")), ("body", g("body"))],
        ),
        "ForVar" => decl("var", n.get("decls")),
        "ForLet" => decl("let", n.get("decls")),
        "ForConst" => decl("const", n.get("decls")),
        "ForExpr" => g("expr"),
        "ForIn" => e("ForInStatement", vec![("left", g("left")), ("right", g("right")), ("body", g("body"))]),
        "ForOf" => e("ForOfStatement", vec![("left", g("left")), ("right", g("right")), ("body", g("body"))]),
        "HVarInit" => {
            let d = e("VariableDeclarator", vec![("id", g("id")), ("init", g("init"))]);
            e("VariableDeclaration", vec![("kind", s("var")), ("declarations", J::Arr(vec![d]))])
        }
        "HVar" => decl1("var", g("patt")),
        "HLet" => decl1("let", g("patt")),
        "HConst" => decl1("const", g("patt")),
        "Debugger" => e("DebuggerStatement", vec![]),
        "FunDecl" => func("FunctionDeclaration", g("id"), n),
        "FunExpr" => func("FunctionExpression", g("id"), n),
        "Rest" => e("RestElement", vec![("argument", g("patt"))]),
        "This" => e("ThisExpression", vec![]),
        "Id" => e("Identifier", vec![("name", g("name"))]),
        "Arr" => e("ArrayExpression", vec![("elements", g("elts"))]),
        "Spread" => e("SpreadElement", vec![("argument", g("arg"))]),
        "Obj" => e("ObjectExpression", vec![("properties", g("props"))]),
        "Init" => prop(g("key"), g("value"), "init", false, false),
        "Get" => {
            let b = n.n("val").unwrap().n("body").unwrap();
            prop(g("key"), bare(J::Arr(vec![]), b, false), "get", false, false)
        }
        "Set" => {
            let v = n.n("val").unwrap();
            let p = J::Arr(vec![vs(v.get("param"))]);
            prop(g("key"), bare(p, v.n("body").unwrap(), false), "set", false, false)
        }
        "Method" => prop(g("key"), bare(params(n), n.n("body").unwrap(), n.b("gen")), "init", true, false),
        "Short" => prop(g("id"), g("id"), "init", false, true),
        "KeyId" => e("Identifier", vec![("name", g("name"))]),
        "KeyStr" | "KeyNum" => e("Literal", vec![("value", g("value"))]),
        "Seq" => e("SequenceExpression", vec![("expressions", g("list"))]),
        "Unop" => e(
            "UnaryExpression",
            vec![("operator", op()), ("prefix", J::Bool(true)), ("argument", g("arg"))],
        ),
        "Binop" => e(
            "BinaryExpression",
            vec![("left", g("left")), ("operator", op()), ("right", g("right"))],
        ),
        "Logop" => e(
            "LogicalExpression",
            vec![("left", g("left")), ("operator", op()), ("right", g("right"))],
        ),
        "PreInc" | "PreDec" | "PostInc" | "PostDec" => e(
            "UpdateExpression",
            vec![
                ("operator", s(if n.ty.ends_with("Inc") { "++" } else { "--" })),
                ("prefix", J::Bool(n.ty.starts_with("Pre"))),
                ("argument", g("arg")),
            ],
        ),
        "Assign" => e(
            "AssignmentExpression",
            vec![("operator", s("=")), ("left", g("left")), ("right", g("right"))],
        ),
        "BinAssign" => e(
            "AssignmentExpression",
            vec![("operator", op()), ("left", g("left")), ("right", g("right"))],
        ),
        "Cond" => e(
            "ConditionalExpression",
            vec![("test", g("test")), ("consequent", g("cons")), ("alternate", g("alt"))],
        ),
        "Call" => e("CallExpression", vec![("callee", g("callee")), ("arguments", g("args"))]),
        "New" => e("NewExpression", vec![("callee", g("callee")), ("arguments", g("args"))]),
        "Dot" => e(
            "MemberExpression",
            vec![("object", g("obj")), ("property", g("key")), ("computed", J::Bool(false))],
        ),
        "Key" => e("Identifier", vec![("name", g("value"))]),
        "Brack" => e(
            "MemberExpression",
            vec![("object", g("obj")), ("property", g("prop")), ("computed", J::Bool(true))],
        ),
        "NewTarget" => e(
            "MetaProperty",
            vec![
                ("meta", e("Identifier", vec![("name", s("new"))])),
                ("property", e("Identifier", vec![("name", s("target"))])),
            ],
        ),
        "True" => e("Literal", vec![("value", J::Bool(true))]),
        "False" => e("Literal", vec![("value", J::Bool(false))]),
        "NullLit" => e("Literal", vec![("value", J::Null)]),
        "Number" | "String" => e("Literal", vec![("value", g("value"))]),
        "RegExp" => e(
            "Literal",
            vec![
                ("value", obj(vec![])),
                ("regex", obj(vec![("pattern", g("pattern")), ("flags", g("flags"))])),
            ],
        ),
        "ArrPatt" => {
            let mut l: Vec<J> = n.l("elts").iter().map(vs).collect();
            if let Some(r) = n.n("rest") {
                l.push(estree(r));
            }
            e("ArrayPattern", vec![("elements", J::Arr(l))])
        }
        "ObjPatt" => e("ObjectPattern", vec![("properties", g("props"))]),
        "PropPatt" => prop(g("key"), g("patt"), "init", false, false),
        t => panic!("monitor: no ESTree form for {}", t),
    }
}
