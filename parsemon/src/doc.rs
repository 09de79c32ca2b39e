//! C28, C29: reading ESTree documents.
use crate::convert::View;
use crate::gen::{cfg, corpus, flat_of, salad, wide_cases, wide_texts};
use crate::run;
use crate::{bad, chars};
use easter::stmt::Script;
use estree::error::Error;
use estree::{ESTreeScript, IntoScript};
use joker::track::Untrack;
use model::genprog;
use model::harness::{guard, Case, Obs, Prop, Verdict};
use model::json::{read, s, J};
use model::node::{estree, list, node, opt, Diff, Node, V};
use model::parse::parse;
use model::rng::Rng;
use serde_json::value::Value;
use std::collections::BTreeMap;

// ---- the reference decoder ----

#[derive(Debug, PartialEq, Clone)]
enum Bad {
    Missing(String),
    Tag(String),
    /// what is expected, the JSON type found
    Type(String, &'static str),
    /// where what is expected, the type of node found
    Node(&'static str, String),
    /// an operator or kind
    Word(String),
    /// the length a list should have, and has
    Length(usize, usize),
    Target(String),
    NoValue,
    Value,
    Other(String),
}

fn sort_of(j: &J) -> &'static str {
    match j {
        J::Null => "null",
        J::Bool(_) => "boolean",
        J::Int(_) | J::Num(_) => "number",
        J::Str(_) => "string",
        J::Arr(_) => "array",
        J::Obj(_) => "object",
    }
}

/// Does the error tell what is wrong?
fn tells(e: &Error, b: &Bad) -> bool {
    use unjson::error::Error as Json;
    match (b, e) {
        (Bad::Missing(ref n), Error::Json(Json::MissingField(m))) => m == n && e.to_string().contains(&n[..]),
        (Bad::Tag(ref t), Error::InvalidTypeTag(ref u)) => t == u && e.to_string().contains(&t[..]),
        (Bad::Type(_, t), Error::Json(Json::TypeMismatch(_, ref u))) => *t == u.to_string() && e.to_string().contains(t),
        (Bad::Node(_, ref t), Error::NodeTypeMismatch(_, _)) => e.to_string().ends_with(&format!(" got {}", t)),
        (Bad::Word(ref t), Error::Json(Json::IllegalString(_, ref u))) => t == u,
        (Bad::Length(w, n), Error::Json(Json::WrongArrayLength(v, m))) => n == m && w == v,
        (Bad::Target(_), Error::InvalidLHS(_)) => true,
        (Bad::NoValue, Error::UninitializedPattern(_)) => {
            let t = e.to_string();
            !t.contains("array") && !t.contains("object")
        }
        (Bad::Value, Error::UnexpectedInitializer(_)) => true,
        (Bad::Other(_), Error::InvalidTypeTag(_)) | (Bad::Other(_), Error::Json(Json::MissingField(_))) => false,
        (Bad::Other(_), _) => true,
        _ => false,
    }
}

fn named(b: &Bad) -> &'static str {
    match b {
        Bad::Missing(_) => "missing fields reported",
        Bad::Tag(_) => "unknown types reported",
        Bad::Type(_, _) => "wrong JSON types reported",
        Bad::Node(_, _) => "misplaced nodes reported",
        Bad::Word(_) => "unknown operators and kinds reported",
        Bad::Length(_, _) => "wrong lengths reported",
        Bad::Target(_) => "wrong targets reported",
        Bad::NoValue => "missing values of constants reported",
        Bad::Value => "values of loop variables reported",
        Bad::Other(_) => "other faults reported",
    }
}

#[derive(Default)]
struct Dec {
    bad: Vec<Bad>,
    /// a document whose reading nothing specifies
    open: Option<&'static str>,
}

const TAGS: [&str; 46] = [
    "Identifier", "Literal", "BinaryExpression", "AssignmentExpression", "LogicalExpression", "UnaryExpression",
    "UpdateExpression", "MemberExpression", "CallExpression", "NewExpression", "ArrayExpression", "FunctionExpression",
    "SequenceExpression", "ObjectExpression", "ConditionalExpression", "ThisExpression", "MetaProperty", "SpreadElement",
    "RestElement", "FunctionDeclaration", "VariableDeclaration", "EmptyStatement", "ExpressionStatement", "IfStatement",
    "DoWhileStatement", "WhileStatement", "ForStatement", "ForInStatement", "ForOfStatement", "BlockStatement",
    "ReturnStatement", "LabeledStatement", "BreakStatement", "ContinueStatement", "SwitchStatement", "WithStatement",
    "ThrowStatement", "DebuggerStatement", "TryStatement",
    "Program", "Property", "VariableDeclarator", "SwitchCase", "CatchClause", "ArrayPattern", "ObjectPattern",
];
const BINOPS: [&str; 21] = [
    "==", "!=", "===", "!==", "<", "<=", ">", ">=", "<<", ">>", ">>>", "+", "-", "*", "/", "%", "|", "^", "&", "in",
    "instanceof",
];
const UNOPS: [&str; 7] = ["-", "+", "!", "~", "typeof", "void", "delete"];
const ASSOPS: [&str; 11] = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "|=", "^=", "&="];
const LOGOPS: [&str; 2] = ["||", "&&"];

/// Stands for a node that could not be read.
fn hole() -> Node {
    node("Hole", vec![])
}

fn strv(t: &str) -> V {
    V::Str(t.chars().map(Some).collect())
}

fn semi() -> (&'static str, V) {
    ("semi", V::Semi(Some(usize::MAX)))
}

fn op(t: &str) -> V {
    node("Op", vec![("tag", V::S(t.to_string()))]).into()
}

impl Dec {
    fn other(&mut self, t: String) {
        self.bad.push(Bad::Other(t));
    }
    fn mismatch(&mut self, want: &str, j: &J) {
        self.bad.push(Bad::Type(want.to_string(), sort_of(j)));
    }
    fn misplaced(&mut self, want: &'static str, t: &str) {
        self.bad.push(Bad::Node(want, t.to_string()));
    }
    fn field<'a>(&mut self, j: &'a J, k: &str) -> Option<&'a J> {
        let x = j.get(k);
        if x.is_none() {
            self.bad.push(Bad::Missing(k.to_string()));
        }
        x
    }
    fn str<'a>(&mut self, j: &'a J, k: &str) -> Option<&'a str> {
        match self.field(j, k)? {
            J::Str(t) => Some(t),
            x => {
                self.mismatch(&format!("{} is not a string", k), x);
                None
            }
        }
    }
    fn flag(&mut self, j: &J, k: &str) -> Option<bool> {
        match self.field(j, k)? {
            J::Bool(b) => Some(*b),
            x => {
                self.mismatch(&format!("{} is not a boolean", k), x);
                None
            }
        }
    }
    fn object<'a>(&mut self, j: &'a J, k: &str) -> Option<&'a J> {
        match self.field(j, k)? {
            o @ J::Obj(_) => Some(o),
            x => {
                self.mismatch(&format!("{} is not an object", k), x);
                None
            }
        }
    }
    fn object_opt<'a>(&mut self, j: &'a J, k: &str) -> Option<&'a J> {
        match self.field(j, k)? {
            o @ J::Obj(_) => Some(o),
            J::Null => None,
            x => {
                self.mismatch(&format!("{} is neither an object nor null", k), x);
                None
            }
        }
    }
    fn array<'a>(&mut self, j: &'a J, k: &str) -> &'a [J] {
        match self.field(j, k) {
            Some(J::Arr(l)) => l,
            None => &[],
            Some(x) => {
                self.mismatch(&format!("{} is not an array", k), x);
                &[]
            }
        }
    }
    fn objects<'a>(&mut self, j: &'a J, k: &str) -> Vec<&'a J> {
        let mut out = vec![];
        for x in self.array(j, k) {
            match x {
                J::Obj(_) => out.push(x),
                _ => self.mismatch(&format!("an element of {} is not an object", k), x),
            }
        }
        out
    }
    fn tag<'a>(&mut self, j: &'a J) -> Option<&'a str> {
        let t = self.str(j, "type")?;
        if !TAGS.contains(&t) {
            self.bad.push(Bad::Tag(t.to_string()));
            return None;
        }
        Some(t)
    }
    /// A place where only nodes of one type may stand.
    fn only(&mut self, j: &J, want: &'static str) {
        match self.tag(j) {
            Some(t) if t != want => {
                let t = t.to_string();
                self.misplaced(want, &t)
            }
            _ => {}
        }
    }
    fn exprs(&mut self, j: &J, k: &str) -> V {
        let l = self.objects(j, k);
        list(l.iter().map(|x| self.expr(x)).collect())
    }
    fn expr_at(&mut self, j: &J, k: &str) -> Node {
        match self.object(j, k) {
            Some(x) => self.expr(x),
            None => hole(),
        }
    }
    fn expr_opt(&mut self, j: &J, k: &str) -> V {
        let x = self.object_opt(j, k);
        opt(x.map(|x| self.expr(x)))
    }
    fn id(&mut self, j: &J) -> Node {
        let mut name = "";
        if let Some(t) = self.tag(j) {
            if t == "Identifier" {
                name = self.str(j, "name").unwrap_or("");
            } else {
                self.misplaced("identifier", t);
            }
        }
        node("Id", vec![("name", V::S(name.to_string()))])
    }
    fn id_at(&mut self, j: &J, k: &str) -> Node {
        match self.object(j, k) {
            Some(x) => self.id(x),
            None => hole(),
        }
    }
    fn id_opt(&mut self, j: &J, k: &str) -> V {
        let x = self.object_opt(j, k);
        opt(x.map(|x| self.id(x)))
    }
    fn script(&mut self, j: &J, k: &str) -> Node {
        let items: Vec<Node> = self.objects(j, k).iter().map(|x| self.item(x, true)).collect();
        let n = items.iter().take_while(|i| i.ty == "ExprStmt" && i.n("expr").unwrap().ty == "String").count();
        let dirs = items[..n]
            .iter()
            .map(|i| {
                let v = i.n("expr").unwrap().get("value").clone();
                let raw = match v {
                    V::Str(ref t) => model::node::text(t),
                    _ => String::new(),
                };
                node("Dir", vec![("string", v), ("raw", V::S(raw)), semi()])
            })
            .collect();
        node("Script", vec![("dirs", list(dirs)), ("items", list(items[n..].to_vec()))])
    }
    fn items(&mut self, j: &J, k: &str) -> V {
        let l = self.objects(j, k);
        list(l.iter().map(|x| self.item(x, true)).collect())
    }
    fn block(&mut self, j: &J) -> Node {
        let items = match self.tag(j) {
            Some("BlockStatement") => self.items(j, "body"),
            Some(t) => {
                self.misplaced("block", t);
                V::Null
            }
            None => V::Null,
        };
        node("Block", vec![("items", items)])
    }
    fn block_at(&mut self, j: &J, k: &str) -> Node {
        match self.object(j, k) {
            Some(x) => self.block(x),
            None => hole(),
        }
    }
    fn stmt_at(&mut self, j: &J, k: &str) -> Node {
        match self.object(j, k) {
            Some(x) => self.item(x, false),
            None => hole(),
        }
    }
    /// id, params, body, gen
    fn fun(&mut self, ty: &'static str, name: &'static str, id: V, j: &J) -> Node {
        let gen = match j.get("generator") {
            Some(&J::Bool(b)) => b,
            None | Some(J::Null) => {
                self.open = Some("a function that does not say whether it is a generator");
                false
            }
            Some(x) => {
                self.mismatch("generator is not a boolean", x);
                false
            }
        };
        let mut l = self.objects(j, "params");
        let mut rest = None;
        if l.last().map_or(false, |x| x.get("type") == Some(&s("RestElement"))) {
            let r = l.pop().unwrap();
            let p = self.id_at(r, "argument");
            rest = Some(node("Rest", vec![("patt", p.into())]));
        }
        let l = l.iter().map(|x| self.id(x)).collect();
        let params = node("Params", vec![("list", list(l)), ("rest", opt(rest))]);
        let body = match self.object(j, "body") {
            Some(b) => {
                self.only(b, "BlockStatement");
                self.script(b, "body")
            }
            None => hole(),
        };
        node(ty, vec![(name, id), ("params", params.into()), ("body", body.into()), ("gen", V::B(gen))])
    }
    fn dtors(&mut self, j: &J, constant: bool) -> V {
        let l = self.objects(j, "declarations");
        if l.is_empty() {
            self.open = Some("an empty list of declarations");
        }
        let mut out = vec![];
        for d in l {
            self.only(d, "VariableDeclarator");
            let id = self.id_at(d, "id");
            let init = self.expr_opt(d, "init");
            if constant && d.get("init") == Some(&J::Null) {
                self.bad.push(Bad::NoValue);
            }
            out.push(if constant {
                node("ConstDtor", vec![("patt", id.into()), ("value", init)])
            } else {
                node("Dtor", vec![("id", id.into()), ("init", init)])
            });
        }
        list(out)
    }
    fn kind<'a>(&mut self, j: &'a J) -> &'a str {
        match self.str(j, "kind") {
            Some(k @ "var") | Some(k @ "let") | Some(k @ "const") => k,
            Some(k) => {
                self.bad.push(Bad::Word(k.to_string()));
                "var"
            }
            None => "var",
        }
    }
    fn each_head(&mut self, j: &J, of: bool) -> Node {
        let h = match self.object(j, "left") {
            Some(h) => h,
            None => return hole(),
        };
        match self.tag(h) {
            Some("VariableDeclaration") => {
                let kind = self.kind(h);
                let l = self.array(h, "declarations");
                if l.len() != 1 {
                    if let Some(J::Arr(_)) = h.get("declarations") {
                        self.bad.push(Bad::Length(1, l.len()));
                    }
                    return hole();
                }
                let d = &l[0];
                if let J::Obj(_) = d {
                } else {
                    self.mismatch("a declaration is not an object", d);
                    return hole();
                }
                self.only(d, "VariableDeclarator");
                let id = self.id_at(d, "id");
                {
                    let init = self.expr_opt(d, "init");
                    if init != V::Null {
                        if self.bad.iter().any(|b| matches!(b, Bad::Word(_))) {
                            // either of the two may be blamed
                            self.other("a declaration of unknown kind with a value".to_string());
                        }
                        if kind != "var" || of {
                            self.bad.push(Bad::Value);
                        }
                        return node("HVarInit", vec![("id", id.into()), ("init", init)]);
                    }
                }
                let ty = match kind {
                    "var" => "HVar",
                    "let" => "HLet",
                    _ => "HConst",
                };
                node(ty, vec![("patt", id.into())])
            }
            Some(_) => self.assign_patt(h),
            None => hole(),
        }
    }
    /// `allow`: declarations may stand here
    fn item(&mut self, j: &J, allow: bool) -> Node {
        let t = match self.tag(j) {
            Some(t) => t,
            None => return hole(),
        };
        match t {
            "FunctionDeclaration" => {
                if !allow {
                    self.misplaced("statement", t);
                    return hole();
                }
                let id = self.id_at(j, "id");
                self.fun("FunDecl", "id", id.into(), j)
            }
            "VariableDeclaration" => {
                let kind = self.kind(j);
                let ds = self.dtors(j, kind == "const");
                if kind != "var" && !allow {
                    self.other("a declaration where a statement is expected".to_string());
                }
                let ty = match kind {
                    "var" => "Var",
                    "let" => "Let",
                    _ => "Const",
                };
                node(ty, vec![("decls", ds), semi()])
            }
            "EmptyStatement" => node("Empty", vec![]),
            "ExpressionStatement" => node("ExprStmt", vec![("expr", self.expr_at(j, "expression").into()), semi()]),
            "IfStatement" => {
                let t = self.expr_at(j, "test");
                let c = self.stmt_at(j, "consequent");
                let a = self.object_opt(j, "alternate");
                let a = opt(a.map(|a| self.item(a, false)));
                node("If", vec![("test", t.into()), ("cons", c.into()), ("alt", a)])
            }
            "DoWhileStatement" => {
                let b = self.stmt_at(j, "body");
                let t = self.expr_at(j, "test");
                node("DoWhile", vec![("body", b.into()), ("test", t.into()), semi()])
            }
            "WhileStatement" => {
                let t = self.expr_at(j, "test");
                let b = self.stmt_at(j, "body");
                node("While", vec![("test", t.into()), ("body", b.into())])
            }
            "ForStatement" => {
                let i = self.object_opt(j, "init");
                let i = opt(i.map(|h| match self.tag(h) {
                    Some("VariableDeclaration") => {
                        let kind = self.kind(h);
                        let ds = self.dtors(h, kind == "const");
                        let ty = match kind {
                            "var" => "ForVar",
                            "let" => "ForLet",
                            _ => "ForConst",
                        };
                        node(ty, vec![("decls", ds)])
                    }
                    Some(_) => node("ForExpr", vec![("expr", self.expr(h).into())]),
                    None => hole(),
                }));
                let t = self.expr_opt(j, "test");
                let u = self.expr_opt(j, "update");
                let b = self.stmt_at(j, "body");
                node("For", vec![("init", i), ("test", t), ("update", u), ("body", b.into())])
            }
            "ForInStatement" | "ForOfStatement" => {
                let of = t == "ForOfStatement";
                let l = self.each_head(j, of);
                let r = self.expr_at(j, "right");
                let b = self.stmt_at(j, "body");
                let ty = if of { "ForOf" } else { "ForIn" };
                node(ty, vec![("left", l.into()), ("right", r.into()), ("body", b.into())])
            }
            "BlockStatement" => node("Block", vec![("items", self.items(j, "body"))]),
            "ReturnStatement" => node("Return", vec![("arg", self.expr_opt(j, "argument")), semi()]),
            "LabeledStatement" => {
                let i = self.id_at(j, "label");
                let b = self.stmt_at(j, "body");
                node("Label", vec![("id", i.into()), ("body", b.into())])
            }
            "BreakStatement" => node("Break", vec![("id", self.id_opt(j, "label")), semi()]),
            "ContinueStatement" => node("Cont", vec![("id", self.id_opt(j, "label")), semi()]),
            "SwitchStatement" => {
                let d = self.expr_at(j, "discriminant");
                let cs: Vec<Node> = self
                    .objects(j, "cases")
                    .iter()
                    .map(|c| {
                        self.only(c, "SwitchCase");
                        let t = self.expr_opt(c, "test");
                        let b = self.items(c, "consequent");
                        node("Case", vec![("test", t), ("body", b)])
                    })
                    .collect();
                if cs.iter().filter(|c| *c.get("test") == V::Null).count() > 1 {
                    self.open = Some("more than one default case");
                }
                node("Switch", vec![("disc", d.into()), ("cases", list(cs))])
            }
            "WithStatement" => {
                let o = self.expr_at(j, "object");
                let b = self.stmt_at(j, "body");
                node("With", vec![("obj", o.into()), ("body", b.into())])
            }
            "ThrowStatement" => node("Throw", vec![("arg", self.expr_at(j, "argument").into()), semi()]),
            "DebuggerStatement" => node("Debugger", vec![semi()]),
            "TryStatement" => {
                let b = self.block_at(j, "block");
                let c = self.object_opt(j, "handler");
                let c = opt(c.map(|c| {
                    self.only(c, "CatchClause");
                    let p = self.id_at(c, "param");
                    let b = self.block_at(c, "body");
                    node("Catch", vec![("param", p.into()), ("body", b.into())])
                }));
                let f = self.object_opt(j, "finalizer");
                let f = opt(f.map(|f| self.block(f)));
                if c == V::Null && f == V::Null {
                    self.open = Some("a try statement with neither handler nor finalizer");
                }
                node("Try", vec![("block", b.into()), ("catch", c), ("finally", f)])
            }
            t => {
                self.misplaced("statement", t);
                hole()
            }
        }
    }
    fn op_in<'a>(&mut self, j: &'a J, ops: &[&str]) -> &'a str {
        let t = self.str(j, "operator").unwrap_or("");
        if !ops.contains(&t) && matches!(j.get("operator"), Some(J::Str(_))) {
            self.bad.push(Bad::Word(t.to_string()));
        }
        t
    }
    fn list_item(&mut self, j: &J) -> Node {
        if j.get("type") == Some(&s("SpreadElement")) {
            return node("Spread", vec![("arg", self.expr_at(j, "argument").into())]);
        }
        self.expr(j)
    }
    fn args(&mut self, j: &J) -> V {
        let l = self.objects(j, "arguments");
        list(l.iter().map(|x| self.list_item(x)).collect())
    }
    fn literal(&mut self, j: &J) -> Node {
        match self.field(j, "value") {
            None => hole(),
            Some(J::Null) if j.get("regex").is_none() => node("NullLit", vec![]),
            Some(J::Bool(true)) => node("True", vec![]),
            Some(J::Bool(false)) => node("False", vec![]),
            Some(J::Str(t)) => node("String", vec![("value", strv(t))]),
            Some(&J::Int(i)) => node("Number", vec![("value", V::Num(i as f64))]),
            Some(&J::Num(n)) => node("Number", vec![("value", V::Num(n))]),
            Some(J::Null) | Some(J::Obj(_)) => {
                let r = match self.object(j, "regex") {
                    Some(r) => r,
                    None => return hole(),
                };
                let p = self.str(r, "pattern").unwrap_or("").to_string();
                let mut f: Vec<char> = self.str(r, "flags").unwrap_or("").chars().collect();
                if f.iter().any(|c| !"gimuy".contains(*c)) || (1..f.len()).any(|i| f[i..].contains(&f[i - 1])) {
                    self.open = Some("odd regular expression flags");
                }
                f.sort();
                node("RegExp", vec![("pattern", V::S(p)), ("flags", V::S(f.into_iter().collect()))])
            }
            Some(J::Arr(_)) => {
                self.mismatch("a literal", &J::Arr(vec![]));
                hole()
            }
        }
    }
    fn key(&mut self, j: &J) -> Node {
        let t = match self.tag(j) {
            Some(t) => t,
            None => return hole(),
        };
        if t == "Identifier" {
            return node("KeyId", vec![("name", self.id(j).get("name").clone())]);
        }
        if t != "Literal" {
            self.misplaced("key", &t.to_string());
            return hole();
        }
        let n = self.bad.len();
        let l = self.literal(j);
        if self.bad.len() > n {
            return hole();
        }
        match l.ty {
            "String" => node("KeyStr", vec![("value", l.get("value").clone())]),
            "Number" => node("KeyNum", vec![("value", l.get("value").clone())]),
            t => {
                self.other(format!("{} as a key", t));
                hole()
            }
        }
    }
    fn prop(&mut self, j: &J) -> Node {
        if !self.fixed_key(j) {
            return hole();
        }
        let k = self.object(j, "key");
        let v = self.object(j, "value");
        let kind = self.str(j, "kind");
        let (k, v, kind) = match (k, v, kind) {
            (Some(k), Some(v), Some(kind)) => (k, v, kind),
            _ => return hole(),
        };
        let other = |j: &J, f: &str| match j.get(f) {
            None | Some(J::Bool(false)) => false,
            _ => true,
        };
        match kind {
            "init" => {
                let method = match self.flag(j, "method") {
                    Some(m) => m,
                    None => return hole(),
                };
                if method {
                    if other(j, "shorthand") {
                        self.open = Some("a method with a shorthand flag");
                    }
                    self.only(v, "FunctionExpression");
                    let k = self.key(k);
                    return self.fun("Method", "key", k.into(), v);
                }
                match self.flag(j, "shorthand") {
                    None => hole(),
                    Some(true) => self.shorthand(k, v),
                    Some(false) => {
                        let k = self.key(k);
                        let v = self.expr(v);
                        node("Init", vec![("key", k.into()), ("value", v.into())])
                    }
                }
            }
            "get" | "set" => {
                if other(j, "method") || other(j, "shorthand") {
                    self.open = Some("an accessor with a method or shorthand flag");
                }
                self.only(v, "FunctionExpression");
                let k = self.key(k);
                if kind == "get" {
                    if v.get("generator") != Some(&J::Bool(false)) {
                        self.open = Some("a getter that is a generator");
                    }
                    let n = self.array(v, "params").len();
                    if n != 0 {
                        self.bad.push(Bad::Length(0, n));
                    }
                    let b = match self.object(v, "body") {
                        Some(b) => {
                            self.only(b, "BlockStatement");
                            self.script(b, "body")
                        }
                        None => hole(),
                    };
                    let g = node("GetVal", vec![("body", b.into())]);
                    node("Get", vec![("key", k.into()), ("val", g.into())])
                } else {
                    let n = self.bad.len();
                    let f = self.fun("Set", "id", V::Null, v);
                    if self.bad.len() > n {
                        return hole();
                    }
                    let p = f.n("params").unwrap();
                    if f.b("gen") {
                        self.open = Some("a setter that is a generator");
                    }
                    match (p.n("rest").is_some(), p.l("list").len()) {
                        (false, 1) => {}
                        (false, n) => {
                            self.bad.push(Bad::Length(1, n));
                            return hole();
                        }
                        (true, 1) => {
                            self.misplaced("identifier", "RestElement");
                            return hole();
                        }
                        (true, _) => {
                            self.other("a setter with a rest parameter".to_string());
                            return hole();
                        }
                    }
                    let g = node("SetVal", vec![("param", p.l("list")[0].clone()), ("body", f.get("body").clone())]);
                    node("Set", vec![("key", k.into()), ("val", g.into())])
                }
            }
            k => {
                self.other(format!("a property of kind {:?}", k));
                hole()
            }
        }
    }
    fn expr(&mut self, j: &J) -> Node {
        let t = match self.tag(j) {
            Some(t) => t,
            None => return hole(),
        };
        match t {
            "Identifier" => self.id(j),
            "Literal" => self.literal(j),
            "BinaryExpression" | "LogicalExpression" => {
                let (ty, ops) = if t == "BinaryExpression" { ("Binop", &BINOPS[..]) } else { ("Logop", &LOGOPS[..]) };
                let o = self.op_in(j, ops);
                let a = self.expr_at(j, "left");
                let b = self.expr_at(j, "right");
                node(ty, vec![("op", op(o)), ("left", a.into()), ("right", b.into())])
            }
            "AssignmentExpression" => {
                let r = self.expr_at(j, "right");
                if j.get("operator") == Some(&s("=")) {
                    let l = match self.object(j, "left") {
                        Some(l) => self.assign_patt(l),
                        None => hole(),
                    };
                    return node("Assign", vec![("left", l.into()), ("right", r.into())]);
                }
                let o = self.op_in(j, &ASSOPS);
                let l = self.expr_at(j, "left");
                self.target(&l);
                node("BinAssign", vec![("op", op(o)), ("left", l.into()), ("right", r.into())])
            }
            "UnaryExpression" => {
                let o = self.op_in(j, &UNOPS);
                if j.get("prefix") != Some(&J::Bool(true)) {
                    self.open = Some("a unary operator that is not a prefix");
                }
                let a = self.expr_at(j, "argument");
                node("Unop", vec![("op", op(o)), ("arg", a.into())])
            }
            "UpdateExpression" => {
                let o = self.op_in(j, &["++", "--"]);
                let a = self.expr_at(j, "argument");
                self.target(&a);
                let ty = match (o, self.flag(j, "prefix")) {
                    ("++", Some(true)) => "PreInc",
                    ("++", _) => "PostInc",
                    (_, Some(true)) => "PreDec",
                    _ => "PostDec",
                };
                node(ty, vec![("arg", a.into())])
            }
            "MemberExpression" => {
                let o = self.expr_at(j, "object");
                match self.flag(j, "computed") {
                    None => hole(),
                    Some(true) => {
                        let p = self.expr_at(j, "property");
                        node("Brack", vec![("obj", o.into()), ("prop", p.into())])
                    }
                    Some(false) => {
                        let k = self.id_at(j, "property");
                        let k = node("Key", vec![("value", k.get("name").clone())]);
                        node("Dot", vec![("obj", o.into()), ("key", k.into())])
                    }
                }
            }
            "CallExpression" | "NewExpression" => {
                let f = self.expr_at(j, "callee");
                let a = self.args(j);
                node(if t == "NewExpression" { "New" } else { "Call" }, vec![("callee", f.into()), ("args", a)])
            }
            "ArrayExpression" => {
                let mut out = vec![];
                for x in self.array(j, "elements") {
                    out.push(match x {
                        J::Null => V::Null,
                        J::Obj(_) => self.list_item(x).into(),
                        x => {
                            self.mismatch("an element is neither an object nor null", x);
                            V::Null
                        }
                    });
                }
                node("Arr", vec![("elts", V::L(out))])
            }
            "FunctionExpression" => {
                let id = self.id_opt(j, "id");
                self.fun("FunExpr", "id", id, j)
            }
            "SequenceExpression" => {
                let l = self.exprs(j, "expressions");
                if let V::L(ref l) = l {
                    if l.len() < 2 {
                        self.open = Some("a sequence of fewer than two expressions");
                    }
                }
                node("Seq", vec![("list", l)])
            }
            "ObjectExpression" => {
                let l = self.objects(j, "properties");
                node("Obj", vec![("props", list(l.iter().map(|x| self.prop(x)).collect()))])
            }
            "ConditionalExpression" => {
                let t = self.expr_at(j, "test");
                let c = self.expr_at(j, "consequent");
                let a = self.expr_at(j, "alternate");
                node("Cond", vec![("test", t.into()), ("cons", c.into()), ("alt", a.into())])
            }
            "ThisExpression" => node("This", vec![]),
            "MetaProperty" => {
                let n = self.bad.len();
                let m = self.id_at(j, "meta");
                let p = self.id_at(j, "property");
                if self.bad.len() == n && (m.s("name") != "new" || p.s("name") != "target") {
                    self.bad.push(Bad::Word(format!("{}.{}", m.s("name"), p.s("name"))));
                }
                node("NewTarget", vec![])
            }
            t => {
                self.misplaced("expression", t);
                hole()
            }
        }
    }
    fn target(&mut self, n: &Node) {
        if !["Id", "Dot", "Brack", "Hole"].contains(&n.ty) {
            self.bad.push(Bad::Target(n.ty.to_string()));
        }
    }
    /// An assignment pattern, written as one or as an expression.
    fn assign_patt(&mut self, j: &J) -> Node {
        match j.get("type") {
            Some(J::Str(t)) if t == "ArrayPattern" => {
                let l = self.array(j, "elements");
                let mut elts = vec![];
                let mut rest = None;
                for (i, x) in l.iter().enumerate() {
                    elts.push(match x {
                        J::Null => V::Null,
                        J::Obj(_) if i + 1 == l.len() && x.get("type") == Some(&s("RestElement")) => {
                            let p = match self.object(x, "argument") {
                                Some(p) => self.assign_patt(p),
                                None => hole(),
                            };
                            rest = Some(node("Rest", vec![("patt", p.into())]));
                            continue;
                        }
                        J::Obj(_) => self.assign_patt(x).into(),
                        x => {
                            self.mismatch("an element is neither an object nor null", x);
                            V::Null
                        }
                    });
                }
                node("ArrPatt", vec![("elts", V::L(elts)), ("rest", opt(rest))])
            }
            Some(J::Str(t)) if t == "ObjectPattern" => {
                let l = self.objects(j, "properties");
                node("ObjPatt", vec![("props", list(l.iter().map(|x| self.assign_prop(x)).collect()))])
            }
            _ => {
                let e = self.expr(j);
                self.patt(e)
            }
        }
    }
    /// Whether the key of a property stands there as it is.
    fn fixed_key(&mut self, j: &J) -> bool {
        self.only(j, "Property");
        match j.get("computed") {
            None | Some(J::Bool(false)) => true,
            Some(J::Null) => {
                self.open = Some("a property that does not say whether its key is computed");
                true
            }
            Some(J::Bool(true)) => {
                self.bad.push(Bad::Word("computed".to_string()));
                false
            }
            Some(x) => {
                self.mismatch("computed is not a boolean", x);
                false
            }
        }
    }
    /// The value of a shorthand property is its key again.
    fn shorthand(&mut self, k: &J, v: &J) -> Node {
        let n = self.bad.len();
        let k = self.id(k);
        let v = self.id(v);
        if self.bad.len() == n && k != v {
            self.bad.push(Bad::Word(v.s("name").to_string()));
        }
        node("Short", vec![("id", k.into())])
    }
    fn assign_prop(&mut self, j: &J) -> Node {
        if !self.fixed_key(j) {
            return hole();
        }
        let k = self.object(j, "key");
        let v = self.object(j, "value");
        let kind = self.str(j, "kind");
        let (k, v, kind) = match (k, v, kind) {
            (Some(k), Some(v), Some(kind)) => (k, v, kind),
            _ => return hole(),
        };
        match kind {
            "init" => {}
            "get" | "set" => {
                self.bad.push(Bad::Target("an accessor".to_string()));
                return hole();
            }
            k => {
                self.other(format!("a property of kind {:?}", k));
                return hole();
            }
        }
        match self.flag(j, "method") {
            None => return hole(),
            Some(true) => {
                self.bad.push(Bad::Target("a method".to_string()));
                return hole();
            }
            Some(false) => {}
        }
        match self.flag(j, "shorthand") {
            None => hole(),
            Some(true) => self.shorthand(k, v),
            Some(false) => {
                let k = self.key(k);
                let v = self.assign_patt(v);
                node("PropPatt", vec![("key", k.into()), ("patt", v.into())])
            }
        }
    }
    /// The cover grammar: an expression as an assignment pattern.
    fn patt(&mut self, n: Node) -> Node {
        match n.ty {
            "Arr" => {
                let mut elts = n.l("elts").to_vec();
                let mut rest = None;
                if let Some(V::N(x)) = elts.last().cloned() {
                    if x.ty == "Spread" {
                        elts.pop();
                        let p = self.patt(x.n("arg").unwrap().clone());
                        rest = Some(node("Rest", vec![("patt", p.into())]));
                    }
                }
                let elts = elts
                    .into_iter()
                    .map(|x| match x {
                        V::N(x) => self.patt(*x).into(),
                        x => x,
                    })
                    .collect();
                node("ArrPatt", vec![("elts", V::L(elts)), ("rest", opt(rest))])
            }
            "Obj" => {
                let ps = n
                    .l("props")
                    .iter()
                    .map(|p| match p {
                        V::N(p) if p.ty == "Init" => {
                            let v = self.patt(p.n("value").unwrap().clone());
                            node("PropPatt", vec![("key", p.get("key").clone()), ("patt", v.into())])
                        }
                        V::N(p) if p.ty == "Short" => (**p).clone(),
                        V::N(p) if p.ty == "Hole" => hole(),
                        _ => {
                            self.bad.push(Bad::Target("a method or accessor".to_string()));
                            hole()
                        }
                    })
                    .collect();
                node("ObjPatt", vec![("props", list(ps))])
            }
            _ => {
                self.target(&n);
                n
            }
        }
    }
}

// ---- documents ----

/// `ints`: u, i or f, how whole numbers are represented where there is a choice
fn value(j: &J, ints: &str) -> Value {
    match j {
        J::Null => Value::Null,
        J::Bool(b) => Value::Bool(*b),
        J::Int(i) => match ints {
            "f" if *i as f64 as i128 == *i as i128 => Value::F64(*i as f64),
            "i" => Value::I64(*i),
            _ if *i >= 0 => Value::U64(*i as u64),
            _ => Value::I64(*i),
        },
        J::Num(n) => {
            if ints == "u" && *n >= 9.3e18 && *n < 1.8e19 {
                Value::U64(*n as u64)
            } else {
                Value::F64(*n)
            }
        }
        J::Str(t) => Value::String(t.clone()),
        J::Arr(l) => Value::Array(l.iter().map(|x| value(x, ints)).collect()),
        J::Obj(_) => Value::Object(object(j, ints)),
    }
}

fn object(j: &J, ints: &str) -> BTreeMap<String, Value> {
    match j {
        J::Obj(l) => l.iter().map(|(k, v)| (k.clone(), value(v, ints))).collect(),
        _ => BTreeMap::new(),
    }
}

/// Assignment patterns written as expressions, which the reader takes as well.
fn cover(n: &mut Node) {
    n.walk_mut(&mut |n| match n.ty {
        "ArrPatt" => {
            let mut l = n.l("elts").to_vec();
            if let Some(r) = n.n("rest") {
                l.push(node("Spread", vec![("arg", r.get("patt").clone())]).into());
            }
            n.ty = "Arr";
            n.f = vec![("elts", V::L(l))];
        }
        "ObjPatt" => n.ty = "Obj",
        "PropPatt" => {
            n.ty = "Init";
            n.f = vec![("key", n.get("key").clone()), ("value", n.get("patt").clone())];
        }
        _ => {}
    });
}

fn finite(n: &Node) -> bool {
    fn v(x: &V) -> bool {
        match x {
            V::N(n) => finite(n),
            V::L(l) => l.iter().all(v),
            V::Num(n) => n.is_finite(),
            V::Str(t) => t.iter().all(|c| c.is_some()),
            _ => true,
        }
    }
    n.f.iter().all(|f| v(&f.1))
}

fn show(r: &Result<Script, Error>) -> String {
    match r {
        Ok(_) => "accepted".to_string(),
        Err(e) => format!("rejected: {}", e),
    }
}

// ---- C28 ----

fn whole(j: &mut J) {
    match j {
        J::Num(n) if n.fract() == 0.0 && n.abs() < 9e15 && !(*n == 0.0 && n.is_sign_negative()) => *j = J::Int(*n as i64),
        J::Arr(l) => l.iter_mut().for_each(whole),
        J::Obj(l) => l.iter_mut().for_each(|x| whole(&mut x.1)),
        _ => {}
    }
}

/// `covered`: assignment patterns as expressions
fn document_of(t: &str, covered: bool) -> Option<J> {
    match parse(&chars(t)) {
        Ok(ref p) if p.early.is_empty() && finite(&p.tree) => {
            let mut n = p.tree.clone();
            if covered {
                cover(&mut n);
            }
            let mut j = estree(&n);
            whole(&mut j);
            Some(j)
        }
        _ => None,
    }
}

/// A document of a valid program.
fn document(r: &mut Rng, deep: bool) -> J {
    for _ in 0..40 {
        let mut c = cfg(r, deep);
        if r.chance(2, 3) {
            c.size = 1 + r.below(3);
            c.depth = 1 + r.below(4);
        }
        let t = genprog::program(r, &c);
        if let Some(j) = document_of(&t, r.chance(1, 4)) {
            return j;
        }
    }
    J::Obj(vec![("type".to_string(), s("Program")), ("body".to_string(), J::Arr(vec![]))])
}

fn places(j: &J) -> usize {
    1 + match j {
        J::Arr(l) => l.iter().map(places).sum(),
        J::Obj(l) => l.iter().map(|x| places(&x.1)).sum(),
        _ => 0,
    }
}

fn place<'a>(j: &'a mut J, n: &mut usize) -> Option<&'a mut J> {
    if *n == 0 {
        return Some(j);
    }
    *n -= 1;
    match j {
        J::Arr(l) => {
            for x in l {
                if let Some(p) = place(x, n) {
                    return Some(p);
                }
            }
        }
        J::Obj(l) => {
            for x in l {
                if let Some(p) = place(&mut x.1, n) {
                    return Some(p);
                }
            }
        }
        _ => {}
    }
    None
}

/// The field through which the nth place is reached.
fn above(j: &J, n: usize) -> String {
    fn go(j: &J, n: &mut usize, at: &str) -> Option<String> {
        if *n == 0 {
            return Some(at.to_string());
        }
        *n -= 1;
        match j {
            J::Arr(l) => l.iter().filter_map(|x| go(x, n, at)).next(),
            J::Obj(l) => {
                let t = match j.get("type") {
                    Some(J::Str(t)) => t,
                    _ => "",
                };
                let kind = match j.get("kind") {
                    Some(J::Str(k)) => k,
                    _ => "",
                };
                // two levels
                let at = at.rsplit('/').next().unwrap_or("").to_string();
                l.iter().filter_map(|x| go(&x.1, n, &format!("{}/{} {} {}", at, t, kind, x.0))).next()
            }
            _ => None,
        }
    }
    go(j, &mut { n }, "").unwrap_or_default()
}

const MORE_TAGS: [&str; 9] = [
    "arrayPattern", "RestProperty", "AssignmentPattern", "ArrowFunctionExpression", "TemplateLiteral", "", "identifier", "Super", "ClassDeclaration",
];
const WORDS: [&str; 22] = [
    "", "=", "==", "+", "++", "--", "&&", "||", "**", "in", "new", "target", "var", "let", "const", "init", "get", "set",
    "typeof", ">>>=", "g", "constructor",
];

fn any_json(r: &mut Rng) -> J {
    match r.below(12) {
        0 | 1 => J::Null,
        2 => J::Bool(true),
        3 => J::Bool(false),
        4 => J::Int(r.below(5) as i64 - 1),
        5 => J::Int(if r.chance(1, 2) { r.next() as i64 >> r.below(60) } else { [i64::MAX, i64::MIN, 9007199254740993, -1, 1 << 53][r.below(5)] }),
        6 => J::Num([0.5, -0.0, 1e300, 1.2e19, 1e-7, 5e-324][r.below(6)]),
        7 => s(r.pick(&WORDS)),
        8 => J::Arr(vec![]),
        9 => J::Arr(vec![J::Null]),
        10 => J::Obj(vec![]),
        _ => J::Obj(vec![("type".to_string(), s(r.pick(&TAGS)))]),
    }
}

fn change(r: &mut Rng, j: &mut J) {
    let all = places(j);
    let copy = {
        let mut n = r.below(all);
        place(j, &mut n).cloned().unwrap_or(J::Null)
    };
    for _ in 0..20 {
        let mut n = r.below(all);
        let p = match place(j, &mut n) {
            Some(p) => p,
            None => return,
        };
        match p {
            J::Obj(l) if !l.is_empty() && r.chance(2, 3) => {
                let i = r.below(l.len());
                match r.below(8) {
                    0 | 1 => {
                        l.remove(i);
                    }
                    2 | 3 => l[i].1 = any_json(r),
                    4 => l[i].1 = copy,
                    5 => {
                        if let Some(x) = l.iter_mut().find(|x| x.0 == "type") {
                            x.1 = s(if r.chance(1, 4) { r.pick(&MORE_TAGS) } else { r.pick(&TAGS) });
                        }
                    }
                    6 => {
                        let k = r.pick(&["loc", "range", "start", "raw", "regex", "generator", "computed", "id", "init", "zz"]);
                        if !l.iter().any(|x| x.0 == k) {
                            l.push((k.to_string(), any_json(r)));
                        }
                    }
                    _ => {
                        let k = r.below(l.len());
                        let t = l[i].1.clone();
                        l[i].1 = l[k].1.clone();
                        l[k].1 = t;
                    }
                }
                return;
            }
            J::Arr(l) if r.chance(2, 3) => {
                match r.below(6) {
                    0 if !l.is_empty() => {
                        let i = r.below(l.len());
                        l.remove(i);
                    }
                    1 if !l.is_empty() => {
                        let i = r.below(l.len());
                        let x = l[i].clone();
                        l.insert(r.below(l.len() + 1), x);
                    }
                    2 if l.len() > 1 => {
                        let i = r.below(l.len());
                        let k = r.below(l.len());
                        l.swap(i, k);
                    }
                    3 => l.insert(r.below(l.len() + 1), J::Null),
                    4 => l.insert(r.below(l.len() + 1), copy),
                    _ => l.push(any_json(r)),
                }
                return;
            }
            J::Bool(b) => {
                *b = !*b;
                return;
            }
            J::Str(t) if r.chance(1, 2) => {
                *t = r.pick(&WORDS).to_string();
                return;
            }
            J::Int(_) | J::Num(_) if r.chance(1, 2) => {
                *p = any_json(r);
                return;
            }
            _ => {}
        }
    }
}

fn c28_gen(r: &mut Rng, deep: bool) -> Case {
    let mut j = document(r, deep);
    let n = [0, 1, 1, 1, 1, 1, 2, 4][r.below(8)];
    for _ in 0..n {
        change(r, &mut j);
    }
    Case::new(r.pick(&["u", "i", "f"]), j.text())
}

/// Every way of spoiling one field of every kind of node.
fn c28_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    let lists = flat_of(3).len();
    for (i, t) in flat_of(5003).iter().chain(wide_texts().iter().skip(lists)).enumerate() {
        if t.len() > 6_000 && i >= lists {
            continue;
        }
        if let Some(mut j) = document_of(t, i % 2 == 1) {
            out.push(Case::new(["u", "i", "f"][i % 3], j.text()));
            change(&mut Rng::new(i as u64), &mut j);
            out.push(Case::new(["u", "i", "f"][i % 3], j.text()));
        }
    }
    let mut seen: Vec<String> = vec![];
    for (t, covered) in corpus().into_iter().flat_map(|t| vec![(t.clone(), false), (t, true)]) {
        let mut j = match document_of(&t, covered) {
            Some(j) if !covered || document_of(&t, false).map_or(true, |k| k.text() != j.text()) => j,
            _ => continue,
        };
        for m in ["u", "i", "f"].iter() {
            out.push(Case::new(*m, j.text()));
        }
        let all = places(&j);
        for i in 0..all {
            let mut k = i;
            let fields: Vec<String> = match place(&mut j, &mut k) {
                Some(J::Obj(l)) => l.iter().map(|x| x.0.clone()).collect(),
                _ => continue,
            };
            let up = above(&j, i);
            let mut k = i;
            let tag = match place(&mut j, &mut k).and_then(|x| x.get("type").cloned()) {
                Some(J::Str(t)) => t,
                _ => String::new(),
            };
            for f in fields {
                let mut k = i;
                let v = place(&mut j, &mut k).and_then(|x| x.get(&f).cloned()).unwrap_or(J::Null);
                let sort = match v {
                    J::Null => "null",
                    J::Bool(true) => "true",
                    J::Bool(false) => "false",
                    J::Str(ref t) => &t[..],
                    J::Arr(ref l) if l.is_empty() => "empty",
                    J::Arr(_) => "array",
                    J::Obj(_) => "object",
                    _ => "number",
                };
                let key = format!("{} {} {} {}", up, tag, f, match v { J::Str(_) if f == "name" || f == "value" || f == "raw" => "string", _ => sort });
                if seen.contains(&key) {
                    continue;
                }
                seen.push(key);
                let mut spoilt: Vec<Option<J>> = vec![
                    None,
                    Some(J::Null),
                    Some(J::Bool(true)),
                    Some(J::Bool(false)),
                    Some(J::Int(0)),
                    Some(J::Num(1.5)),
                    Some(s("zz")),
                    Some(J::Arr(vec![])),
                    Some(J::Arr(vec![J::Null])),
                    Some(J::Arr(vec![J::Int(1)])),
                    Some(J::Obj(vec![])),
                    Some(estree(&node("Empty", vec![]))),
                    Some(estree(&node("This", vec![]))),
                    Some(estree(&node("Id", vec![("name", V::S("zz".to_string()))]))),
                    Some(estree(&node("Number", vec![("value", V::Num(2.0))]))),
                    Some(estree(&node("String", vec![("value", strv("zz"))]))),
                ];
                match v {
                    J::Arr(ref l) if !l.is_empty() => {
                        let mut a = l.clone();
                        a.push(l[0].clone());
                        spoilt.push(Some(J::Arr(a)));
                        let mut a = l.clone();
                        a.push(J::Null);
                        spoilt.push(Some(J::Arr(a)));
                        spoilt.push(Some(J::Arr(l[1..].to_vec())));
                    }
                    J::Str(_) if f == "type" => {
                        for t in TAGS.iter().chain(MORE_TAGS.iter()) {
                            spoilt.push(Some(s(*t)));
                        }
                        for n in [20, 33, 65, 129, 257, 5000].iter() {
                            spoilt.push(Some(s(&format!("{}End", "Long\u{e9}".repeat(*n / 5)))));
                        }
                    }
                    J::Int(_) | J::Num(_) if f == "value" => {
                        // whole numbers a rounding twice would get wrong, signs, the ends of the types
                        for k in 53..63 {
                            let half = 1i64 << (k - 53);
                            for n in [half - 1, half, half + 1, 3 * half - 1, 3 * half, 3 * half + 1].iter() {
                                spoilt.push(Some(J::Int((1i64 << k) + n)));
                                spoilt.push(Some(J::Int(-(1i64 << k) - n)));
                            }
                        }
                        for n in [-1, -2, -255, i64::MAX, i64::MIN, i32::MAX as i64 + 1, i32::MIN as i64 - 1, u32::MAX as i64 + 1].iter() {
                            spoilt.push(Some(J::Int(*n)));
                        }
                        for x in [-0.0, -1.5, 1e21, 1e300, 5e-324, -1e-7].iter() {
                            spoilt.push(Some(J::Num(*x)));
                        }
                    }
                    J::Str(_) if f == "operator" => {
                        for t in BINOPS.iter().chain(UNOPS.iter()).chain(ASSOPS.iter()).chain(LOGOPS.iter()) {
                            spoilt.push(Some(s(*t)));
                        }
                        for t in ["=", "++", "--", "**", "**=", "=>", "", "!!", "??", "<>", "TYPEOF", "> >", " +"].iter() {
                            spoilt.push(Some(s(*t)));
                        }
                    }
                    J::Str(_) if f == "kind" => {
                        for t in ["init", "get", "set", "var", "let", "const", "", "method"].iter() {
                            spoilt.push(Some(s(*t)));
                        }
                    }
                    _ => {}
                }
                if f == "params" {
                    let id = || estree(&node("Id", vec![("name", V::S("zz".to_string()))]));
                    let rest = || J::Obj(vec![("type".to_string(), s("RestElement")), ("argument".to_string(), id())]);
                    spoilt.push(Some(J::Arr(vec![id()])));
                    spoilt.push(Some(J::Arr(vec![rest()])));
                    spoilt.push(Some(J::Arr(vec![id(), rest()])));
                    spoilt.push(Some(J::Arr(vec![id(), id()])));
                    spoilt.push(Some(J::Arr(vec![rest(), id()])));
                    spoilt.push(Some(J::Arr(vec![rest(), rest()])));
                    spoilt.push(Some(J::Arr(vec![id(), id(), rest()])));
                }
                for x in spoilt {
                    let mut j = j.clone();
                    let mut k = i;
                    if let Some(J::Obj(l)) = place(&mut j, &mut k) {
                        match x {
                            None => l.retain(|y| y.0 != f),
                            Some(x) => l.iter_mut().filter(|y| y.0 == f).for_each(|y| y.1 = x.clone()),
                        }
                    }
                    out.push(Case::new("u", j.text()));
                }
            }
        }
    }
    out
}

fn c28(c: &Case, o: &mut Obs) -> Verdict {
    let j = match read(c.text()) {
        Some(j @ J::Obj(_)) => j,
        _ => return Verdict::Skip("not a document"),
    };
    let mut d = Dec::default();
    d.only(&j, "Program");
    let want = d.script(&j, "body");
    let got = guard(|| object(&j, &c.mode).into_script()).map_err(bad);
    let got = match got {
        Ok(g) => g,
        Err(v) => return v,
    };
    if let Err(ref e) = got {
        let text = match guard(|| e.to_string()) {
            Ok(t) => t,
            Err(e) => return bad(e),
        };
        if text.is_empty() {
            return bad("an error without a message");
        }
    }
    let through = guard(|| serde_json::from_str::<ESTreeScript>(c.text()).map(|_| ()));
    let through = match through {
        Ok(t) => t,
        Err(e) => return bad(e),
    };
    // serde_json itself refuses to nest deeper than 128 levels
    let too_deep = through.as_ref().err().map_or(false, |e| e.to_string().contains("recursion limit"));
    if !too_deep && through.is_ok() != got.is_ok() {
        return bad(format!("into_script: {}, through the deserializer: {}", show(&got), match through {
            Ok(_) => "accepted".to_string(),
            Err(e) => e.to_string(),
        }));
    }
    if let (Err(ref e), Err(ref t)) = (&got, &through) {
        if !too_deep && !t.to_string().contains(&e.to_string()) {
            return bad(format!("the deserializer reports {} for {}", t, e));
        }
    }
    if let Some(why) = d.open {
        return Verdict::Skip(why);
    }
    if !d.bad.is_empty() {
        let first = format!("{:?}", d.bad[0]);
        let e = match got {
            Ok(_) => return bad(format!("a malformed document is accepted: {}", first)),
            Err(e) => e,
        };
        o.count("malformed documents rejected", 1);
        o.nontrivial = true;
        if d.bad.len() > 1 {
            return Verdict::Held;
        }
        o.count("with a single fault", 1);
        if !tells(&e, &d.bad[0]) {
            return bad(format!("{} for {}", e, first));
        }
        o.count(named(&d.bad[0]), 1);
        return Verdict::Held;
    }
    let script = match got {
        Ok(s) => s,
        Err(e) => return bad(format!("a well-formed document is rejected: {}", e)),
    };
    let mut v = View::default();
    let n = v.script(&script);
    if let Some(d) = Diff::structure().node(&want, &n) {
        return bad(format!("read as something else: {}", d));
    }
    if v.spans.iter().any(|s| s.is_some()) {
        return bad("a location in a tree that was not parsed");
    }
    o.count("well-formed documents read", 1);
    n.walk(&mut |n| o.count(&format!("{} nodes", n.ty), 1));
    o.nontrivial = n.size() > 1;
    Verdict::Held
}

// ---- C29 ----

fn c29_gen(r: &mut Rng, deep: bool) -> Case {
    if r.chance(1, 8) {
        return Case::new("script", salad(r, 8));
    }
    let c = cfg(r, deep);
    Case::new("script", genprog::program(r, &c))
}

fn c29_fixed(_: bool) -> Vec<Case> {
    let mut out: Vec<Case> = corpus().into_iter().map(|t| Case::new("script", t)).collect();
    out.extend(wide_cases("script"));
    out
}

/// A parenthesized string that ESTree cannot tell from a directive.
fn seeming_directive(n: &Node) -> bool {
    let mut found = false;
    n.walk(&mut |n| {
        if n.ty == "Script" {
            if let Some(V::N(x)) = n.l("items").first() {
                found |= x.ty == "ExprStmt" && x.n("expr").map_or(false, |e| e.ty == "String");
            }
        }
    });
    found
}

/// The document of a script, as the reader takes it; none if ESTree cannot express the script.
pub fn written(s: &easter::stmt::Script) -> Option<BTreeMap<String, Value>> {
    let mut n = View::default().script(s);
    if !finite(&n) {
        return None;
    }
    let mut j = estree(&n);
    whole(&mut j);
    Some(object(&j, "u"))
}

fn c29(c: &Case, o: &mut Obs) -> Verdict {
    let parsed = match guard(|| run::run("script", c.text())) {
        Ok(Ok(run::Out::Script(s))) => s,
        Ok(_) => return Verdict::Skip("not a program"),
        Err(e) => return bad(e),
    };
    let mut n = View::default().script(&parsed);
    if !finite(&n) || seeming_directive(&n) {
        return Verdict::Skip("not expressible in ESTree");
    }
    // the reader takes the value of a directive, its source text is not in the document
    let plain = |n: &mut Node| n.walk_mut(&mut |n| {
        if n.ty == "Dir" {
            n.f.retain(|f| f.0 != "raw");
        }
    });
    let mut want = n.clone();
    plain(&mut want);
    let mut bare = parsed;
    bare.untrack();
    // with assignment patterns written as such, and as expressions
    let mut patterns = false;
    n.walk(&mut |n| patterns |= n.ty == "ArrPatt" || n.ty == "ObjPatt");
    for covered in 0..1 + patterns as usize {
        if covered == 1 {
            o.count("programs with assignment patterns", 1);
            cover(&mut n);
        }
        let mut j = estree(&n);
        whole(&mut j);
        let text = j.text();
        let got = match guard(|| object(&j, "u").into_script()) {
            Ok(Ok(s)) => s,
            Ok(Err(e)) => return bad(format!("the document of a parsed program is rejected: {}", e)),
            Err(e) => return bad(e),
        };
        let mut back = View::default().script(&got);
        plain(&mut back);
        if let Some(d) = Diff::structure().node(&want, &back) {
            return bad(format!("parsed and written out, then read back as something else: {}", d));
        }
        let mut read = got;
        read.untrack();
        if bare != read {
            return bad("parsed and untracked, and read back, the trees are not equal");
        }
        match guard(|| serde_json::from_str::<ESTreeScript>(&text).map(|_| ())) {
            Ok(Ok(())) => {}
            // serde_json itself refuses to nest deeper than 128 levels
            Ok(Err(ref e)) if e.to_string().contains("recursion limit") => o.count("too deep for the deserializer", 1),
            Ok(Err(e)) => return bad(format!("the deserializer: {}", e)),
            Err(e) => return bad(e),
        }
    }
    o.count("programs read back", 1);
    o.count("tree nodes compared", want.size());
    o.nontrivial = want.size() > 1;
    Verdict::Held
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C28", rule: "ESTree documents of valid programs, whole and with fields removed, retyped, replaced and retagged, against a reference decoder; non-trivial: a fault reported or a tree compared",
            fixed: c28_fixed, exhaustive: false, gen: c28_gen, check: c28, quick: 450_000, thorough: 6_000_000, assumptions: &["the reference decoder"] },
        Prop { id: "C29", rule: "parsed programs written out as ESTree and read back; non-trivial: a tree was compared",
            fixed: c29_fixed, exhaustive: false, gen: c29_gen, check: c29, quick: 300_000, thorough: 4_000_000, assumptions: &[] },
    ]
}
