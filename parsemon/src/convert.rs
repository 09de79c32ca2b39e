//! The monitors' view of a tree of the code under test.
use easter::decl::{ConstDtor, Decl, Dtor, Export, Import};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt, RestPatt};
use easter::punc::{Assop, Binop, Logop, Op, Semi, Unop, UnopTag};
use easter::stmt::*;
use joker::token::{CharCase, Exp, NumberLiteral, NumberSource, Radix, RegExpLiteral, Sign, StringLiteral};
use joker::track::{Span, TrackingRef};
use model::node::{list, node, opt, Node, V};

/// Collects what is not part of the tree's structure.
#[derive(Default)]
pub struct View {
    pub spans: Vec<Option<Span>>,
    pub semis: Vec<Semi>,
    /// types whose tracking_ref is not the location their node has
    pub stray: Vec<&'static str>,
    /// how literals were written, as far as they know, and where
    pub spelt: Vec<(Option<Span>, Option<String>)>,
}

fn exponent(e: &Option<Exp>) -> String {
    match *e {
        None => String::new(),
        Some(ref e) => {
            let sign = match e.sign {
                Some(Sign::Plus) => "+",
                Some(Sign::Minus) => "-",
                None => "",
            };
            format!("{}{}{}", if e.e == CharCase::LowerCase { "e" } else { "E" }, sign, e.value)
        }
    }
}

fn number_text(s: &NumberSource) -> String {
    let case = |c: CharCase, l: &str| if c == CharCase::LowerCase { l.to_string() } else { l.to_uppercase() };
    match *s {
        NumberSource::DecimalInt(ref m, ref e) => format!("{}{}", m, exponent(e)),
        NumberSource::RadixInt(Radix::Hex(c), ref d) => format!("0{}{}", case(c, "x"), d),
        NumberSource::RadixInt(Radix::Bin(c), ref d) => format!("0{}{}", case(c, "b"), d),
        NumberSource::RadixInt(Radix::Oct(Some(c)), ref d) => format!("0{}{}", case(c, "o"), d),
        NumberSource::RadixInt(Radix::Oct(None), ref d) => d.clone(),
        NumberSource::Float(ref i, ref f, ref e) => {
            format!("{}.{}{}", i.clone().unwrap_or_default(), f.clone().unwrap_or_default(), exponent(e))
        }
    }
}

fn str_v(s: &StringLiteral) -> V {
    V::Str(s.value.chars().map(Some).collect())
}

pub fn unop(t: &UnopTag) -> &'static str {
    match *t {
        UnopTag::Minus => "-",
        UnopTag::Plus => "+",
        UnopTag::Not => "!",
        UnopTag::BitNot => "~",
        UnopTag::Typeof => "typeof",
        UnopTag::Void => "void",
        UnopTag::Delete => "delete",
    }
}

pub trait Leaf: TrackingRef {
    fn leaf(&self, v: &mut View) -> Node;
}

impl Leaf for Id {
    fn leaf(&self, v: &mut View) -> Node {
        v.id(self)
    }
}

impl Leaf for AssignTarget {
    fn leaf(&self, v: &mut View) -> Node {
        v.target(self)
    }
}

impl View {
    fn spell_str(&mut self, l: &Option<Span>, s: &StringLiteral) {
        self.spelt.push((*l, s.source.clone()));
    }
    fn spell_num(&mut self, l: &Option<Span>, n: &NumberLiteral) {
        self.spelt.push((*l, n.source.as_ref().map(number_text)));
    }
    fn spell_re(&mut self, l: &Option<Span>, r: &RegExpLiteral) {
        self.spelt.push((*l, Some(format!("/{}/{}", r.pattern, r.flags.iter().cloned().collect::<String>()))));
    }
    pub fn at<T: TrackingRef>(&mut self, n: Node, l: &Option<Span>, of: &T) -> Node {
        if of.tracking_ref() != l {
            self.stray.push(n.ty);
        }
        self.spans.push(*l);
        match *l {
            Some(s) => n.at(s.start.offset as usize, s.end.offset as usize),
            None => n,
        }
    }
    fn semi(&mut self, s: &Semi) -> V {
        self.semis.push(*s);
        V::Semi(match *s {
            Semi::Explicit(Some(p)) => Some(p.offset as usize),
            Semi::Explicit(None) => Some(usize::MAX),
            Semi::Inserted => None,
        })
    }
    pub fn id(&mut self, i: &Id) -> Node {
        let n = node("Id", vec![("name", V::S(i.name.as_ref().to_string()))]);
        self.at(n, &i.location, i)
    }
    fn id_opt(&mut self, i: &Option<Id>) -> V {
        opt(i.as_ref().map(|i| self.id(i)))
    }
    fn op<T>(&mut self, op: &Op<T>, tag: String) -> V {
        let n = node("Op", vec![("tag", V::S(tag))]);
        self.at(n, &op.location, &op.location).into()
    }
    fn unop(&mut self, o: &Unop) -> V {
        let t = unop(&o.tag).to_string();
        self.op(o, t)
    }
    fn binop(&mut self, o: &Binop) -> V {
        let t = o.tag.to_string();
        self.op(o, t)
    }
    fn logop(&mut self, o: &Logop) -> V {
        let t = o.tag.to_string();
        self.op(o, t)
    }
    fn assop(&mut self, o: &Assop) -> V {
        let t = o.tag.to_string();
        self.op(o, t)
    }

    // ---- statements ----

    pub fn script(&mut self, s: &Script) -> Node {
        let dirs = s.dirs.iter().map(|d| self.dir(d)).collect();
        let items = s.items.iter().map(|i| self.item(i)).collect();
        let n = node("Script", vec![("dirs", list(dirs)), ("items", list(items))]);
        self.at(n, &s.location, s)
    }
    pub fn module(&mut self, s: &Module) -> Node {
        let dirs = s.dirs.iter().map(|d| self.dir(d)).collect();
        let items = s.items.iter().map(|i| self.mod_item(i)).collect();
        let n = node("Script", vec![("dirs", list(dirs)), ("items", list(items))]);
        self.at(n, &s.location, s)
    }
    pub fn mod_item(&mut self, i: &ModItem) -> Node {
        let n = match *i {
            ModItem::StmtListItem(ref i) => self.item(i),
            ModItem::Import(ref d @ Import::ForEffect(ref l, ref s)) => {
                let n = node("Import", vec![("string", str_v(s))]);
                self.at(n, l, d)
            }
            ModItem::Export(ref e @ Export::Var(ref l, ref ds, ref semi)) => {
                let ds = ds.iter().map(|d| self.dtor(d)).collect();
                let semi = self.semi(semi);
                let n = node("ExportVar", vec![("decls", list(ds)), ("semi", semi)]);
                self.at(n, l, e)
            }
            ModItem::Export(Export::Decl(ref d)) => {
                let n = self.decl(d);
                node("ExportDecl", vec![("decl", n.into())])
            }
        };
        n
    }
    fn dir(&mut self, d: &Dir) -> Node {
        self.spell_str(&d.location, &d.string);
        let semi = self.semi(&d.semi);
        let n = node("Dir", vec![("string", str_v(&d.string)), ("raw", V::S(d.pragma().to_string())), ("semi", semi)]);
        self.at(n, &d.location, d)
    }
    pub fn item(&mut self, i: &StmtListItem) -> Node {
        let n = match *i {
            StmtListItem::Decl(ref d) => self.decl(d),
            StmtListItem::Stmt(ref s) => self.stmt(s),
        };
        self.same(&n, i);
        n
    }
    fn same<T: TrackingRef>(&mut self, n: &Node, of: &T) {
        let l = of.tracking_ref().map(|s| (s.start.offset as usize, s.end.offset as usize));
        if l != n.span {
            self.stray.push(n.ty);
        }
    }
    fn items(&mut self, is: &[StmtListItem]) -> V {
        list(is.iter().map(|i| self.item(i)).collect())
    }
    fn dtors(&mut self, ds: &[Dtor]) -> V {
        list(ds.iter().map(|d| self.dtor(d)).collect())
    }
    pub fn dtor(&mut self, d: &Dtor) -> Node {
        match *d {
            Dtor::Simple(ref l, ref id, ref init) => {
                let id = self.id(id);
                let init = opt(init.as_ref().map(|e| self.expr(e)));
                let n = node("Dtor", vec![("id", id.into()), ("init", init)]);
                self.at(n, l, d)
            }
            Dtor::Compound(ref l, ref p, ref init) => {
                let p = self.compound(p);
                let init = self.expr(init);
                let n = node("Dtor", vec![("id", p.into()), ("init", init.into())]);
                self.at(n, l, d)
            }
        }
    }
    fn const_dtors(&mut self, ds: &[ConstDtor]) -> V {
        list(ds.iter().map(|d| self.const_dtor(d)).collect())
    }
    pub fn const_dtor(&mut self, d: &ConstDtor) -> Node {
        let p = self.patt(&d.patt);
        let e = self.expr(&d.value);
        let n = node("ConstDtor", vec![("patt", p.into()), ("value", e.into())]);
        self.at(n, &d.location, d)
    }
    pub fn decl(&mut self, d: &Decl) -> Node {
        match *d {
            Decl::Fun(ref f) => {
                let id = self.id(&f.id);
                let n = self.fun("FunDecl", id.into(), f);
                self.same(&n, d);
                n
            }
            Decl::Let(ref l, ref ds, ref semi) => {
                let ds = self.dtors(ds);
                let semi = self.semi(semi);
                self.at(node("Let", vec![("decls", ds), ("semi", semi)]), l, d)
            }
            Decl::Const(ref l, ref ds, ref semi) => {
                let ds = self.const_dtors(ds);
                let semi = self.semi(semi);
                self.at(node("Const", vec![("decls", ds), ("semi", semi)]), l, d)
            }
        }
    }
    fn block(&mut self, b: &Block) -> Node {
        let items = self.items(&b.items);
        self.at(node("Block", vec![("items", items)]), &b.location, b)
    }
    pub fn stmt(&mut self, s: &Stmt) -> Node {
        let (l, n) = match *s {
            Stmt::Empty(ref l) => (l, node("Empty", vec![])),
            Stmt::Block(ref b) => {
                let n = self.block(b);
                self.same(&n, s);
                return n;
            }
            Stmt::Var(ref l, ref ds, ref semi) => {
                let ds = self.dtors(ds);
                let semi = self.semi(semi);
                (l, node("Var", vec![("decls", ds), ("semi", semi)]))
            }
            Stmt::Expr(ref l, ref e, ref semi) => {
                let e = self.expr(e);
                let semi = self.semi(semi);
                (l, node("ExprStmt", vec![("expr", e.into()), ("semi", semi)]))
            }
            Stmt::If(ref l, ref t, ref c, ref a) => {
                let t = self.expr(t);
                let c = self.stmt(c);
                let a = opt(a.as_ref().map(|a| self.stmt(a)));
                (l, node("If", vec![("test", t.into()), ("cons", c.into()), ("alt", a)]))
            }
            Stmt::Label(ref l, ref i, ref b) => {
                let i = self.id(i);
                let b = self.stmt(b);
                (l, node("Label", vec![("id", i.into()), ("body", b.into())]))
            }
            Stmt::Break(ref l, ref i, ref semi) => {
                let i = self.id_opt(i);
                let semi = self.semi(semi);
                (l, node("Break", vec![("id", i), ("semi", semi)]))
            }
            Stmt::Cont(ref l, ref i, ref semi) => {
                let i = self.id_opt(i);
                let semi = self.semi(semi);
                (l, node("Cont", vec![("id", i), ("semi", semi)]))
            }
            Stmt::With(ref l, ref e, ref b) => {
                let e = self.expr(e);
                let b = self.stmt(b);
                (l, node("With", vec![("obj", e.into()), ("body", b.into())]))
            }
            Stmt::Switch(ref l, ref e, ref cs) => {
                let e = self.expr(e);
                let cs = cs
                    .iter()
                    .map(|c| {
                        let t = opt(c.test.as_ref().map(|t| self.expr(t)));
                        let b = self.items(&c.body);
                        self.at(node("Case", vec![("test", t), ("body", b)]), &c.location, c)
                    })
                    .collect();
                (l, node("Switch", vec![("disc", e.into()), ("cases", list(cs))]))
            }
            Stmt::Return(ref l, ref e, ref semi) => {
                let e = opt(e.as_ref().map(|e| self.expr(e)));
                let semi = self.semi(semi);
                (l, node("Return", vec![("arg", e), ("semi", semi)]))
            }
            Stmt::Throw(ref l, ref e, ref semi) => {
                let e = self.expr(e);
                let semi = self.semi(semi);
                (l, node("Throw", vec![("arg", e.into()), ("semi", semi)]))
            }
            Stmt::Try(ref l, ref b, ref c, ref f) => {
                let b = self.block(b);
                let c = opt(c.as_ref().map(|c| {
                    let p = self.patt(&c.param);
                    let b = self.block(&c.body);
                    self.at(node("Catch", vec![("param", p.into()), ("body", b.into())]), &c.location, &**c)
                }));
                let f = opt(f.as_ref().map(|f| self.block(f)));
                (l, node("Try", vec![("block", b.into()), ("catch", c), ("finally", f)]))
            }
            Stmt::While(ref l, ref t, ref b) => {
                let t = self.expr(t);
                let b = self.stmt(b);
                (l, node("While", vec![("test", t.into()), ("body", b.into())]))
            }
            Stmt::DoWhile(ref l, ref b, ref t, ref semi) => {
                let b = self.stmt(b);
                let t = self.expr(t);
                let semi = self.semi(semi);
                (l, node("DoWhile", vec![("body", b.into()), ("test", t.into()), ("semi", semi)]))
            }
            Stmt::For(ref l, ref i, ref t, ref u, ref b) => {
                let i = opt(i.as_ref().map(|h| match **h {
                    ForHead::Var(ref l, ref ds) => {
                        let ds = self.dtors(ds);
                        self.at(node("ForVar", vec![("decls", ds)]), l, &**h)
                    }
                    ForHead::Let(ref l, ref ds) => {
                        let ds = self.dtors(ds);
                        self.at(node("ForLet", vec![("decls", ds)]), l, &**h)
                    }
                    ForHead::Const(ref l, ref ds) => {
                        let ds = self.const_dtors(ds);
                        self.at(node("ForConst", vec![("decls", ds)]), l, &**h)
                    }
                    ForHead::Expr(ref l, ref e) => {
                        let e = self.expr(e);
                        self.at(node("ForExpr", vec![("expr", e.into())]), l, &**h)
                    }
                }));
                let t = opt(t.as_ref().map(|e| self.expr(e)));
                let u = opt(u.as_ref().map(|e| self.expr(e)));
                let b = self.stmt(b);
                (l, node("For", vec![("init", i), ("test", t), ("update", u), ("body", b.into())]))
            }
            Stmt::ForIn(ref l, ref h, ref r, ref b) => {
                let h = match **h {
                    ForInHead::VarInit(ref l, ref i, ref e) => {
                        let i = self.id(i);
                        let e = self.expr(e);
                        self.at(node("HVarInit", vec![("id", i.into()), ("init", e.into())]), l, &**h)
                    }
                    ForInHead::Var(ref l, ref p) => self.head("HVar", l, p, &**h),
                    ForInHead::Let(ref l, ref p) => self.head("HLet", l, p, &**h),
                    ForInHead::Const(ref l, ref p) => self.head("HConst", l, p, &**h),
                    ForInHead::Patt(ref p) => {
                        let n = self.patt(p);
                        self.same(&n, &**h);
                        n
                    }
                };
                let r = self.expr(r);
                let b = self.stmt(b);
                (l, node("ForIn", vec![("left", h.into()), ("right", r.into()), ("body", b.into())]))
            }
            Stmt::ForOf(ref l, ref h, ref r, ref b) => {
                let h = match **h {
                    ForOfHead::Var(ref l, ref p) => self.head("HVar", l, p, &**h),
                    ForOfHead::Let(ref l, ref p) => self.head("HLet", l, p, &**h),
                    ForOfHead::Const(ref l, ref p) => self.head("HConst", l, p, &**h),
                    ForOfHead::Patt(ref p) => {
                        let n = self.patt(p);
                        self.same(&n, &**h);
                        n
                    }
                };
                let r = self.expr(r);
                let b = self.stmt(b);
                (l, node("ForOf", vec![("left", h.into()), ("right", r.into()), ("body", b.into())]))
            }
            Stmt::Debugger(ref l, ref semi) => {
                let semi = self.semi(semi);
                (l, node("Debugger", vec![("semi", semi)]))
            }
        };
        self.at(n, l, s)
    }
    fn head<T: TrackingRef>(&mut self, ty: &'static str, l: &Option<Span>, p: &Patt<Id>, of: &T) -> Node {
        let p = self.patt(p);
        self.at(node(ty, vec![("patt", p.into())]), l, of)
    }

    // ---- functions and patterns ----

    fn params(&mut self, p: &Params) -> V {
        let l = p.list.iter().map(|p| self.patt(p)).collect();
        let r = opt(p.rest.as_ref().map(|r| self.rest(r)));
        self.at(node("Params", vec![("list", list(l)), ("rest", r)]), &p.location, p).into()
    }
    fn rest<T: Leaf>(&mut self, r: &RestPatt<T>) -> Node {
        let p = self.patt(&r.patt);
        self.at(node("Rest", vec![("patt", p.into())]), &r.location, r)
    }
    fn fun<I>(&mut self, ty: &'static str, id: V, f: &Fun<I>) -> Node {
        let p = self.params(&f.params);
        let b = self.script(&f.body);
        let name = if ty == "Method" { "key" } else { "id" };
        let n = node(ty, vec![(name, id), ("params", p), ("body", b.into()), ("gen", V::B(f.generator))]);
        self.at(n, &f.location, &f.location)
    }
    pub fn patt<T: Leaf>(&mut self, p: &Patt<T>) -> Node {
        let n = match *p {
            Patt::Simple(ref t) => t.leaf(self),
            Patt::Compound(ref c) => self.compound(c),
        };
        self.same(&n, p);
        n
    }
    fn compound<T: Leaf>(&mut self, p: &CompoundPatt<T>) -> Node {
        match *p {
            CompoundPatt::Arr(ref l, ref es, ref r) => {
                let es = es
                    .iter()
                    .map(|e| match *e {
                        Some(ref p) => V::from(self.patt(p)),
                        None => V::Null,
                    })
                    .collect();
                let r = opt(r.as_ref().map(|r| self.rest(r)));
                let n = node("ArrPatt", vec![("elts", V::L(es)), ("rest", r)]);
                self.at(n, l, l)
            }
            CompoundPatt::Obj(ref l, ref ps) => {
                let ps = ps
                    .iter()
                    .map(|p| match *p {
                        PropPatt::Regular(ref l, ref k, ref p) => {
                            let k = self.key(k);
                            let p = self.patt(p);
                            self.at(node("PropPatt", vec![("key", k.into()), ("patt", p.into())]), l, l)
                        }
                        PropPatt::Shorthand(ref i) => self.short(i),
                    })
                    .collect();
                self.at(node("ObjPatt", vec![("props", list(ps))]), l, l)
            }
        }
    }
    fn short(&mut self, i: &Id) -> Node {
        let id = self.id(i);
        let span = id.span;
        let mut n = node("Short", vec![("id", id.into())]);
        n.span = span;
        n
    }
    pub fn target(&mut self, t: &AssignTarget) -> Node {
        match *t {
            AssignTarget::Id(ref i) => {
                let n = self.id(i);
                self.same(&n, t);
                n
            }
            AssignTarget::Dot(ref l, ref o, ref k) => {
                let n = self.dot(o, k);
                self.at(n, l, t)
            }
            AssignTarget::Brack(ref l, ref o, ref p) => {
                let n = self.brack(o, p);
                self.at(n, l, t)
            }
        }
    }
    fn dot(&mut self, o: &Expr, k: &DotKey) -> Node {
        let o = self.expr(o);
        let k = self.at(node("Key", vec![("value", V::S(k.value.clone()))]), &k.location, k);
        node("Dot", vec![("obj", o.into()), ("key", k.into())])
    }
    fn brack(&mut self, o: &Expr, p: &Expr) -> Node {
        let o = self.expr(o);
        let p = self.expr(p);
        node("Brack", vec![("obj", o.into()), ("prop", p.into())])
    }

    // ---- expressions ----

    fn key(&mut self, k: &PropKey) -> Node {
        match *k {
            PropKey::Id(..) => {}
            PropKey::String(ref l, ref s) => self.spell_str(l, s),
            PropKey::Number(ref l, ref n) => self.spell_num(l, n),
        }
        match *k {
            PropKey::Id(ref l, ref s) => self.at(node("KeyId", vec![("name", V::S(s.clone()))]), l, k),
            PropKey::String(ref l, ref s) => self.at(node("KeyStr", vec![("value", str_v(s))]), l, k),
            PropKey::Number(ref l, ref n) => self.at(node("KeyNum", vec![("value", V::Num(n.value))]), l, k),
        }
    }
    fn prop(&mut self, p: &Prop) -> Node {
        let n = match *p {
            Prop::Regular(ref l, ref k, ref v) => {
                let k = self.key(k);
                let n = match *v {
                    PropVal::Init(ref e) => {
                        let e = self.expr(e);
                        self.same(&e, v);
                        node("Init", vec![("key", k.into()), ("value", e.into())])
                    }
                    PropVal::Get(ref l, ref b) => {
                        let b = self.script(b);
                        let g = self.at(node("GetVal", vec![("body", b.into())]), l, v);
                        node("Get", vec![("key", k.into()), ("val", g.into())])
                    }
                    PropVal::Set(ref l, ref p, ref b) => {
                        let p = self.patt(p);
                        let b = self.script(b);
                        let g = self.at(node("SetVal", vec![("param", p.into()), ("body", b.into())]), l, v);
                        node("Set", vec![("key", k.into()), ("val", g.into())])
                    }
                };
                return self.at(n, l, p);
            }
            Prop::Method(ref f) => {
                let k = self.key(&f.id);
                self.fun("Method", k.into(), f)
            }
            Prop::Shorthand(ref i) => self.short(i),
        };
        self.same(&n, p);
        n
    }
    fn list_item(&mut self, i: &ExprListItem) -> Node {
        let n = match *i {
            ExprListItem::Expr(ref e) => self.expr(e),
            ExprListItem::Spread(ref l, ref e) => {
                let e = self.expr(e);
                self.at(node("Spread", vec![("arg", e.into())]), l, i)
            }
        };
        self.same(&n, i);
        n
    }
    fn args(&mut self, a: &[ExprListItem]) -> V {
        list(a.iter().map(|i| self.list_item(i)).collect())
    }
    pub fn expr(&mut self, e: &Expr) -> Node {
        let (l, n) = match *e {
            Expr::This(ref l) => (l, node("This", vec![])),
            Expr::Id(ref i) => {
                let n = self.id(i);
                self.same(&n, e);
                return n;
            }
            Expr::Arr(ref l, ref es) => {
                let es = es
                    .iter()
                    .map(|e| match *e {
                        Some(ref i) => V::from(self.list_item(i)),
                        None => V::Null,
                    })
                    .collect();
                (l, node("Arr", vec![("elts", V::L(es))]))
            }
            Expr::Obj(ref l, ref ps) => {
                let ps = ps.iter().map(|p| self.prop(p)).collect();
                (l, node("Obj", vec![("props", list(ps))]))
            }
            Expr::Fun(ref f) => {
                let id = self.id_opt(&f.id);
                let n = self.fun("FunExpr", id, f);
                self.same(&n, e);
                return n;
            }
            Expr::Seq(ref l, ref es) => {
                let es = es.iter().map(|e| self.expr(e)).collect();
                (l, node("Seq", vec![("list", list(es))]))
            }
            Expr::Unop(ref l, ref op, ref a) => {
                let op = self.unop(op);
                let a = self.expr(a);
                (l, node("Unop", vec![("op", op), ("arg", a.into())]))
            }
            Expr::Binop(ref l, ref op, ref a, ref b) => {
                let op = self.binop(op);
                let (a, b) = (self.expr(a), self.expr(b));
                (l, node("Binop", vec![("op", op), ("left", a.into()), ("right", b.into())]))
            }
            Expr::Logop(ref l, ref op, ref a, ref b) => {
                let op = self.logop(op);
                let (a, b) = (self.expr(a), self.expr(b));
                (l, node("Logop", vec![("op", op), ("left", a.into()), ("right", b.into())]))
            }
            Expr::PreInc(ref l, ref t) => (l, node("PreInc", vec![("arg", self.target(t).into())])),
            Expr::PostInc(ref l, ref t) => (l, node("PostInc", vec![("arg", self.target(t).into())])),
            Expr::PreDec(ref l, ref t) => (l, node("PreDec", vec![("arg", self.target(t).into())])),
            Expr::PostDec(ref l, ref t) => (l, node("PostDec", vec![("arg", self.target(t).into())])),
            Expr::Assign(ref l, ref p, ref r) => {
                let p = self.patt(p);
                let r = self.expr(r);
                (l, node("Assign", vec![("left", p.into()), ("right", r.into())]))
            }
            Expr::BinAssign(ref l, ref op, ref t, ref r) => {
                let op = self.assop(op);
                let t = self.target(t);
                let r = self.expr(r);
                (l, node("BinAssign", vec![("op", op), ("left", t.into()), ("right", r.into())]))
            }
            Expr::Cond(ref l, ref t, ref c, ref a) => {
                let (t, c, a) = (self.expr(t), self.expr(c), self.expr(a));
                (l, node("Cond", vec![("test", t.into()), ("cons", c.into()), ("alt", a.into())]))
            }
            Expr::Call(ref l, ref f, ref a) => {
                let f = self.expr(f);
                let a = self.args(a);
                (l, node("Call", vec![("callee", f.into()), ("args", a)]))
            }
            Expr::New(ref l, ref f, ref a) => {
                let f = self.expr(f);
                let a = match *a {
                    Some(ref a) => self.args(a),
                    None => V::L(vec![]),
                };
                (l, node("New", vec![("callee", f.into()), ("args", a)]))
            }
            Expr::Dot(ref l, ref o, ref k) => (l, self.dot(o, k)),
            Expr::Brack(ref l, ref o, ref p) => (l, self.brack(o, p)),
            Expr::NewTarget(ref l) => (l, node("NewTarget", vec![])),
            Expr::True(ref l) => (l, node("True", vec![])),
            Expr::False(ref l) => (l, node("False", vec![])),
            Expr::Null(ref l) => (l, node("NullLit", vec![])),
            Expr::Number(ref l, ref n) => {
                self.spell_num(l, n);
                (l, node("Number", vec![("value", V::Num(n.value))]))
            }
            Expr::RegExp(ref l, ref r) => {
                self.spell_re(l, r);
                let mut f: Vec<char> = r.flags.clone();
                f.sort();
                let n = node("RegExp", vec![("pattern", V::S(r.pattern.clone())), ("flags", V::S(f.into_iter().collect()))]);
                (l, n)
            }
            Expr::String(ref l, ref s) => {
                self.spell_str(l, s);
                (l, node("String", vec![("value", str_v(s))]))
            }
        };
        self.at(n, l, e)
    }
}
