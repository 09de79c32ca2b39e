//! Every node of a tree that has a location, mutably.
use easter::decl::{ConstDtor, Decl, Dtor, Export, Import};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::Id;
use easter::obj::{DotKey, Prop, PropKey, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt, RestPatt};
use easter::stmt::*;
use joker::track::TrackingMut;

pub struct Walk<'a> {
    pub f: &'a mut dyn FnMut(&'static str, &mut dyn TrackingMut),
}

pub trait Leaf: TrackingMut {
    fn walk(&mut self, w: &mut Walk);
}

impl Leaf for Id {
    fn walk(&mut self, w: &mut Walk) {
        w.on("Id", self)
    }
}

impl Leaf for AssignTarget {
    fn walk(&mut self, w: &mut Walk) {
        w.target(self)
    }
}

impl<'a> Walk<'a> {
    fn on(&mut self, ty: &'static str, n: &mut dyn TrackingMut) {
        (self.f)(ty, n)
    }
    pub fn script(&mut self, s: &mut Script) {
        self.on("Body", s);
        s.dirs.iter_mut().for_each(|d| self.on("Dir", d));
        s.items.iter_mut().for_each(|i| self.item(i));
    }
    pub fn module(&mut self, s: &mut Module) {
        self.on("Body", s);
        s.dirs.iter_mut().for_each(|d| self.on("Dir", d));
        for i in s.items.iter_mut() {
            self.on("ModItem", i);
            match *i {
                ModItem::StmtListItem(ref mut i) => self.item(i),
                ModItem::Import(ref mut i) => {
                    self.on("Import", i);
                    match *i {
                        Import::ForEffect(..) => {}
                    }
                }
                ModItem::Export(ref mut e) => {
                    self.on("Export", e);
                    match *e {
                        Export::Var(_, ref mut ds, _) => ds.iter_mut().for_each(|d| self.dtor(d)),
                        Export::Decl(ref mut d) => self.decl(d),
                    }
                }
            }
        }
    }
    fn item(&mut self, i: &mut StmtListItem) {
        self.on("StmtListItem", i);
        match *i {
            StmtListItem::Decl(ref mut d) => self.decl(d),
            StmtListItem::Stmt(ref mut s) => self.stmt(s),
        }
    }
    fn decl(&mut self, d: &mut Decl) {
        self.on("Decl", d);
        match *d {
            Decl::Fun(ref mut f) => {
                self.on("Fun", f);
                self.on("Id", &mut f.id);
                self.fun(f);
            }
            Decl::Let(_, ref mut ds, _) => ds.iter_mut().for_each(|d| self.dtor(d)),
            Decl::Const(_, ref mut ds, _) => ds.iter_mut().for_each(|d| self.const_dtor(d)),
        }
    }
    fn dtor(&mut self, d: &mut Dtor) {
        self.on("Dtor", d);
        match *d {
            Dtor::Simple(_, ref mut id, ref mut e) => {
                self.on("Id", id);
                e.iter_mut().for_each(|e| self.expr(e));
            }
            Dtor::Compound(_, ref mut p, ref mut e) => {
                self.compound(p);
                self.expr(e);
            }
        }
    }
    fn const_dtor(&mut self, d: &mut ConstDtor) {
        self.on("ConstDtor", d);
        self.patt(&mut d.patt);
        self.expr(&mut d.value);
    }
    fn block(&mut self, b: &mut Block) {
        self.on("Block", b);
        b.items.iter_mut().for_each(|i| self.item(i));
    }
    fn stmt(&mut self, s: &mut Stmt) {
        self.on("Stmt", s);
        match *s {
            Stmt::Empty(_) | Stmt::Debugger(..) => {}
            Stmt::Block(ref mut b) => self.block(b),
            Stmt::Var(_, ref mut ds, _) => ds.iter_mut().for_each(|d| self.dtor(d)),
            Stmt::Expr(_, ref mut e, _) | Stmt::Throw(_, ref mut e, _) => self.expr(e),
            Stmt::If(_, ref mut t, ref mut c, ref mut a) => {
                self.expr(t);
                self.stmt(c);
                a.iter_mut().for_each(|a| self.stmt(a));
            }
            Stmt::Label(_, ref mut i, ref mut b) => {
                self.on("Id", i);
                self.stmt(b);
            }
            Stmt::Break(_, ref mut i, _) | Stmt::Cont(_, ref mut i, _) => i.iter_mut().for_each(|i| self.on("Id", i)),
            Stmt::With(_, ref mut e, ref mut b) | Stmt::While(_, ref mut e, ref mut b) => {
                self.expr(e);
                self.stmt(b);
            }
            Stmt::DoWhile(_, ref mut b, ref mut e, _) => {
                self.stmt(b);
                self.expr(e);
            }
            Stmt::Switch(_, ref mut e, ref mut cs) => {
                self.expr(e);
                for c in cs {
                    self.on("Case", c);
                    c.test.iter_mut().for_each(|e| self.expr(e));
                    c.body.iter_mut().for_each(|i| self.item(i));
                }
            }
            Stmt::Return(_, ref mut e, _) => e.iter_mut().for_each(|e| self.expr(e)),
            Stmt::Try(_, ref mut b, ref mut c, ref mut f) => {
                self.block(b);
                if let Some(ref mut c) = *c {
                    self.on("Catch", &mut **c);
                    self.patt(&mut c.param);
                    self.block(&mut c.body);
                }
                f.iter_mut().for_each(|f| self.block(f));
            }
            Stmt::For(_, ref mut h, ref mut t, ref mut u, ref mut b) => {
                if let Some(ref mut h) = *h {
                    self.on("ForHead", &mut **h);
                    match **h {
                        ForHead::Var(_, ref mut ds) | ForHead::Let(_, ref mut ds) => ds.iter_mut().for_each(|d| self.dtor(d)),
                        ForHead::Const(_, ref mut ds) => ds.iter_mut().for_each(|d| self.const_dtor(d)),
                        ForHead::Expr(_, ref mut e) => self.expr(e),
                    }
                }
                t.iter_mut().for_each(|e| self.expr(e));
                u.iter_mut().for_each(|e| self.expr(e));
                self.stmt(b);
            }
            Stmt::ForIn(_, ref mut h, ref mut e, ref mut b) => {
                self.on("ForInHead", &mut **h);
                match **h {
                    ForInHead::VarInit(_, ref mut i, ref mut e) => {
                        self.on("Id", i);
                        self.expr(e);
                    }
                    ForInHead::Var(_, ref mut p) | ForInHead::Let(_, ref mut p) | ForInHead::Const(_, ref mut p) => self.patt(p),
                    ForInHead::Patt(ref mut p) => self.patt(p),
                }
                self.expr(e);
                self.stmt(b);
            }
            Stmt::ForOf(_, ref mut h, ref mut e, ref mut b) => {
                self.on("ForOfHead", &mut **h);
                match **h {
                    ForOfHead::Var(_, ref mut p) | ForOfHead::Let(_, ref mut p) | ForOfHead::Const(_, ref mut p) => self.patt(p),
                    ForOfHead::Patt(ref mut p) => self.patt(p),
                }
                self.expr(e);
                self.stmt(b);
            }
        }
    }
    fn params(&mut self, p: &mut Params) {
        self.on("Params", p);
        p.list.iter_mut().for_each(|p| self.patt(p));
        p.rest.iter_mut().for_each(|r| self.rest(r));
    }
    fn rest<T: Leaf>(&mut self, r: &mut RestPatt<T>) {
        self.on("RestPatt", r);
        self.patt(&mut r.patt);
    }
    fn fun<I>(&mut self, f: &mut Fun<I>) {
        self.params(&mut f.params);
        self.script(&mut f.body);
    }
    pub fn patt<T: Leaf>(&mut self, p: &mut Patt<T>) {
        self.on("Patt", p);
        match *p {
            Patt::Simple(ref mut t) => t.walk(self),
            Patt::Compound(ref mut c) => self.compound(c),
        }
    }
    fn compound<T: Leaf>(&mut self, p: &mut CompoundPatt<T>) {
        self.on("CompoundPatt", p);
        match *p {
            CompoundPatt::Arr(_, ref mut es, ref mut r) => {
                es.iter_mut().for_each(|e| e.iter_mut().for_each(|p| self.patt(p)));
                r.iter_mut().for_each(|r| self.rest(r));
            }
            CompoundPatt::Obj(_, ref mut ps) => {
                for p in ps {
                    self.on("PropPatt", p);
                    match *p {
                        PropPatt::Regular(_, ref mut k, ref mut p) => {
                            self.key(k);
                            self.patt(p);
                        }
                        PropPatt::Shorthand(ref mut i) => self.on("Id", i),
                    }
                }
            }
        }
    }
    pub fn target(&mut self, t: &mut AssignTarget) {
        self.on("AssignTarget", t);
        match *t {
            AssignTarget::Id(ref mut i) => self.on("Id", i),
            AssignTarget::Dot(_, ref mut e, ref mut k) => {
                self.expr(e);
                self.dot_key(k);
            }
            AssignTarget::Brack(_, ref mut e, ref mut p) => {
                self.expr(e);
                self.expr(p);
            }
        }
    }
    fn dot_key(&mut self, k: &mut DotKey) {
        self.on("DotKey", k)
    }
    fn key(&mut self, k: &mut PropKey) {
        self.on("PropKey", k)
    }
    fn prop(&mut self, p: &mut Prop) {
        self.on("Prop", p);
        match *p {
            Prop::Regular(_, ref mut k, ref mut v) => {
                self.key(k);
                self.on("PropVal", v);
                match *v {
                    PropVal::Init(ref mut e) => self.expr(e),
                    PropVal::Get(_, ref mut b) => self.script(b),
                    PropVal::Set(_, ref mut p, ref mut b) => {
                        self.patt(p);
                        self.script(b);
                    }
                }
            }
            Prop::Method(ref mut f) => {
                self.on("Fun", f);
                self.key(&mut f.id);
                self.fun(f);
            }
            Prop::Shorthand(ref mut i) => self.on("Id", i),
        }
    }
    fn list_item(&mut self, i: &mut ExprListItem) {
        self.on("ExprListItem", i);
        match *i {
            ExprListItem::Expr(ref mut e) | ExprListItem::Spread(_, ref mut e) => self.expr(e),
        }
    }
    pub fn expr(&mut self, e: &mut Expr) {
        self.on("Expr", e);
        match *e {
            Expr::This(_) | Expr::NewTarget(_) | Expr::True(_) | Expr::False(_) | Expr::Null(_) => {}
            Expr::Number(..) | Expr::RegExp(..) | Expr::String(..) => {}
            Expr::Id(ref mut i) => self.on("Id", i),
            Expr::Arr(_, ref mut es) => es.iter_mut().for_each(|e| e.iter_mut().for_each(|i| self.list_item(i))),
            Expr::Obj(_, ref mut ps) => ps.iter_mut().for_each(|p| self.prop(p)),
            Expr::Fun(ref mut f) => {
                self.on("Fun", f);
                f.id.iter_mut().for_each(|i| self.on("Id", i));
                self.fun(f);
            }
            Expr::Seq(_, ref mut es) => es.iter_mut().for_each(|e| self.expr(e)),
            Expr::Unop(_, ref mut op, ref mut a) => {
                self.on("Op", op);
                self.expr(a);
            }
            Expr::Binop(_, ref mut op, ref mut a, ref mut b) => {
                self.on("Op", op);
                self.expr(a);
                self.expr(b);
            }
            Expr::Logop(_, ref mut op, ref mut a, ref mut b) => {
                self.on("Op", op);
                self.expr(a);
                self.expr(b);
            }
            Expr::PreInc(_, ref mut t) | Expr::PostInc(_, ref mut t) | Expr::PreDec(_, ref mut t) | Expr::PostDec(_, ref mut t) => {
                self.target(t)
            }
            Expr::Assign(_, ref mut p, ref mut e) => {
                self.patt(p);
                self.expr(e);
            }
            Expr::BinAssign(_, ref mut op, ref mut t, ref mut e) => {
                self.on("Op", op);
                self.target(t);
                self.expr(e);
            }
            Expr::Cond(_, ref mut a, ref mut b, ref mut c) => {
                self.expr(a);
                self.expr(b);
                self.expr(c);
            }
            Expr::Call(_, ref mut e, ref mut a) => {
                self.expr(e);
                a.iter_mut().for_each(|i| self.list_item(i));
            }
            Expr::New(_, ref mut e, ref mut a) => {
                self.expr(e);
                a.iter_mut().for_each(|a| a.iter_mut().for_each(|i| self.list_item(i)));
            }
            Expr::Dot(_, ref mut e, ref mut k) => {
                self.expr(e);
                self.dot_key(k);
            }
            Expr::Brack(_, ref mut e, ref mut p) => {
                self.expr(e);
                self.expr(p);
            }
        }
    }
}
