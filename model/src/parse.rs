//! Reference parser, written from the ECMAScript 2015 syntactic grammar for the part of the
//! language that esprit supports. It reports what it accepts as a tree, what it must reject with
//! the place and kind of the error, and what it has no opinion on.
use crate::lex::{lex, LErr, St, Tok, K};
use crate::node::*;

#[derive(Clone, Debug, PartialEq)]
pub enum PErr {
    /// the offending token starts here
    Syntax(&'static str, usize),
    /// the text is not lexically well-formed
    Lex(&'static str),
    Skip(&'static str),
}

type R<T> = Result<T, PErr>;

/// Something only strict (or module) code forbids.
#[derive(Clone, Debug, PartialEq)]
pub struct Strict {
    pub kind: &'static str, // with, binding, reserved
    pub at: usize,
    pub module_only: bool,
    /// in code that a directive makes strict
    pub definite: bool,
}

#[derive(Clone, Debug)]
pub struct Parsed {
    pub tree: Node,
    /// early errors: kind, offset of the blamed place
    pub early: Vec<(&'static str, usize)>,
    pub strict: Vec<Strict>,
    /// things strict code forbids that this parser does not judge (true: in strict code)
    pub unjudged: Vec<bool>,
    pub use_module: bool,
    pub toks: Vec<(usize, usize)>,
    /// automatic semicolon insertions
    pub inserted: u64,
}

#[derive(Clone, Copy, PartialEq)]
enum LabelKind {
    Statement,
    Loop,
}

struct Ctx {
    strict: bool,
    function: bool,
    generator: bool,
    iteration: bool,
    switch: bool,
    labels: Vec<(String, LabelKind)>,
}

struct P<'a> {
    cs: &'a [char],
    st: St,
    memo: Option<(usize, bool, Tok, St)>,
    end: usize,
    ctx: Ctx,
    early: Vec<(&'static str, usize)>,
    strict: Vec<Strict>,
    unjudged: Vec<bool>,
    toks: Vec<(usize, usize)>,
    inserted: u64,
    depth: usize,
    max_depth: usize,
}

/// An expression, with what the tree does not show.
struct X {
    n: Node,
    paren: bool,
}

fn x(n: Node) -> X {
    X { n, paren: false }
}

pub fn parse(cs: &[char]) -> R<Parsed> {
    parse_deep(cs, 150)
}

pub fn parse_deep(cs: &[char], max_depth: usize) -> R<Parsed> {
    let mut p = P {
        cs,
        st: St::start(),
        memo: None,
        end: 0,
        ctx: Ctx { strict: false, function: false, generator: false, iteration: false, switch: false, labels: vec![] },
        early: vec![],
        strict: vec![],
        unjudged: vec![],
        toks: vec![],
        inserted: 0,
        depth: 0,
        max_depth,
    };
    let (mut tree, use_module) = p.body(true)?;
    let t = p.peek()?;
    if t.k != K::Eof {
        return p.unexpected(&t);
    }
    p.early.sort_by_key(|e| e.1);
    tree.walk_mut(&mut |n| n.f.retain(|f| f.0 != "marks"));
    Ok(Parsed {
        tree,
        early: p.early,
        strict: p.strict,
        unjudged: p.unjudged,
        use_module,
        toks: p.toks,
        inserted: p.inserted,
    })
}

const BINOPS: [(&str, u32); 24] = [
    ("||", 1), ("&&", 2), ("|", 3), ("^", 4), ("&", 5), ("==", 6), ("!=", 6), ("===", 6), ("!==", 6),
    ("<", 7), (">", 7), ("<=", 7), (">=", 7), ("instanceof", 7), ("in", 7), ("<<", 8), (">>", 8),
    (">>>", 8), ("+", 9), ("-", 9), ("*", 10), ("/", 10), ("%", 10), ("", 0),
];

pub const ASSOPS: [&str; 11] = ["+=", "-=", "*=", "/=", "%=", "<<=", ">>=", ">>>=", "&=", "|=", "^="];

const STRICT_WORDS: [&str; 9] =
    ["implements", "interface", "let", "package", "private", "protected", "public", "static", "yield"];

impl<'a> P<'a> {
    fn look(&mut self, operator: bool) -> R<Tok> {
        if let Some((at, op, ref t, _)) = self.memo {
            if at == self.st.pos && op == operator {
                return Ok(t.clone());
            }
        }
        match lex(self.cs, self.st, operator) {
            Ok((t, st)) => {
                self.memo = Some((self.st.pos, operator, t.clone(), st));
                Ok(t)
            }
            Err(LErr::E(c, _)) => Err(PErr::Lex(c)),
            Err(LErr::Skip(s)) => Err(PErr::Skip(s)),
        }
    }
    fn peek(&mut self) -> R<Tok> {
        self.look(false)
    }
    fn peek_op(&mut self) -> R<Tok> {
        self.look(true)
    }
    /// Consumes the token last looked at.
    fn take(&mut self) -> Tok {
        let (_, _, t, st) = self.memo.take().expect("looked at");
        self.st = st;
        if t.k != K::Eof {
            self.end = t.end;
            self.toks.push((t.start, t.end));
        }
        t
    }
    fn unexpected<T>(&self, t: &Tok) -> R<T> {
        Err(PErr::Syntax("unexpected", t.start))
    }
    fn is(&mut self, op: bool, s: &str) -> R<bool> {
        Ok(match self.look(op)?.k {
            K::P(p) => p == s,
            K::Reserved(r) => r == s,
            _ => false,
        })
    }
    fn eat(&mut self, op: bool, s: &str) -> R<bool> {
        if self.is(op, s)? {
            self.take();
            Ok(true)
        } else {
            Ok(false)
        }
    }
    fn expect(&mut self, op: bool, s: &str) -> R<Tok> {
        let t = self.look(op)?;
        if self.is(op, s)? {
            Ok(self.take())
        } else {
            self.unexpected(&t)
        }
    }
    fn contextual(&mut self, op: bool, s: &str) -> R<bool> {
        Ok(match self.look(op)?.k {
            // written with an escape it is an ordinary name
            K::Id { ref text, escaped } => text == s && !escaped,
            _ => false,
        })
    }
    fn down(&mut self) -> R<()> {
        self.depth += 1;
        if self.depth > self.max_depth {
            return Err(PErr::Skip("deep"));
        }
        Ok(())
    }

    // ---- bodies ----

    /// Returns the body and whether it has a "use module" directive.
    fn body(&mut self, top: bool) -> R<(Node, bool)> {
        let start = self.st.pos;
        let mut dirs = vec![];
        let mut items = vec![];
        let mut prologue = true;
        let mut module = false;
        loop {
            let t = self.peek()?;
            if t.k == K::Eof || (!top && t.k == K::P("}")) {
                break;
            }
            if !prologue {
                items.push(self.item()?);
                continue;
            }
            let lone = match t.k {
                K::Str { .. } => true,
                _ => false,
            };
            let n = self.item()?;
            let is_dir = lone
                && n.ty == "ExprStmt"
                && n.n("expr").map_or(false, |e| e.ty == "String" && e.span == Some((t.start, t.end)));
            if !is_dir {
                prologue = false;
                items.push(n);
                continue;
            }
            let raw: String = self.cs[t.start + 1..t.end - 1].iter().collect();
            if raw == "use strict" {
                self.ctx.strict = true;
            }
            if raw == "use module" && top {
                module = true;
            }
            let span = n.span.unwrap();
            let string = n.n("expr").unwrap().get("value").clone();
            dirs.push(
                node("Dir", vec![("string", string), ("raw", V::S(raw)), ("semi", n.get("semi").clone())])
                    .at(span.0, span.1),
            );
        }
        let end = self.peek()?.start;
        Ok((node("Script", vec![("dirs", list(dirs)), ("items", list(items))]).at(start, end), module))
    }

    /// A function body including its braces.
    fn fun_body(&mut self, generator: bool, viols: usize) -> R<Node> {
        let strict = self.ctx.strict;
        let inner = Ctx { strict, function: true, generator, iteration: false, switch: false, labels: vec![] };
        self.expect(false, "{")?;
        let outer = std::mem::replace(&mut self.ctx, inner);
        let here = self.strict.len();
        let b = self.body(false)?.0;
        let became = self.ctx.strict && !strict;
        self.ctx = outer;
        if became {
            // The name and the parameters are strict code as well.
            for v in &mut self.strict[viols..here] {
                v.definite = true;
            }
        }
        self.expect(false, "}")?;
        Ok(b)
    }

    fn item(&mut self) -> R<Node> {
        self.stmt(true)
    }

    // ---- identifiers ----

    fn ident_tok(&mut self, t: &Tok, binding: bool) -> R<Node> {
        let text = match t.k {
            K::Id { ref text, .. } => text.clone(),
            _ => return self.unexpected(t),
        };
        if text == "yield" && self.ctx.generator {
            return Err(PErr::Skip("yield in a generator"));
        }
        let definite = self.ctx.strict;
        let mut viol = |kind, module_only| {
            self.strict.push(Strict { kind, at: t.start, module_only, definite })
        };
        if binding && (text == "eval" || text == "arguments") {
            viol("binding", false);
        }
        if STRICT_WORDS.contains(&text.as_str()) {
            viol("reserved", false);
        }
        if text == "await" {
            viol("reserved", true);
        }
        Ok(node("Id", vec![("name", V::S(text))]).at(t.start, t.end))
    }

    fn binding_id(&mut self) -> R<Node> {
        let t = self.peek()?;
        match t.k {
            K::P("[") | K::P("{") => return Err(PErr::Skip("binding pattern")),
            _ => {}
        }
        let n = self.ident_tok(&t, true)?;
        self.take();
        Ok(n)
    }

    // ---- statements ----

    /// Ends a statement; `optional`: the do-while rule.
    fn semi(&mut self, optional: bool) -> R<V> {
        let t = self.peek_op()?;
        if t.k == K::P(";") {
            self.take();
            return Ok(V::Semi(Some(t.start)));
        }
        if t.k == K::P("}") || t.k == K::Eof || t.newline || optional {
            self.inserted += 1;
            return Ok(V::Semi(None));
        }
        Err(PErr::Syntax("asi", t.start))
    }

    fn finish(&self, n: Node, start: usize) -> Node {
        let end = self.end;
        n.at(start, end)
    }

    fn substmt(&mut self) -> R<Node> {
        self.stmt(false)
    }

    fn loop_body(&mut self) -> R<Node> {
        let was = std::mem::replace(&mut self.ctx.iteration, true);
        let r = self.substmt();
        self.ctx.iteration = was;
        r
    }

    fn stmt(&mut self, decl: bool) -> R<Node> {
        self.down()?;
        let r = self.stmt1(decl);
        self.depth -= 1;
        r
    }

    fn stmt1(&mut self, decl: bool) -> R<Node> {
        let t = self.peek()?;
        let start = t.start;
        match t.k {
            K::P("{") => self.block(),
            K::P(";") => {
                self.take();
                Ok(self.finish(node("Empty", vec![]), start))
            }
            K::Reserved(w) => match w {
                "function" => {
                    if !decl {
                        return self.unexpected(&t);
                    }
                    self.function(true)
                }
                "var" => {
                    self.take();
                    let ds = self.dtors(true)?;
                    let semi = self.semi(false)?;
                    Ok(self.finish(node("Var", vec![("decls", list(ds)), ("semi", semi)]), start))
                }
                "const" => {
                    if !decl {
                        return self.unexpected(&t);
                    }
                    self.take();
                    let ds = self.const_dtors(true)?;
                    let semi = self.semi(false)?;
                    Ok(self.finish(node("Const", vec![("decls", list(ds)), ("semi", semi)]), start))
                }
                "if" => {
                    self.take();
                    let test = self.paren()?;
                    let cons = self.substmt()?;
                    let alt = if self.eat(false, "else")? { Some(self.substmt()?) } else { None };
                    Ok(self.finish(node("If", vec![("test", test.into()), ("cons", cons.into()), ("alt", opt(alt))]), start))
                }
                "continue" | "break" => self.jump(w),
                "return" => {
                    self.take();
                    if !self.ctx.function {
                        self.early.push(("TopLevelReturn", start));
                    }
                    let arg = if self.no_arg()? { None } else { Some(self.expression(true)?) };
                    let semi = self.semi(false)?;
                    Ok(self.finish(node("Return", vec![("arg", opt(arg)), ("semi", semi)]), start))
                }
                "throw" => {
                    self.take();
                    if self.no_arg()? {
                        return Err(PErr::Syntax("ThrowArgument", start));
                    }
                    let arg = self.expression(true)?;
                    let semi = self.semi(false)?;
                    Ok(self.finish(node("Throw", vec![("arg", arg.into()), ("semi", semi)]), start))
                }
                "with" => {
                    self.take();
                    let definite = self.ctx.strict;
                    self.strict.push(Strict { kind: "with", at: start, module_only: false, definite });
                    let o = self.paren()?;
                    let b = self.substmt()?;
                    Ok(self.finish(node("With", vec![("obj", o.into()), ("body", b.into())]), start))
                }
                "switch" => self.switch(),
                "try" => self.try_(),
                "while" => {
                    self.take();
                    let test = self.paren()?;
                    let body = self.loop_body()?;
                    Ok(self.finish(node("While", vec![("test", test.into()), ("body", body.into())]), start))
                }
                "do" => {
                    self.take();
                    let body = self.loop_body()?;
                    self.expect(false, "while")?;
                    let test = self.paren()?;
                    let semi = self.semi(true)?;
                    Ok(self.finish(
                        node("DoWhile", vec![("body", body.into()), ("test", test.into()), ("semi", semi)]),
                        start,
                    ))
                }
                "for" => self.for_(),
                "debugger" => {
                    self.take();
                    let semi = self.semi(false)?;
                    Ok(self.finish(node("Debugger", vec![("semi", semi)]), start))
                }
                "class" | "import" | "export" => Err(PErr::Skip("unsupported syntax")),
                _ => self.expr_stmt(),
            },
            K::Id { ref text, escaped } => {
                let st = self.st;
                let n_toks = self.toks.len();
                let end = self.end;
                self.take();
                let next = self.peek_op()?;
                if next.k == K::P(":") {
                    return self.labelled(t);
                }
                if text == "let" && !escaped {
                    match next.k {
                        K::P("[") if !decl => return self.unexpected(&next),
                        K::P("[") | K::P("{") if decl => return Err(PErr::Skip("binding pattern")),
                        K::Id { text: ref t2, .. } if decl => {
                            if t2 == "let" {
                                return Err(PErr::Skip("let let"));
                            }
                            let ds = self.dtors(true)?;
                            let semi = self.semi(false)?;
                            return Ok(self.finish(node("Let", vec![("decls", list(ds)), ("semi", semi)]), start));
                        }
                        _ => {}
                    }
                }
                self.st = st;
                self.toks.truncate(n_toks);
                self.end = end;
                self.expr_stmt()
            }
            _ => self.expr_stmt(),
        }
    }

    fn expr_stmt(&mut self) -> R<Node> {
        let start = self.peek()?.start;
        let e = self.expression(true)?;
        let semi = self.semi(false)?;
        Ok(self.finish(node("ExprStmt", vec![("expr", e.into()), ("semi", semi)]), start))
    }

    fn block(&mut self) -> R<Node> {
        let start = self.expect(false, "{")?.start;
        let mut items = vec![];
        while !self.is(false, "}")? {
            if self.peek()?.k == K::Eof {
                let t = self.peek()?;
                return self.unexpected(&t);
            }
            items.push(self.item()?);
        }
        self.expect(false, "}")?;
        Ok(self.finish(node("Block", vec![("items", list(items))]), start))
    }

    /// The labels' names, ids and the statement.
    fn labelled(&mut self, first: Tok) -> R<Node> {
        let mut ids = vec![];
        let mut t = first;
        loop {
            let id = self.ident_tok(&t, false)?;
            let name = id.s("name").to_string();
            if self.ctx.labels.iter().any(|l| l.0 == name) {
                self.early.push(("DuplicateLabel", t.start));
            }
            self.ctx.labels.push((name, LabelKind::Statement));
            ids.push(id);
            self.expect(true, ":")?;
            t = self.peek()?;
            if let K::Id { .. } = t.k {
                let st = self.st;
                let n_toks = self.toks.len();
                let end = self.end;
                self.take();
                if self.is(true, ":")? {
                    continue;
                }
                self.st = st;
                self.toks.truncate(n_toks);
                self.end = end;
            }
            break;
        }
        let t = self.peek()?;
        let n = self.ctx.labels.len();
        if let K::Reserved("do") | K::Reserved("while") | K::Reserved("for") = t.k {
            for l in &mut self.ctx.labels[n - ids.len()..] {
                l.1 = LabelKind::Loop;
            }
        }
        let mut body = self.substmt()?;
        self.ctx.labels.truncate(n - ids.len());
        let end = body.span.unwrap().1;
        for id in ids.into_iter().rev() {
            let a = id.span.unwrap().0;
            body = node("Label", vec![("id", id.into()), ("body", body.into())]).at(a, end);
        }
        Ok(body)
    }

    fn no_arg(&mut self) -> R<bool> {
        let st = self.st;
        // The argument may start with a regular expression, but a line terminator or the end
        // of the statement decides before that matters.
        let t = self.peek_op()?;
        self.st = st;
        Ok(t.newline || t.k == K::Eof || t.k == K::P(";") || t.k == K::P("}"))
    }

    fn jump(&mut self, w: &str) -> R<Node> {
        let start = self.take().start;
        let cont = w == "continue";
        let id = if self.no_arg()? {
            if !self.ctx.iteration && (cont || !self.ctx.switch) {
                self.early.push((if cont { "IllegalContinue" } else { "IllegalBreak" }, start));
            }
            None
        } else {
            let t = self.peek()?;
            let id = self.ident_tok(&t, false)?;
            self.take();
            let name = id.s("name").to_string();
            match self.ctx.labels.iter().rev().find(|l| l.0 == name) {
                None => self.early.push(("InvalidLabel", t.start)),
                Some(l) if cont && l.1 == LabelKind::Statement => self.early.push(("InvalidLabelType", t.start)),
                _ => {}
            }
            Some(id)
        };
        let semi = self.semi(false)?;
        Ok(self.finish(node(if cont { "Cont" } else { "Break" }, vec![("id", opt(id)), ("semi", semi)]), start))
    }

    fn switch(&mut self) -> R<Node> {
        let start = self.take().start;
        let disc = self.paren()?;
        self.expect(false, "{")?;
        let was = std::mem::replace(&mut self.ctx.switch, true);
        let mut cases = vec![];
        let mut default = false;
        loop {
            let t = self.peek()?;
            let test = match t.k {
                K::Reserved("case") => {
                    self.take();
                    Some(self.expression(true)?)
                }
                K::Reserved("default") => {
                    self.take();
                    if default {
                        self.early.push(("DuplicateDefault", t.start));
                    }
                    default = true;
                    None
                }
                K::P("}") => break,
                _ => return self.unexpected(&t),
            };
            self.expect(true, ":")?;
            let mut body = vec![];
            loop {
                let t = self.peek()?;
                match t.k {
                    K::Reserved("case") | K::Reserved("default") | K::P("}") => break,
                    K::Eof => return self.unexpected(&t),
                    _ => body.push(self.item()?),
                }
            }
            cases.push(self.finish(node("Case", vec![("test", opt(test)), ("body", list(body))]), t.start));
        }
        self.ctx.switch = was;
        self.expect(false, "}")?;
        Ok(self.finish(node("Switch", vec![("disc", disc.into()), ("cases", list(cases))]), start))
    }

    fn try_(&mut self) -> R<Node> {
        let start = self.take().start;
        let block = self.block()?;
        let t = self.peek()?;
        let mut catch = None;
        let mut finally = None;
        match t.k {
            K::Reserved("catch") => {
                self.take();
                if self.is(false, "{")? {
                    return Err(PErr::Skip("catch without binding"));
                }
                self.expect(false, "(")?;
                let param = self.binding_id()?;
                self.expect(true, ")")?;
                let body = self.block()?;
                catch = Some(self.finish(node("Catch", vec![("param", param.into()), ("body", body.into())]), t.start));
            }
            K::Reserved("finally") => {}
            _ => return Err(PErr::Syntax("OrphanTry", t.start)),
        }
        if self.eat(false, "finally")? {
            finally = Some(self.block()?);
        }
        Ok(self.finish(
            node("Try", vec![("block", block.into()), ("catch", opt(catch)), ("finally", opt(finally))]),
            start,
        ))
    }

    /// `id [= init]`
    fn dtor(&mut self, allow_in: bool) -> R<Node> {
        let t = self.peek()?;
        let id = self.binding_id()?;
        let init = if self.eat(true, "=")? { Some(self.assignment(allow_in)?) } else { None };
        Ok(self.finish(node("Dtor", vec![("id", id.into()), ("init", opt(init.map(|x| x.n)))]), t.start))
    }

    fn dtors(&mut self, allow_in: bool) -> R<Vec<Node>> {
        let mut ds = vec![self.dtor(allow_in)?];
        while self.eat(true, ",")? {
            ds.push(self.dtor(allow_in)?);
        }
        Ok(ds)
    }

    fn const_dtors(&mut self, allow_in: bool) -> R<Vec<Node>> {
        let mut ds = vec![];
        loop {
            let t = self.peek()?;
            let id = self.binding_id()?;
            self.expect(true, "=")?;
            let v = self.assignment(allow_in)?.n;
            let end = v.span.unwrap().1;
            ds.push(node("ConstDtor", vec![("patt", id.into()), ("value", v.into())]).at(t.start, end));
            if !self.eat(true, ",")? {
                return Ok(ds);
            }
        }
    }

    fn for_(&mut self) -> R<Node> {
        let start = self.take().start;
        self.expect(false, "(")?;
        let t = self.peek()?;
        let hs = t.start;
        let mut kind = "";
        match t.k {
            K::P(";") => {
                self.take();
                return self.for_rest(start, None);
            }
            K::Reserved("var") => {
                self.take();
                kind = "var";
            }
            K::Reserved("const") => {
                self.take();
                kind = "const";
            }
            K::Id { ref text, escaped: false } if text == "let" => {
                let st = self.st;
                let n_toks = self.toks.len();
                let end = self.end;
                self.take();
                let next = self.peek_op()?;
                match next.k {
                    K::P("[") | K::P("{") => return Err(PErr::Skip("binding pattern")),
                    K::Id { text: ref t2, .. } => {
                        if t2 == "let" {
                            return Err(PErr::Skip("let let"));
                        }
                        kind = "let";
                    }
                    _ => {
                        self.st = st;
                        self.toks.truncate(n_toks);
                        self.end = end;
                    }
                }
            }
            _ => {}
        }
        if kind == "" {
            return self.for_expr(start, &t);
        }
        let (h, hin) = match kind {
            "var" => ("ForVar", "HVar"),
            "let" => ("ForLet", "HLet"),
            _ => ("ForConst", "HConst"),
        };
        let id = self.binding_id()?;
        let ids = id.span.unwrap();
        let next = self.peek_op()?;
        if self.is(true, "in")? {
            self.take();
            let left = node(hin, vec![("patt", id.into())]).at(hs, ids.1);
            return self.for_in(start, left);
        }
        if self.contextual(true, "of")? {
            self.take();
            let left = node(hin, vec![("patt", id.into())]).at(hs, ids.1);
            return self.for_of(start, left);
        }
        let mut ds = vec![];
        let first_in = next.k == K::P("=");
        if kind == "const" {
            self.expect(true, "=")?;
            let v = self.assignment(false)?.n;
            let e = v.span.unwrap().1;
            ds.push(node("ConstDtor", vec![("patt", id.into()), ("value", v.into())]).at(ids.0, e));
            if self.eat(true, ",")? {
                ds.extend(self.const_dtors(false)?);
            }
        } else {
            let init = if first_in {
                self.take();
                Some(self.assignment(false)?.n)
            } else {
                None
            };
            if kind == "var" && init.is_some() && self.is(true, "in")? {
                self.unjudged.push(self.ctx.strict);
                self.take();
                let init = init.unwrap();
                let e = init.span.unwrap().1;
                let left = node("HVarInit", vec![("id", id.into()), ("init", init.into())]).at(hs, e);
                return self.for_in(start, left);
            }
            // the first declarator: its last expression token, without parentheses
            let e = init.as_ref().map_or(ids.1, |i| i.span.unwrap().1);
            ds.push(node("Dtor", vec![("id", id.into()), ("init", opt(init))]).at(ids.0, e));
            if self.eat(true, ",")? {
                ds.extend(self.dtors(false)?);
            }
        }
        let t = self.peek_op()?;
        self.expect(true, ";")?;
        let head = node(h, vec![("decls", list(ds))]).at(hs, t.end);
        self.for_rest(start, Some(head))
    }

    fn for_expr(&mut self, start: usize, first: &Tok) -> R<Node> {
        let e = self.expr_x(false)?;
        let es = e.n.span.unwrap();
        let t = self.peek_op()?;
        if t.k == K::P(";") {
            self.take();
            let head = node("ForExpr", vec![("expr", e.n.into())]).at(es.0, t.end);
            return self.for_rest(start, Some(head));
        }
        let of = self.contextual(true, "of")?;
        if !of && !self.is(true, "in")? {
            return self.unexpected(&t);
        }
        if of {
            if let K::Id { ref text, escaped: false } = first.k {
                if text == "let" {
                    self.early.push(("ForOfLet", first.start));
                }
            }
        }
        self.take();
        let left = self.to_patt(e)?;
        if of {
            self.for_of(start, left)
        } else {
            self.for_in(start, left)
        }
    }

    fn for_rest(&mut self, start: usize, head: Option<Node>) -> R<Node> {
        let test = if self.eat(false, ";")? {
            None
        } else {
            let e = self.expression(true)?;
            self.expect(true, ";")?;
            Some(e)
        };
        let update = if self.eat(false, ")")? {
            None
        } else {
            let e = self.expression(true)?;
            self.expect(true, ")")?;
            Some(e)
        };
        let body = self.loop_body()?;
        Ok(self.finish(
            node("For", vec![("init", opt(head)), ("test", opt(test)), ("update", opt(update)), ("body", body.into())]),
            start,
        ))
    }

    fn for_in(&mut self, start: usize, left: Node) -> R<Node> {
        let right = self.expression(true)?;
        self.expect(true, ")")?;
        let body = self.loop_body()?;
        Ok(self.finish(node("ForIn", vec![("left", left.into()), ("right", right.into()), ("body", body.into())]), start))
    }

    fn for_of(&mut self, start: usize, left: Node) -> R<Node> {
        let right = self.assignment(true)?.n;
        self.expect(true, ")")?;
        let body = self.loop_body()?;
        Ok(self.finish(node("ForOf", vec![("left", left.into()), ("right", right.into()), ("body", body.into())]), start))
    }

    fn paren(&mut self) -> R<Node> {
        self.expect(false, "(")?;
        let e = self.expression(true)?;
        self.expect(true, ")")?;
        Ok(e)
    }

    // ---- functions ----

    fn function(&mut self, decl: bool) -> R<Node> {
        let start = self.take().start;
        let gen = self.eat(false, "*")?;
        let viols = self.strict.len();
        let t = self.peek()?;
        let named = match t.k {
            K::Id { .. } => true,
            _ => false,
        };
        let id = if decl || named {
            if let K::Id { ref text, .. } = t.k {
                if gen && text == "yield" {
                    return Err(PErr::Skip("yield in a generator"));
                }
            }
            let n = self.ident_tok(&t, true)?;
            self.take();
            Some(n)
        } else {
            None
        };
        let params = self.params(gen)?;
        let body = self.fun_body(gen, viols)?;
        Ok(self.finish(
            node(
                if decl { "FunDecl" } else { "FunExpr" },
                vec![("id", opt(id)), ("params", params.into()), ("body", body.into()), ("gen", V::B(gen))],
            ),
            start,
        ))
    }

    fn param(&mut self, gen: bool) -> R<Node> {
        let was = std::mem::replace(&mut self.ctx.generator, gen);
        let r = self.binding_id();
        self.ctx.generator = was;
        let n = r?;
        if self.is(true, "=")? {
            return Err(PErr::Skip("default parameter"));
        }
        Ok(n)
    }

    fn params(&mut self, gen: bool) -> R<Node> {
        let start = self.expect(false, "(")?.start;
        let mut ps = vec![];
        let mut rest = None;
        if !self.is(false, ")")? {
            loop {
                let t = self.peek()?;
                if t.k == K::P("...") {
                    self.take();
                    let patt = self.param(gen)?;
                    rest = Some(self.finish(node("Rest", vec![("patt", patt.into())]), t.start));
                    break;
                }
                if t.k == K::P(")") {
                    return Err(PErr::Skip("trailing comma"));
                }
                ps.push(self.param(gen)?);
                if !self.eat(true, ",")? {
                    break;
                }
            }
        }
        self.expect(true, ")")?;
        Ok(self.finish(node("Params", vec![("list", list(ps)), ("rest", opt(rest))]), start))
    }

    // ---- expressions ----

    fn expression(&mut self, allow_in: bool) -> R<Node> {
        Ok(self.expr_x(allow_in)?.n)
    }

    fn expr_x(&mut self, allow_in: bool) -> R<X> {
        let first = self.assignment(allow_in)?;
        if !self.is(true, ",")? {
            return Ok(first);
        }
        let a = first.n.span.unwrap().0;
        let mut l = vec![first.n];
        while self.eat(true, ",")? {
            l.push(self.assignment(allow_in)?.n);
        }
        let b = l[l.len() - 1].span.unwrap().1;
        Ok(x(node("Seq", vec![("list", list(l))]).at(a, b)))
    }

    fn assignment(&mut self, allow_in: bool) -> R<X> {
        self.down()?;
        let r = self.assignment1(allow_in);
        self.depth -= 1;
        r
    }

    fn assignment1(&mut self, allow_in: bool) -> R<X> {
        let left = self.conditional(allow_in)?;
        let t = self.peek_op()?;
        match t.k {
            K::P("=") => {
                let patt = self.to_patt(left)?;
                self.look(true)?;
                self.take();
                let right = self.assignment(allow_in)?.n;
                let (a, b) = (patt.span.unwrap().0, right.span.unwrap().1);
                Ok(x(node("Assign", vec![("left", patt.into()), ("right", right.into())]).at(a, b)))
            }
            K::P("=>") => Err(PErr::Skip("arrow function")),
            K::P(p) if ASSOPS.contains(&p) => {
                let target = self.to_target(left)?;
                self.look(true)?;
                self.take();
                let right = self.assignment(allow_in)?.n;
                let (a, b) = (target.span.unwrap().0, right.span.unwrap().1);
                let op = node("Op", vec![("tag", V::S(p.to_string()))]).at(t.start, t.end);
                Ok(x(node("BinAssign", vec![("op", op.into()), ("left", target.into()), ("right", right.into())]).at(a, b)))
            }
            _ => Ok(left),
        }
    }

    /// Checks a simple assignment target.
    fn to_target(&mut self, e: X) -> R<Node> {
        let at = e.n.span.unwrap().0;
        match e.n.ty {
            "Id" => {
                let name = e.n.s("name");
                if name == "eval" || name == "arguments" {
                    self.unjudged.push(self.ctx.strict);
                }
            }
            "Dot" | "Brack" => {}
            _ => self.early.push(("InvalidLHS", at)),
        }
        Ok(e.n)
    }

    fn to_patt(&mut self, e: X) -> R<Node> {
        match e.n.ty {
            "Arr" | "Obj" => {
                if e.paren {
                    self.early.push(("ParenPattern", e.n.span.unwrap().0));
                }
                self.patt(e.n)
            }
            _ => self.to_target(e),
        }
    }

    /// Converts a literal (marks made by `array` and `object` tell what the tree does not).
    fn patt(&mut self, n: Node) -> R<Node> {
        let (a, b) = n.span.unwrap();
        let marks = n.get("marks").clone();
        let marks = match marks {
            V::L(l) => l,
            _ => vec![],
        };
        let paren = |i: usize| marks.get(i) == Some(&V::S("paren".to_string()));
        if marks.contains(&V::S("comma".to_string())) {
            self.early.push(("RestComma", a));
        }
        let of = |p: &mut Self, n: Node, par: bool| -> R<Node> {
            if n.ty == "Assign" && !par {
                return Err(PErr::Skip("default in a pattern"));
            }
            p.to_patt(X { n, paren: par })
        };
        if n.ty == "Arr" {
            let elts = match n.get("elts").clone() {
                V::L(l) => l,
                _ => unreachable!(),
            };
            let last = elts.len();
            let mut out = vec![];
            let mut rest = None;
            for (i, e) in elts.into_iter().enumerate() {
                match e {
                    V::N(e) if e.ty == "Spread" => {
                        let span = e.span.unwrap();
                        if i + 1 != last {
                            self.early.push(("InvalidLHS", span.0));
                            continue;
                        }
                        let inner = e.n("arg").unwrap().clone();
                        if inner.ty == "Assign" && !paren(i) {
                            self.early.push(("InvalidLHS", inner.span.unwrap().0));
                            continue;
                        }
                        let p = of(self, inner, paren(i))?;
                        rest = Some(node("Rest", vec![("patt", p.into())]).at(span.0, span.1));
                    }
                    V::N(e) => out.push(V::from(of(self, *e, paren(i))?)),
                    e => out.push(e),
                }
            }
            return Ok(node("ArrPatt", vec![("elts", V::L(out)), ("rest", opt(rest))]).at(a, b));
        }
        let props = match n.get("props").clone() {
            V::L(l) => l,
            _ => unreachable!(),
        };
        let mut out = vec![];
        for (i, q) in props.into_iter().enumerate() {
            let q = match q {
                V::N(q) => *q,
                _ => unreachable!(),
            };
            let span = q.span;
            match q.ty {
                "Init" => {
                    let p = of(self, q.n("value").unwrap().clone(), paren(i))?;
                    let mut m = node("PropPatt", vec![("key", q.get("key").clone()), ("patt", p.into())]);
                    m.span = span;
                    out.push(V::from(m));
                }
                "Short" => {
                    let id = q.n("id").unwrap();
                    if id.s("name") == "eval" || id.s("name") == "arguments" {
                        self.unjudged.push(self.ctx.strict);
                    }
                    out.push(V::from(q));
                }
                _ => {
                    self.early.push(("InvalidLHS", span.unwrap().0));
                    out.push(V::from(q));
                }
            }
        }
        Ok(node("ObjPatt", vec![("props", V::L(out))]).at(a, b))
    }

    fn conditional(&mut self, allow_in: bool) -> R<X> {
        let test = self.binary(1, allow_in)?;
        if !self.eat(true, "?")? {
            return Ok(test);
        }
        let t = self.peek()?;
        if t.k == K::P(".") {
            return Err(PErr::Skip("optional chaining"));
        }
        let cons = self.assignment(true)?.n;
        self.expect(true, ":")?;
        let alt = self.assignment(allow_in)?.n;
        let (a, b) = (test.n.span.unwrap().0, alt.span.unwrap().1);
        Ok(x(node("Cond", vec![("test", test.n.into()), ("cons", cons.into()), ("alt", alt.into())]).at(a, b)))
    }

    /// Binary operators of at least this precedence, by precedence climbing.
    fn binary(&mut self, min: u32, allow_in: bool) -> R<X> {
        let mut left = self.unary()?;
        loop {
            let t = self.peek_op()?;
            let w = match t.k {
                K::P(p) => p,
                K::Reserved(r) => r,
                _ => return Ok(left),
            };
            let prec = match BINOPS.iter().find(|b| b.0 == w) {
                Some(b) if b.1 >= min && (w != "in" || allow_in) => b.1,
                _ => return Ok(left),
            };
            self.take();
            let right = self.binary(prec + 1, allow_in)?;
            let (a, b) = (left.n.span.unwrap().0, right.n.span.unwrap().1);
            let op = node("Op", vec![("tag", V::S(w.to_string()))]).at(t.start, t.end);
            left = x(node(
                if prec <= 2 { "Logop" } else { "Binop" },
                vec![("op", op.into()), ("left", left.n.into()), ("right", right.n.into())],
            )
            .at(a, b));
        }
    }

    fn unary(&mut self) -> R<X> {
        self.down()?;
        let r = self.unary1();
        self.depth -= 1;
        r
    }

    fn unary1(&mut self) -> R<X> {
        let t = self.peek()?;
        let w = match t.k {
            K::P(p) => p,
            K::Reserved(r) => r,
            _ => "",
        };
        match w {
            "++" | "--" => {
                self.take();
                let arg = self.unary()?;
                let b = arg.n.span.unwrap().1;
                let target = self.to_target(arg)?;
                Ok(x(node(if w == "++" { "PreInc" } else { "PreDec" }, vec![("arg", target.into())]).at(t.start, b)))
            }
            "delete" | "void" | "typeof" | "+" | "-" | "~" | "!" => {
                self.take();
                let arg = self.unary()?;
                if w == "delete" && arg.n.ty == "Id" {
                    self.unjudged.push(self.ctx.strict);
                }
                let b = arg.n.span.unwrap().1;
                let op = node("Op", vec![("tag", V::S(w.to_string()))]).at(t.start, t.end);
                Ok(x(node("Unop", vec![("op", op.into()), ("arg", arg.n.into())]).at(t.start, b)))
            }
            _ => {
                let arg = self.lhs()?;
                let t = self.peek_op()?;
                if !t.newline && (t.k == K::P("++") || t.k == K::P("--")) {
                    let inc = t.k == K::P("++");
                    let a = arg.n.span.unwrap().0;
                    let target = self.to_target(arg)?;
                    self.look(true)?;
                    self.take();
                    return Ok(x(node(if inc { "PostInc" } else { "PostDec" }, vec![("arg", target.into())]).at(a, t.end)));
                }
                Ok(arg)
            }
        }
    }

    fn lhs(&mut self) -> R<X> {
        let mut e = if self.is(false, "new")? { self.new_()? } else { self.primary()? };
        loop {
            let t = self.peek_op()?;
            e = match t.k {
                K::P(".") | K::P("[") => self.member(e)?,
                K::P("(") => {
                    let args = self.args()?;
                    let (a, b) = (e.n.span.unwrap().0, self.end);
                    x(node("Call", vec![("callee", e.n.into()), ("args", args)]).at(a, b))
                }
                _ => return Ok(e),
            };
        }
    }

    /// NewExpression / MemberExpression starting with `new`.
    fn new_(&mut self) -> R<X> {
        self.down()?;
        let r = self.new1();
        self.depth -= 1;
        r
    }

    fn new1(&mut self) -> R<X> {
        let start = self.take().start;
        if self.is(true, ".")? {
            self.take();
            let t = self.peek()?;
            if !self.contextual(false, "target")? {
                return self.unexpected(&t);
            }
            self.take();
            if !self.ctx.function {
                return Err(PErr::Skip("new.target at top level"));
            }
            return Ok(x(node("NewTarget", vec![]).at(start, t.end)));
        }
        let mut e = if self.is(false, "new")? { self.new_()? } else { self.primary()? };
        loop {
            let t = self.peek_op()?;
            match t.k {
                K::P(".") | K::P("[") => e = self.member(e)?,
                _ => break,
            }
        }
        let (args, end) = if self.is(true, "(")? {
            let args = self.args()?;
            (args, self.end)
        } else {
            (V::L(vec![]), e.n.span.unwrap().1)
        };
        Ok(x(node("New", vec![("callee", e.n.into()), ("args", args)]).at(start, end)))
    }

    fn member(&mut self, obj: X) -> R<X> {
        let a = obj.n.span.unwrap().0;
        let t = self.look(true)?;
        self.take();
        if t.k == K::P(".") {
            let t = self.peek()?;
            let name = match t.k {
                K::Id { ref text, .. } => text.clone(),
                K::Reserved(r) => r.to_string(),
                _ => return self.unexpected(&t),
            };
            self.take();
            let key = node("Key", vec![("value", V::S(name))]).at(t.start, t.end);
            return Ok(x(node("Dot", vec![("obj", obj.n.into()), ("key", key.into())]).at(a, t.end)));
        }
        let prop = self.expression(true)?;
        let b = self.expect(true, "]")?.end;
        Ok(x(node("Brack", vec![("obj", obj.n.into()), ("prop", prop.into())]).at(a, b)))
    }

    fn spread(&mut self) -> R<(Node, bool)> {
        let t = self.peek()?;
        if t.k == K::P("...") {
            self.take();
            let e = self.assignment(true)?;
            return Ok((self.finish(node("Spread", vec![("arg", e.n.into())]), t.start), e.paren));
        }
        let e = self.assignment(true)?;
        Ok((e.n, e.paren))
    }

    fn args(&mut self) -> R<V> {
        self.expect(true, "(")?;
        let mut l = vec![];
        if !self.is(false, ")")? {
            loop {
                l.push(self.spread()?.0);
                if !self.eat(true, ",")? {
                    break;
                }
                if self.is(false, ")")? {
                    return Err(PErr::Skip("trailing comma"));
                }
            }
        }
        self.expect(true, ")")?;
        Ok(list(l))
    }

    fn primary(&mut self) -> R<X> {
        let t = self.peek()?;
        let (a, b) = (t.start, t.end);
        let leaf = |n: Node| Ok(x(n.at(a, b)));
        match t.k {
            K::Id { .. } => {
                let n = self.ident_tok(&t, false)?;
                self.take();
                Ok(x(n))
            }
            K::Num { value } => {
                self.take();
                leaf(node("Number", vec![("value", V::Num(value))]))
            }
            K::Str { ref value } => {
                self.take();
                leaf(node("String", vec![("value", V::Str(value.clone()))]))
            }
            K::Re { ref pattern, ref flags } => {
                self.take();
                let mut f = flags.clone();
                f.sort();
                leaf(node(
                    "RegExp",
                    vec![("pattern", V::S(pattern.clone())), ("flags", V::S(f.into_iter().collect()))],
                ))
            }
            K::Reserved(w) => match w {
                "this" => {
                    self.take();
                    leaf(node("This", vec![]))
                }
                "null" => {
                    self.take();
                    leaf(node("NullLit", vec![]))
                }
                "true" => {
                    self.take();
                    leaf(node("True", vec![]))
                }
                "false" => {
                    self.take();
                    leaf(node("False", vec![]))
                }
                "function" => Ok(x(self.function(false)?)),
                "class" | "super" | "import" => Err(PErr::Skip("unsupported syntax")),
                _ => self.unexpected(&t),
            },
            K::P("(") => {
                self.take();
                if let K::P(")") | K::P("...") = self.peek()?.k {
                    let t = self.peek()?;
                    // only an arrow function could start like this
                    return self.unexpected(&t);
                }
                let mut e = self.expr_x(true)?;
                self.expect(true, ")")?;
                e.paren = true;
                Ok(e)
            }
            K::P("[") => self.array(),
            K::P("{") => self.object(),
            _ => self.unexpected(&t),
        }
    }

    fn array(&mut self) -> R<X> {
        let start = self.take().start;
        let mut elts = vec![];
        let mut marks = vec![];
        loop {
            let t = self.peek()?;
            match t.k {
                K::P("]") => break,
                K::P(",") => {
                    self.take();
                    elts.push(V::Null);
                    marks.push(V::Null);
                    continue;
                }
                _ => {}
            }
            let (n, paren) = self.spread()?;
            let spread = n.ty == "Spread";
            elts.push(V::from(n));
            marks.push(if paren { V::S("paren".to_string()) } else { V::Null });
            if !self.eat(true, ",")? {
                break;
            }
            if spread && self.is(false, "]")? {
                marks.push(V::S("comma".to_string()));
            }
        }
        self.expect(true, "]")?;
        let n = node("Arr", vec![("elts", V::L(elts)), ("marks", V::L(marks))]);
        Ok(x(self.finish(n, start)))
    }

    fn object(&mut self) -> R<X> {
        let start = self.take().start;
        let mut props = vec![];
        let mut marks = vec![];
        loop {
            if self.is(false, "}")? {
                break;
            }
            let (n, paren) = self.property()?;
            props.push(n);
            marks.push(if paren { V::S("paren".to_string()) } else { V::Null });
            if !self.eat(false, ",")? {
                break;
            }
        }
        self.expect(false, "}")?;
        let n = node("Obj", vec![("props", list(props)), ("marks", V::L(marks))]);
        Ok(x(self.finish(n, start)))
    }

    fn key_of(&self, t: &Tok) -> Option<Node> {
        Some(
            match t.k {
                K::Id { ref text, .. } => node("KeyId", vec![("name", V::S(text.clone()))]),
                K::Reserved(r) => node("KeyId", vec![("name", V::S(r.to_string()))]),
                K::Str { ref value } => node("KeyStr", vec![("value", V::Str(value.clone()))]),
                K::Num { value } => node("KeyNum", vec![("value", V::Num(value))]),
                _ => return None,
            }
            .at(t.start, t.end),
        )
    }

    fn key(&mut self) -> R<Node> {
        let t = self.peek()?;
        match self.key_of(&t) {
            Some(k) => {
                self.take();
                Ok(k)
            }
            None if t.k == K::P("[") => Err(PErr::Skip("computed key")),
            None => self.unexpected(&t),
        }
    }

    fn method(&mut self, key: Node, start: usize, gen: bool) -> R<Node> {
        let viols = self.strict.len();
        let params = self.params(gen)?;
        let body = self.fun_body(gen, viols)?;
        Ok(self.finish(
            node("Method", vec![("key", key.into()), ("params", params.into()), ("body", body.into()), ("gen", V::B(gen))]),
            start,
        ))
    }

    /// The property and whether its value is parenthesized.
    fn property(&mut self) -> R<(Node, bool)> {
        let t = self.peek()?;
        let start = t.start;
        match t.k {
            K::P("*") => {
                self.take();
                let key = self.key()?;
                return Ok((self.method(key, start, true)?, false));
            }
            K::P("...") => return Err(PErr::Skip("object spread")),
            _ => {}
        }
        let key = self.key()?;
        let accessor = match t.k {
            K::Id { ref text, escaped: false } if text == "get" || text == "set" => Some(text == "get"),
            _ => None,
        };
        let next = self.peek()?;
        match next.k {
            K::P(":") => {
                self.take();
                let v = self.assignment(true)?;
                let b = v.n.span.unwrap().1;
                return Ok((node("Init", vec![("key", key.into()), ("value", v.n.into())]).at(start, b), v.paren));
            }
            K::P("(") => return Ok((self.method(key, start, false)?, false)),
            K::P(",") | K::P("}") => {
                if let K::Id { .. } = t.k {
                    let id = self.ident_tok(&t, false)?;
                    return Ok((node("Short", vec![("id", id.into())]).at(t.start, t.end), false));
                }
                if let K::Reserved(_) = t.k {
                    return Err(PErr::Syntax("unexpected", t.start));
                }
                return self.unexpected(&next);
            }
            _ => {}
        }
        if let Some(get) = accessor {
            let key = match self.key_of(&next) {
                Some(k) => k,
                None if next.k == K::P("[") => return Err(PErr::Skip("computed key")),
                None if next.k == K::P("=") => return Err(PErr::Skip("cover initialized name")),
                None => return self.unexpected(&next),
            };
            self.take();
            let viols = self.strict.len();
            let vs = self.expect(true, "(")?.start;
            if get {
                self.expect(false, ")")?;
                let body = self.fun_body(false, viols)?;
                let val = self.finish(node("GetVal", vec![("body", body.into())]), vs);
                return Ok((self.finish(node("Get", vec![("key", key.into()), ("val", val.into())]), start), false));
            }
            let param = self.param(false)?;
            if self.is(true, ",")? {
                let t = self.peek_op()?;
                return self.unexpected(&t);
            }
            self.expect(true, ")")?;
            let body = self.fun_body(false, viols)?;
            let val = self.finish(node("SetVal", vec![("param", param.into()), ("body", body.into())]), vs);
            return Ok((self.finish(node("Set", vec![("key", key.into()), ("val", val.into())]), start), false));
        }
        match (&t.k, &next.k) {
            (K::Id { .. }, K::P("=")) => Err(PErr::Skip("cover initialized name")),
            (K::Id { ref text, .. }, _) if text == "async" => Err(PErr::Skip("async method")),
            _ => self.unexpected(&next),
        }
    }
}
