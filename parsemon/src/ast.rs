//! The tree itself: locations, equality, operators, conversions.
use crate::bad;
use crate::convert::View;
use crate::gen::*;
use crate::run::{self, Out};
use crate::walk::Walk;
use easter::cover::{Error as Cover, IntoAssignPatt, IntoAssignProp, IntoAssignTarget};
use easter::decl::{ConstDtor, Decl, Dtor, DtorExt, Export, Import};
use easter::expr::{Expr, ExprListItem};
use easter::fun::{Fun, Params};
use easter::id::{Id, IdExt};
use easter::obj::{Prop, PropVal};
use easter::patt::{AssignTarget, CompoundPatt, Patt, PropPatt, RestPatt};
use easter::punc::*;
use easter::stmt::*;
use joker::token::{StringLiteral, Token, TokenData};
use joker::track::{span, Posn, Span, TrackingMut, TrackingRef, Untrack};
use joker::word::{Name, Reserved};
use model::genprog::{self, PLAIN};
use model::harness::{guard, Case, Obs, Prop as Monitor, Verdict};
use model::node::{list, node, opt, Diff, Node, V};
use model::rng::Rng;
use std::fmt::Display;
use std::str::FromStr;

// ---- C15: locations can be removed, read and set ----

fn id_patt(p: &Patt<AssignTarget>) -> Option<Patt<Id>> {
    Some(match *p {
        Patt::Simple(AssignTarget::Id(ref i)) => Patt::Simple(i.clone()),
        Patt::Simple(_) => return None,
        Patt::Compound(ref c) => Patt::Compound(match *c {
            CompoundPatt::Arr(l, ref es, ref r) => {
                let mut v = vec![];
                for e in es {
                    v.push(match *e {
                        Some(ref p) => Some(id_patt(p)?),
                        None => None,
                    });
                }
                let r = match *r {
                    Some(ref r) => Some(Box::new(RestPatt { location: r.location, patt: id_patt(&r.patt)? })),
                    None => None,
                };
                CompoundPatt::Arr(l, v, r)
            }
            CompoundPatt::Obj(l, ref ps) => {
                let mut v = vec![];
                for p in ps {
                    v.push(match *p {
                        PropPatt::Regular(l, ref k, ref p) => PropPatt::Regular(l, k.clone(), id_patt(p)?),
                        PropPatt::Shorthand(ref i) => PropPatt::Shorthand(i.clone()),
                    });
                }
                CompoundPatt::Obj(l, v)
            }
        }),
    })
}

/// The nodes that the parser never builds, from a statement `PATTERN = EXPR`.
fn graft(s: &Script) -> Option<Module> {
    let (patt, value) = match s.items.get(0) {
        Some(&StmtListItem::Stmt(Stmt::Expr(_, Expr::Assign(_, ref p, ref e), _))) => (id_patt(p)?, (**e).clone()),
        _ => return None,
    };
    let l = s.location;
    let semi = Semi::Explicit(l.map(|l| l.end));
    let body = Script { location: l, dirs: s.dirs.clone(), items: s.items.clone() };
    let lit = StringLiteral { source: Some("'m'".to_string()), value: "m".to_string() };
    let fun = |id: Id| Fun {
        location: l,
        id,
        params: Params {
            location: l,
            list: vec![patt.clone(), patt.clone()],
            rest: Some(RestPatt { location: l, patt: patt.clone() }),
        },
        body: body.clone(),
        generator: true,
    };
    let block = Block { location: l, items: s.items.clone() };
    let id = Id::new(Name::from("f".to_string()), l);
    let b = || Box::new(Stmt::Empty(l));
    let e = || value.clone();
    let dtors = || vec![Dtor::from_init(patt.clone(), value.clone()), Dtor::Simple(l, id.clone(), Some(value.clone()))];
    let const_dtors = || vec![ConstDtor::from_init(patt.clone(), value.clone())];
    let stmts = vec![
        Stmt::Var(l, dtors(), semi),
        Stmt::Try(l, block.clone(), Some(Box::new(Catch { location: l, param: patt.clone(), body: block.clone() })), Some(block)),
        Stmt::ForIn(l, Box::new(ForInHead::Var(l, patt.clone())), e(), b()),
        Stmt::ForIn(l, Box::new(ForInHead::Let(l, patt.clone())), e(), b()),
        Stmt::ForIn(l, Box::new(ForInHead::Const(l, patt.clone())), e(), b()),
        Stmt::ForOf(l, Box::new(ForOfHead::Var(l, patt.clone())), e(), b()),
        Stmt::ForOf(l, Box::new(ForOfHead::Let(l, patt.clone())), e(), b()),
        Stmt::ForOf(l, Box::new(ForOfHead::Const(l, patt.clone())), e(), b()),
        Stmt::For(l, Some(Box::new(ForHead::Const(l, const_dtors()))), None, None, b()),
        Stmt::For(l, Some(Box::new(ForHead::Let(l, dtors()))), None, None, b()),
        Stmt::For(l, Some(Box::new(ForHead::Var(l, dtors()))), None, None, b()),
    ];
    let key = |t: &str| easter::obj::PropKey::Id(l, t.to_string());
    let set = Expr::Obj(l, vec![Prop::Regular(l, key("k"), PropVal::Set(l, patt.clone(), body.clone()))]);
    let mut items: Vec<ModItem> = stmts.into_iter().map(|s| ModItem::StmtListItem(StmtListItem::Stmt(s))).collect();
    items.push(ModItem::StmtListItem(StmtListItem::Stmt(Stmt::Expr(l, set, semi))));
    items.push(ModItem::StmtListItem(StmtListItem::Decl(Decl::Fun(fun(id.clone())))));
    items.push(ModItem::StmtListItem(StmtListItem::Decl(Decl::Let(l, dtors(), semi))));
    items.push(ModItem::Import(Import::ForEffect(l, lit)));
    items.push(ModItem::Export(Export::Var(l, dtors(), semi)));
    items.push(ModItem::Export(Export::Decl(Decl::Const(l, const_dtors(), semi))));
    items.push(ModItem::Export(Export::Decl(Decl::Fun(fun(id.clone())))));
    Some(Module { location: l, dirs: s.dirs.clone(), items })
}

pub fn out_of(c: &Case) -> Result<Out, Verdict> {
    let mode = if c.mode == "graft" { "script" } else { &c.mode[..] };
    match guard(|| run::run(mode, c.text())) {
        Err(m) => Err(bad(m)),
        Ok(Err(_)) => Err(Verdict::Skip("not accepted")),
        Ok(Ok(Out::Script(ref s))) if c.mode == "graft" => match graft(s) {
            Some(m) => Ok(Out::Module(m)),
            None => Err(Verdict::Skip("not an assignment to a pattern of identifiers")),
        },
        Ok(Ok(o)) => Ok(o),
    }
}

fn c15_gen(r: &mut Rng, deep: bool) -> Case {
    if r.chance(1, 5) {
        return Case::new("graft", format!("{} = {}", patt_text(r, 3, 0), ["x", "f(y)", "{a:[b]}", "1", "function(){ z }"][r.below(5)]));
    }
    Case::new(r.pick(&["script", "script", "module", "program", "strict"]), program(r, deep))
}

fn c15_fixed(_: bool) -> Vec<Case> {
    let mut out = corpus_cases("script module program graft");
    for p in ["[a]", "[a, b]", "[a,, b]", "[]", "[...a]", "[a, ...[b]]", "[[a], { b }]"].iter() {
        out.push(Case::new("graft", format!("{} = x", p)));
        out.push(Case::new("graft", format!("'use strict'; {} = x", p)));
    }
    out.extend(wide_cases("script module program strict"));
    out
}

impl Clone for Out {
    fn clone(&self) -> Out {
        match *self {
            Out::Script(ref s) => Out::Script(s.clone()),
            Out::Module(ref s) => Out::Module(s.clone()),
        }
    }
}

impl Out {
    pub fn untrack(&mut self) {
        match *self {
            Out::Script(ref mut s) => s.untrack(),
            Out::Module(ref mut s) => s.untrack(),
        }
    }
    fn walk(&mut self, w: &mut Walk) {
        match *self {
            Out::Script(ref mut s) => w.script(s),
            Out::Module(ref mut s) => w.module(s),
        }
    }
    fn same(&self, other: &Out) -> bool {
        match (self, other) {
            (&Out::Script(ref a), &Out::Script(ref b)) => a == b,
            (&Out::Module(ref a), &Out::Module(ref b)) => a == b,
            _ => false,
        }
    }
}

/// The structure of a tree as equality is to see it: how a literal was written is of no account.
pub fn plain(mut n: Node) -> Node {
    n.walk_mut(&mut |n| {
        n.span = None;
        if n.ty == "Dir" {
            n.f.retain(|f| f.0 != "raw");
        }
        for f in n.f.iter_mut() {
            if let V::Semi(_) = f.1 {
                f.1 = V::Semi(None);
            }
        }
    });
    n
}

fn clear(mut n: Node) -> Node {
    n.walk_mut(&mut |n| n.span = None);
    n
}

/// The result of parsing as a program has the location of what it holds.
fn whole_program(text: &str, o: &mut Obs) -> Result<(), String> {
    let p = match guard(|| esprit::program(text))? {
        Ok(p) => p,
        Err(_) => return Ok(()),
    };
    let here = |p: &esprit::Program| match *p {
        esprit::Program::Ambiguous(_, ref s) => s.location,
        esprit::Program::Module(ref m) => m.location,
    };
    if *p.tracking_ref() != here(&p) || here(&p).is_none() {
        return Err("tracking_ref of a program is not the location of its script or module".to_string());
    }
    let mut q = p.clone();
    *q.tracking_mut() = None;
    if q.tracking_ref().is_some() || here(&q).is_some() {
        return Err("tracking_mut of a program is not the location of its script or module".to_string());
    }
    let mut b = p.clone();
    guard(|| b.untrack())?;
    if b.tracking_ref().is_some() {
        return Err("untrack leaves the location of a program".to_string());
    }
    let (mut inner, outer) = (run::program_out(p), run::program_out(b));
    inner.untrack();
    let ((a, va), (b, vb)) = (inner.view(), outer.view());
    if a != b || va.semis != vb.semis || vb.spans.iter().any(|s| s.is_some()) || !inner.same(&outer) {
        return Err("untracking a program and untracking its script or module differ".to_string());
    }
    o.count("programs as a whole", 1);
    Ok(())
}

fn c15(c: &Case, o: &mut Obs) -> Verdict {
    if c.mode == "program" {
        if let Err(e) = whole_program(c.text(), o) {
            return bad(e);
        }
    }
    let out = match out_of(c) {
        Ok(x) => x,
        Err(v) => return v,
    };
    let (before, v) = out.view();
    if !v.stray.is_empty() {
        return bad(format!("tracking_ref of a {} is not its location", v.stray[0]));
    }
    if v.spans.iter().any(|s| s.is_none()) {
        return Verdict::Skip("a node without location");
    }
    // untrack
    let mut bare = out.clone();
    if let Err(m) = guard(|| bare.untrack()) {
        return bad(m);
    }
    let (after, w) = bare.view();
    if let Some(k) = w.spans.iter().position(|s| s.is_some()) {
        return bad(format!("untrack leaves location {} of {}: {:?}", k, w.spans.len(), w.spans[k]));
    }
    if let Some(s) = w.semis.iter().filter(|s| **s != Semi::Explicit(None)).next() {
        return bad(format!("untrack leaves a semicolon {:?}", s));
    }
    if !w.stray.is_empty() {
        return bad(format!("after untrack, tracking_ref of a {} is not its location", w.stray[0]));
    }
    let (plain_before, plain_after) = (clear(before), clear(after));
    if let Some(d) = Diff::structure().node(&plain_before, &plain_after) {
        return bad(format!("untrack changes the tree: {}", d));
    }
    o.count("locations removed", w.spans.len() as u64);
    let again = bare.clone();
    bare.untrack();
    if !again.same(&bare) {
        return bad("untrack of an untracked tree changes it");
    }
    // tracking_mut: of every node in small trees, of a sample in large ones
    let mark = Span { start: Posn { offset: 7, line: 77, column: 777 }, end: Posn { offset: 8, line: 88, column: 888 } };
    let mut total = 0usize;
    let mut tree = out.clone();
    tree.walk(&mut Walk { f: &mut |_, _| total += 1 });
    let step = 1 + total / 40;
    let mut at = c.text().len() % step;
    while at < total {
        let mut tree = out.clone();
        let mut k = 0;
        let mut ty = "";
        let mut old = None;
        let mut lost = false;
        tree.walk(&mut Walk {
            f: &mut |t, n| {
                if k == at {
                    ty = t;
                    old = *n.tracking_ref();
                    lost = *n.tracking_mut() != old;
                    *n.tracking_mut() = Some(mark);
                    lost = lost || *n.tracking_ref() != Some(mark);
                }
                k += 1;
            },
        });
        if lost {
            return bad(format!("tracking_mut and tracking_ref of a {} differ", ty));
        }
        let (_, w) = tree.view();
        let diff: Vec<usize> = (0..v.spans.len()).filter(|&i| v.spans[i] != w.spans[i]).collect();
        if diff.len() != 1 || v.spans[diff[0]] != old || w.spans[diff[0]] != Some(mark) || !w.stray.is_empty() {
            return bad(format!("tracking_mut of a {} at {:?} changes the locations {:?}", ty, old, diff));
        }
        o.count(&format!("{} locations set", ty), 1);
        at += step;
    }
    o.nontrivial = v.spans.len() > 1;
    Verdict::Held
}

// ---- C16: equality ----

const SAME: [&[&str]; 12] = [
    &["'s'", "\"s\"", "'\\x73'", "'\\u0073'", "'\\u{73}'", "'\\\ns'"],
    &["1", "1.0", "0x1", "1.", "01", "0b1", "0o1", "1e0", "10e-1"],
    &["0", "0.0", "0x0", ".0", "00", "0e9"],
    &["/a/gi", "/a/ig"],
    &["/b/gimy", "/b/ymig", "/b/migy"],
    &["''", "\"\"", "'\\\n'"],
    &["'\\n'", "'\\x0a'", "\"\\u000A\""],
    &["a", "\\u0061", "\\u{61}"],
    &["16", "0x10", "020", "1.6e1"],
    &["0.5", ".5", "5e-1"],
    &["'\\t'", "'\t'"],
    &["9007199254740993", "9007199254740992"],
];

/// The number as it is, or the next one.
fn nudge(x: &str) -> Option<String> {
    let v: f64 = x.parse().ok()?;
    if !(x.starts_with(|c: char| c.is_ascii_digit() || c == '.')) || !v.is_finite() {
        return None;
    }
    let w = f64::from_bits(v.to_bits() + 1);
    if w.is_finite() {
        Some(format!("{:e}", w))
    } else {
        None
    }
}

/// Regular expression flags, each at most once, in random order.
fn flags(r: &mut Rng) -> String {
    let mut f: Vec<char> = "dgimsuy".chars().collect();
    let n = r.pick(&["0", "1", "1", "2", "2", "3", "4", "7"]).parse().unwrap();
    let mut out = String::new();
    for _ in 0..n {
        let i = r.below(f.len());
        out.push(f.remove(i));
    }
    out
}

const OTHER: [(&str, &str); 24] = [
    ("1", "2"), ("'s'", "'t'"), ("/a/g", "/a/i"), ("/a/g", "/a/"), ("/a/", "/b/"), ("a", "b"), ("+", "-"), ("==", "==="),
    ("||", "&&"), ("<<", ">>"), (">>", ">>>"), ("+=", "-="), ("++", "--"), ("var", "let"), ("let", "const"), ("true", "false"),
    ("null", "this"), ("break", "continue"), ("in", "of"), ("typeof", "void"), ("get", "set"), ("<", "<="), ("1", "'1'"), ("'s'", "s"),
];

pub fn c16_gen(r: &mut Rng, deep: bool) -> Case {
    let mut c = cfg(r, deep);
    c.size = r.range(1, 3);
    c.trivia = 0;
    let mut t = genprog::tokens(r, &c);
    let a = genprog::layout(r, &c, &t);
    match r.below(8) {
        0 => {}
        6 => {
            // the next number
            let at: Vec<usize> = (0..t.len()).filter(|&i| nudge(&t[i]).is_some()).collect();
            if !at.is_empty() {
                let i = at[r.below(at.len())];
                t[i] = nudge(&t[i]).unwrap();
            }
        }
        7 => {
            // other flags
            let at: Vec<usize> = (0..t.len()).filter(|&i| t[i].len() > 2 && t[i].starts_with('/') && !t[i].starts_with("/*")).collect();
            if !at.is_empty() {
                let i = at[r.below(at.len())];
                let body = t[i].rfind('/').unwrap();
                t[i] = format!("{}/{}", &t[i][..body], flags(r));
            }
        }
        1 => {
            for x in t.iter_mut() {
                for g in SAME.iter() {
                    if g.contains(&&x[..]) {
                        *x = g[r.below(g.len())].to_string();
                    }
                }
            }
        }
        2 | 3 => {
            let (from, to) = OTHER[r.below(OTHER.len())];
            let (from, to) = if r.chance(1, 2) { (from, to) } else { (to, from) };
            let at: Vec<usize> = (0..t.len()).filter(|&i| t[i] == from).collect();
            if at.is_empty() {
                genprog::mutate(r, &mut t, 1);
            } else {
                t[at[r.below(at.len())]] = to.to_string();
            }
        }
        _ => genprog::mutate(r, &mut t, 1),
    }
    c.trivia = r.pick(&["0", "0", "20"]).parse().unwrap();
    let b = genprog::layout(r, &c, &t);
    Case::two(r.pick(&["script", "script", "module"]), a, b)
}

fn lines() -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for t in corpus() {
        if t.len() < 60 && guard(|| run::run("script", &t).is_ok()).unwrap_or(false) && !out.contains(&t) {
            out.push(t);
        }
    }
    out
}

/// The text with the last occurrence of a character replaced.
fn last(t: &str, what: char, by: &str) -> String {
    match t.rfind(what) {
        Some(i) => format!("{}{}{}", &t[..i], by, &t[i + what.len_utf8()..]),
        None => t.to_string(),
    }
}

pub fn c16_fixed(thorough: bool) -> Vec<Case> {
    let mut out = vec![];
    for t in wide_texts() {
        if t.len() < 20_000 {
            for other in [t.clone(), last(&t, 'a', "q"), last(&t, '1', "2"), t.replacen('a', "q", 1), t.replacen('1', "2", 1), last(&t, 'b', "q")].iter() {
                out.push(Case::two("script", t.as_str(), other.as_str()));
            }
        }
    }
    let mut f = vec!["".to_string()];
    for x in "dgimsuy".chars() {
        f.push(x.to_string());
        for y in "dgimsuy".chars().filter(|&y| y != x) {
            f.push(format!("{}{}", x, y));
        }
    }
    f.push("gimsuy".to_string());
    f.push("dgimsuy".to_string());
    f.push("yusmigd".to_string());
    for a in f.iter() {
        for b in f.iter() {
            out.push(Case::two("script", format!("/a/{}", a), format!("/a/{}", b)));
        }
    }
    for x in ["0", "1", "16777216", "16777217", "4294967295", "4294967296", "9007199254740991", "9007199254740992", "0.1", "1e21", "1e-7", "123456789.125", "5e-324", "1.7976931348623155e308", "3.4028234663852886e38", "2147483648", "65536", "33554433"].iter() {
        let y = nudge(x).unwrap();
        let z = nudge(&y).unwrap_or_else(|| "1".to_string());
        for (p, q) in [("", ""), ("x = ", ""), ("({", ": 1})"), ("f(", ")"), ("x[", "]"), ("-", "")].iter() {
            for (a, b) in [(*x, &y[..]), (&y[..], *x), (*x, &z[..]), (&y[..], &y[..])].iter() {
                out.push(Case::two("script", format!("{}{}{}", p, a, q), format!("{}{}{}", p, b, q)));
            }
        }
    }
    for g in SAME.iter() {
        for a in g.iter() {
            for b in g.iter() {
                for (p, q) in [("", ""), ("x = ", ""), ("({", ": 1})"), ("f(", ")"), ("x[", "]"), ("({a:", "})"), ("[", ",]"), ("(", ")")].iter() {
                    out.push(Case::two("script", format!("{}{}{}", p, a, q), format!("{}{}{}", p, b, q)));
                }
            }
        }
    }
    // texts that differ by little
    let near = [
        "", " ", "a", "A", "a ", " a", "aa", "a\\0", "\\0a", "\\0", "\\0\\0", "a\\n", "a\\r\\n", "a\\r", "\u{e9}", "e\u{301}", "\u{df}", "ss", "\u{feff}a", "a\u{200d}",
        "\u{1d7d8}", "0", "00", "1", "1.0", "01", "0x1", "\u{3c3}", "\u{3c2}", "\u{130}", "i", "I", "\u{131}", "\u{ff41}", "\u{10000}", "\u{ff}", "y", "true", "null", "\\u0130",
    ];
    for a in near.iter() {
        for b in near.iter() {
            for (p, q) in [("'", "'"), ("x = '", "'"), ("({'", "': 1})"), ("x['", "']")].iter() {
                out.push(Case::two("script", format!("{}{}{}", p, a, q), format!("{}{}{}", p, b, q)));
            }
            for (p, q) in [("q", ""), ("x.q", ""), ("({q", ": 1})"), ("var q", ""), ("q", ":;"), ("/q", "/")].iter() {
                out.push(Case::two("script", format!("{}{}{}", p, a, q), format!("{}{}{}", p, b, q)));
            }
        }
    }
    let t = lines();
    let reach = if thorough { t.len() } else { 40 };
    for i in 0..t.len() {
        for j in i..t.len().min(i + reach) {
            out.push(Case::two("script", t[i].as_str(), t[j].as_str()));
        }
    }
    let more = [
        "new a", "new a()", "new a(b)", "(new a)()", "new (a())", "new a.b", "new a.b()", "'use strict'", "\"use strict\"", "'use\\u0020strict'",
        "function f(){}", "function f(a){}", "function f(...a){}", "function* f(){}", "function g(){}", "(function(){})", "(function f(){})",
        "(function*(){})", "({a(){}})", "({*a(){}})", "({a:function(){}})", "({get a(){}})", "({set a(b){}})", "({a})", "({a:a})", "({'a':a})",
        "({1:a})", "({'1':a})", "[a]", "[a,]", "[a,,]", "[,a]", "[...a]", "f(a)", "f(...a)", "f([...a])", "a;b", "a,b", "(a,b)", "{a}", "{a;b}",
        "({a})=b", "[a]=b", "({a}=b)", "({a:a}=b)", "({a:b}=b)", "[a,,]=b", "[...a]=b", "[a,...b]=c", "x=a", "x+=a", "a++", "++a", "a--", "--a",
        "for(;;);", "for(a;;);", "for(;a;);", "for(;;a);", "for(var a;;);", "for(let a;;);", "for(const a=1;;);", "for(var a in b);",
        "for(var a=1 in b);", "for(let a in b);", "for(const a in b);", "for(a in b);", "for(var a of b);", "for(let a of b);", "for(const a of b);",
        "for(a of b);", "while(a);", "do;while(a)", "if(a);", "if(a);else;", "a:;", "b:;", "a:b:;", "while(1)break", "while(1)continue",
        "a:while(1)break a", "a:while(1)continue a", "switch(a){}", "switch(a){case 1:}", "switch(a){default:}", "switch(a){case 1:b}",
        "switch(a){case 1:default:}", "try{}catch(a){}", "try{}finally{}", "try{}catch(a){}finally{}", "throw a", "debugger", "with(a)b", "a.b", "a['b']", "a[b]",
        "a?b:c", "a||b", "a&&b", "a|b", "a&b", "a^b", "this", "null", "true", "false", "-a", "+a", "!a", "~a", "typeof a", "void a", "delete a",
    ];
    for a in more.iter() {
        for b in more.iter() {
            out.push(Case::two("script", *a, *b));
        }
    }
    out
}

fn c16(c: &Case, o: &mut Obs) -> Verdict {
    let one = |t: &str| out_of(&Case::new(&c.mode, t));
    let (a, b) = match (one(&c.parts[0]), one(&c.parts[1])) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(v), _) | (_, Err(v)) => return v,
    };
    let (na, va) = a.view();
    let (nb, vb) = b.view();
    let diff = Diff::structure().node(&plain(na), &plain(nb));
    let placed = diff.is_none() && va.spans == vb.spans && va.semis == vb.semis;
    let say = |what: &str, got: bool| {
        bad(format!("{} are {}equal: {}", what, if got { "" } else { "not " }, diff.clone().unwrap_or("the same structure".to_string())))
    };
    for (x, y) in [(&a, &b), (&b, &a)].iter() {
        if x.same(y) != placed {
            return say("the trees with locations", !placed);
        }
    }
    let (mut ua, mut ub) = (a.clone(), b.clone());
    if !ua.same(&a) || !ub.same(&b) {
        return bad("a clone is not equal to its original");
    }
    ua.untrack();
    ub.untrack();
    for (x, y) in [(&ua, &ub), (&ub, &ua)].iter() {
        if x.same(y) != diff.is_none() {
            return say("the trees without locations", diff.is_some());
        }
    }
    o.count(if diff.is_none() { "equal pairs" } else { "different pairs" }, 1);
    if diff.is_none() && !placed {
        o.count("pairs that differ in locations only", 1);
    }
    o.nontrivial = c.parts[0] != c.parts[1];
    Verdict::Held
}

// ---- C17: operators ----

const BIN: [(&str, BinopTag, u32); 21] = [
    ("|", BinopTag::BitOr, 3), ("^", BinopTag::BitXor, 4), ("&", BinopTag::BitAnd, 5),
    ("==", BinopTag::Eq, 6), ("!=", BinopTag::NEq, 6), ("===", BinopTag::StrictEq, 6), ("!==", BinopTag::StrictNEq, 6),
    ("<", BinopTag::Lt, 7), (">", BinopTag::Gt, 7), ("<=", BinopTag::LEq, 7), (">=", BinopTag::GEq, 7),
    ("instanceof", BinopTag::Instanceof, 7), ("in", BinopTag::In, 7),
    ("<<", BinopTag::LShift, 8), (">>", BinopTag::RShift, 8), (">>>", BinopTag::URShift, 8),
    ("+", BinopTag::Plus, 9), ("-", BinopTag::Minus, 9), ("*", BinopTag::Times, 10), ("/", BinopTag::Div, 10), ("%", BinopTag::Mod, 10),
];
const LOG: [(&str, LogopTag, u32); 2] = [("||", LogopTag::Or, 1), ("&&", LogopTag::And, 2)];
const ASS: [(&str, AssopTag, u32); 11] = [
    ("+=", AssopTag::PlusEq, 0), ("-=", AssopTag::MinusEq, 0), ("*=", AssopTag::TimesEq, 0), ("/=", AssopTag::DivEq, 0),
    ("%=", AssopTag::ModEq, 0), ("<<=", AssopTag::LShiftEq, 0), (">>=", AssopTag::RShiftEq, 0), (">>>=", AssopTag::URShiftEq, 0),
    ("|=", AssopTag::BitOrEq, 0), ("^=", AssopTag::BitXorEq, 0), ("&=", AssopTag::BitAndEq, 0),
];
const UN: [(&str, UnopTag); 7] = [
    ("-", UnopTag::Minus), ("+", UnopTag::Plus), ("!", UnopTag::Not), ("~", UnopTag::BitNot), ("typeof", UnopTag::Typeof),
    ("void", UnopTag::Void), ("delete", UnopTag::Delete),
];

fn token_data() -> Vec<(&'static str, TokenData)> {
    use joker::token::TokenData::*;
    let mut v = vec![
        ("{", LBrace), ("}", RBrace), ("(", LParen), (")", RParen), ("[", LBrack), ("]", RBrack), (".", Dot), ("...", Ellipsis),
        (";", Semi), (",", Comma), ("<", LAngle), (">", RAngle), ("<=", LEq), (">=", GEq), ("==", Eq), ("!=", NEq), ("===", StrictEq),
        ("!==", StrictNEq), ("+", Plus), ("-", Minus), ("*", Star), ("%", Mod), ("/", Slash), ("++", Inc), ("--", Dec), ("<<", LShift),
        (">>", RShift), (">>>", URShift), ("&", BitAnd), ("|", BitOr), ("^", BitXor), ("!", Bang), ("~", Tilde), ("&&", LogicalAnd),
        ("||", LogicalOr), ("?", Question), (":", Colon), ("=", Assign), ("+=", PlusAssign), ("-=", MinusAssign), ("*=", StarAssign),
        ("/=", SlashAssign), ("%=", ModAssign), ("<<=", LShiftAssign), (">>=", RShiftAssign), (">>>=", URShiftAssign),
        ("&=", BitAndAssign), ("|=", BitOrAssign), ("^=", BitXorAssign), ("=>", Arrow), ("", EOF),
    ];
    use joker::word::Reserved as R;
    let words = [
        ("null", R::Null), ("true", R::True), ("false", R::False), ("break", R::Break), ("case", R::Case), ("catch", R::Catch),
        ("class", R::Class), ("const", R::Const), ("continue", R::Continue), ("debugger", R::Debugger), ("default", R::Default),
        ("delete", R::Delete), ("do", R::Do), ("else", R::Else), ("export", R::Export), ("extends", R::Extends), ("finally", R::Finally),
        ("for", R::For), ("function", R::Function), ("if", R::If), ("import", R::Import), ("in", R::In), ("instanceof", R::Instanceof),
        ("new", R::New), ("return", R::Return), ("super", R::Super), ("switch", R::Switch), ("this", R::This), ("throw", R::Throw),
        ("try", R::Try), ("typeof", R::Typeof), ("var", R::Var), ("void", R::Void), ("while", R::While), ("with", R::With), ("enum", R::Enum),
    ];
    v.extend(words.iter().map(|w| (w.0, Reserved(w.1))));
    let names = ["a", "of", "get", "instanceof_", "In", "typeOf", "let"];
    v.extend(names.iter().map(|n| (*n, Identifier(Name::from(n.to_string())))));
    v
}

fn c17_gen(r: &mut Rng, _: bool) -> Case {
    let mut t: Vec<char> = match r.below(3) {
        0 => BIN[r.below(BIN.len())].0,
        1 => ASS[r.below(ASS.len())].0,
        _ => UN[r.below(UN.len())].0,
    }
    .chars()
    .collect();
    for _ in 0..r.range(0, 2) {
        let pool: Vec<char> = "=<>!+-*/%&|^~ \ttypeofinstancdlvINTé".chars().collect();
        let k = r.below(t.len() + 1);
        match r.below(3) {
            0 => t.insert(k, pool[r.below(pool.len())]),
            1 if k < t.len() => {
                t.remove(k);
            }
            _ if k < t.len() => t[k] = pool[r.below(pool.len())],
            _ => {}
        }
    }
    Case::new("text", t.into_iter().collect::<String>())
}

fn c17_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    for t in token_data() {
        out.push(Case::new("text", t.0));
        out.push(Case::new("token", t.0));
    }
    let chars: Vec<char> = "=<>!+-*/%&|^~".chars().collect();
    for a in &chars {
        for b in &chars {
            for c in &chars {
                out.push(Case::new("text", format!("{}{}{}", a, b, c)));
                for d in &chars {
                    out.push(Case::new("text", format!("{}{}{}{}", a, b, c, d)));
                }
            }
            out.push(Case::new("text", format!("{}{}", a, b)));
        }
    }
    for a in all_prec() {
        for b in all_prec() {
            out.push(Case::two("precedence", a.0, b.0));
        }
    }
    out
}

fn all_prec() -> Vec<(&'static str, u32)> {
    BIN.iter().map(|x| (x.0, x.2)).chain(LOG.iter().map(|x| (x.0, x.2))).chain(ASS.iter().map(|x| (x.0, x.2))).collect()
}

fn prec(t: &str) -> u32 {
    if let Ok(x) = Binop::from_str(t) {
        return x.precedence();
    }
    if let Ok(x) = Logop::from_str(t) {
        return x.precedence();
    }
    match Assop::from_str(t) {
        Ok(x) => x.precedence(),
        Err(()) => panic!("{:?} is not read as an operator", t),
    }
}

/// from_str of a tag and of an operator against a table.
fn read<T: FromStr<Err = ()> + PartialEq + Clone>(kind: &str, t: &str, want: Option<T>) -> Result<(), String> {
    if T::from_str(t).ok() != want {
        return Err(format!("{} tag read from {:?}", kind, t));
    }
    let got = Op::<T>::from_str(t).ok();
    let ok = match (&got, &want) {
        (&None, &None) => true,
        (&Some(ref g), &Some(ref w)) => g.tag == *w && g.location.is_none(),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("{} operator read from {:?}", kind, t))
    }
}

fn shows<T: Display + Clone>(t: &str, tag: &T) -> Result<(), String> {
    let op = Op { location: None, tag: tag.clone() };
    if tag.to_string() != t || op.to_string() != t {
        return Err(format!("{} is shown as {} and {}", t, tag, op));
    }
    Ok(())
}

fn c17(c: &Case, o: &mut Obs) -> Verdict {
    let t = c.text();
    let bin = BIN.iter().find(|x| x.0 == t);
    let log = LOG.iter().find(|x| x.0 == t);
    let ass = ASS.iter().find(|x| x.0 == t);
    let un = UN.iter().find(|x| x.0 == t);
    o.nontrivial = bin.is_some() || log.is_some() || ass.is_some() || un.is_some();
    if c.mode == "precedence" {
        let want = |t: &str| all_prec().iter().find(|x| x.0 == t).unwrap().1;
        let (a, b) = (&c.parts[0], &c.parts[1]);
        if prec(a).cmp(&prec(b)) != want(a).cmp(&want(b)) {
            return bad(format!("precedence of {} is {}, of {} {}", a, prec(a), b, prec(b)));
        }
        o.count("pairs of operators ordered", 1);
        return Verdict::Held;
    }
    let r = if c.mode == "text" {
        read("binary", t, bin.map(|x| x.1.clone()))
            .and(read("logical", t, log.map(|x| x.1.clone())))
            .and(read("assignment", t, ass.map(|x| x.1.clone())))
            .and(read("unary", t, un.map(|x| x.1.clone())))
            .and(bin.map_or(Ok(()), |x| shows(t, &x.1)))
            .and(log.map_or(Ok(()), |x| shows(t, &x.1)))
            .and(ass.map_or(Ok(()), |x| shows(t, &x.1)))
    } else {
        let loc = Span { start: Posn { offset: 3, line: 1, column: 2 }, end: Posn { offset: 9, line: 2, column: 4 } };
        let mut r = Ok(());
        for (_, d) in token_data().into_iter().filter(|x| x.0 == t) {
            let is_in = d == TokenData::Reserved(Reserved::In);
            let name = if let TokenData::Identifier(_) = d { true } else { false };
            let tok = Token { location: loc, newline: false, value: d };
            for &allow_in in [true, false].iter() {
                let b = tok.to_binop(allow_in);
                let want = bin.filter(|_| !name && (allow_in || !is_in)).map(|x| Op { location: Some(loc), tag: x.1.clone() });
                if b != want {
                    r = Err(format!("token {} as a binary operator is {:?}", t, b));
                }
            }
            if tok.to_logop() != log.map(|x| Op { location: Some(loc), tag: x.1.clone() }) {
                r = Err(format!("token {} as a logical operator is {:?}", t, tok.to_logop()));
            }
            if tok.to_assop() != ass.map(|x| Op { location: Some(loc), tag: x.1.clone() }) {
                r = Err(format!("token {} as an assignment operator is {:?}", t, tok.to_assop()));
            }
        }
        r
    };
    match r {
        Ok(()) => {
            o.count(if o.nontrivial { "operators" } else { "other texts" }, 1);
            Verdict::Held
        }
        Err(m) => bad(m),
    }
}

// ---- C18: cover grammar ----

/// A literal that may or may not be a pattern. `wrong`: percent of parts that cannot be targets.
fn patt_text(r: &mut Rng, depth: usize, wrong: usize) -> String {
    let part = |r: &mut Rng| -> String {
        if depth > 0 && r.chance(2, 5) {
            return patt_text(r, depth - 1, wrong);
        }
        if r.chance(wrong, 100) {
            return [
                "1", "'s'", "f()", "a+b", "-a", "this", "null", "a?b:c", "a=b", "a+=b", "function(){}", "new a", "/r/", "a&&b", "++a", "a--",
                "(a,b)", "true", "(a=b)", "[a]=b", "!a", "new a()", "f(x)(y)",
            ][r.below(23)]
                .to_string();
        }
        if wrong == 0 {
            return ["a", "b", "c", "x", "of", "get"][r.below(6)].to_string();
        }
        ["a", "b", "x", "a.b", "a[b]", "(a)", "(a.b)", "f().x", "this.y", "a.b.c[d]", "new a().b", "[a][0]", "({a}).b", "'s'.length", "yield", "get", "of"]
            [r.below(17)]
        .to_string()
    };
    if r.chance(1, 2) {
        let n = r.range(0, 4);
        let mut o = vec![];
        for i in 0..n {
            if r.chance(1, 6) {
                o.push(String::new());
            }
            let last = i + 1 == n;
            if (last && r.chance(1, 4)) || r.chance(wrong, 300) {
                o.push(format!("...{}", part(r)));
            } else {
                o.push(part(r));
            }
        }
        format!("[{}]", o.join(","))
    } else {
        let n = r.range(0, 4);
        let mut o = vec![];
        for _ in 0..n {
            let key = ["a", "b", "'k'", "1", "if", "get", "set"][r.below(7)];
            o.push(if r.chance(1, 4) {
                ["a", "b", "c", "of", "get"][r.below(5)].to_string()
            } else if r.chance(wrong, 200) {
                ["get a(){}", "set a(b){}", "a(){}", "*a(){}", "get 1(){}", "set 'x'(y){}", "if(){}"][r.below(7)].to_string()
            } else {
                format!("{}:{}", key, part(r))
            });
        }
        format!("{{{}}}", o.join(","))
    }
}

fn c18_gen(r: &mut Rng, deep: bool) -> Case {
    if r.chance(1, 6) {
        let mut c = cfg(r, deep);
        c.size = 1;
        c.depth = 3;
        c.trivia = 0;
        let t = genprog::program(r, &c);
        return Case::new("expr", t.trim().trim_end_matches(';'));
    }
    let w = [0, 1, 5, 15, 40][r.below(5)];
    Case::new("expr", patt_text(r, if deep { 6 } else { 4 }, w))
}

fn c18_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    for n in [3, 9, 33, 65, 127, 129, 256, 257, 700].iter() {
        for (open, item, close) in [("[", "a", "]"), ("[", "a.b", "]"), ("[", "[a]", "]"), ("({", "a:b", "})"), ("({", "a", "})"), ("[", "", "]"), ("[[", "a", "]]"), ("({a:[", "{b}", "]})")].iter() {
            let whole = |at: usize, by: &str| {
                let l: Vec<&str> = (0..*n).map(|i| if i == at { by } else { *item }).collect();
                format!("{}{}{}", open, l.join(","), close)
            };
            for by in [*item, "1", "b()", "...c", "a:1", "get a(){}", "'s':b", "[c,,d]", "{e:f}"].iter() {
                for at in [0, 1, n / 2, n - 2, n - 1].iter() {
                    out.push(Case::new("expr", whole(*at, by)));
                }
            }
        }
    }
    for t in corpus() {
        out.push(Case::new("expr", t.trim().trim_end_matches(';')));
    }
    let parts = [
        "a", "a.b", "a[b]", "(a)", "1", "'s'", "f()", "a+b", "-a", "this", "null", "true", "false", "a?b:c", "a=b", "a+=b", "function(){}",
        "new a", "new.target", "/r/", "a&&b", "++a", "a++", "--a", "a--", "(a,b)", "[a]", "{a}", "[1]", "{a:1}", "{get a(){}}", "[...a]", "[...a,b]",
        "typeof a", "void a", "delete a", "[]", "{}", "a in b", "[a]=b",
    ];
    let forms = [
        "@", "[@]", "[@,x]", "[x,@]", "[,@,]", "[...@]", "[x,...@]", "[...@,x]", "[...x,@]", "{p:@}", "{p:@,q:x}", "{q:x,p:@}", "{'p':@}", "{1:@}", "[[@]]",
        "[{p:@}]", "{p:[@]}", "{p:{q:@}}", "[...[@]]", "[...{p:@}]", "{get p(){@},q:x}", "{m(){},p:@}", "{p:@,m(){}}", "[x,...[y,...@]]", "{p:@,p:@}", "@.x", "@[x]", "[@.x]", "{p:@[x]}", "[...@.x]", "x[@]", "@.x.y", "@[x].y",
    ];
    for f in forms.iter() {
        for p in parts.iter() {
            out.push(Case::new("expr", f.replace("@", p)));
        }
    }
    out
}

/// The places that cannot be part of a pattern: (a property?, span).
type Spots = Vec<(bool, Option<(usize, usize)>)>;

fn to_target(n: &Node) -> Result<Node, Spots> {
    match n.ty {
        "Id" | "Dot" | "Brack" => Ok(n.clone()),
        _ => Err(vec![(false, n.span)]),
    }
}

fn to_prop(n: &Node) -> Result<Node, Spots> {
    match n.ty {
        "Short" => Ok(n.clone()),
        "Init" => {
            let p = to_patt(n.n("value").unwrap())?;
            let mut m = node("PropPatt", vec![("key", n.get("key").clone()), ("patt", p.into())]);
            m.span = n.span;
            Ok(m)
        }
        _ => Err(vec![(true, n.span)]),
    }
}

fn to_patt(n: &Node) -> Result<Node, Spots> {
    let mut wrong = vec![];
    let mut m = match n.ty {
        "Obj" => {
            let mut ps = vec![];
            for p in n.l("props") {
                if let V::N(p) = p {
                    match to_prop(p) {
                        Ok(p) => ps.push(p),
                        Err(w) => wrong.extend(w),
                    }
                }
            }
            node("ObjPatt", vec![("props", list(ps))])
        }
        "Arr" => {
            let es = n.l("elts");
            let mut out = vec![];
            let mut rest = None;
            for (i, e) in es.iter().enumerate() {
                match e {
                    V::N(e) if e.ty == "Spread" => {
                        if i + 1 < es.len() {
                            wrong.push((false, e.span));
                            continue;
                        }
                        match to_patt(e.n("arg").unwrap()) {
                            Ok(p) => {
                                let mut m = node("Rest", vec![("patt", p.into())]);
                                m.span = e.span;
                                rest = Some(m);
                            }
                            Err(w) => wrong.extend(w),
                        }
                    }
                    V::N(e) => match to_patt(e) {
                        Ok(p) => out.push(p.into()),
                        Err(w) => wrong.extend(w),
                    },
                    _ => out.push(V::Null),
                }
            }
            node("ArrPatt", vec![("elts", V::L(out)), ("rest", opt(rest))])
        }
        _ => return to_target(n),
    };
    m.span = n.span;
    if wrong.is_empty() {
        Ok(m)
    } else {
        Err(wrong)
    }
}

fn expr_of(text: &str) -> Option<Expr> {
    match run::run("script", &format!("(\n{}\n)", text)) {
        Ok(Out::Script(mut s)) => {
            if s.items.len() != 1 || !s.dirs.is_empty() {
                return None;
            }
            match s.items.pop() {
                Some(StmtListItem::Stmt(Stmt::Expr(_, e, _))) => Some(e),
                _ => None,
            }
        }
        _ => None,
    }
}

fn compare(what: &str, want: Result<Node, Spots>, got: Result<Node, Cover>, o: &mut Obs) -> Option<Verdict> {
    match (want, got) {
        (Ok(w), Ok(g)) => {
            if w != g {
                return Some(bad(match Diff::structure().node(&w, &g) {
                    Some(d) => format!("{}: the conversion changes the tree: {}", what, d),
                    None => format!("{}: the conversion changes a location", what),
                }));
            }
            o.count(&format!("{} converted", what), 1);
            None
        }
        (Err(w), Err(e)) => {
            let (prop, l, says) = match e {
                Cover::InvalidAssignTarget(l) => (false, l, e.to_string()),
                Cover::InvalidPropPatt(l) => (true, l, e.to_string()),
            };
            let l = l.map(|s| (s.start.offset as usize, s.end.offset as usize));
            if says.is_empty() {
                return Some(bad("an error without a message"));
            }
            if !w.contains(&(prop, l)) {
                return Some(bad(format!("{}: {} at {:?}, where {:?} are wrong", what, says, l, w)));
            }
            o.count(&format!("{} refused", what), 1);
            None
        }
        (Ok(_), Err(e)) => Some(bad(format!("{}: a pattern is refused: {:?}", what, e))),
        (Err(w), Ok(_)) => Some(bad(format!("{}: converted in spite of what is at {:?}", what, w))),
    }
}

fn c18(c: &Case, o: &mut Obs) -> Verdict {
    let e = match guard(|| expr_of(c.text())) {
        Err(m) => return bad(m),
        Ok(None) => return Verdict::Skip("not one expression"),
        Ok(Some(e)) => e,
    };
    let n = View::default().expr(&e);
    let r = guard(|| {
        (
            e.clone().into_assign_patt().map(|p| View::default().patt(&p)),
            e.clone().into_assign_target().map(|p| View::default().target(&p)),
        )
    });
    let (p, t) = match r {
        Err(m) => return bad(m),
        Ok(x) => x,
    };
    if let Some(v) = compare("expression to pattern", to_patt(&n), p, o) {
        return v;
    }
    if let Some(v) = compare("expression to target", to_target(&n), t, o) {
        return v;
    }
    if let Expr::Obj(_, ref ps) = e {
        for (p, n) in ps.iter().zip(n.l("props")) {
            let n = match n {
                V::N(n) => n,
                _ => continue,
            };
            let got = match guard(|| p.clone().into_assign_prop()) {
                Err(m) => return bad(m),
                // shown inside a pattern of one property
                Ok(r) => r.map(|p| {
                    let one: Patt<AssignTarget> = Patt::Compound(CompoundPatt::Obj(None, vec![p]));
                    match View::default().patt(&one).l("props").get(0) {
                        Some(V::N(n)) => (**n).clone(),
                        _ => panic!("monitor: no property"),
                    }
                }),
            };
            if let Some(v) = compare("property to pattern", to_prop(n), got, o) {
                return v;
            }
        }
    }
    o.nontrivial = n.ty == "Arr" || n.ty == "Obj";
    Verdict::Held
}

// ---- C14: constructors and directives ----

fn c14_gen(r: &mut Rng, deep: bool) -> Case {
    match r.below(3) {
        0 => Case::new("patt", format!("{} = {}", patt_text(r, 3, 0), ["x", "f(y)", "{a:[b]}", "1", "function(){ z }"][r.below(5)])),
        1 => Case::new("patt", format!("{} = {}", ["a", "b", "get", "let", "\\u0061"][r.below(5)], ["x", "f(y)", "{a:[b]}", "1", "function(){ z }"][r.below(5)])),
        _ => Case::new("items", program(r, deep)),
    }
}

fn c14_fixed(_: bool) -> Vec<Case> {
    let mut out = corpus_cases("items patt");
    out.extend(wide_cases("items patt"));
    for a in ["'a'", "\"a\"", "'a' + b", "('a')", "a", "'a'.b", "1", "'a', b", "'a'()", "'\\x61'", "''", "var a", "let a", "function a(){}", "{ 'a' }"].iter() {
        out.push(Case::new("items", format!("x; {}", a)));
        out.push(Case::new("items", format!("x; {};", a)));
        out.push(Case::new("items", format!("{}\ny", a)));
    }
    out
}

fn c14(c: &Case, o: &mut Obs) -> Verdict {
    let s = match out_of(&Case::new("script", c.text())) {
        Ok(Out::Script(s)) => s,
        Ok(_) => panic!("monitor: not a script"),
        Err(v) => return v,
    };
    let r = guard(|| {
        if c.mode == "patt" {
            return constructors(&s, o);
        }
        match directives(&s, o) {
            Verdict::Held => {}
            v => return v,
        }
        // with all combinations of locations and semicolons
        let mut s = s.clone();
        for k in 0..6 {
            for i in s.items.iter_mut() {
                if let StmtListItem::Stmt(Stmt::Expr(ref mut l, Expr::String(ref mut m, _), ref mut semi)) = *i {
                    let at = Posn { offset: k, line: 2, column: 7 };
                    *l = if k % 2 == 0 { None } else { Some(Span { start: at, end: at }) };
                    *m = *l;
                    *semi = match k / 2 {
                        0 => Semi::Inserted,
                        1 => Semi::Explicit(None),
                        _ => Semi::Explicit(Some(at)),
                    };
                }
            }
            match directives(&s, o) {
                Verdict::Held => {}
                v => return v,
            }
        }
        s.untrack();
        directives(&s, o)
    });
    match r {
        Err(m) => bad(m),
        Ok(v) => v,
    }
}

fn directives(s: &Script, o: &mut Obs) -> Verdict {
    for i in &s.items {
        let want = match *i {
            StmtListItem::Stmt(Stmt::Expr(l, Expr::String(_, ref t), semi)) => {
                Some(Dir { location: l, string: t.clone(), semi })
            }
            _ => None,
        };
        let is = want.is_some();
        let (l, n) = (*i.tracking_ref(), View::default().item(i));
        if i.is_directive() != is {
            return bad("is_directive of a statement list item");
        }
        let spelled = |d: &Option<Dir>| d.as_ref().map(|d| (d.string.source.clone(), d.pragma().to_string()));
        if i.to_directive() != want || spelled(&i.to_directive()) != spelled(&want) {
            return bad("to_directive of a statement list item");
        }
        match (i.clone().into_directive(), &want) {
            (Ok(ref d), &Some(ref w)) if d == w && d.pragma() == w.pragma() && d.string.source == w.string.source => {}
            (Err(ref x), &None) if x == i => {}
            _ => return bad("into_directive of a statement list item"),
        }
        if let StmtListItem::Stmt(ref t) = *i {
            if t.is_directive() != is || t.to_directive() != want || spelled(&t.to_directive()) != spelled(&want) {
                return bad("is_directive or to_directive of a statement");
            }
            match (t.clone().into_directive(), &want) {
                (Ok(ref d), &Some(ref w)) if d == w && d.string.source == w.string.source => {}
                (Err(ref x), &None) if x == t => {}
                _ => return bad("into_directive of a statement"),
            }
        }
        let m = i.clone().into_mod_item();
        if View::default().mod_item(&m) != n || *m.tracking_ref() != l {
            return bad("into_mod_item changes the item");
        }
        o.count(if is { "directive statements" } else { "other items" }, 1);
        o.nontrivial = true;
    }
    for d in &s.dirs {
        let want = match d.string.source {
            Some(ref t) => t[1..t.len() - 1].to_string(),
            None => d.string.value.clone(),
        };
        if d.pragma() != want {
            return bad(format!("the pragma of {:?} is {:?}", d.string.source, d.pragma()));
        }
        let mut bare = d.clone();
        bare.string.source = None;
        if bare.pragma() != d.string.value {
            return bad("the pragma of a directive without source");
        }
        o.count("directives", 1);
        o.nontrivial = true;
    }
    Verdict::Held
}

fn constructors(s: &Script, o: &mut Obs) -> Verdict {
    let (patt, value) = match s.items.get(0) {
        Some(&StmtListItem::Stmt(Stmt::Expr(_, Expr::Assign(_, ref p, ref e), _))) => match id_patt(p) {
            Some(p) => (p, (**e).clone()),
            None => return Verdict::Skip("not an assignment to a pattern of identifiers"),
        },
        _ => return Verdict::Skip("not an assignment to a pattern of identifiers"),
    };
    // as parsed, and with either location unknown, the two exchanged, one after or inside the other
    let (lp, le) = (*patt.tracking_ref(), *value.tracking_ref());
    let far = |k: u32| Posn { offset: 70_000 * k, line: k, column: 9 - k };
    let (early, late) = (Some(Span { start: far(1), end: far(2) }), Some(Span { start: far(3), end: far(4) }));
    let around = Some(Span { start: far(1), end: far(4) });
    let inside = Some(Span { start: far(2), end: far(3) });
    for &(a, b) in [(lp, le), (None, le), (lp, None), (None, None), (le, lp), (early, late), (late, early), (around, inside), (inside, around), (early, early)].iter() {
        let (mut p, mut e) = (patt.clone(), value.clone());
        *p.tracking_mut() = a;
        *e.tracking_mut() = b;
        match construct(p, e, o) {
            Verdict::Held => {}
            other => return other,
        }
    }
    o.nontrivial = true;
    Verdict::Held
}

fn construct(patt: Patt<Id>, value: Expr, o: &mut Obs) -> Verdict {
    let v = || View::default();
    let whole = patt.tracking_ref().and_then(|a| value.tracking_ref().map(|b| Span { start: a.start, end: b.end }));
    let (np, ne) = (v().patt(&patt), v().expr(&value));
    let lp = *patt.tracking_ref();
    let both = match (np.span, ne.span) {
        (Some(a), Some(b)) => Some((a.0, b.1)),
        _ => None,
    };
    let at = |ty: &'static str, f: Vec<(&'static str, V)>, s: Option<(usize, usize)>| {
        let mut n = node(ty, f);
        n.span = s;
        n
    };
    let dtor = |init: bool, s| at("Dtor", vec![("id", np.clone().into()), ("init", if init { ne.clone().into() } else { V::Null })], s);
    let cdtor = at("ConstDtor", vec![("patt", np.clone().into()), ("value", ne.clone().into())], both);
    if *span(&patt, &value).tracking_ref() != lp.and_then(|a| value.tracking_ref().map(|b| Span { start: a.start, end: b.end })) {
        return bad("span");
    }
    if span(&patt, &None).is_some() || span(&None, &value).is_some() {
        return bad("span with an unknown end");
    }
    let simple = patt.is_simple();
    if simple != (np.ty == "Id") {
        return bad("is_simple");
    }
    if v().dtor(&Dtor::from_init(patt.clone(), value.clone())) != dtor(true, both) {
        return bad("Dtor::from_init");
    }
    if v().const_dtor(&ConstDtor::from_init(patt.clone(), value.clone())) != cdtor {
        return bad("ConstDtor::from_init");
    }
    if *Dtor::from_init(patt.clone(), value.clone()).tracking_ref() != whole || ConstDtor::from_init(patt.clone(), value.clone()).location != whole {
        return bad("the line or column of the location of a declarator");
    }
    match Dtor::from_init_opt(patt.clone(), None) {
        Ok(ref d) if simple && v().dtor(d) == dtor(false, np.span) => {}
        Err(ref p) if !simple && *p == patt => {}
        _ => return bad("Dtor::from_init_opt without an initializer"),
    }
    match Dtor::from_init_opt(patt.clone(), Some(value.clone())) {
        Ok(ref d) if v().dtor(d) == dtor(true, both) => {}
        _ => return bad("Dtor::from_init_opt with an initializer"),
    }
    match ConstDtor::from_init_opt(patt.clone(), None) {
        Err(ref p) if *p == patt => {}
        _ => return bad("ConstDtor::from_init_opt without an initializer"),
    }
    match ConstDtor::from_init_opt(patt.clone(), Some(value.clone())) {
        Ok(ref d) if v().const_dtor(d) == cdtor => {}
        _ => return bad("ConstDtor::from_init_opt with an initializer"),
    }
    match patt {
        Patt::Simple(ref id) => {
            if v().dtor(&Dtor::from_simple_init(id.clone(), value.clone())) != dtor(true, both)
                || v().const_dtor(&ConstDtor::from_simple_init(id.clone(), value.clone())) != cdtor
            {
                return bad("from_simple_init");
            }
            if v().patt(&id.clone().into_patt()) != np || v().expr(&id.clone().into_expr()) != np {
                return bad("an identifier as a pattern or an expression");
            }
            if v().dtor(&id.clone().into_dtor()) != dtor(false, np.span) {
                return bad("an identifier as a declarator");
            }
            if v().id(&Id::new(id.name.clone(), id.location)) != np {
                return bad("Id::new");
            }
        }
        Patt::Compound(ref p) => {
            if v().dtor(&Dtor::from_compound_init(p.clone(), value.clone())) != dtor(true, both)
                || v().const_dtor(&ConstDtor::from_compound_init(p.clone(), value.clone())) != cdtor
            {
                return bad("from_compound_init");
            }
        }
    }
    o.count(if simple { "simple declarators" } else { "compound declarators" }, 1);
    Verdict::Held
}

pub fn props() -> Vec<Monitor> {
    let _ = PLAIN;
    vec![
        Monitor { id: "C14", rule: "statement lists and assignments of generated programs, taken apart and rebuilt with the constructors; non-trivial: something was rebuilt",
            fixed: c14_fixed, exhaustive: false, gen: c14_gen, check: c14, quick: 240_000, thorough: 3_000_000, assumptions: &[] },
        Monitor { id: "C15", rule: "trees of generated programs and hand-built ones; non-trivial: more than one location",
            fixed: c15_fixed, exhaustive: false, gen: c15_gen, check: c15, quick: 75_000, thorough: 1_500_000, assumptions: &[] },
        Monitor { id: "C16", rule: "pairs of programs that differ in layout, in the spelling of literals, in one token or altogether; non-trivial: two different texts",
            fixed: c16_fixed, exhaustive: false, gen: c16_gen, check: c16, quick: 300_000, thorough: 4_000_000, assumptions: &[] },
        Monitor { id: "C17", rule: "every operator, token and pair of operators, every text of up to four operator characters, and altered operator texts; non-trivial: an operator",
            fixed: c17_fixed, exhaustive: false, gen: c17_gen, check: c17, quick: 150_000, thorough: 2_000_000, assumptions: &[] },
        Monitor { id: "C18", rule: "expressions that are or almost are patterns; non-trivial: an array or object literal",
            fixed: c18_fixed, exhaustive: false, gen: c18_gen, check: c18, quick: 360_000, thorough: 5_000_000, assumptions: &[] },
    ]
}
