//! Monitors over the parser (esprit), the tree (easter) and the ESTree reader (estree).
mod ast;
mod compose;
mod cost;
mod convert;
mod doc;
mod edits;
mod gen;
mod printed;
mod pure;
mod run;
mod walk;

use crate::compose::{composed, composed_cases};
use crate::convert::View;
use crate::edits::{edit_cases, edited};
use crate::gen::*;
use crate::run::*;
use easter::punc::Semi;
use esprit::error::Error;
use joker::track::Posn;
use model::chars::line_table;
use model::genprog::{self, PLAIN};
use model::harness::{guard, Case, Obs, Prop, Verdict};
use model::node::{Diff, Node, V};
use model::parse::{parse, PErr, Parsed};
use model::rng::Rng;

pub fn bad<T: Into<String>>(t: T) -> Verdict {
    Verdict::Violation(t.into())
}

pub fn chars(t: &str) -> Vec<char> {
    t.chars().collect()
}

fn describe(e: &Error) -> String {
    match at(e) {
        Some(p) => format!("{} at character {}", class(e), p),
        None => class(e).to_string(),
    }
}

/// What this check is about, if the reference accepts and the code under test has a tree.
struct Both {
    p: Parsed,
    got: Node,
    view: View,
}

/// Runs one entry point; acceptance is compared with the reference.
fn both(c: &Case, entry: &str, o: &mut Obs) -> Result<Both, Verdict> {
    let cs = chars(c.text());
    let r = parse(&cs);
    let e = expect(&r, entry, c.text());
    let got = guard(|| run::run(entry, c.text())).map_err(bad)?;
    match e {
        Expect::Unjudged(why) => Err(Verdict::Skip(why)),
        Expect::Finding(_) => Err(Verdict::Skip("a listed finding")),
        Expect::Reject => Err(match got {
            Ok(_) => bad(format!("{}: an invalid program is accepted", entry)),
            Err(_) => {
                o.count("invalid programs rejected", 1);
                Verdict::Held
            }
        }),
        Expect::Accept => match got {
            Err(e) => Err(bad(format!("{}: a valid program is rejected: {}", entry, describe(&e)))),
            Ok(out) => {
                let (got, view) = out.view();
                Ok(Both { p: r.unwrap_or_else(|_| panic!("monitor: accepted")), got, view })
            }
        },
    }
}

fn tree_size(o: &mut Obs, n: &Node) {
    o.count("tree nodes compared", n.size());
    let d = n.depth();
    o.count(if d < 6 { "trees of depth < 6" } else if d < 12 { "trees of depth 6-11" } else { "trees of depth 12+" }, 1);
}

// ---- C21: structure ----

fn c21_gen(r: &mut Rng, deep: bool) -> Case {
    let m = r.pick(&["script", "script", "script", "module", "program", "strict"]);
    if r.chance(1, 6) {
        return Case::new(m, salad(r, 8));
    }
    if r.chance(1, 3) {
        return Case::new(m, composed(r, deep));
    }
    if r.chance(1, 4) {
        return Case::new(m, edited(r));
    }
    Case::new(m, program(r, deep))
}

fn c21_fixed(deep: bool) -> Vec<Case> {
    let mut out = corpus_cases("script module program");
    out.extend(short("script"));
    out.extend(composed_cases("script script module script program", if deep { 2 } else { 53 }));
    out.extend(edit_cases("script module script program", if deep { 1 } else { 5 }));
    out.extend(wide_cases("script module program"));
    out
}

fn c21(c: &Case, o: &mut Obs) -> Verdict {
    let b = match both(c, &c.mode, o) {
        Ok(b) => b,
        Err(v) => return v,
    };
    if let Some(d) = Diff::structure().node(&b.p.tree, &b.got) {
        return bad(format!("{}{}", c.mode, d));
    }
    o.count(&format!("{} programs", c.mode), 1);
    b.p.tree.walk(&mut |n| o.count(&format!("{} nodes", n.ty), 1));
    tree_size(o, &b.got);
    o.nontrivial = b.got.size() > 1;
    Verdict::Held
}

// ---- C22: automatic semicolon insertion ----

fn c22_gen(r: &mut Rng, deep: bool) -> Case {
    let mut c = cfg(r, deep);
    c.semi = r.pick(&["0", "10", "30", "50"]).parse().unwrap();
    c.nl = r.pick(&["5", "20", "40", "70"]).parse().unwrap();
    if r.chance(1, 2) {
        c.exprs = 10;
    }
    let t = match r.below(10) {
        6 | 7 | 8 => {
            let t = if r.chance(1, 3) { edited(r) } else { composed(r, deep) };
            let n = r.range(1, 3);
            relayout(r, &t, n)
        }
        0 => mutant(r, &c),
        1 => {
            let n = r.range(2, 5);
            let mut t = String::new();
            for _ in 0..n {
                t.push_str(OPEN[r.below(OPEN.len() - 4)]);
                t.push_str(BETWEEN[r.below(BETWEEN.len())]);
                if r.chance(1, 2) {
                    t.push_str(NEXT[r.below(NEXT.len())]);
                    t.push_str(BETWEEN[r.below(BETWEEN.len())]);
                }
            }
            t
        }
        _ => genprog::program(r, &c),
    };
    Case::new("script", t)
}

/// Semicolons and line breaks exchanged, dropped and added.
fn relayout(r: &mut Rng, t: &str, n: usize) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..n {
        let at: Vec<usize> = (0..cs.len()).filter(|&i| cs[i] == ';' || cs[i] == '\n' || cs[i] == ' ').collect();
        if at.is_empty() {
            break;
        }
        let i = at[r.below(at.len())];
        cs[i] = match cs[i] {
            ';' => {
                if r.chance(1, 2) {
                    ' '
                } else {
                    '\n'
                }
            }
            '\n' => {
                if r.chance(1, 2) {
                    ' '
                } else {
                    ';'
                }
            }
            _ => '\n',
        };
    }
    cs.into_iter().collect()
}

fn c22_fixed(deep: bool) -> Vec<Case> {
    let mut out = asi_fixed();
    out.extend(composed_cases("script", if deep { 7 } else { 101 }));
    out.extend(edit_cases("script", if deep { 1 } else { 5 }));
    out.extend(corpus_cases("script"));
    out.extend(distant_cases("script"));
    out.extend(wide_cases("script"));
    out
}

fn c22(c: &Case, o: &mut Obs) -> Verdict {
    let b = match both(c, "script", o) {
        Ok(b) => b,
        Err(v) => {
            if let (&Verdict::Held, Err(PErr::Syntax("asi", at))) = (&v, parse(&chars(c.text()))) {
                // no semicolon may be inserted before this token
                let e = run::run("script", c.text()).err();
                if let Some(Error::FailedASI(t)) = e {
                    if t.location.start.offset as usize != at {
                        return bad(format!(
                            "the missing semicolon is reported at character {}, not before the token at {}",
                            t.location.start.offset, at
                        ));
                    }
                    o.count("missing semicolons reported", 1);
                    o.nontrivial = true;
                }
            }
            return v;
        }
    };
    let d = Diff { semi: true, spans: None };
    if let Some(d) = d.node(&b.p.tree, &b.got) {
        return bad(format!("script{}", d));
    }
    let lines = line_table(&chars(c.text()));
    for s in &b.view.semis {
        match *s {
            Semi::Inserted => o.count("semicolons inserted", 1),
            Semi::Explicit(Some(p)) => {
                o.count("explicit semicolons", 1);
                if lines.get(p.offset as usize) != Some(&(p.line, p.column)) {
                    return bad(format!("semicolon at offset {} recorded at line {} column {}", p.offset, p.line, p.column));
                }
            }
            Semi::Explicit(None) => return bad("an explicit semicolon without a place"),
        }
    }
    o.nontrivial = b.p.inserted > 0;
    Verdict::Held
}

// ---- C24: jumps, labels and other early errors of statements ----

const JUMPS: [&str; 11] = [
    "IllegalBreak", "IllegalContinue", "InvalidLabel", "InvalidLabelType", "DuplicateLabel", "TopLevelReturn",
    "DuplicateDefault", "", "", "", "",
];

fn c24_gen(r: &mut Rng, deep: bool) -> Case {
    let m = r.pick(&["script", "script", "script", "module", "program", "strict"]);
    if r.chance(1, 2) {
        return Case::new(m, jump_text(r, if deep { 7 } else { 5 }, 3));
    }
    if r.chance(1, 2) {
        return Case::new(m, if r.chance(1, 3) { edited(r) } else { composed(r, deep) });
    }
    let mut c = cfg(r, deep);
    c.jumps = 12;
    c.odd = r.pick(&["0", "5", "15", "30"]).parse().unwrap();
    c.funs = 6;
    c.words = 0;
    c.trivia = 0;
    Case::new(m, genprog::program(r, &c))
}

/// Nested loops, switches, labels and functions with jumps in them.
fn jump_text(r: &mut Rng, depth: usize, max: usize) -> String {
    let mut o = String::new();
    for _ in 0..r.range(1, max) {
        let l = r.pick(&["a", "b", "c"]);
        let s = if depth == 0 || r.chance(1, 3) {
            match r.below(12) {
                0 | 1 => "break;".to_string(),
                2 | 3 => "continue;".to_string(),
                4 | 5 => format!("break {};", l),
                6 | 7 => format!("continue {};", l),
                8 => "return;".to_string(),
                9 => r.pick(&["return x;", "break", "continue", "return"]).to_string() + "\n",
                10 => format!("{} {}\n", r.pick(&["break", "continue"]), l),
                _ => "x;".to_string(),
            }
        } else {
            let inner = jump_text(r, depth - 1, 2);
            match r.below(18) {
                0 => format!("while (x) {{ {} }}", inner),
                1 => format!("do {{ {} }} while (x);", inner),
                2 => format!("for (;;) {{ {} }}", inner),
                3 => format!("for (x in y) {{ {} }}", inner),
                4 => format!("for (x of y) {{ {} }}", inner),
                5 | 6 => format!("switch (x) {{ case 1: {} }}", inner),
                7 => format!("switch (x) {{ default: {} case 2: {} }}", inner, jump_text(r, depth - 1, 1)),
                8 => format!("function f() {{ {} }}", inner),
                9 => format!("x = {{ get p() {{ {} }} }};", inner),
                10 => format!("(function* () {{ {} }});", inner),
                11 => format!("if (x) {{ {} }} else {{ {} }}", inner, jump_text(r, depth - 1, 1)),
                12 => format!("try {{ {} }} catch (e) {{ {} }}", inner, jump_text(r, depth - 1, 1)),
                13 | 14 => format!("{}: while (x) {{ {} }}", l, inner),
                15 => format!("{}: {{ {} }}", l, inner),
                16 => format!("{}: {}: for (;;) {{ {} }}", l, r.pick(&["a", "b", "d"]), inner),
                _ => format!("{}: switch (x) {{ case 1: {} default: }}", l, inner),
            }
        };
        o.push_str(&s);
        o.push(' ');
    }
    o
}

fn c24_fixed(deep: bool) -> Vec<Case> {
    let mut out = corpus_cases("script module program");
    out.extend(composed_cases("script script module program strict", if deep { 3 } else { 71 }));
    out.extend(edit_cases("script module script program strict", if deep { 1 } else { 5 }));
    // every jump in every nesting of two constructs
    let outer = [
        "@", "while (x) { @ }", "do { @ } while (x)", "for (;;) { @ }", "for (x in y) { @ }", "for (var x of y) @", "while (x) @",
        "do @ while (x)", "switch (x) { case 1: @ }", "switch (x) { default: @ }", "function f() { @ }", "(function () { @ })",
        "({ get p() { @ } })", "({ set p(v) { @ } })", "({ p() { @ } })", "(function* () { @ })", "a: { @ }", "a: while (x) { @ }",
        "a: switch (x) { case 1: @ }", "a: @", "a: b: while (x) { @ }", "b: a: { @ }", "if (x) { @ }", "try { @ } finally { }",
        "try { } catch (e) { @ }", "with (x) { @ }", "a: if (x) { @ }", "a: do { @ } while (x)", "a: for (x of y) { @ }",
    ];
    let jumps = ["break;", "continue;", "break a;", "continue a;", "break b;", "continue b;", "return;", "return x;", "a: ;", "a: b: ;", "x; break;"];
    for x in outer.iter() {
        for y in outer.iter() {
            for j in jumps.iter() {
                let t = x.replace("@", &y.replace("@", j));
                out.push(Case::new("script", t.as_str()));
            }
        }
    }
    // after a construct has ended, its jumps are gone again
    for x in outer.iter() {
        for j in jumps.iter() {
            out.push(Case::new("script", format!("{} ; {}", x.replace("@", ";"), j)));
            out.push(Case::new("script", format!("while (y) {{ {} ; {} }}", x.replace("@", ";"), j)));
            out.push(Case::new("script", format!("switch (y) {{ case 1: {} ; {} }}", x.replace("@", ";"), j)));
            out.push(Case::new("script", format!("function g() {{ {} ; {} }}", x.replace("@", ";"), j)));
            out.push(Case::new("script", format!("a: {{ {} ; {} }}", x.replace("@", ";"), j)));
            out.push(Case::new("script", format!("a: while (y) {{ {} ; {} }}", x.replace("@", ";"), j)));
        }
    }
    out.extend(distant_cases("script program module script strict script program"));
    out.extend(wide_cases("script program"));
    out
}

fn is_jump(kind: &str) -> bool {
    kind != "" && JUMPS.contains(&kind)
}

/// Accepted or rejected, and which error is reported where, as far as the errors of `mine` go.
fn early(c: &Case, o: &mut Obs, mine: fn(&str) -> bool) -> Verdict {
    let cs = chars(c.text());
    let r = parse(&cs);
    let entry = &c.mode[..];
    let want = expect(&r, entry, c.text());
    let got = match guard(|| run::run(entry, c.text())) {
        Ok(g) => g,
        Err(m) => return bad(m),
    };
    let p = match r {
        Ok(ref p) => p,
        Err(_) => return Verdict::Skip("not a program"),
    };
    match (want, got) {
        (Expect::Unjudged(why), _) => Verdict::Skip(why),
        (Expect::Finding(_), _) => Verdict::Skip("a listed finding"),
        (Expect::Accept, Ok(_)) => {
            let mut n = 0;
            p.tree.walk(&mut |x| {
                if let "Break" | "Cont" | "Return" | "Switch" | "Label" = x.ty {
                    n += 1;
                }
            });
            o.count("valid programs", 1);
            o.count("jumps, labels and switches", n);
            o.nontrivial = n > 0;
            Verdict::Held
        }
        (Expect::Accept, Err(e)) => bad(format!("{}: a valid program is rejected: {}", entry, describe(&e))),
        (_, Ok(_)) => bad(format!("{}: a program with an early error is accepted: {:?}", entry, p.early)),
        (_, Err(e)) => {
            let strict: Vec<_> = p.strict.iter().map(|s| (s.kind, s.at)).collect();
            let all: Vec<_> = p.early.iter().cloned().chain(strict).collect();
            if p.early.iter().any(|e| mine(e.0)) && entry != "program.script" && !p.use_module {
                let ok = all.iter().any(|x| class_of(x.0) == class(&e) && Some(x.1) == at(&e));
                if !ok {
                    return bad(format!("{}: {} is reported where the errors are {:?}", entry, describe(&e), all));
                }
                o.count(&format!("{} reported", class(&e)), 1);
                o.nontrivial = true;
            }
            Verdict::Held
        }
    }
}

fn c24(c: &Case, o: &mut Obs) -> Verdict {
    early(c, o, is_jump)
}

// ---- C25: strict mode and entry points ----

fn c25_gen(r: &mut Rng, deep: bool) -> Case {
    let mut c = cfg(r, deep);
    c.words = r.pick(&["3", "10", "30"]).parse().unwrap();
    c.dirs = r.pick(&["0", "30", "60"]).parse().unwrap();
    c.odd = r.pick(&["0", "2", "10"]).parse().unwrap();
    c.funs = 8;
    c.trivia = 0;
    if r.chance(1, 3) {
        c.size = 2;
        c.depth = 3;
    }
    if r.chance(1, 6) {
        return Case::new("all", violations(r));
    }
    let mut t = match r.below(6) {
        0 | 1 => composed(r, deep),
        2 => edited(r),
        _ => genprog::program(r, &c),
    };
    if r.chance(1, 8) {
        t = format!("{}{}{}", r.pick(&["'use strict'", "\"use strict\"", "'use module'", "'use\\u0020strict'", "'x';'use module'", "('use strict')"]), r.pick(&[";", "\n", " ", "+1;", ".x\n", ",a;"]), t);
    }
    Case::new("all", t)
}

const VIOLATE: [&str; 24] = [
    "with (a) b;", "var public;", "let;", "x = static;", "var yield = 1;", "yield: ;", "function interface() { }", "function f(package) { }", "(function private() { });",
    "try { } catch (protected) { }", "var eval;", "var arguments = 1;", "function eval() { }", "function f(arguments) { }", "function f(...eval) { }", "try { } catch (eval) { }", "({ implements });",
    "var await;", "await: ;", "f(await);", "function f() { with (a) b; }", "function f() { var let; }", "x = function (eval) { };", "({ set a(arguments) { } });",
];

/// Several statements of which each may not be in strict code.
fn violations(r: &mut Rng) -> String {
    let n = r.range(2, 5);
    let mut t = String::new();
    for _ in 0..n {
        let v = VIOLATE[r.below(VIOLATE.len())];
        match r.below(8) {
            0 => t.push_str(&format!("function g() {{ {} }}", v)),
            1 => t.push_str(&format!("with (a) {{ {} }}", v)),
            2 => t.push_str(&format!("function g() {{ {} 'use strict'; {} }}", v, VIOLATE[r.below(VIOLATE.len())])),
            3 => t.push_str(&format!("function g() {{ 'use strict'; a; }} {}", v)),
            4 => t.push_str("a; "),
            _ => t.push_str(v),
        }
        t.push_str(r.pick(&[" ", "\n", ""]));
    }
    t
}

fn c25_fixed(deep: bool) -> Vec<Case> {
    let mut out = corpus_cases("all");
    out.extend(composed_cases("all", if deep { 5 } else { 149 }));
    out.extend(distant_cases("all"));
    out.extend(edit_cases("all", if deep { 1 } else { 11 }));
    let words = [
        "implements", "interface", "let", "package", "private", "protected", "public", "static", "yield", "await", "eval",
        "arguments", "of", "get", "set", "async", "from", "target", "x",
    ];
    let places = [
        "@", "@;", "x = @", "@ = 1", "@ += 1", "@++", "--@", "(@)", "[@] = x", "({ @ } = x)", "({ a: @ } = x)", "[...@] = x", "var @",
        "var @ = 1", "var x, @", "let @", "let x, @ = 1", "const @ = 1", "const x = 1, @ = 2", "function @() { }", "(function @() { })",
        "(function* @() { })", "function f(@) { }", "function f(x, @) { }", "function f(...@) { }", "(function (@) { })", "({ a(@) { } })",
        "({ set a(@) { } })", "({ get @() { } })", "({ set @(v) { } })", "({ @() { } })", "({ *@() { } })", "({ @: 1 })", "({ @ })",
        "({ @, x })", "x.@", "x.@()", "@.x", "@()", "@[0]", "new @", "new @()", "new x.@", "typeof @", "@ ? @ : @", "x + @", "f(@)",
        "f(...@)", "[@]", "[...@]", "x[@]", "@: x", "@: while (1) { break @ }", "@: while (1) { continue @ }", "try { } catch (@) { }",
        "for (@ in x) ;", "for (@ of x) ;", "for (var @ in x) ;", "for (var @ = 1 in x) ;", "for (var @ of x) ;", "for (let @ in x) ;",
        "for (let @ of x) ;", "for (const @ of x) ;", "for (const @ in x) ;", "for (var @;;) ;", "for (let @ = 1;;) ;", "for (const @ = 1;;) ;",
        "for (var x, @;;) ;", "for (@;@;@) ;", "for (x in @) ;", "with (@) x", "with (x) @", "if (@) x", "while (@) x", "switch (@) { case @: @ }",
        "throw @", "function f() { return @ }", "do @; while (@)", "x = { a: @ }", "x = function () { @ }", "function f() { function @() { } }",
        "function f() { 'use strict'; @ }", "function f() { 'use strict'; var @ }", "function f() { 'use strict' } @",
        "function f() { 'use strict' } var @", "(function () { 'use strict' }), @", "({ get a() { 'use strict' } }), @",
        "({ a() { 'use strict'; @ } })", "function @() { 'use strict' }", "function f(@) { 'use strict' }", "({ set a(@) { 'use strict' } })",
        "function f(a, @) { 'use strict' }", "function f(@, a) { 'use strict' }", "function f(...@) { 'use strict' }",
        "function f(a, ...@) { 'use strict' }", "(function (a, ...@) { 'use strict' })", "(function (...@) { 'use strict' })",
        "(function @() { 'use strict' })", "(function* @() { 'use strict' })", "(function* (a, @) { 'use strict' })",
        "function* f(...@) { 'use strict' }", "({ a(b, @) { 'use strict' } })", "({ a(...@) { 'use strict' } })",
        "({ *a(b, ...@) { 'use strict' } })", "({ *a(@) { 'use strict' } })", "({ @() { 'use strict' } })",
        "({ get @() { 'use strict' } })", "({ set @(v) { 'use strict' } })", "function f(@) { 'a'; 'use strict' }",
        "function f(@) { 'use strict'.a }", "function f(@) { 'use\\x20strict' }", "function f(@) { ('use strict') }",
        "function f(@) { 0; 'use strict' }", "function f(@) { function g() { 'use strict' } }",
        "function f() { 'use strict'; return @ }", "function f() { 'use strict'; function @() { } }",
        "function f() { 'use strict'; function g(@) { } }", "function f() { 'use strict'; function g(...@) { } }",
        "function f() { (function () { 'use strict' }); @ }", "function f() { 'use strict'; function g() { var @ } }", "@ => x", "1, @", "@, 1",
    ];
    for p in places.iter() {
        for w in words.iter() {
            for w in [w.to_string(), uncook(w, p.len())].iter() {
                let t = p.replace("@", w);
                out.push(Case::new("all", t.as_str()));
                out.push(Case::new("all", format!("'use strict'; {}", t)));
                out.push(Case::new("all", format!("'use module'; {}", t)));
            }
        }
    }
    let withs = [
        "with (a) b", "function f() { with (a) b }", "(function () { with (a) b })", "({ get a() { with (b) c } })", "({ a() { with (b) c } })",
        "if (a) with (b) c", "l: with (a) b", "{ with (a) b }", "while (1) with (a) b", "switch (a) { case 1: with (a) b }", "with (a) with (b) c",
        "function f() { 'use strict'; with (a) b }", "function f() { 'use strict' } with (a) b", "with (a) (function () { 'use strict' })",
        "with (a) { (function () { 'use strict'; with (b) c }) }", "function f() { 'use strict'; return function () { with (a) b } }",
        "({ set a(b) { 'use strict'; with (b) c } })", "({ set a(b) { 'use strict' } }); with (b) c",
    ];
    for v in VIOLATE.iter() {
        for w in VIOLATE.iter() {
            out.push(Case::new("all", format!("{} {}", v, w)));
            out.push(Case::new("all", format!("{} function g() {{ {} }}", v, w)));
            out.push(Case::new("all", format!("with (a) {{ {} }} {}", v, w)));
        }
    }
    let prologues = [
        "", "'use strict';", "\"use strict\";", "'use strict'\n", "'a';'use strict';", "'use strict';'a';", "'use\\x20strict';", "('use strict');",
        "'use strict '; ", "'Use strict';", "'use strict'.a;", "'use strict',0;", "'use strict'+0;", "'use strict'[0];", "'use strict'()\n",
        "'use strict'?1:2;", "'use strict'==1\n", "'use strict'\n+1\n", "'use strict'\n;", "'use strict'/*\n*/", "'use strict'in a;", "0;'use strict';",
        ";'use strict';", "{'use strict'}", "'use module';", "\"use module\"\n", "'use strict';'use module';", "'use module';'use strict';",
        "0;'use module';", "'use module'+1;", "'use\\u0020module';", "'use module'.length\n", "'use strict'=1;", "'use strict'++;", "'use strict'&&a;",
        "'use strict'<a;", "'use strict'|a;", "'use strict'instanceof a;", "'use strict'-a;", "'use strict'/a;", "'use strict'*a;", "'use strict'%a;",
        "'use strict'^a;", "'use strict'\n(a)\n", "'use strict'\n[a]\n", "'use strict'\n.a\n", "'use strict'\na\n", "'use strict'\n++a\n", "'use strict'\n{}\n",
        "'use strict'\n'b'\n", "'use strict'\n/a/g\n",
    ];
    for p in prologues.iter() {
        for w in withs.iter() {
            out.push(Case::new("all", format!("{}{}", p, w)));
        }
        for w in ["", "var public", "x", "function f() { eval = 1 }", "function f(eval) { }", "await", "var yield", "var await"].iter() {
            out.push(Case::new("all", format!("{}{}", p, w)));
            out.push(Case::new("all", format!("function g() {{ {} {} }}", p, w)));
            out.push(Case::new("all", format!("function g() {{ {} {} }} {}", p, w, w)));
        }
    }
    // strings that are almost such a directive
    for d in ["use strict", "use module"].iter() {
        let cs: Vec<char> = d.chars().collect();
        let mut near = vec![d.to_string()];
        for k in 0..=cs.len() {
            let (a, b): (String, String) = (cs[..k].iter().collect(), cs[k..].iter().collect());
            for x in ["'", "\"", " ", "\\\n", "\\'", "\\", "\t", "\u{a0}", "s", "\\0", "\u{200d}", "`", "\u{2028}", ";"].iter() {
                near.push(format!("{}{}{}", a, x, b));
            }
            if k < cs.len() {
                let rest: String = cs[k + 1..].iter().collect();
                near.push(format!("{}{}", a, rest));
                near.push(format!("{}{}{}", a, cs[k].to_ascii_uppercase(), rest));
                near.push(format!("{}\\u{:04x}{}", a, cs[k] as u32, rest));
                near.push(format!("{}\\{}{}", a, cs[k], rest));
                near.push(format!("{}{}{}", a, if cs[k] == ' ' { "\t" } else { " " }, rest));
            }
        }
        near.push(format!("'{}'", d));
        near.push(format!("\"{}\"", d));
        near.push(format!("{}, {}", d, d));
        for n in near.iter() {
            for q in ["'", "\""].iter() {
                for (before, after) in [("", "; with (a) b"), ("", "; var public, await"), ("'use asm'; ", "\nwith (a) b"), ("function f(eval) { ", " } with (a) b"), ("(function f() { 'x'; ", "; with (a) b })")].iter() {
                    out.push(Case::new("all", format!("{}{}{}{}{}", before, q, n, q, after)));
                }
            }
        }
    }
    out.extend(wide_cases("all"));
    out
}

fn c25(c: &Case, o: &mut Obs) -> Verdict {
    let cs = chars(c.text());
    let r = parse(&cs);
    let mut trees: Vec<(&str, Node)> = vec![];
    for entry in ENTRIES.iter() {
        let want = expect(&r, entry, c.text());
        let got = match guard(|| run::run(entry, c.text())) {
            Ok(g) => g,
            Err(m) => return bad(m),
        };
        // whatever the reference says, the two ways to the same goal agree
        match (want, &got) {
            (Expect::Accept, Err(e)) => return bad(format!("{}: a valid program is rejected: {}", entry, describe(e))),
            (Expect::Reject, Ok(_)) if r.is_ok() => {
                return bad(format!(
                    "{}: accepted in spite of {:?}",
                    entry,
                    r.as_ref().map(|p| (p.strict.clone(), p.early.clone())).ok()
                ))
            }
            (Expect::Reject, Ok(_)) => return bad(format!("{}: an invalid program is accepted", entry)),
            (Expect::Reject, Err(e)) => {
                if let Ok(ref p) = r {
                    let module = entry.ends_with("module") || (*entry == "program" && p.use_module);
                    let strict = module || entry.ends_with("strict");
                    if p.early.is_empty() && !p.strict.is_empty() && !(p.use_module && entry.starts_with("program.")) {
                        let ok = p.strict.iter().any(|s| {
                            (module || !s.module_only) && (strict || s.definite) && class_of(s.kind) == class(e) && Some(s.at) == at(e)
                        });
                        if !ok {
                            return bad(format!("{}: {} is reported where the errors are {:?}", entry, describe(e), p.strict));
                        }
                        o.count(&format!("{} reported by {}", class(e), entry), 1);
                        o.nontrivial = true;
                    }
                    if p.use_module && p.early.is_empty() && p.strict.is_empty() {
                        match *e {
                            Error::UnexpectedDirective(_, ref s) if s.value == "use module" => {
                                o.count("use module refused in a script", 1);
                                o.nontrivial = true;
                            }
                            _ => return bad(format!("{}: {} is reported for a \"use module\" directive", entry, describe(e))),
                        }
                    }
                }
            }
            (Expect::Accept, Ok(_)) => {
                o.count(&format!("accepted by {}", entry), 1);
                if let Ok(ref p) = r {
                    o.nontrivial |= !p.strict.is_empty() || !p.tree.l("dirs").is_empty();
                }
            }
            _ => {}
        }
        if let Ok(out) = got {
            trees.push((entry, out.view().0));
        }
    }
    // all goals that accept the text agree on the tree
    for w in trees.windows(2) {
        if w[0].1 != w[1].1 {
            return bad(format!("{} and {} give different trees", w[0].0, w[1].0));
        }
    }
    for &(a, b) in [("script", "program.script"), ("strict", "program.strict"), ("module", "program.module")].iter() {
        let has = |e| trees.iter().any(|t| t.0 == e);
        let use_module = r.as_ref().map(|p| p.use_module).unwrap_or(true);
        if has(a) != has(b) && (a == "module" || !use_module) && r.is_ok() {
            return bad(format!("{} and {} do not agree on whether the program is valid", a, b));
        }
    }
    match guard(|| esprit::program(c.text())) {
        Ok(Ok(p)) => {
            // choosing the goal afterwards reports what choosing it beforehand does
            for &(a, b) in [("strict", "program.strict"), ("module", "program.module")].iter() {
                if let (Err(x), Err(y)) = (run::run(a, c.text()), run::run(b, c.text())) {
                    if let Error::UnexpectedDirective(..) = y {
                        continue;
                    }
                    if x != y {
                        return bad(format!("{} reports {}, but {} reports {}", a, describe(&x), b, describe(&y)));
                    }
                    o.count("errors equal whenever the goal is chosen", 1);
                    o.nontrivial = true;
                }
            }
            let module = match p {
                esprit::Program::Module(_) => true,
                _ => false,
            };
            if let Ok(ref r) = r {
                if module != r.use_module {
                    return bad(format!("program: the goal is {}", if module { "module" } else { "ambiguous" }));
                }
            }
        }
        _ => {}
    }
    match r {
        Err(PErr::Skip(why)) => Verdict::Skip(why),
        _ => Verdict::Held,
    }
}

// ---- C26: locations ----

fn c26_gen(r: &mut Rng, deep: bool) -> Case {
    let m = r.pick(&["script", "script", "module", "program"]);
    let mut c = cfg(r, deep);
    c.trivia = r.pick(&["0", "5", "30", "60"]).parse().unwrap();
    c.nl = r.pick(&["0", "10", "40"]).parse().unwrap();
    c.parens = r.pick(&["0", "10", "40"]).parse().unwrap();
    if r.chance(1, 4) {
        let t = if r.chance(1, 3) { edited(r) } else { composed(r, deep) };
        let n = r.below(4);
        return Case::new(m, relayout(r, &t, n));
    }
    Case::new(m, genprog::program(r, &c))
}

fn c26_fixed(deep: bool) -> Vec<Case> {
    let mut out = corpus_cases("script module program");
    out.extend(composed_cases("script program module", if deep { 5 } else { 101 }));
    out.extend(edit_cases("script module program", if deep { 1 } else { 11 }));
    out.extend(wide_cases("script module program"));
    out
}

fn nested(n: &Node) -> Option<String> {
    fn v(outer: &Node, x: &V) -> Option<String> {
        match x {
            V::N(n) => {
                if let (Some(a), Some(b)) = (outer.span, n.span) {
                    if b.0 < a.0 || b.1 > a.1 {
                        return Some(format!("{} at {}..{} extends beyond the {} around it at {}..{}", n.ty, b.0, b.1, outer.ty, a.0, a.1));
                    }
                }
                nested(n)
            }
            V::L(l) => l.iter().filter_map(|x| v(outer, x)).next(),
            _ => None,
        }
    }
    if let Some((a, b)) = n.span {
        if a > b {
            return Some(format!("{} ends at {} before it starts at {}", n.ty, b, a));
        }
    }
    n.f.iter().filter_map(|f| v(n, &f.1)).next()
}

/// The span with the parentheses that it has only one half of.
fn balanced(cs: &[char], toks: &[(usize, usize)], x: usize, y: usize) -> (usize, usize) {
    let is = |t: &(usize, usize), c: char| t.1 == t.0 + 1 && cs[t.0] == c;
    let first = toks.partition_point(|t| t.0 < x);
    let last = toks.partition_point(|t| t.1 <= y);
    let before = first > 0 && is(&toks[first - 1], '(');
    let behind = toks.get(last).map_or(false, |t| is(t, ')'));
    if !before && !behind {
        return (x, y);
    }
    let (mut opened, mut closed) = (0, 0);
    for t in toks.get(first..last).unwrap_or(&[]) {
        if is(t, '(') {
            opened += 1;
        } else if is(t, ')') {
            if opened > 0 {
                opened -= 1;
            } else {
                closed += 1;
            }
        }
    }
    let (mut a, mut b) = (x, y);
    if closed > 0 && first >= closed {
        a = toks[first - closed].0;
    }
    if opened > 0 && last + opened <= toks.len() {
        b = toks[last + opened - 1].1;
    }
    (a, b)
}

fn c26(c: &Case, o: &mut Obs) -> Verdict {
    let b = match both(c, &c.mode, o) {
        Ok(b) => b,
        Err(Verdict::Held) => return Verdict::Held,
        Err(v) => return v,
    };
    let cs = chars(c.text());
    let lines = line_table(&cs);
    let wrong = |p: &Posn| lines.get(p.offset as usize) != Some(&(p.line, p.column));
    for s in &b.view.spans {
        match *s {
            None => return bad("a node of a parsed tree has no location"),
            Some(s) => {
                for p in [s.start, s.end].iter() {
                    if wrong(p) {
                        return bad(format!("offset {} is not line {} column {} (from 0)", p.offset, p.line, p.column));
                    }
                }
            }
        }
    }
    o.count("locations checked", b.view.spans.len() as u64);
    if !b.view.stray.is_empty() {
        return bad(format!("tracking_ref of a {} is not its location", b.view.stray[0]));
    }
    if let Some(m) = nested(&b.got) {
        return bad(m);
    }
    let (mut fwd, mut bwd) = (vec![cs.len(); cs.len() + 1], vec![0; cs.len() + 1]);
    let mut next = cs.len();
    let mut k = b.p.toks.len();
    for i in (0..cs.len() + 1).rev() {
        while k > 0 && b.p.toks[k - 1].0 >= i {
            k -= 1;
            next = b.p.toks[k].0;
        }
        fwd[i] = next;
    }
    let mut last = 0;
    let mut k = 0;
    for i in 0..cs.len() + 1 {
        while k < b.p.toks.len() && b.p.toks[k].1 <= i {
            last = b.p.toks[k].1;
            k += 1;
        }
        bwd[i] = last;
    }
    // the reference tree leaves out parentheses at the ends of a construct, as the code does; by
    // their first and last token these constructs have them
    let mut full = b.p.tree.clone();
    let mut cropped = None;
    full.walk_mut(&mut |n| {
        if let Some((x, y)) = n.span {
            let (x, y) = balanced(&cs, &b.p.toks, x, y);
            if n.span != Some((x, y)) {
                cropped = Some(format!("a {} is located without a parenthesis at its end", n.ty));
                n.span = Some((x, y));
            }
        }
    });
    let d = Diff { semi: true, spans: Some((&fwd, &bwd)) };
    let differs = d.node(&b.p.tree, &b.got);
    if differs.is_none() {
        o.nontrivial = b.got.size() > 1;
        if let Some(m) = cropped {
            o.count("programs with parentheses left out of locations", 1);
            return Verdict::Known("paren-location", m);
        }
    }
    if let Some(d) = differs.and_then(|m| d.node(&full, &b.got).map(|_| m)) {
        return bad(format!("{}{}", c.mode, d));
    }
    o.count("lines", lines[cs.len()].0 as u64 + 1);
    tree_size(o, &b.got);
    o.nontrivial = b.got.size() > 1;
    Verdict::Held
}

// ---- C27: rejection ----

fn c27_gen(r: &mut Rng, deep: bool) -> Case {
    let m = r.pick(&["script", "script", "script", "module", "program", "strict"]);
    if r.chance(1, 4) {
        return Case::new(m, salad(r, if deep { 12 } else { 7 }));
    }
    if r.chance(1, 4) {
        return Case::new(m, composed(r, deep));
    }
    if r.chance(1, 4) {
        return Case::new(m, edited(r));
    }
    let mut c = cfg(r, deep);
    c.odd = r.pick(&["0", "3", "20"]).parse().unwrap();
    c.trivia = 0;
    if r.chance(1, 2) {
        c.size = r.range(1, 2);
        c.depth = r.range(1, 3);
    }
    if r.chance(1, 4) {
        return Case::new(m, genprog::program(r, &c));
    }
    Case::new(m, mutant(r, &c))
}

fn c27_fixed(deep: bool) -> Vec<Case> {
    let mut out = corpus_cases("script strict module program");
    out.extend(composed_cases("script strict script module program", if deep { 2 } else { 53 }));
    out.extend(edit_cases("script strict script module program", if deep { 1 } else { 2 }));
    out.extend(short("script"));
    for t in asi_fixed() {
        out.push(Case::new("program", t.text()));
    }
    out.extend(distant_cases("script program script strict script module program.module"));
    out.extend(wide_cases("script strict module program"));
    out
}

fn c27(c: &Case, o: &mut Obs) -> Verdict {
    let cs = chars(c.text());
    let r = parse(&cs);
    let entry = &c.mode[..];
    let want = expect(&r, entry, c.text());
    let got = match guard(|| run::run(entry, c.text())) {
        Ok(g) => g,
        Err(m) => return bad(m),
    };
    match (want, got) {
        (Expect::Unjudged(why), _) => Verdict::Skip(why),
        (Expect::Finding(sig), Ok(_)) => Verdict::Known(sig, format!("{} accepts an invalid assignment pattern", entry)),
        (Expect::Finding(_), Err(_)) => {
            o.nontrivial = true;
            Verdict::Held
        }
        (Expect::Accept, Ok(_)) => {
            o.count("valid programs accepted", 1);
            Verdict::Held
        }
        (Expect::Accept, Err(e)) => bad(format!("{}: a valid program is rejected: {}", entry, describe(&e))),
        (Expect::Reject, Ok(_)) => bad(format!("{}: an invalid program is accepted", entry)),
        (Expect::Reject, Err(e)) => {
            o.nontrivial = true;
            o.count(&format!("{} reported", class(&e)), 1);
            if let Some(s) = blamed(&e) {
                let (a, b) = (s.start.offset as usize, s.end.offset as usize);
                if a > b || b > cs.len() {
                    return bad(format!("{}: {} ends at {} in a text of {} characters", entry, describe(&e), b, cs.len()));
                }
                match e {
                    Error::TopLevelReturn(_) | Error::UnexpectedModule(_) | Error::UnexpectedDirective(_, _) => {}
                    Error::InvalidLHS(Some(l), _) => {
                        let (c, d) = (l.start.offset as usize, l.end.offset as usize);
                        if c > a || b > d || d > cs.len() {
                            return bad(format!("{}: {} lies outside of the target at {}..{}", entry, describe(&e), c, d));
                        }
                    }
                    Error::InvalidLHS(None, _) => {}
                    // all others are about one token
                    _ => {
                        if a < cs.len() && ![false, true].iter().any(|&m| model::lex::token(&cs, a, m).map_or(false, |t| t.1 == b)) {
                            return bad(format!("{}: {} ends at {}, which is not the end of that token", entry, describe(&e), b));
                        }
                        o.count("tokens blamed as a whole", 1);
                    }
                }
            }
            let shown = guard(|| (format!("{}", e), format!("{:?}", e)));
            match shown {
                Err(m) => return bad(m),
                Ok(ref s) if s.0.is_empty() || s.1.is_empty() => return bad("an error without a message"),
                _ => {}
            }
            let p = match r {
                Err(PErr::Syntax(kind, pos)) => {
                    // the error is the first one, unless something invalid for other reasons came before
                    let (k, p) = (class(&e), at(&e));
                    let same = match kind {
                        "unexpected" | "asi" => match k {
                            "UnexpectedToken" | "FailedASI" => p == Some(pos),
                            // a regular expression may be tried where neither it nor a division can be
                            "LexError" => cs.get(pos) == Some(&'/'),
                            "ThrowArgument" | "OrphanTry" | "UnsupportedFeature" => false,
                            _ => p.map_or(false, |p| p <= pos),
                        },
                        _ => match k {
                            "UnexpectedToken" | "FailedASI" => false,
                            // the token after is already needed
                            "LexError" => true,
                            k if k == kind => true,
                            _ => p.map_or(false, |p| p <= pos),
                        },
                    };
                    if !same {
                        return bad(format!("{}: {} is reported where the first error is {} at {}", entry, describe(&e), kind, pos));
                    }
                    o.count("syntax errors placed", 1);
                    return Verdict::Held;
                }
                Err(PErr::Lex(kind)) => {
                    match class(&e) {
                        "UnexpectedToken" | "FailedASI" => {
                            return bad(format!("{}: {} is reported for the malformed token ({})", entry, describe(&e), kind))
                        }
                        _ => {}
                    }
                    o.count("lexical errors reported", 1);
                    return Verdict::Held;
                }
                Ok(ref p) => p,
                Err(_) => return Verdict::Held,
            };
            if p.early.iter().any(|x| x.0 == "InvalidLHS" || x.0 == "ForOfLet") && !(p.use_module && entry.starts_with("program.")) {
                let all: Vec<_> = p.early.iter().cloned().chain(p.strict.iter().map(|s| (s.kind, s.at))).collect();
                if !all.iter().any(|x| class_of(x.0) == class(&e) && Some(x.1) == at(&e)) {
                    return bad(format!("{}: {} is reported where the errors are {:?}", entry, describe(&e), all));
                }
                o.count("invalid targets placed", 1);
            }
            Verdict::Held
        }
    }
}

// ---- C20: totality ----

fn c20_gen(r: &mut Rng, deep: bool) -> Case {
    if r.chance(1, 8) {
        return Case::new("any", edited(r));
    }
    Case::new("any", any_text(r, deep))
}

fn c20_fixed(deep: bool) -> Vec<Case> {
    let mut out = corpus_cases("any");
    out.extend(edit_cases("any", if deep { 1 } else { 11 }));
    // every prefix of every program of the corpus
    for t in corpus() {
        let cs = chars(&t);
        for i in 1..cs.len() {
            out.push(Case::new("any", cs[..i].iter().collect::<String>()));
        }
    }
    out.extend(wide_cases("any"));
    // long lists of everything that a program may have many of, on a stack of ordinary size
    for &n in [10_000, 50_000].iter() {
        for (a, x, sep, b) in [
            ("", "a", ";", ""), ("", "a", "\n", ""), ("", ";", "", ""), ("", "var a = 1", ";", ""), ("", "f(a)", "\n", ""), ("", "function f() { }", "", ""), ("", "{ }", "", ""), ("", "'a'", ";", ""), ("", "'a'", "\n", ""),
            ("", "if (a) b; else c", ";", ""), ("", "while (a) b", ";", ""), ("", "for (;;) a", ";", ""), ("", "try { } catch (e) { }", "", ""), ("", "l: a", ";", ""), ("", "with (a) b", ";", ""), ("", "let let", ";", ""),
            ("[", "a", ",", "]"), ("[", "", ",", "]"), ("[", "...a", ",", "]"), ("f(", "a", ",", ")"), ("new f(", "a", ",", ")"), ("({", "a: b", ",", "})"), ("({", "a", ",", "})"), ("({", "get a() { }", ",", "})"), ("", "a", ",", ""),
            ("(", "a", ",", ")"), ("var ", "a", ",", ""), ("let ", "a = b", ",", ""), ("const ", "a = b", ",", ""), ("switch (a) { ", "case b: c", ";", "}"), ("switch (a) { case b: ", "c", ";", "}"), ("function f(", "a", ",", ") { }"),
            ("{ ", "a", "\n", "}"), ("function f() { ", "a", ";", "}"), ("[", "a", ",", "] = b"), ("({", "a: b", ",", "} = c)"), ("for (var ", "a = b", ",", ";;) c"), ("", "/a/g", ";", ""), ("", "// a\n", "", "a"), ("", "/* a */", "", "a"),
            ("", "\n", "", "a"), ("a", "\n", "", "b"), ("'", "a", "", "'"), ("", "a", "", ""), ("", "\\u{61}", "", ""), ("", "1", "", ""), ("/", "a", "", "/"), ("", "<!-- a\n", "", "a"), ("", "\n--> a", "", "\na"),
        ].iter() {
            let list: Vec<&str> = (0..n).map(|_| *x).collect();
            out.push(Case::new("flat", format!("{}{}{}", a, list.join(sep), b)));
        }
    }
    // nesting, on a stack of the size that a program starts with
    for &(mode, n) in [("nested", 64), ("deep", 150_000)].iter() {
        for &(a, x, b) in [
            ("(", "a", ")"), ("[", "", "]"), ("({ a: ", "b", "})"), ("!", "a", ""), ("a = ", "b", ""), ("{", "", "}"), ("if (a) ", "b", ""), ("if (a) b; else ", "c", ""), ("(function () { ", "", "})"),
            ("function f() { ", "", "}"), ("new ", "a", ""), ("a ? b : ", "c", ""), ("f(", "a", ")"), ("a[", "b", "]"), ("while (a) ", "b", ""), ("l#: ", "b", ""), ("", "a", " + a"), ("", "a", ".b"), ("", "a", "()"),
            ("", "a", ", a"), ("", "a", " && b"), ("switch (a) { case b: ", "", "}"), ("try { ", "", "} finally { }"), ("({ a() { ", "", "} })"), ("for (;;) ", "a", ""), ("with (a) ", "b", ""), ("do ", "a", "; while (b)"),
        ].iter() {
            let open: String = (0..n).map(|i| a.replace("#", &i.to_string())).collect();
            out.push(Case::new(mode, format!("{}{}{}", open, x, b.repeat(n))));
        }
    }
    out
}

fn c20(c: &Case, o: &mut Obs) -> Verdict {
    if c.mode == "nested" || c.mode == "deep" {
        use std::os::unix::process::ExitStatusExt;
        for entry in ["script", "program"].iter() {
            let end = pure::on_stack(entry, 8 << 20, &c.text()).expect("monitor: no process");
            o.count(if end.success() { "nested texts parsed in a process of their own" } else { "nested texts that ended their process" }, 1);
            if !end.success() {
                let m = format!("parsing nested text as {} ends the process: {}", entry, end);
                return if c.mode == "deep" && end.signal().is_some() { Verdict::Known("deep-nesting", m) } else { bad(m) };
            }
        }
        o.nontrivial = true;
        return Verdict::Held;
    }
    if c.mode == "flat" {
        let c = Case::new("any", c.text());
        return match model::harness::small(move || {
            let mut o = Obs::default();
            match c20(&c, &mut o) {
                Verdict::Violation(m) => Err(m),
                _ => Ok(o),
            }
        }) {
            Ok(n) => {
                o.add(&n);
                o.count("long lists", 1);
                o.nontrivial = true;
                Verdict::Held
            }
            Err(m) => bad(m),
        };
    }
    for entry in ENTRIES.iter() {
        match guard(|| {
            let r = run::run(entry, c.text());
            let ok = r.is_ok();
            match r {
                Ok(out) => drop(out),
                Err(e) => {
                    let _ = format!("{} {:?} {:#?}", e, e, e);
                    // and all that is behind it
                    let mut next: Option<&dyn std::error::Error> = Some(&e);
                    while let Some(x) = next {
                        #[allow(deprecated)]
                        let _ = format!("{} {:?} {}", x, x, x.description());
                        #[allow(deprecated)]
                        {
                            next = x.cause();
                        }
                    }
                }
            }
            ok
        }) {
            Err(m) => return bad(format!("{}: {}", entry, m)),
            Ok(true) => o.count("accepted", 1),
            Ok(false) => o.count("rejected", 1),
        }
    }
    o.count("characters", c.text().chars().count() as u64);
    o.nontrivial = c.text().len() > 1;
    Verdict::Held
}

// ---- C19: layout ----

fn c19_gen(r: &mut Rng, deep: bool) -> Case {
    if r.chance(1, 3) {
        // line breaks added and taken away
        let a = match r.below(3) {
            0 => edited(r),
            1 => composed(r, deep),
            _ => program(r, deep),
        };
        let n = r.range(1, 3);
        let b = broken(r, &a, n);
        let m = if html(&a) || html(&b) { "script" } else { r.pick(&["script", "module", "program"]) };
        return Case::two(m, a, b);
    }
    let mut c = cfg(r, deep);
    c.nl = 0;
    let toks = if r.chance(1, 5) {
        let mut t = genprog::tokens(r, &c);
        genprog::mutate(r, &mut t, 1);
        t
    } else {
        genprog::tokens(r, &c)
    };
    c.trivia = 0;
    // no token contains a line terminator that would let layout be confused
    let a = genprog::layout(r, &c, &toks);
    c.trivia = r.range(10, 80);
    let b = genprog::layout(r, &c, &toks);
    let m = if html(&a) || html(&b) { "script" } else { r.pick(&["script", "module", "program"]) };
    Case::two(m, a, b)
}

/// Spaces made line breaks, and the other way round.
fn broken(r: &mut Rng, t: &str, n: usize) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..n {
        let at: Vec<usize> = (0..cs.len()).filter(|&i| cs[i] == '\n' || cs[i] == ' ').collect();
        if at.is_empty() {
            break;
        }
        let i = at[r.below(at.len())];
        cs[i] = if cs[i] == '\n' { ' ' } else { r.pickc(&['\n', '\n', '\r', '\u{2028}']) };
    }
    cs.into_iter().collect()
}

fn c19_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    for t in corpus() {
        // a line break before each token
        let toks = edits::cut(&t);
        let spaced = toks.join(" ");
        for i in 1..toks.len() {
            out.push(Case::two("script", spaced.as_str(), format!("{}\n{}", toks[..i].join(" "), toks[i..].join(" "))));
        }
        out.push(Case::two("script", spaced.as_str(), toks.join("\n")));
        out.push(Case::two("script", t.as_str(), format!("/* */ {} // x", t)));
        out.push(Case::two("script", t.as_str(), format!("\n\n\t{}\n/* \n */", t)));
        out.push(Case::two("script", t.as_str(), t.replace("\n", "\r\n").replace(" ", "\u{a0}/**/\t")));
    }
    out
}

fn same_tokens(a: &[char], b: &[char]) -> bool {
    use model::lex::{lex, St, K};
    // regexp or division does not matter as long as both read the same
    for &op in [false, true].iter() {
        let (mut s, mut t) = (St::start(), St::start());
        loop {
            match (lex(a, s, op), lex(b, t, op)) {
                (Ok((x, s2)), Ok((y, t2))) => {
                    if a[x.start..x.end] != b[y.start..y.end] || x.newline != y.newline {
                        return false;
                    }
                    if x.k == K::Eof || y.k == K::Eof {
                        break;
                    }
                    s = s2;
                    t = t2;
                }
                (Err(_), Err(_)) => break,
                _ => return false,
            }
        }
    }
    true
}

fn c19(c: &Case, o: &mut Obs) -> Verdict {
    let entry = &c.mode[..];
    let (a, b) = (chars(&c.parts[0]), chars(&c.parts[1]));
    if entry != "script" && (html(&c.parts[0]) || html(&c.parts[1])) {
        return Verdict::Skip("HTML-like comment in a module");
    }
    // the leading newline flag of the first token is of no consequence
    let strip = |cs: &[char]| -> Vec<char> {
        match model::lex::skip_trivia(cs, model::lex::St::start()) {
            Ok((p, _, _)) => cs[p..].to_vec(),
            Err(_) => cs.to_vec(),
        }
    };
    // whether a slash divides, and so what is a line break, depends on what precedes it
    let breaks = c.parts[0].contains('/') || !same_tokens(&strip(&a), &strip(&b));
    // line breaks matter where semicolons are inserted and nowhere else
    if breaks {
        let same = match (parse(&a), parse(&b)) {
            (Ok(x), Ok(y)) => {
                x.toks.len() == y.toks.len()
                    && x.toks.iter().zip(y.toks.iter()).all(|(t, u)| a[t.0..t.1] == b[u.0..u.1])
                    && x.early.is_empty()
                    && y.early.is_empty()
                    && x.inserted == y.inserted
                    && Diff::structure().node(&x.tree, &y.tree).is_none()
            }
            _ => false,
        };
        if !same {
            return Verdict::Skip("not two layouts of the same tokens");
        }
    }
    let run = |t: &str| guard(|| run::run(entry, t).map(|x| x.view().0));
    match (run(&c.parts[0]), run(&c.parts[1])) {
        (Err(m), _) | (_, Err(m)) => bad(m),
        (Ok(Ok(x)), Ok(Ok(y))) => {
            if let Some(d) = Diff::structure().node(&x, &y) {
                return bad(format!("the layout changes the tree: {}", d));
            }
            o.count("pairs of layouts with one tree", 1);
            if breaks {
                o.count("pairs with different line breaks", 1);
            }
            tree_size(o, &y);
            o.nontrivial = x.size() > 1 && c.parts[0] != c.parts[1];
            Verdict::Held
        }
        (Ok(Err(x)), Ok(Err(y))) => {
            if class(&x) != class(&y) {
                return bad(format!("the layout changes the error: {} and {}", describe(&x), describe(&y)));
            }
            o.count("pairs of layouts with one error", 1);
            Verdict::Held
        }
        (Ok(x), Ok(y)) => bad(format!(
            "the layout decides whether the program is valid: {} and {}",
            x.err().map_or("accepted".to_string(), |e| describe(&e)),
            y.err().map_or("accepted".to_string(), |e| describe(&e))
        )),
    }
}

#[global_allocator]
static ALLOCATOR: cost::Counting = cost::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() == 3 && a[1] == "fresh" {
        pure::fresh_main(a[2].clone());
    }
    if a.len() == 4 && a[1] == "stack" {
        pure::stack_main(a[2].clone(), a[3].parse().unwrap());
    }
    let _ = PLAIN;
    let mut props = vec![
        Prop { id: "C19", rule: "pairs of layouts of the same tokens, through one entry point; non-trivial: a tree was compared",
            fixed: c19_fixed, exhaustive: false, gen: c19_gen, check: c19, quick: 450_000, thorough: 6_000_000, assumptions: &[] },
        Prop { id: "C20", rule: "hostile texts, mutated and truncated programs and deep nesting, through every entry point; non-trivial: more than one byte",
            fixed: c20_fixed, exhaustive: false, gen: c20_gen, check: c20, quick: 240_000, thorough: 4_000_000, assumptions: &["a stack of 256 MB for nesting up to 400 levels"] },
        Prop { id: "C21", rule: "valid programs against a reference parser; non-trivial: a tree was compared",
            fixed: c21_fixed, exhaustive: false, gen: c21_gen, check: c21, quick: 360_000, thorough: 5_000_000, assumptions: &["the reference parser"] },
        Prop { id: "C22", rule: "programs with missing semicolons and random line breaks against a reference parser; non-trivial: a semicolon was inserted or its absence reported",
            fixed: c22_fixed, exhaustive: false, gen: c22_gen, check: c22, quick: 360_000, thorough: 5_000_000, assumptions: &["the reference parser"] },
        Prop { id: "C24", rule: "programs with jumps, labels and switches against a reference parser; non-trivial: there was one",
            fixed: c24_fixed, exhaustive: false, gen: c24_gen, check: c24, quick: 360_000, thorough: 5_000_000, assumptions: &["the reference parser"] },
        Prop { id: "C25", rule: "programs with directives and contextual words through every entry point against a reference parser; non-trivial: something that only strict code forbids, or a directive",
            fixed: c25_fixed, exhaustive: false, gen: c25_gen, check: c25, quick: 240_000, thorough: 3_000_000, assumptions: &["the reference parser"] },
        Prop { id: "C26", rule: "programs with random layout against a reference parser; non-trivial: a tree was compared",
            fixed: c26_fixed, exhaustive: false, gen: c26_gen, check: c26, quick: 300_000, thorough: 4_000_000, assumptions: &["the reference parser"] },
        Prop { id: "C27", rule: "mutated programs and token sequences against a reference parser; non-trivial: an invalid program",
            fixed: c27_fixed, exhaustive: false, gen: c27_gen, check: c27, quick: 600_000, thorough: 8_000_000, assumptions: &["the reference parser"] },
    ];
    props.extend(pure::props());
    props.extend(ast::props());
    props.extend(cost::props());
    props.extend(doc::props());
    props.extend(printed::props());
    model::harness::main(&props, concat!(env!("CARGO_MANIFEST_DIR"), "/.."));
}
