//! C31, C32: what trees and errors show of themselves.
use crate::ast::{c16_fixed, c16_gen, out_of, plain};
use crate::gen::*;
use crate::run::{self, Out};
use crate::{bad, chars};
use esprit::error::Error;
use easter::patt::CompoundPatt;
use easter::punc::Semi;
use joker::token::StringLiteral;
use joker::track::{Posn, Span};
use joker::word::Name;
use model::harness::{guard, Case, Obs, Prop, Verdict};
use model::node::Diff;
use model::rng::Rng;
use std::error::Error as StdError;

// ---- C31 ----

fn show(o: &Out, pretty: bool) -> Result<String, String> {
    guard(|| match (o, pretty) {
        (&Out::Script(ref s), false) => format!("{:?}", s),
        (&Out::Script(ref s), true) => format!("{:#?}", s),
        (&Out::Module(ref s), false) => format!("{:?}", s),
        (&Out::Module(ref s), true) => format!("{:#?}", s),
    })
}

fn place(s: &Span) -> String {
    format!("{}:{}..{}:{}", s.start.line + 1, s.start.column + 1, s.end.line + 1, s.end.column + 1)
}

/// How many characters of white space and comments come first.
fn blank(cs: &[char]) -> usize {
    let ends = |c: &char| ['\n', '\r', '\u{2028}', '\u{2029}'].contains(c);
    let mut i = 0;
    while i < cs.len() {
        if cs[i].is_whitespace() || cs[i] == '\u{feff}' || ends(&cs[i]) {
            i += 1;
        } else if ["//", "<!--", "-->"].iter().any(|c| cs[i..].starts_with(&chars(c))) {
            i += cs[i..].iter().position(ends).unwrap_or(cs.len() - i);
        } else if cs[i..].starts_with(&['/', '*']) {
            i = (i + 2..cs.len()).find(|&j| cs[j..].starts_with(&['*', '/'])).map_or(cs.len(), |j| j + 2);
        } else {
            break;
        }
    }
    i
}

/// Every literal carries the spelling it has in the text.
fn spelling(text: &str, spelt: &[(Option<Span>, Option<String>)]) -> Result<u64, String> {
    let cs = chars(text);
    for (l, s) in spelt {
        let (l, s) = match (l, s) {
            (Some(l), Some(s)) => (l, s),
            _ => return Err("a literal without its spelling".to_string()),
        };
        // white space may belong to the node before its text
        let here = &cs[l.start.offset as usize..];
        let here = &here[blank(here)..];
        let got: Vec<char> = s.chars().collect();
        if !here.starts_with(&got) {
            let n = s.rfind('/').unwrap_or(0);
            // flags written with escapes
            let known = s.starts_with('/') && here.starts_with(&chars(&s[..n + 1])) && here[..l.end.offset as usize - l.start.offset as usize].contains(&'\\');
            if !known {
                return Err(format!("a literal at {} is not spelt {}", place(l), s));
            }
        }
    }
    Ok(spelt.len() as u64)
}

fn copy(o: &Out, text: &str, obs: &mut Obs) -> Result<(), String> {
    let c = o.clone();
    let ((a, va), (b, vb)) = (o.view(), c.view());
    if a != b || va.spans != vb.spans || va.semis != vb.semis || va.spelt != vb.spelt {
        return Err("a copy differs from its original".to_string());
    }
    let n = spelling(text, &va.spelt)?;
    obs.count("spellings of literals compared", n);
    // changing the copy leaves the original alone
    let mut c = c;
    c.untrack();
    if o.view().0 != a || o.view().1.spans != va.spans {
        return Err("untracking a copy changes the original".to_string());
    }
    if c.view().1.spelt.iter().map(|x| &x.1).ne(va.spelt.iter().map(|x| &x.1)) {
        return Err("untracking changes the spelling of a literal".to_string());
    }
    // places far down or far along, as long programs have them
    let far = |k: usize| va.spans.iter().flatten().nth(k % 7).map_or(1, |s| s.end.offset).wrapping_mul(0x9E37_79B9) >> (k % 5 * 7);
    for k in 0..6 {
        let l = Span {
            start: Posn { offset: far(k), line: far(k + 1).min(u32::MAX - 1), column: far(k + 2).min(u32::MAX - 1) },
            end: Posn { offset: far(k + 3), line: far(k + 4).min(u32::MAX - 1), column: far(k + 5).min(u32::MAX - 1) },
        };
        if format!("{:?}", l) != place(&l) {
            return Err(format!("{} is printed as {:?}", place(&l), l));
        }
        obs.count("distant places printed", 1);
    }
    // the location of the whole is printed
    let shown = show(o, false)?;
    let own = match *o {
        Out::Script(ref s) => s.location,
        Out::Module(ref s) => s.location,
    };
    if let Some(ref l) = own {
        if format!("{:?}", l) != place(l) || format!("{:?}", l.start) != format!("{}:{}", l.start.line + 1, l.start.column + 1) {
            return Err(format!("{} is printed as {:?}", place(l), l));
        }
        if !shown.contains(&place(l)) {
            return Err("the printed tree does not show its location".to_string());
        }
    }
    Ok(())
}

fn c31(c: &Case, o: &mut Obs) -> Verdict {
    let one = |t: &str| out_of(&Case::new(&c.mode, t));
    let (mut a, mut b) = match (one(&c.parts[0]), one(&c.parts[1])) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(v), _) | (_, Err(v)) => return v,
    };
    if let Err(e) = copy(&a, &c.parts[0], o).and_then(|_| copy(&b, &c.parts[1], o)) {
        return bad(e);
    }
    a.untrack();
    b.untrack();
    let (na, nb) = (a.view().0, b.view().0);
    // indented printing passes every character through every level
    let flat = na.depth() > 30 || nb.depth() > 30;
    let diff = Diff::structure().node(&plain(na), &plain(nb));
    for pretty in [false, true].iter() {
        if *pretty && flat {
            continue;
        }
        let (x, y) = match (show(&a, *pretty), show(&b, *pretty)) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => return bad(e),
        };
        if (x == y) != diff.is_none() {
            return bad(match diff {
                Some(d) => format!("different trees are printed alike: {}", d),
                None => "equal trees are printed differently".to_string(),
            });
        }
        o.count("characters printed", x.len() as u64);
    }
    o.count(if diff.is_none() { "equal pairs" } else { "different pairs" }, 1);
    o.nontrivial = c.parts[0] != c.parts[1];
    Verdict::Held
}

// ---- C32 ----

/// What kind of error it is, and the error behind it.
fn sort(e: &Error) -> (String, Option<String>) {
    use easter::cover::Error as Cover;
    match *e {
        Error::LexError(ref l) => {
            let d = format!("{:?}", l);
            let end = d.find(|c: char| !c.is_alphanumeric()).unwrap_or(d.len());
            (format!("LexError {}", &d[..end]), Some(l.to_string()))
        }
        Error::InvalidLHS(_, ref c) => {
            let n = match *c {
                Cover::InvalidAssignTarget(_) => "target",
                Cover::InvalidPropPatt(_) => "property",
            };
            (format!("InvalidLHS {}", n), Some(c.to_string()))
        }
        ref e => (run::class(e).to_string(), None),
    }
}

/// The digit, code point or word that a lexical error is about, as it may be named.
fn subject(e: &Error) -> Option<Vec<String>> {
    use joker::error::Error as Lex;
    match *e {
        Error::LexError(Lex::InvalidDigit(c)) => Some(vec![format!("{:?}", c), format!("'{}'", c.escape_unicode())]),
        Error::LexError(Lex::IllegalUnicode(n)) => Some(vec![format!("{:x}", n), format!("{:X}", n)]),
        Error::LexError(Lex::ReservedWordWithEscapes(w)) => Some(vec![format!("{:?}", w), w.name().to_string()]),
        _ => None,
    }
}

/// Errors of kinds the parser may have no occasion for, and with and without their places.
fn made(at: Option<Span>) -> Vec<Error> {
    use easter::cover::Error as Cover;
    use easter::decl::{Export, Import};
    use easter::id::{Id, IdExt};
    let here = Posn { offset: 3, line: 1, column: 1 };
    let here = Span { start: here, end: here };
    let s = || StringLiteral { source: None, value: "s".to_string() };
    let mut out = vec![
        Error::TopLevelReturn(here),
        Error::ForOfLetExpr(here),
        Error::UnsupportedFeature("one"),
        Error::UnsupportedFeature("other"),
        Error::CompoundParamWithUseStrict(CompoundPatt::Arr(at, vec![], None)),
        Error::CompoundParamWithUseStrict(CompoundPatt::Obj(at, vec![])),
    ];
    for l in [None, at, Some(here)].iter() {
        out.push(Error::InvalidLHS(*l, Cover::InvalidAssignTarget(at)));
        out.push(Error::InvalidLHS(*l, Cover::InvalidPropPatt(at)));
        out.push(Error::UnexpectedDirective(*l, s()));
        out.push(Error::UnexpectedModule(*l));
        out.push(Error::ImportInScript(Import::ForEffect(*l, s())));
        out.push(Error::ExportInScript(Export::Var(*l, vec![], Semi::Inserted)));
        let i = Id::new(Name::from("i".to_string()), *l);
        out.push(Error::InvalidLabel(i.clone()));
        out.push(Error::InvalidLabelType(i));
    }
    out
}

#[allow(deprecated)]
fn c32(c: &Case, o: &mut Obs) -> Verdict {
    let mut seen: Vec<(String, String)> = vec![];
    let mut errors = vec![];
    for t in c.parts.iter() {
        match guard(|| run::run(&c.mode, t)) {
            Ok(Err(e)) => errors.push(e),
            Ok(Ok(_)) => {}
            Err(m) => return bad(m),
        }
    }
    if let Some(e) = errors.first().cloned() {
        errors.extend(made(None));
        errors.extend(made(run::blamed(&e)));
    }
    for e in errors {
        let (kind, behind) = sort(&e);
        let r = guard(|| {
            let d = e.description().to_string();
            let m = e.to_string();
            if m.trim().is_empty() || m.contains('\n') {
                return Err(format!("{} has the message {:?}", kind, m));
            }
            if !m.starts_with(&d) {
                return Err(format!("the message {:?} is not about {:?}", m, d));
            }
            let cause = e.cause().map(|c| c.to_string());
            if cause != behind {
                return Err(format!("the cause of {} is {:?}, not {:?}", kind, cause, behind));
            }
            if let Some(c) = e.cause() {
                if c.description() != d || c.cause().is_some() {
                    return Err(format!("{} is described as {:?}, its cause as {:?}", kind, d, c.description()));
                }
            }
            if let (Some(names), Some(m)) = (subject(&e), cause) {
                if !m.starts_with(&d) || !names.iter().any(|n| m[d.len()..].contains(&n[..])) {
                    return Err(format!("the message {:?} of the cause does not name {}", m, names[0]));
                }
            }
            if e != e.clone() || format!("{:?}", e) != format!("{:?}", e.clone()) {
                return Err("a copy of an error differs".to_string());
            }
            Ok(d)
        });
        match r {
            Ok(Ok(d)) => {
                o.count(&format!("{} described", kind), 1);
                seen.push((kind, d));
            }
            Ok(Err(e)) | Err(e) => return bad(e),
        }
    }
    for (k, d) in seen.iter() {
        for (l, e) in seen.iter() {
            if (k == l) != (d == e) {
                return bad(format!("{} is described as {:?}, {} as {:?}", k, d, l, e));
            }
        }
    }
    o.nontrivial = seen.len() > 1;
    if seen.is_empty() {
        return Verdict::Skip("no error");
    }
    Verdict::Held
}

fn wrong(r: &mut Rng, deep: bool) -> String {
    match r.below(5) {
        0 => salad(r, 12),
        1 => any_text(r, deep),
        2 => r.pick(&WRONG).to_string(),
        _ => {
            let c = cfg(r, deep);
            mutant(r, &c)
        }
    }
}

fn c32_gen(r: &mut Rng, deep: bool) -> Case {
    let n = 2 + r.below(3);
    let parts = (0..n).map(|_| wrong(r, deep)).collect();
    Case { mode: r.pick(&run::ENTRIES).to_string(), parts }
}

const WRONG: [&str; 56] = [
    "a b", "if", "return", "break", "continue", "while(1) break a", "a: a: b", "a: continue a", "a: { continue a }", "with(a) b",
    "'use strict'; with(a) b", "switch(a){default: default:}", "throw\n1", "try {} a", "1 = 2", "[1] = 2", "({a(){}} = 1)", "({get a(){}}) = 1",
    "1++", "for (let a b of c);", "for (let of c);", "for (let.x of c);", "'use strict'; eval = 1", "'use strict'; var let", "'use strict'; arguments++",
    "var yield; 'use strict'", "function f(eval){'use strict'}", "@", "#", "'a", "'a\n'", "/a", "/a\n/", "/*", "0x", "0b", "0o", "1e", "1a", "08.5", "3in x",
    "'\\u{110000}'", "'\\xg0'", "\\u0", "v\\u0061r", "'use module'; await", "'\\x\u{1}'", "'\\x\n'", "'\\x0\u{7f}'", "'\\u0\u{2028}'", "0x\u{0}",
    "'\\u{e9}\u{e9}\\u{\u{e9}'", "\\u{fffffff}", "'\\u{ffffffff}'", "n\\u{65}w", "0b\u{1f600}",
];

fn c32_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    for m in run::ENTRIES.iter() {
        for a in WRONG.iter() {
            for b in WRONG.iter() {
                out.push(Case::two(*m, *a, *b));
            }
        }
    }
    out
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C31", rule: "pairs of programs that differ in layout, in the spelling of literals, in one token or altogether; non-trivial: two different texts",
            fixed: c16_fixed, exhaustive: false, gen: c16_gen, check: c31, quick: 180_000, thorough: 3_000_000, assumptions: &[] },
        Prop { id: "C32", rule: "groups of invalid texts through every entry point; non-trivial: two errors to compare",
            fixed: c32_fixed, exhaustive: false, gen: c32_gen, check: c32, quick: 180_000, thorough: 3_000_000, assumptions: &[] },
    ]
}
