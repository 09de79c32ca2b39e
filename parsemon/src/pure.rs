//! C23: results depend on the text alone.
use crate::bad;
use crate::compose;
use crate::edits;
use crate::gen::*;
use crate::run;
use joker::lexer::Lexer;
use joker::token::{Token, TokenData};
use model::genlex;
use model::genprog;
use model::harness::{guard, Case, Obs, Prop, Verdict};
use model::rng::Rng;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::{Arc, Barrier};

/// All that can be seen of parsing a text.
fn digest(entry: &str, text: &str) -> String {
    match guard(|| match run::run(entry, text) {
        Ok(out) => {
            let (n, v) = out.view();
            format!("{:?} {:?} {:?}", n, v.spans, v.semis)
        }
        Err(e) => format!("{} {:?} at {:?}", e, e, run::at(&e)),
    }) {
        Ok(s) => s,
        Err(e) => e,
    }
}

fn step<I: Iterator<Item = char>>(l: &mut Lexer<I>, op: bool, out: &mut String) -> bool {
    match l.read_token(op) {
        Ok(t) => {
            out.push_str(&format!("{:?} {:?} {} {} {};", t.value, t.location, t.location.start.offset, t.location.end.offset, t.newline));
            t.value != TokenData::EOF
        }
        Err(e) => {
            out.push_str(&format!("{:?}", e));
            false
        }
    }
}

fn tokens<I: Iterator<Item = char>>(source: I) -> String {
    match guard(|| {
        let mut l = Lexer::new(source);
        let mut out = String::new();
        let mut op = false;
        while step(&mut l, op, &mut out) {
            op = !op;
        }
        out
    }) {
        Ok(s) => s,
        Err(e) => e,
    }
}

/// A character source that delivers its text in the least convenient way.
struct Odd(Vec<char>);

impl Iterator for Odd {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.0.pop()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (0, None)
    }
}

/// What a process that has done nothing else makes of the text.
fn fresh(entry: &str, text: &str) -> String {
    let mut kid = Command::new(std::env::current_exe().unwrap())
        .args(&["fresh", entry])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("monitor: no process");
    kid.stdin.take().unwrap().write_all(text.as_bytes()).ok();
    let out = kid.wait_with_output().expect("monitor: no output");
    if out.status.success() {
        String::from_utf8_lossy(&out.stdout).to_string()
    } else {
        format!("the process died: {}", out.status)
    }
}

pub fn fresh_main(entry: String) {
    model::harness::hook();
    let t = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        let mut text = String::new();
        std::io::stdin().read_to_string(&mut text).unwrap();
        let d = if entry == "tokens" { tokens(text.chars()) } else { digest(&entry, &text) };
        std::io::stdout().write_all(d.as_bytes()).unwrap();
    });
    std::process::exit(if t.unwrap().join().is_ok() { 0 } else { 1 });
}

/// How a process ends that parses the text on a stack of `size` bytes, and lets go of the result.
pub fn on_stack(entry: &str, size: usize, text: &str) -> Result<std::process::ExitStatus, String> {
    let mut kid = Command::new(std::env::current_exe().unwrap())
        .args(&["stack", entry, &size.to_string()])
        .stdin(Stdio::piped())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    kid.stdin.take().unwrap().write_all(text.as_bytes()).ok();
    kid.wait().map_err(|e| e.to_string())
}

pub fn stack_main(entry: String, size: usize) {
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    let t = std::thread::Builder::new().stack_size(size).spawn(move || drop(run::run(&entry, &text)));
    std::process::exit(if t.unwrap().join().is_ok() { 0 } else { 1 });
}

fn excerpt(a: &str, b: &str) -> String {
    let n = a.chars().zip(b.chars()).take_while(|x| x.0 == x.1).count();
    let cut = |t: &str| t.chars().skip(n.saturating_sub(30)).take(120).collect::<String>();
    format!("...{} and ...{}", cut(a), cut(b))
}

fn c23(c: &Case, o: &mut Obs) -> Verdict {
    let mut mode = c.mode.split(' ');
    let what = mode.next().unwrap_or("");
    let entry = mode.next().unwrap_or("script").to_string();
    let alone: Vec<String> = c.parts.iter().map(|t| fresh(if what == "lex" { "tokens" } else { &entry }, t)).collect();
    o.count("fresh processes", alone.len() as u64);
    if what == "lex" {
        // one after the other, from different sources
        for (t, want) in c.parts.iter().zip(&alone) {
            let cs: Vec<char> = t.chars().collect();
            let mut back = cs.clone();
            back.reverse();
            for (name, got) in vec![
                ("read again", tokens(t.chars())),
                ("from a vector", tokens(cs.clone().into_iter())),
                ("from a boxed source", tokens(Box::new(cs.clone().into_iter()) as Box<dyn Iterator<Item = char>>)),
                ("from a source of unknown length", tokens(Odd(back))),
                ("from two sources chained", tokens(cs[..cs.len() / 2].iter().cloned().chain(cs[cs.len() / 2..].iter().cloned()))),
            ] {
                o.count("token streams compared", 1);
                if got != *want {
                    return bad(format!("{}, the tokens differ from those in a fresh process: {}", name, excerpt(&got, want)));
                }
            }
        }
        // in turns
        let got = guard(|| {
            let mut ls: Vec<_> = c.parts.iter().map(|t| (Lexer::new(t.chars()), false, String::new(), true)).collect();
            while ls.iter().any(|l| l.3) {
                for l in ls.iter_mut() {
                    if l.3 {
                        l.3 = step(&mut l.0, l.1, &mut l.2);
                        l.1 = !l.1;
                    }
                }
            }
            ls.into_iter().map(|l| l.2).collect::<Vec<_>>()
        });
        match got {
            Ok(g) => {
                for (g, want) in g.iter().zip(&alone) {
                    o.count("interleaved token streams compared", 1);
                    if g != want {
                        return bad(format!("read in turns with another lexer, the tokens differ: {}", excerpt(g, want)));
                    }
                }
            }
            Err(e) => {
                if !alone.iter().any(|x| x.starts_with("panic")) {
                    return bad(format!("read in turns with another lexer: {}", e));
                }
            }
        }
        o.nontrivial = c.parts.len() > 1;
        return Verdict::Held;
    }
    if what == "many" {
        // thousands of results of one thread
        let n = mode.next().and_then(|n| n.parse().ok()).unwrap_or(1000);
        for k in 0..n {
            let i = (k * 7 + k / 5) % c.parts.len();
            let got = digest(&entry, &c.parts[i]);
            o.count("results compared in long histories", 1);
            if got != alone[i] {
                return bad(format!("parsed as text number {} of a process, the result differs from that in a fresh process: {}", k + 1, excerpt(&got, &alone[i])));
            }
        }
        o.nontrivial = true;
        return Verdict::Held;
    }
    if what == "storm" {
        return storm(c, &entry, mode.next().and_then(|n| n.parse().ok()).unwrap_or(100), &alone, o);
    }
    // one after the other, twice, and after one another
    for round in 0..2 {
        for (t, want) in c.parts.iter().zip(&alone) {
            let got = digest(&entry, t);
            o.count("results compared", 1);
            if got != *want {
                return bad(format!("parsed after other texts (round {}), the result differs from that in a fresh process: {}", round + 1, excerpt(&got, want)));
            }
        }
        for other in c.parts.iter() {
            for e in run::ENTRIES.iter() {
                digest(e, other);
            }
        }
    }
    // at the same time
    let n = 4;
    let gate = Arc::new(Barrier::new(n));
    let kids: Vec<_> = (0..n)
        .map(|k| {
            let (parts, entry, gate) = (c.parts.clone(), entry.clone(), gate.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    gate.wait();
                    let m = parts.len();
                    let mut out = vec![String::new(); m];
                    for i in 0..m {
                        let i = (i + k) % m;
                        if k % 2 == 1 {
                            std::thread::yield_now();
                        }
                        out[i] = digest(&entry, &parts[i]);
                    }
                    out
                })
                .expect("monitor: no thread")
        })
        .collect();
    for k in kids {
        match k.join() {
            Ok(out) => {
                for (got, want) in out.iter().zip(&alone) {
                    o.count("concurrent results compared", 1);
                    if got != want {
                        return bad(format!("parsed while other threads parse, the result differs: {}", excerpt(got, want)));
                    }
                }
            }
            Err(_) => return bad("parsed while other threads parse, a thread died"),
        }
    }
    o.nontrivial = c.parts.len() > 1;
    Verdict::Held
}

fn all_tokens(t: &str) -> Result<Vec<Token>, String> {
    let mut l = Lexer::new(t.chars());
    let mut out = vec![];
    loop {
        let t = l.read_token(out.len() % 2 == 1).map_err(|e| format!("{:?}", e))?;
        let end = t.value == TokenData::EOF;
        out.push(t);
        if end {
            return Ok(out);
        }
    }
}

fn same(a: &Result<run::Out, esprit::error::Error>, b: &Result<run::Out, esprit::error::Error>) -> bool {
    match (a, b) {
        (Ok(run::Out::Script(a)), Ok(run::Out::Script(b))) => a == b,
        (Ok(run::Out::Module(a)), Ok(run::Out::Module(b))) => a == b,
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}

/// Many threads, each with a text of its own that it tokenizes and parses over and over.
fn storm(c: &Case, entry: &str, n: usize, alone: &[String], o: &mut Obs) -> Verdict {
    let gate = Arc::new(Barrier::new(c.parts.len()));
    let kids: Vec<_> = c
        .parts
        .iter()
        .map(|t| {
            let (t, entry, gate) = (t.clone(), entry.to_string(), gate.clone());
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    guard(|| (all_tokens(&t), run::run(&entry, &t))).map(|first| {
                        gate.wait();
                        let mut wrong = None;
                        for k in 0..n {
                            match guard(|| all_tokens(&t) == first.0 && (k % 4 > 0 || same(&run::run(&entry, &t), &first.1))) {
                                Ok(true) => {}
                                Ok(false) => wrong = Some(k),
                                Err(_) => wrong = Some(k),
                            }
                        }
                        (wrong, digest(&entry, &t))
                    })
                })
                .expect("monitor: no thread")
        })
        .collect();
    let mut found = None;
    for (k, want) in kids.into_iter().zip(alone) {
        match k.join() {
            Ok(Ok((None, got))) => {
                o.count("concurrent results compared", n as u64);
                if got != *want {
                    found = Some(format!("parsed while other threads parse, the result differs: {}", excerpt(&got, want)));
                }
            }
            Ok(Ok((Some(k), _))) => found = Some(format!("read for time {} while other threads read other texts, the tokens or the tree differ from those of the first time", k + 1)),
            Ok(Err(e)) => found = Some(format!("read while other threads read other texts: {}", e)),
            Err(_) => found = Some("parsed while other threads parse, a thread died".to_string()),
        }
    }
    o.nontrivial = true;
    match found {
        Some(f) => bad(f),
        None => Verdict::Held,
    }
}

fn c23_gen(r: &mut Rng, deep: bool) -> Case {
    if r.chance(1, 60) {
        // a long history of short texts
        let n = r.range(2, 12);
        let parts = (0..n).map(|_| if r.chance(1, 2) { r.pick(&SHORT).to_string() } else { edits::edited(r) }).collect();
        return Case { mode: format!("many {} {}", r.pick(&run::ENTRIES), if deep { 20_000 } else { 2_000 }), parts };
    }
    if r.chance(1, 60) {
        let n = r.range(2, 9);
        let parts = (0..n)
            .map(|_| match r.below(5) {
                0 => r.pick(&SHORT).to_string(),
                1 => r.pick(&DENSE).replace("@", &r.below(1000).to_string()),
                2 => edits::edited(r),
                3 => genlex::text(r, 8),
                _ => {
                    let c = cfg(r, deep);
                    genprog::program(r, &c)
                }
            })
            .collect();
        return Case { mode: format!("storm {} {}", r.pick(&run::ENTRIES), if deep { 400 } else { 100 }), parts };
    }
    let n = r.range(2, 5);
    let lex = r.chance(1, 3);
    let mut parts = vec![];
    for _ in 0..n {
        parts.push(if lex {
            genlex::text(r, 12)
        } else {
            match r.below(6) {
                4 => edits::edited(r),
                5 => compose::composed(r, deep),
                0 => any_text(r, deep),
                1 => {
                    let c = cfg(r, deep);
                    mutant(r, &c)
                }
                _ => {
                    let c = cfg(r, deep);
                    genprog::program(r, &c)
                }
            }
        });
    }
    let mode = if lex { "lex".to_string() } else { format!("parse {}", r.pick(&run::ENTRIES)) };
    Case { mode, parts }
}

/// Texts that show each part of what a parser could carry over from one text to the next.
const SHORT: [&str; 52] = [
    "var x = a in b", "for (var x = (a in b);;) break", "'use strict'; a", "with (a) b", "'use strict'; with (a) b", "l: while (a) break l", "break", "break l",
    "l: for (;;) continue l", "return", "function f() { return }", "(function () { 'use strict' })", "\"use strict\"; 010", "010", "yield", "let", "function* g() { yield }",
    "function* g() { yield a }", "var yield", "'use strict'; var yield", "l: l: a", "l: { l: a }", "switch (a) { case b: break }", "switch (a) { default: default: }", "a\n++b", "a ++\nb",
    "/a/g", "a / b / c", "({ get a() { return 1 } })", "[a, b] = [b, a]", "(", ")", "'a", "/* ", "new.target", "function f() { new.target }", "0x", "\u{61}", "static", "for (a of b);",
    "--> a\nb", "a\n--> b\nc", "a --> b", "<!-- a\nb", "var \\u0061b, \\u{63}", "'\\ud83d\\ude00\\u0041\\x41\\101'", "0x1F + 1e3 + .5 + 0b11 + 0o17", "a\r\nb\u{2028}c\nd",
    "a: b: c: while (1) { continue a; break c }", "1 + 2 * 3 - 4 < 5 && 6 || 7 ? 8 : 9", "a = b += c.d[e](f)(g)", "do ; while (a) b",
];

/// Texts dense in one thing each; `@` is a number.
const DENSE: [&str; 10] = [
    "[@, 1@, 2.@, .@, @e1, 0x@, 3@.5, 4@, 5@, 6@, 7@]",
    "['@', '\\x41@', '\\u0042@', '\\u{43}@', \"@\\n\", '\\101', '@@', 'a@', 'b@']",
    "a@.b@.c@(d@, e@)[f@], g@ = h@ + i@",
    "\\u0061@ + b\\u{63}@ + \\u{64}@ + e\\u0066@",
    "a@: b@: c@: while (d@) { if (e@) break a@; if (f@) continue b@; break c@ }",
    "function f@(a@, b@) { 'use strict'; return c@ } function g@() { with (a@) b@ }",
    "/a@/g, /b@/i, /[@]/, c@ / d@ / e@",
    "({ a@: 1, get b@() { return @ }, set c@(d@) { }, e@() { }, '@': f@, @: g@ })",
    "a@\nb@\r\n++c@\rd@\u{2028}e@ /* @\n */ f@ // @\ng@",
    "for (var a@ in b@) for (let c@ of d@) for (const e@ = @;;) for (;;) ; switch (a@) { case @: b@; default: c@ }",
];

fn c23_fixed(deep: bool) -> Vec<Case> {
    let mut out = vec![];
    for e in run::ENTRIES.iter() {
        out.push(Case { mode: format!("many {} {}", e, if deep { 140_000 } else { 10_000 }), parts: SHORT.iter().map(|t| t.to_string()).collect() });
        for t in &SHORT {
            out.push(Case { mode: format!("many {} {}", e, 1_100), parts: vec![t.to_string()] });
        }
    }
    for (i, d) in DENSE.iter().enumerate() {
        let all = |x: &str, k: usize| (0..4).map(|j| x.replace("@", &(k * 37 + j * 3 + 1).to_string())).collect::<Vec<_>>().join(";\n");
        let n = if deep { 20_000 } else { 1_500 };
        out.push(Case { mode: format!("storm {} {}", run::ENTRIES[i % 7], n), parts: (0..8).map(|k| all(d, k)).collect() });
        out.push(Case { mode: format!("storm {} {}", run::ENTRIES[(i + 1) % 7], n), parts: (0..8).map(|k| all(DENSE[(i + k) % 10], k)).collect() });
    }
    let t = corpus();
    for (i, g) in t.chunks(8).enumerate() {
        out.push(Case { mode: format!("parse {}", run::ENTRIES[i % 7]), parts: g.to_vec() });
        out.push(Case { mode: "lex".to_string(), parts: g.to_vec() });
    }
    out
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        rule: "groups of texts parsed alone in a fresh process, after one another, in turns and in several threads; non-trivial: more than one text",
        fixed: c23_fixed,
        exhaustive: false,
        gen: c23_gen,
        check: c23,
        quick: 6_000,
        thorough: 200_000,
        assumptions: &["a process started for one text has no history"],
    }]
}
