//! C33: work grows in proportion to the text.
use crate::{bad, doc, edits, gen, run};
use estree::IntoScript;
use joker::lexer::Lexer;
use joker::token::TokenData;
use joker::track::Untrack;
use model::genlex;
use model::harness::{guard, Case, Obs, Prop, Verdict};
use model::rng::Rng;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}

/// The system's allocator, counting for each thread what it hands out.
pub struct Counting;

fn count(more: i64) {
    if more > 0 {
        let _ = BYTES.try_with(|b| b.set(b.get() + more as u64));
    }
    let _ = LIVE.try_with(|l| {
        l.set(l.get() + more);
        let _ = PEAK.try_with(|p| p.set(p.get().max(l.get())));
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        count(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

static mut STEPS: u64 = 0;

/// Called on every edge of the control flow that is taken, when built with `-C passes=sancov-module` (see check.sh).
#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    unsafe { std::arch::asm!("add qword ptr [rip + {s}], 1", s = sym STEPS, options(nostack)) }
}

#[no_mangle]
pub extern "C" fn __sanitizer_cov_trace_pc_guard_init(_: *mut u32, _: *mut u32) {}

fn steps() -> u64 {
    unsafe { std::ptr::read_volatile(std::ptr::addr_of!(STEPS)) }
}

static mut MOVED: u64 = 0;

fn moved() -> u64 {
    unsafe { std::ptr::read_volatile(std::ptr::addr_of!(MOVED)) }
}

/// What the library does without taking a step of ours: copying, filling and comparing memory.
#[cfg(cost)]
mod bulk {
    use std::arch::asm;

    macro_rules! note {
        ($n:expr) => {
            asm!("add qword ptr [rip + {s}], {n}", s = sym super::MOVED, n = in(reg) $n, options(nostack))
        };
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
        note!(n);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
        to
    }

    #[no_mangle]
    pub unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
        if (to as usize).wrapping_sub(from as usize) >= n {
            return memcpy(to, from, n);
        }
        note!(n);
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") (to as usize).wrapping_add(n).wrapping_sub(1) => _,
            inout("rsi") (from as usize).wrapping_add(n).wrapping_sub(1) => _, options(nostack));
        to
    }

    #[no_mangle]
    pub unsafe extern "C" fn memset(to: *mut u8, value: i32, n: usize) -> *mut u8 {
        note!(n);
        asm!("rep stosb", inout("rcx") n => _, inout("rdi") to => _, in("al") value as u8, options(nostack, preserves_flags));
        to
    }

    #[no_mangle]
    pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        let left: usize;
        let (mut x, mut y) = (a, b);
        if n == 0 {
            return 0;
        }
        asm!("repe cmpsb", inout("rcx") n => left, inout("rsi") x, inout("rdi") y, options(nostack));
        note!(n - left);
        x = x.wrapping_sub(1);
        y = y.wrapping_sub(1);
        *x as i32 - *y as i32
    }

    #[no_mangle]
    pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
        memcmp(a, b, n)
    }
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    steps: u64,
    moved: u64,
    bytes: u64,
    peak: u64,
}

fn cost<T, F: FnOnce() -> T>(f: F) -> Cost {
    let (b, l) = (BYTES.with(|b| b.get()), LIVE.with(|l| l.get()));
    PEAK.with(|p| p.set(l));
    let (t, m) = (steps(), moved());
    drop(f());
    let (steps, moved) = (steps() - t, moved() - m);
    Cost { steps, moved, bytes: BYTES.with(|x| x.get()) - b, peak: (PEAK.with(|p| p.get()) - l) as u64 }
}

/// Does once to the text what the case is about; none if that is not possible.
fn once(what: &str, text: &str) -> Option<Cost> {
    match what {
        "lex" | "lex operator" | "lex both" => Some(cost(|| {
            let mut l = Lexer::new(text.chars());
            let mut n = 0u32;
            loop {
                let operator = match what {
                    "lex" => false,
                    "lex operator" => true,
                    _ => n % 2 == 1,
                };
                n += 1;
                match l.read_token(operator) {
                    Ok(ref t) if t.value != TokenData::EOF => {}
                    _ => break,
                }
            }
        })),
        "tree" => {
            let mut s = esprit::script(text).ok()?;
            Some(cost(|| {
                let mut t = s.clone();
                t.untrack();
                let same = t == s;
                s.untrack();
                (same, t == s, t)
            }))
        }
        "read" => {
            let d = doc::written(&esprit::script(text).ok()?)?;
            Some(cost(move || d.into_script()))
        }
        entry => Some(cost(|| match run::run(entry, text) {
            Ok(_) => String::new(),
            Err(e) => format!("{} {:?}", e, e),
        })),
    }
}

const OPS: [&str; 12] = [
    "script", "lex", "tree", "module", "read", "program", "lex operator", "strict", "lex both", "program.script", "program.strict", "program.module",
];

/// Parts of a case: before, item, separator, once, each.
fn text(p: &[String], n: usize) -> String {
    format!("{}{}{}{}", p[0], gen::repeat(n, &p[1], &p[2]), p[3], p[4].repeat(n))
}

/// By how much more than the text the cost may grow.
const FACTOR: f64 = 2.5;

/// Whether repeating the text lists it rather than nests it.
fn lists(item: &str) -> bool {
    let mut open = vec![];
    for c in item.chars() {
        match c {
            '(' | '[' | '{' => open.push(c),
            ')' | ']' | '}' => {
                open.pop();
            }
            _ => {}
        }
    }
    open.is_empty() && !item.ends_with(|c: char| "=?:!~+-*/%<>&|^,)".contains(c))
}

fn measure(what: &str, p: &[String], o: &mut Obs) -> Result<(), String> {
    let unit = p[1].len() + p[2].len() + p[4].len();
    let tokens = edits::cut(&p[1]).len() + edits::cut(&p[4]).len();
    // as long as is needed to tell, as deep as the stack allows
    let separate = p[2].contains(|c: char| ",;\n".contains(c)) || p[2] == "" && p[1].ends_with(|c: char| ";}\n".contains(c));
    let long_token = p[2] == "" && ["'", "/", "/[", "a", "0.", "0x", "var \\u{", "/*", "//"].contains(&&p[0][..]);
    let many = if p[4].is_empty() && (long_token || separate && lists(&p[1])) {
        (120_000 / (unit + 1)).max(640).min(10_000)
    } else {
        (6_000 / (tokens + 1)).max(320).min(2_000)
    };
    let few = many / if many > 2_000 { 25 } else { 16 };
    let (small, large) = (text(p, few), text(p, many));
    let grown = large.len() as f64 / small.len() as f64;
    let (a, b) = match (once(what, &small), once(what, &large)) {
        (Some(a), Some(b)) => (a, b),
        _ => return Ok(()),
    };
    if a.steps == 0 || b.steps == 0 || moved() == 0 {
        panic!("monitor: built without instrumentation");
    }
    o.count("texts measured", 2);
    o.count("characters measured", (small.len() + large.len()) as u64);
    o.count("steps observed", a.steps + b.steps);
    o.count("bytes handed out", a.bytes + b.bytes);
    let mut most = 0f64;
    o.count("bytes copied or compared", a.moved + b.moved);
    let measures = [
        ("steps taken", a.steps, b.steps),
        ("bytes copied or compared", a.moved, b.moved),
        ("bytes of memory handed out", a.bytes, b.bytes),
        ("bytes of memory held at once", a.peak, b.peak),
    ];
    for (name, x, y) in measures.iter() {
        let r = (*y as f64) / (*x as f64 + 256.0) / grown;
        if r > FACTOR {
            return Err(format!("{}: {}: {} for {} items, {} for {}, {:.1} times more than the text grows", what, name, x, few, y, many, r));
        }
        most = most.max(r);
    }
    o.nontrivial = b.steps > 50_000;
    o.count(if most < 0.8 { "cost grows less than the text" } else if most < 1.2 { "cost grows with the text" } else { "cost grows 1.2 to 2.5 times the text" }, 1);
    Ok(())
}

fn c33(c: &Case, o: &mut Obs) -> Verdict {
    let (what, p) = (c.mode.clone(), c.parts.clone());
    if p.len() != 5 {
        return Verdict::Skip("not a pattern");
    }
    match guard(|| measure(&what, &p, o)) {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(m)) | Err(m) => bad(m),
    }
}

fn pattern(mode: &str, p: [&str; 5]) -> Case {
    let mut c = Case::new(mode, "");
    c.parts = p.iter().map(|s| s.to_string()).collect();
    c
}

fn c33_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    for what in OPS.iter() {
        for &(open, item, sep, close) in gen::WIDE.iter() {
            let (once, each) = gen::closing(close);
            out.push(pattern(what, [open, item, sep, once, each]));
        }
        for &(a, m, b) in gen::NESTED.iter() {
            out.push(pattern(what, ["", a, "", m, b]));
            if !b.is_empty() {
                out.push(pattern(what, ["", a, "", m, ""]));
            }
        }
    }
    out
}

fn c33_gen(r: &mut Rng, deep: bool) -> Case {
    let what = OPS[r.below(OPS.len())];
    let cap = |t: String| t.chars().take(120).collect::<String>();
    if r.chance(1, 3) {
        // some constructs in turn around each other
        let (mut a, mut b) = (String::new(), String::new());
        let mut m = "a";
        for _ in 0..r.range(1, 4) {
            let (x, y, z) = gen::NESTED[r.below(gen::NESTED.len())];
            a.push_str(x);
            b.insert_str(0, z);
            m = y;
        }
        if r.chance(1, 6) {
            b.clear();
        }
        return pattern(what, ["", &a, "", m, &b]);
    }
    let before = if r.chance(1, 3) { r.pick(&["'use strict';", "function f() { ", "x = [", "a: { ", "/**/", "f(", "({", "switch (a) { case 1:", "let ", "<!-- "]).to_string() } else { String::new() };
    let item = match r.below(6) {
        0 => gen::WIDE[r.below(gen::WIDE.len())].1.to_string() + ";",
        1 => cap(genlex::text(r, 4)),
        2 | 3 => cap(edits::edited(r)),
        _ => cap(gen::program(r, deep)),
    };
    let sep = r.pick(&["\n", ";", "\n;", ";\n", "\r\n", ",", " ", ";/**/"]);
    let once = r.pick(&["", "", "", " break", "}", "\na + b", " )", "]", "});"]);
    pattern(what, [&before, &item, sep, once, ""])
}

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C33", rule: "texts of one pattern repeated, nested or listed, at two lengths, with the steps and the memory each takes; non-trivial: more than 50 000 steps observed",
        fixed: c33_fixed, exhaustive: false, gen: c33_gen, check: c33, quick: 6_000, thorough: 200_000, assumptions: &["a stack of 256 MB"] }]
}
