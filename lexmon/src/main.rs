//! Monitors over the tokenizer (joker), driven through its public interface.
mod subject;
use joker::error::Error;
use joker::token::{Token, TokenData};
use joker::track::Posn;
use joker::word::{Map, Name, Reserved, Word};
use joker::Lexer;
use model::chars::*;
use model::genlex as g;
use model::harness::{guard, none, Case, Obs, Prop, Verdict};
use model::lex::{self, LErr, St, Tok, CONTEXTUAL, K, RESERVED};
use model::rng::{hash_str, Rng};
use std::cell::Cell;
use std::rc::Rc;
use subject::*;

fn bad<T: Into<String>>(t: T) -> Verdict {
    Verdict::Violation(t.into())
}

macro_rules! tryv {
    ($e:expr) => {
        match $e {
            Ok(x) => x,
            Err(m) => return bad(m),
        }
    };
}

// ---------------------------------------------------------------- running both sides

fn reference(cs: &[char], mode: &str) -> (Vec<Tok>, Option<LErr>) {
    let mut st = St::start();
    let mut out = vec![];
    loop {
        match lex::lex(cs, st, g::flag(mode, out.len())) {
            Ok((t, s)) => {
                st = s;
                let eof = t.k == K::Eof;
                out.push(t);
                if eof {
                    return (out, None);
                }
            }
            Err(e) => return (out, Some(e)),
        }
    }
}

/// Reads tokens until the end of input or an error, at most `max` of them.
fn subject_run(text: &str, mode: &str, max: usize) -> Result<(Vec<Token>, Option<Error>, bool), String> {
    guard(|| {
        let mut l = Lexer::new(text.chars());
        let mut out = vec![];
        while out.len() < max {
            match l.read_token(g::flag(mode, out.len())) {
                Ok(t) => {
                    let eof = t.value == TokenData::EOF;
                    out.push(t);
                    if eof {
                        return (out, None, true);
                    }
                }
                Err(e) => return (out, Some(e), true),
            }
        }
        (out, None, false)
    })
}

// what a monitor compares
const KIND: u32 = 1;
const NUM: u32 = 2;
const STR: u32 = 4;
const RE: u32 = 8;
const WORD: u32 = 16;
const SPAN: u32 = 32;
const NEWLINE: u32 = 64;
const ERR: u32 = 128;
const ONLY: u32 = 256; // nothing where there is no token

struct Monitor<'a> {
    cs: &'a [char],
    lines: Vec<(u32, u32)>,
    what: u32,
}

impl<'a> Monitor<'a> {
    fn new(cs: &'a [char], what: u32) -> Monitor<'a> {
        Monitor { cs, lines: line_table(cs), what }
    }

    fn posn(&self, p: Posn, want: usize, which: &str) -> Result<(), String> {
        let (line, col) = self.lines[want];
        if (p.offset, p.line, p.column) == (want as u32, line, col) {
            return Ok(());
        }
        Err(format!(
            "{} is offset {} line {} column {}, expected offset {} line {} column {} (from 0)",
            which, p.offset, p.line, p.column, want, line, col
        ))
    }

    fn token(&self, r: &Tok, t: &Token, o: &mut Obs) -> Result<(), String> {
        let at = |m: String| -> String { format!("token at offset {}: {}", r.start, m) };
        let src: String = self.cs[r.start..r.end].iter().collect();
        if ref_kind(&r.k) != kind(&t.value) {
            return Err(at(format!("expected {} `{}`, got {} {:?}", ref_kind(&r.k), src, kind(&t.value), t.value)));
        }
        if t.value.is_string() != (kind(&t.value) == "string") {
            return Err(at(format!("{:?} says that it is {}a string", t.value, if t.value.is_string() { "" } else { "not " })));
        }
        match (&r.k, &t.value) {
            (K::P(p), v) => {
                o.count("punctuators", 1);
                if self.what & KIND != 0 && punct(v) != Some(p) {
                    return Err(at(format!("expected `{}`, got {:?}", p, v)));
                }
            }
            (K::Reserved(w), TokenData::Reserved(x)) => {
                o.count("reserved words", 1);
                if self.what & WORD != 0 && x.name() != *w {
                    return Err(at(format!("expected the reserved word {}, got {:?}", w, x)));
                }
            }
            (K::Id { text, escaped }, TokenData::Identifier(n)) => {
                o.count("identifiers", 1);
                if self.what & WORD != 0 {
                    if n.as_ref() != &text[..] {
                        return Err(at(format!("expected the identifier {:?}, got {:?}", text, n)));
                    }
                    let want = CONTEXTUAL.contains(&&text[..]);
                    if !escaped && n.atom().is_some() != want {
                        return Err(at(format!("identifier {:?}: {:?}", text, n)));
                    }
                    if n.clone().into_string() != *text {
                        return Err(at(format!("{:?} becomes {:?}", n, n.clone().into_string())));
                    }
                }
            }
            (K::Num { value }, TokenData::Number(n)) => {
                o.count("numbers", 1);
                if self.what & NUM != 0 {
                    if n.value.to_bits() != value.to_bits() {
                        return Err(at(format!("{} is {:?}, got {:?}", src, value, n.value)));
                    }
                    match n.source {
                        None => return Err(at("a number without its source".to_string())),
                        Some(ref s) => {
                            let text = number_text(s);
                            if text != src {
                                return Err(at(format!("the number's source {:?} stands for {}, not {}", s, text, src)));
                            }
                            if s.value().to_bits() != value.to_bits() {
                                return Err(at(format!("{:?} evaluates to {:?}, not {:?}", s, s.value(), value)));
                            }
                            o.count(&format!("{:?} literals", s).split('(').next().unwrap().to_string(), 1);
                        }
                    }
                }
            }
            (K::Str { value }, TokenData::String(s)) => {
                o.count("strings", 1);
                if self.what & STR != 0 {
                    let got: Vec<char> = s.value.chars().collect();
                    let same = got.len() == value.len() && got.iter().zip(value).all(|(a, b)| b.map_or(true, |b| b == *a));
                    if !same {
                        let want: String = value.iter().map(|c| c.unwrap_or('\u{fffd}')).collect();
                        return Err(at(format!("the value of {} is {:?}, got {:?}", src, want, s.value)));
                    }
                    if s.source.as_ref() != Some(&src) {
                        return Err(at(format!("the source of the string is {:?}, got {:?}", src, s.source)));
                    }
                }
            }
            (K::Re { pattern, flags }, TokenData::RegExp(x)) => {
                o.count("regexps", 1);
                if self.what & RE != 0 && (x.pattern != *pattern || x.flags != *flags) {
                    return Err(at(format!("expected /{}/ with flags {:?}, got /{}/ with {:?}", pattern, flags, x.pattern, x.flags)));
                }
            }
            _ => {}
        }
        if self.what & SPAN != 0 {
            self.posn(t.location.start, r.start, "start").map_err(&at)?;
            self.posn(t.location.end, r.end, "end").map_err(&at)?;
        }
        if self.what & NEWLINE != 0 && t.newline != r.newline {
            return Err(at(format!("newline flag is {}, expected {}", t.newline, r.newline)));
        }
        Ok(())
    }
}

/// Compares a whole run with the reference.
fn compare(c: &Case, what: u32, o: &mut Obs) -> Verdict {
    let cs: Vec<char> = c.text().chars().collect();
    let (want, end) = reference(&cs, &c.mode);
    let (got, err, done) = tryv!(subject_run(c.text(), &c.mode, want.len() + 1));
    let m = Monitor::new(&cs, what);
    for (r, t) in want.iter().zip(&got) {
        tryv!(m.token(r, t, o));
    }
    o.count("tokens", want.len().min(got.len()) as u64);
    let skip = match end {
        Some(LErr::Skip(why)) => Some(why),
        _ => None,
    };
    if got.len() < want.len() {
        return bad(format!(
            "after {} tokens: expected {:?}, got the error {:?}",
            got.len(),
            want[got.len()].k,
            err
        ));
    }
    if let Some(why) = skip {
        if want.is_empty() {
            return Verdict::Skip(why);
        }
        return Verdict::Held;
    }
    if let (Some(e), None, true) = (&end, &err, what & ONLY != 0) {
        return bad(format!("after {} tokens: there is no token here ({:?}), got {:?}", want.len(), e, got.get(want.len()).map(|t| &t.value)));
    }
    if let (Some(e), true) = (&end, what & ERR != 0) {
        o.count("errors", 1);
        match err {
            None => return bad(format!("after {} tokens: expected the error {:?}, got {:?}", want.len(), e, got.get(want.len()).map(|t| &t.value))),
            Some(ref x) => {
                let mut same = error(x) == *e;
                // an astronomically large escape is reported as some number that is too big
                if let (LErr::E("IllegalUnicode", lex::Data::Code(a)), LErr::E("IllegalUnicode", lex::Data::Code(b))) = (e, error(x)) {
                    same = *a == b || (*a > 0x10FFFF && b > 0x10FFFF && *a > 0xFFFF_FFF0);
                }
                if !same {
                    return bad(format!("after {} tokens: expected the error {:?}, got {:?}", want.len(), e, x));
                }
                if let LErr::E(class, _) = e {
                    o.count(class, 1);
                }
                tryv!(display(x));
            }
        }
    } else if end.is_none() && !done {
        return bad("the end of input is not reported".to_string());
    }
    Verdict::Held
}

/// The message of an error names its cause.
fn display(e: &Error) -> Result<(), String> {
    let m = guard(|| e.to_string())?;
    let needle = match *e {
        Error::IllegalChar(c) | Error::InvalidDigit(c) => format!("{:?}", c),
        Error::IllegalUnicode(u) => format!("{:x}", u),
        Error::ReservedWordWithEscapes(w) => format!("{:?}", w),
        _ => String::new(),
    };
    if m.is_empty() || !m.contains(&needle) {
        return Err(format!("the message of {:?} is {:?}", e, m));
    }
    Ok(())
}

fn c(m: &str, t: &str) -> Case {
    Case::new(m, t)
}

fn cases(ts: &[&str]) -> Vec<Case> {
    ts.iter().flat_map(|t| vec![c("op", t), c("re", t)]).collect()
}

// ---------------------------------------------------------------- C01 totality

fn c01_gen(r: &mut Rng, deep: bool) -> Case {
    let big = if deep { 400 } else { 80 };
    let t = match r.below(10) {
        0 | 1 | 2 => g::soup(r, big),
        3 => g::soup(r, 6),
        4 => {
            let t = g::text(r, 12);
            g::mutate(r, &t, 3)
        }
        5 => g::bad_number(r),
        6 => g::string(r, 1),
        7 => g::regexp(r, 1),
        8 => g::bad_word(r),
        _ => g::text(r, 30),
    };
    let t = if r.chance(1, 6) {
        let n = t.chars().count();
        let k = r.below(n + 1);
        t.chars().take(k).collect()
    } else {
        t
    };
    Case::new(g::mode(r), t)
}

fn c01_fixed(deep: bool) -> Vec<Case> {
    // all strings over a hostile alphabet, up to a length
    let alpha: Vec<char> = "/*\\u{0x'\"[]}\n\r.e-<!>a8\u{2028}+=".chars().collect();
    let mut out = vec![c("op", ""), c("re", "")];
    let n = alpha.len();
    let len = if deep { 4 } else { 3 };
    for k in 1..=len {
        let total = n.pow(k as u32);
        // deep levels in blocks, to keep the number of cases down
        if k <= 2 {
            for i in 0..total {
                let mut x = i;
                let t: String = (0..k).map(|_| { let c = alpha[x % n]; x /= n; c }).collect();
                out.push(c("op", &t));
                out.push(c("re", &t));
            }
        } else {
            for i in (0..total).step_by(n * n) {
                let mut x = i / (n * n);
                let t: String = (0..k - 2).map(|_| { let c = alpha[x % n]; x /= n; c }).collect();
                out.push(c("sweep", &t));
            }
        }
    }
    for ch in "(/'\"a1\\[{ \n*<-!u".chars() {
        out.push(c("op", &ch.to_string().repeat(20000)));
        out.push(c("re", &ch.to_string().repeat(20000)));
    }
    for t in ["\\u{", "'\\u{", "0x", "1e", "0b1", "1.", "/[", "/*", "'\\x", "\\u", "'\\u", "/a", "<!-", "\n--", "'\\", "1e+", "/\\"].iter() {
        for tail in ["", "0", "f", "\n", "é", "}", "0000000000000000000000000000000000000000000000000000", "ffffffffffffffffffffffffffffffff"].iter() {
            out.push(c("op", &format!("{}{}", t, tail)));
            out.push(c("re", &format!("{}{}", t, tail)));
        }
    }
    out.extend(late_fixed());
    out.extend(wide_fixed());
    // long runs of everything, on a stack of ordinary size
    for n in [60_000, 250_000].iter() {
        for (a, x, b) in [
            ("", " ", "a"), ("", "\n", "a"), ("", "\r\n", "a"), ("", "\u{2028}", "a"), ("", "\t", "a"), ("", "// x\n", "a"), ("a", "//\r", "b"), ("", "/**/", "a"), ("a", "/*\n*/", "b"),
            ("", "<!--\n", "a"), ("", "-->\n", "a"), ("a", "\n--> x", "\nb"), ("", " \n", "a"), ("", "/**/ ", "a"), ("", " // x\n", "a"), ("", "/* x */\n", "a"), ("/*", "*", "*/a"), ("/*", "\n", "*/a"),
            ("//", "x", "\na"), ("'", "x", "'"), ("'", "\\n", "'"), ("'", "\\\n", "'"), ("'", "\\\r\n", "'"), ("'", "\\x41", "'"), ("'", "\\u0041", "'"), ("'", "\\ud83d\\ude00", "'"), ("'", "\\0", "'"),
            ("", "a", ""), ("", "\\u0061", ""), ("", "\u{10400}", ""), ("", "1", ""), ("0x", "1", ""), ("0b", "1", ""), ("0", "7", ""), ("0", "9", ""), ("1.", "1", ""), ("1e", "0", ""), ("", "(", ""), ("", "a ", ""),
            ("", "a\n", ""), ("", ">>>=", ""), ("", "'' ", ""), ("'", "\\u{41}", "'"), ("'\\u{", "0", "41}'"),
        ].iter() {
            out.push(c("flat op", &format!("{}{}{}", a, x.repeat(*n), b)));
        }
        for (a, x, b) in [("/", "a", "/"), ("/[", "a", "]/"), ("/", "[a]", "/"), ("/", "\\/", "/"), ("/a/", "g", ""), ("/[", "\\]", "]/"), ("/", "[", ""), ("", "/a/ ", ""), ("", "\n", "/a/"), ("", "//\n", "/a/")].iter() {
            out.push(c("flat re", &format!("{}{}{}", a, x.repeat(*n), b)));
        }
    }
    out
}

fn total(text: &str, mode: &str, o: &mut Obs) -> Result<(), String> {
    let n = text.chars().count();
    let (toks, err, done) = subject_run(text, mode, n + 2)?;
    if !done {
        return Err(format!("{} tokens read from {} characters and no end", toks.len(), n));
    }
    let mut last = 0;
    for t in &toks {
        let (a, b) = (t.location.start.offset as usize, t.location.end.offset as usize);
        if t.value != TokenData::EOF && (a < last || b <= a || b > n) {
            return Err(format!("token {:?} occupies {}..{} after {} of {}", t.value, a, b, last, n));
        }
        if t.value == TokenData::EOF && (a != n || b != n) {
            return Err(format!("end of input at {}..{} of {}", a, b, n));
        }
        last = b;
        let _ = guard(|| format!("{:?} {:?}", t, t.clone() == *t))?;
    }
    match err {
        Some(e) => {
            let _ = guard(|| format!("{} {:?}", e, e))?;
            o.count("errors", 1);
        }
        None => o.count("reached the end", 1),
    }
    o.count("tokens", toks.len() as u64);
    Ok(())
}

fn c01(c: &Case, o: &mut Obs) -> Verdict {
    o.nontrivial = !c.text().is_empty();
    if c.mode == "sweep" {
        let alpha: Vec<char> = "/*\\u{0x'\"[]}\n\r.e-<!>a8\u{2028}+=".chars().collect();
        for a in &alpha {
            for b in &alpha {
                let t = format!("{}{}{}", c.text(), a, b);
                for m in ["op", "re"].iter() {
                    if let Err(e) = total(&t, m, o) {
                        return bad(format!("{:?} [{}]: {}", t, m, e));
                    }
                    o.count("swept strings", 1);
                }
            }
        }
        return Verdict::Held;
    }
    if c.mode.starts_with("flat ") {
        let (t, m) = (c.text().to_string(), c.mode[5..].to_string());
        let n = tryv!(model::harness::small(move || {
            let mut o = Obs::default();
            total(&t, &m, &mut o).map(|_| o)
        }));
        o.add(&n);
        o.count("long runs", 1);
        return Verdict::Held;
    }
    tryv!(total(c.text(), &c.mode, o));
    Verdict::Held
}

// ---------------------------------------------------------------- C02 segmentation

fn c02_gen(r: &mut Rng, deep: bool) -> Case {
    let t = match r.below(5) {
        0 => {
            let n = r.range(1, 8);
            (0..n).map(|_| g::punct(r)).collect()
        }
        1 => {
            let t = g::text(r, 8);
            g::mutate(r, &t, 1)
        }
        _ => g::text(r, if deep { 40 } else { 16 }),
    };
    Case::new(g::mode(r), t)
}

fn c02_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    // every pair of punctuators, glued
    for a in lex::PUNCT.iter() {
        for b in lex::PUNCT.iter() {
            out.push(c("op", &format!("{}{}", a, b)));
        }
        for b in ["/", "/=", "a", "1", "\\u0061", ".5", "'x'", "/*x*/", "//x\n", "<!--x\n", "-->x\n", "\n-->x\n", "=>"].iter() {
            out.push(c("op", &format!("{}{};", a, b)));
            out.push(c("op", &format!("{}{};", b, a)));
            out.push(c("re", &format!("{} {};", b, a)));
        }
    }
    // every triple of the characters that make up punctuators
    let ps: Vec<char> = "<>=!-+.*/&|".chars().collect();
    for x in &ps {
        for y in &ps {
            for z in &ps {
                out.push(c("op", &format!("{}{}{}", x, y, z)));
                out.push(c("op", &format!("a{}{}{}b", x, y, z)));
                for w in "=>-".chars() {
                    out.push(c("op", &format!("{}{}{}{}", x, y, z, w)));
                }
            }
        }
    }
    for s in [
        "a\u{2028}-->b\u{2029}c", "/**/-->a\nb", "a/**/-->b", "a/*\n*/-->b", "/*\n*/-->b", "-->x", " \t-->x\ny", "x<!--y\nz", "<!-", "<!", "<!--",
        "/***/a", "/*/*/a", "/**/*/a", "//", "//\u{2028}a", "//\r\na", "a//b\rc", "\u{feff}a\u{feff}", "a\u{180e}", "a\u{85}b", "....", ".....", "1..a", "1...a", "a.1", "a..5",
        "a-->b", "a--\n>b", "\n/*x*/-->b\nc", "/*\n*/ /*x*/ -->b\nc", "x\n/*\n*/ /*x*/ -->b\nc", "a;-->b", "(\n-->b\n)", "/*\r*/-->x",
    ]
    .iter()
    {
        out.push(c("op", s));
        out.push(c("re", s));
    }
    // every white space and line terminator between tokens
    for u in (0u32..0x3100).chain(0xfe00..0x10000) {
        if let Some(ch) = char::from_u32(u) {
            if !skewed(ch) {
                out.push(c("op", &format!(";{};", ch)));
            }
        }
    }
    out.extend(late_fixed());
    out.extend(wide_fixed());
    out
}

fn c02(c: &Case, o: &mut Obs) -> Verdict {
    let before = o.counts.get("tokens").cloned().unwrap_or(0);
    let v = compare(c, KIND | WORD | ONLY, o);
    o.nontrivial = o.counts.get("tokens").cloned().unwrap_or(0) > before + 1;
    v
}

// ---------------------------------------------------------------- literals

fn embed(r: &mut Rng, lit: String) -> String {
    match r.below(6) {
        0 => lit,
        1 => format!("({})", lit),
        2 => format!("{}{}", g::trivia(r, true), lit),
        3 => format!("{}{}", lit, g::trivia(r, true)),
        4 => format!("{};{}", lit, lit),
        _ => {
            let (a, b) = (g::punct(r), g::space(r));
            format!("{}{}{}{}{}", a, b, lit, b, a)
        }
    }
}

fn c03_gen(r: &mut Rng, _: bool) -> Case {
    let n = if r.chance(1, 12) { g::bad_number(r) } else { g::number(r) };
    let t = embed(r, n);
    Case::new("op", t)
}

fn c03_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    for t in [
        "0", "00", "07", "08", "09.5", "010", "0777", "0888", "1", "1.", "1.e1", ".1", "0.1", "1e0", "1E+0", "1e-0", "5e-324", "2e-324", "2.4703282292062327e-324",
        "2.4703282292062328e-324", "1.7976931348623157e308", "1.7976931348623158e308", "1.7976931348623159e308", "1e309", "1e-400", "1e999999999999", "0e999999999999999",
        "9007199254740993", "9007199254740992", "9007199254740991", "0x20000000000001", "0x20000000000003", "0x20000000000002", "0X1FFFFFFFFFFFFF", "0b0", "0B1", "0o0", "0O17", "0xABCdef",
        "0.30000000000000004", "4.35", "0.000001", "123456789012345680000", "1e21", "1e23", "8.41e21", "9.5e-7", "089e1", "08.", "08.5", "018", "019e-2", "00.5", "01.5", "1.0", "1.50", "100e2", "0x0", "0x00ff",
        "18446744073709551615", "18446744073709551616", "18446744073709551617", "0xffffffffffffffff", "0xffffffffffffffffff", "0x10000000000000800", "0x10000000000000801", "0777777777777777777777", "01777777777777777777777", "4294967295", "4294967296", "0x100000000", "040000000000", "0b11111111111111111111111111111111", "0b100000000000000000000000000000000",
    ]
    .iter()
    {
        out.push(c("op", t));
        out.push(c("op", &format!("{} ", t)));
        out.push(c("re", &format!("{};", t)));
    }
    for i in 0..400 {
        out.push(c("op", &format!("{}", i)));
        out.push(c("op", &format!("0{:o} 0o{:o} 0b{:b} 0x{:x} 0X{:X}", i, i, i, i, i)));
        out.push(c("op", &format!("1e{} 1e-{} .{} {}.", i, i, i, i)));
    }
    for (d, per, p) in [("f", 4, "0x"), ("7", 3, "0o"), ("1", 1, "0b"), ("7", 3, "0")].iter() {
        for n in 1..(1030 / per) {
            if n < 40 || n % 16 == 0 || n * per > 1015 {
                out.push(c("op", &format!("{}{}", p, d.repeat(n))));
                out.push(c("op", &format!("{}1{}1", p, "0".repeat(n))));
            }
        }
    }
    // where the number of bits or digits reaches a power of two
    for (d, per, p) in [("f", 4, "0x"), ("7", 3, "0o"), ("1", 1, "0b"), ("7", 3, "0"), ("0", 4, "0x1"), ("0", 1, "0b1"), ("0", 3, "01")].iter() {
        for k in 7..18 {
            for more in [0, 20, 64, 80].iter() {
                out.push(c("op", &format!("{}{}", p, d.repeat(((1 << k) + more) / per))));
            }
        }
    }
    for (p, d, s) in [("0.", "0", "1"), ("1", "0", ""), ("1", "0", "e-400"), ("0.", "0", "1e400"), (".", "9", ""), ("", "9", "."), ("1e", "0", "1"), ("1e-", "0", "1"), ("", "9", "e-99999")].iter() {
        for k in 5..18 {
            for n in [(1 << k) - 1, 1 << k, (1 << k) + 1].iter() {
                out.push(c("op", &format!("{}{}{}", p, d.repeat(*n), s)));
            }
        }
    }
    // exponents of many digits
    for n in (0..45).chain(vec![64, 100, 300, 1000]) {
        for d in ["1", "2", "18446744073709551616", "9", "30", "4294967297"].iter() {
            for sign in ["", "+", "-"].iter() {
                let z = "0".repeat(n);
                for m in ["1", "0", "9.5", ".25", "0.0", "10"].iter() {
                    out.push(c("op", &format!("{}e{}{}{} a", m, sign, d, z)));
                    out.push(c("op", &format!("{}E{}{}{} a", m, sign, z, d)));
                }
            }
        }
    }
    out.extend(late_fixed());
    out.extend(wide_fixed().into_iter().filter(|c| c.text().len() < 10_000));
    out
}

fn literal(c: &Case, o: &mut Obs, what: u32, key: &str) -> Verdict {
    let n = |o: &Obs| o.counts.get(key).cloned().unwrap_or(0);
    let before = n(o);
    let v = compare(c, what, o);
    o.nontrivial = n(o) > before;
    v
}

fn c03(c: &Case, o: &mut Obs) -> Verdict {
    literal(c, o, KIND | NUM | ERR, "numbers")
}

fn c04_gen(r: &mut Rng, _: bool) -> Case {
    let odd = r.chance(1, 8) as usize;
    let t = g::string(r, odd);
    let t = embed(r, t);
    Case::new("op", t)
}

fn c04_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    // every escaped character, in blocks
    for b in 0..0x1100 {
        out.push(c("escapes", &format!("{:x}", b * 256)));
    }
    for a in 0..512 {
        out.push(c("op", &format!("'\\{:o}' '\\{:o}9' '\\{:o}0' '\\{:03o}7'", a, a, a, a)));
    }
    for a in 0..256 {
        out.push(c("op", &format!("'\\x{:02x}' \"\\x{:02X}\"", a, a)));
    }
    for s in [
        "''", "\"\"", "'\"'", "\"'\"", "'\\\n'", "'\\\r\n'", "'\\\r'", "'\\\u{2028}x'", "'\\\n\\\n'", "'\\\r\n\\\n'", "'a\\\r\nb'", "'\\\n\n'", "'\\\r\r'", "'\n'", "'\u{2028}'", "'\u{2029}'", "'\\0'", "'\\08'", "'\\00'", "'\\400'", "'\\378'", "'\\8'", "'\\9'",
        "'\\u{0}'", "'\\u{10ffff}'", "'\\u{10FFFF}'", "'\\u{110000}'", "'\\u{0000000041}'", "'\\ud83d\\ude00'", "'\\ud83dx\\ude00'", "'\\ude00\\ud83d'", "'\\ud83d\\ud83d\\ude00'", "'\\u{d83d}\\u{de00}'", "'\\ud83d'", "'\\ud83d\\\n\\ude00'", "'\\ud83d\\ude00\\ud83d\\ude00'",
        "'\\u0041\\u0042'", "'\\'", "'\\", "'", "'\\u{'", "'\\u", "'\\x'", "'\\x4", "'\\u{}'", "'\\u{g}'", "'\\u{41'", "'x", "'\\a\\c\\d\\e\\g\\h'", "'\\\\'", "'\\''", "\"\\\"\"", "'\\\"'",
    ]
    .iter()
    {
        out.push(c("op", s));
        out.push(c("op", &format!("{};", s)));
        out.push(c("re", &format!("{} x", s)));
    }
    out.extend(late_fixed());
    out.extend(wide_fixed().into_iter().filter(|c| c.text().len() < 10_000));
    out
}

fn c04(cs: &Case, o: &mut Obs) -> Verdict {
    if cs.mode == "escapes" {
        let lo = u32::from_str_radix(cs.text(), 16).unwrap_or(0);
        let mut t = String::new();
        for u in lo..lo + 256 {
            if u <= 0x10ffff {
                t.push_str(&format!("'\\u{{{:x}}}' ", u));
                if u <= 0xffff {
                    t.push_str(&format!("'\\u{:04X}'", u));
                }
                if let Some(ch) = char::from_u32(u) {
                    // the character itself and its single-character escape
                    if ch != '\\' && ch != '\'' && !is_newline(ch) {
                        t.push_str(&format!("'{}'", ch));
                    }
                    if ch != 'x' && ch != 'u' {
                        t.push_str(&format!("'\\{}'", ch));
                    }
                }
            }
        }
        return literal(&c("op", &t), o, KIND | STR | ERR, "strings");
    }
    literal(cs, o, KIND | STR | ERR, "strings")
}

fn c05_gen(r: &mut Rng, _: bool) -> Case {
    if r.chance(1, 3) {
        // the same text in both modes, token by token
        let n = r.range(1, 5);
        let t: String = (0..n).map(|_| match r.below(5) {
            0 => "/".to_string(),
            1 => "/=".to_string(),
            2 => g::regexp(r, 0),
            3 => g::word(r),
            _ => g::trivia(r, true),
        }).collect();
        return Case::new(g::mode(r), t);
    }
    let odd = r.chance(1, 6) as usize;
    let t = g::regexp(r, odd);
    let m = if r.chance(1, 8) { g::mode(r) } else { "re".to_string() };
    let t = embed(r, t);
    Case::new(m, t)
}

fn c05_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    let alpha: Vec<&str> = vec!["/", "[", "]", "\\", "a", "\n", "*", "g", "=", "\u{2028}"];
    let n = alpha.len();
    for k in 1..=5usize {
        for i in 0..n.pow(k as u32) {
            let mut x = i;
            let t: String = (0..k).map(|_| { let s = alpha[x % n]; x /= n; s }).collect();
            if k < 5 || t.matches('/').count() == 1 {
                out.push(c("re", &format!("/{}", t)));
                if k < 4 {
                    out.push(c("op", &format!("/{}", t)));
                }
            }
        }
    }
    out.extend(cases(&["/a/", "/=/", "/=", "/[/]/g", "/a/gimuy", "/a/\u{200d}", "/a/é", "/a/1", "/\\//", "/[\\]]/", "/[[]/", "/[]]/", "/a/b/c", "/a /", "/😀/u", "/\\😀/", "/a", "/[a/", "/a\\"]));
    out.extend(late_fixed());
    out.extend(wide_fixed().into_iter().filter(|c| c.text().len() < 10_000));
    out
}

fn c05(c: &Case, o: &mut Obs) -> Verdict {
    let n = |o: &Obs| o.counts.get("regexps").cloned().unwrap_or(0) + o.counts.get("errors").cloned().unwrap_or(0) + o.counts.get("punctuators").cloned().unwrap_or(0);
    let before = n(o);
    let v = compare(c, KIND | RE | ERR, o);
    o.nontrivial = n(o) > before;
    v
}

// ---------------------------------------------------------------- C06 words

fn c06_gen(r: &mut Rng, _: bool) -> Case {
    let w = if r.chance(1, 5) { g::bad_word(r) } else { g::word(r) };
    let t = embed(r, w);
    Case::new("op", t)
}

fn c06_fixed(_: bool) -> Vec<Case> {
    let mut out = vec![];
    for b in 0..0x1100 {
        out.push(c("points", &format!("{:x}", b * 256)));
    }
    out.push(c("names", ""));
    for w in RESERVED[..36].iter().chain(CONTEXTUAL.iter()) {
        out.push(c("op", w));
        out.push(c("re", w));
        let n = w.chars().count();
        for k in 0..=n {
            // one character escaped, both ways; cut off; extended; capitalised
            let cs: Vec<char> = w.chars().collect();
            let pre: String = cs[..k].iter().collect();
            if k < n {
                let post: String = cs[k + 1..].iter().collect();
                let u = cs[k] as u32;
                out.push(c("op", &format!("{}\\u{:04x}{}", pre, u, post)));
                out.push(c("op", &format!("{}\\u{{{:X}}}{}", pre, u, post)));
                out.push(c("op", &format!("{}{}{}", pre, cs[k].to_ascii_uppercase(), post)));
                out.push(c("op", &format!("{}{}", pre, post)));
            }
            out.push(c("op", &pre));
            let post: String = cs[k..].iter().collect();
            for x in ["s", "0", "_", "$", "é", "\u{200c}", "\\u0061", " "].iter() {
                out.push(c("op", &format!("{}{}{}", pre, x, post)));
            }
        }
    }
    out.extend(late_fixed());
    out.extend(wide_fixed().into_iter().filter(|c| c.text().len() < 10_000));
    out
}

fn names() -> Result<u64, String> {
    let mut n = 0;
    let mut seen: Vec<Reserved> = vec![];
    for w in RESERVED[..36].iter().chain(CONTEXTUAL.iter()).cloned().chain(vec!["x", "", "iff", "gets", "été"]) {
        n += 1;
        let name = Name::from(w.to_string());
        if name.as_ref() != w || name.clone().into_string() != w {
            return Err(format!("Name::from({:?}) is {:?}", w, name));
        }
        if name.atom().is_some() != CONTEXTUAL.contains(&w) {
            return Err(format!("Name::from({:?}) is {:?}", w, name));
        }
        if let Some(a) = name.atom() {
            if a.name() != w {
                return Err(format!("{:?} is called {:?}", a, a.name()));
            }
        }
        if name != Name::from(w.to_string()) || name == Name::from(format!("{}_", w)) {
            return Err(format!("equality of the name {:?}", w));
        }
        for esc in [false, true].iter() {
            let mut word = Word::new();
            word.text.push_str(w);
            if *esc {
                word.set_had_escape();
            }
            if word.had_escape() != *esc {
                return Err("had_escape".to_string());
            }
            let res = lex::reserved(w).is_some();
            match (Map::new().tokenize(word), res, esc) {
                (Ok(TokenData::Reserved(x)), true, false) if x.name() == w && x.into_string() == w => {
                    if seen.contains(&x) {
                        return Err(format!("two words are {:?}", x));
                    }
                    seen.push(x);
                }
                (Err(Error::ReservedWordWithEscapes(x)), true, true) if x.name() == w => {}
                (Ok(TokenData::Identifier(ref x)), false, false) if x.as_ref() == w && x.atom().is_some() == CONTEXTUAL.contains(&w) => {}
                (Ok(TokenData::Identifier(ref x)), false, true) if x.as_ref() == w => {}
                (other, _, _) => return Err(format!("the word {:?} (escaped: {}) becomes {:?}", w, esc, other)),
            }
        }
    }
    Ok(n)
}

fn c06(cs: &Case, o: &mut Obs) -> Verdict {
    if cs.mode == "names" {
        o.nontrivial = true;
        let n = tryv!(guard(names).and_then(|x| x));
        o.count("names", n);
        return Verdict::Held;
    }
    if cs.mode == "points" {
        let lo = u32::from_str_radix(cs.text(), 16).unwrap_or(0);
        o.nontrivial = true;
        for u in lo..lo + 256 {
            if u > 0x10ffff {
                break;
            }
            let ch = char::from_u32(u);
            if ch.map_or(false, skewed) {
                o.count("code points whose status depends on the Unicode version", 1);
                continue;
            }
            o.count("code points", 1);
            let mut ts = vec![format!("\\u{{{:x}}}", u), format!("a\\u{{{:x}}}b", u)];
            if let Some(ch) = ch {
                ts.push(format!("{}", ch));
                ts.push(format!("a{}b", ch));
            }
            for t in ts {
                if let Verdict::Violation(m) = compare(&c("op", &t), KIND | WORD | ERR, o) {
                    return bad(format!("{:?}: {}", t, m));
                }
            }
        }
        return Verdict::Held;
    }
    let n = |o: &Obs| ["identifiers", "reserved words", "errors"].iter().map(|k| o.counts.get(*k).cloned().unwrap_or(0)).sum::<u64>();
    let before = n(o);
    let v = compare(cs, KIND | WORD | ERR, o);
    o.nontrivial = n(o) > before;
    v
}

// ---------------------------------------------------------------- C07 / C08 locations, newlines

fn c07_gen(r: &mut Rng, deep: bool) -> Case {
    let n = if deep { 60 } else { 20 };
    let mut t = String::new();
    for _ in 0..r.range(1, n) {
        t.push_str(&match r.below(8) {
            0 => g::newline(r),
            1 => g::string(r, 0),
            2 => g::regexp(r, 0),
            3 => g::number(r) + " ",
            4 => g::word(r) + " ",
            5 => g::trivia(r, true),
            6 => g::punct(r),
            _ => g::token(r) + " ",
        });
    }
    Case::new(g::mode(r), t)
}

fn c07(cs: &Case, o: &mut Obs) -> Verdict {
    let v = compare(cs, SPAN, o);
    if v != Verdict::Held {
        return v;
    }
    // Lexer::posn, before and after each token, with and without a buffered token
    let chars: Vec<char> = cs.text().chars().collect();
    let (want, _) = reference(&chars, &cs.mode);
    let m = Monitor::new(&chars, SPAN);
    let r = guard(|| -> Result<(), String> {
        let mut l = Lexer::new(cs.text().chars());
        let mut prev = 0;
        for (i, w) in want.iter().enumerate() {
            let f = g::flag(&cs.mode, i);
            m.posn(l.posn(), prev, "position before a token")?;
            if i % 2 == 0 {
                l.peek_token(f).map_err(|e| format!("{:?}", e))?;
                m.posn(l.posn(), w.start, "position at a buffered token")?;
            }
            l.read_token(f).map_err(|e| format!("{:?}", e))?;
            prev = w.end;
            m.posn(l.posn(), prev, "position after a token")?;
        }
        Ok(())
    });
    tryv!(r.and_then(|x| x));
    o.count("positions", want.len() as u64);
    let lines = want.last().map_or(0, |t| m.lines[t.start].0);
    o.count("lines", lines as u64);
    o.nontrivial = want.len() > 2 && lines > 0;
    Verdict::Held
}

/// Long tokens, long stretches of layout, many tokens.
fn wide_fixed() -> Vec<Case> {
    let mut out = vec![];
    for &n in [9, 17, 31, 33, 63, 65, 127, 129, 255, 256, 257, 1023, 1025, 4097, 65535, 65537].iter() {
        for (a, x, b) in [
            ("", " ", "a b"), ("", "\n", "a b"), ("", "\r\n", "a b"), ("a", "\u{2028}", "b"), ("a", " ", "b"), ("a", "\r", "b"), ("/*", "x", "*/a"), ("/*", "\n", "*/a"), ("/*", "*", "/a"),
            ("/*", "\r\n", "*/a b"), ("//", "x", "\na"), ("<!--", "-", "\na"), ("-->", ">", "\na"), ("", "/**/", "a"), ("", "//\n", "a"), ("", "/*\n*/", "--> a\nb"), ("a", "/*\n*/", "b"),
            ("'", "x", "' a"), ("'", "\\x41", "' a"), ("'", "\\u0041", "' a"), ("'", "\\u{41}", "' a"), ("'", "\\\n", "' a"), ("'", "\\\r\n", "' a"), ("'", "\\0", "' a"), ("'", "\u{1f600}", "' a"), ("'", "\\ud83d\\ude00", "' a"), ("'\\u{", "0", "41}' a"), ("\"", "'", "\" a"),
            ("a", "b", " c"), ("", "\\u0061", " c"), ("\\u{", "0", "61} c"), ("a", "\u{10400}", " c"), ("a", "_", "\\u{110000}"), ("i", "f", " if"), ("", "if ", ""), ("", "a.", "b"), ("", "a ", "\n--> b"),
            ("1", "0", " c"), ("0.", "0", "1 c"), ("0.", "9", " c"), ("1e", "0", "1 c"), ("1e", "1", " c"), ("1e-", "1", " c"), ("0x", "f", " c"), ("0b", "1", " c"), ("0o", "7", " c"), ("0", "7", " c"), ("0", "7", "8 c"), (".", "3", "e5 c"), ("1", "3", ".5 c"), ("5", "0", "e-300 c"),
            ("", "(", ""), ("", "+ ", "a"), ("", ">>>= ", "a"), ("", "a\n", "b"), ("", "'x' ", "b"), ("", "1 ", "b"), ("", ";", "b"), ("'", "x", ""), ("/*", "x", ""), ("a", "b", "@"), ("'", "x", "\n'"), ("", " ", "#"), ("", "\n", "#"),
        ].iter() {
            out.push(c("op", &format!("{}{}{}", a, x.repeat(n), b)));
        }
        for (a, x, b) in [("/", "x", "/g a"), ("/[", "/", "]/g a"), ("/", "\\/", "/g a"), ("/x/", "g", " a"), ("/", "[/]", "/ a"), ("/", "x", ""), ("/[", "]\\", ""), ("/", "/ /", "/ a"), ("", " ", "/a/g")].iter() {
            out.push(c("re", &format!("{}{}{}", a, x.repeat(n), b)));
        }
    }
    out
}

/// What stands late: in a long token, in a long comment, far into a text.
fn late_fixed() -> Vec<Case> {
    let mut out = vec![];
    let escapes = [
        "\\n", "\\v", "\\t", "\\b", "\\r", "\\f", "\\0", "\\101", "\\8", "\\x41", "\\xe9", "\\u0041", "\\u{1f600}", "\\ud83d\\ude00", "\\ud83d", "\\\n", "\\\r\n", "\\\u{2028}", "\\'", "\\\"", "\"", "\\\\", "\\a",
        "\u{1f600}", "\u{2028}", "\n", "\r", "\\x4", "\\u{}", "\\u{110000}", "\\", "/", "//", "/*", "*/", "\0", "\u{feff}",
    ];
    let ends = ["\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "\n\n", "\n ", "*", "/", "**", "\n*", "\u{85}", ""];
    let tails = [
        "a", "\\u0061", "if", "\\u0069f", "1", "0x1f", "1.5e3", ".5", "017", "089", "'\\v'", "'\\ud83d\\ude00'", "'x", "\"\\\r\n\"", "...", "..", ">>>=", "===", "=>", "/", "/=", "/a/g", "/[/]/", "/*\n*/ a", "/*x*/ a", "// x", "// x\na",
        "<!-- x", "<!-- x\na", "--> x", "\n--> x", "\n--> x\na", "-- >", "/*\n*/--> x\na", "/*", "@", "#", "\u{a0}a", "\u{85}", "\u{2028}a", "\r\na", "1a", "1\\u0061", "0b2", "1e", "0x", "a\\u{110000}", "\\u0030", "\u{10400}a", "ⅷ", "a\u{200d}", "\u{200d}", "\"a\" 'b'", "",
    ];
    for &n in [6, 30, 62, 126, 254, 510, 1022, 3001, 4094, 9001, 65533, 70001].iter() {
        for e in escapes.iter() {
            out.push(c("op", &format!("'{}{}' a", "x".repeat(n), e)));
            out.push(c("op", &format!("'{}{}x' a", "x".repeat(n + 1), e)));
            if n < 10_000 {
                out.push(c("op", &format!("\"{}{}\" a", "\\n".repeat(n), e)));
                out.push(c("op", &format!("'{}{}'", "\u{e9}".repeat(n), e)));
                out.push(c("re", &format!("/{}{}/g a", "x".repeat(n), e)));
                out.push(c("re", &format!("/[{}{}]/ a", "/".repeat(n), e)));
                out.push(c("op", &format!("a{}{}", "b".repeat(n), e)));
            }
        }
        for e in ends.iter() {
            for (a, x) in [("a/*", "x"), ("/*", "\n"), ("a //", "x"), ("a", " "), ("a", "/**/"), ("a<!--", "x"), ("a /*x\u{2028}", "*")].iter() {
                out.push(c("op", &format!("{}{}{}*/ --> b", a, x.repeat(n), e)));
                out.push(c("op", &format!("{}{}{}b", a, x.repeat(n), e)));
            }
        }
        for t in tails.iter() {
            for x in ["a ", ";", "\n", "a\n", " ", "''", "\u{2028}", "/**/", "\r\n"].iter() {
                if n < 10_000 || x.len() == 1 {
                    out.push(c(if t.starts_with('/') && x.len() < 3 { "re" } else { "op" }, &format!("{}{}", x.repeat(n), t)));
                }
            }
        }
    }
    out
}

fn trivia_fixed(_: bool) -> Vec<Case> {
    let mut out = wide_fixed();
    out.extend(late_fixed());
    let bits = [" ", "\n", "\r", "\r\n", "\u{2028}", "\u{2029}", "/**/", "/*\n*/", "/*\r\n*/", "/*\u{2028}*/", "//x\n", "//x\r\n", "<!--\n", "\t", "\u{feff}", "-->x\n", "/*x*/"];
    for a in bits.iter() {
        for b in bits.iter() {
            for d in bits.iter() {
                let t = format!("{}{}{}", a, b, d);
                out.push(c("op", &format!("x{}y{}", t, t)));
                out.push(c("op", &format!("{}y", t)));
            }
            out.push(c("op", &format!("'a\\{}b'{}c", if a.chars().all(is_newline) { a } else { "\n" }, b)));
        }
    }
    for nl in g::NEWLINES.iter() {
        out.push(c("op", &format!("'a\\{}b' c{}d", nl, nl)));
        out.push(c("op", &format!("a{}{}b/*{}*/c//{}d", nl, nl, nl, nl)));
        out.push(c("op", &format!("{}{}", nl, nl)));
    }
    out
}

fn c08_gen(r: &mut Rng, deep: bool) -> Case {
    let mut t = String::new();
    for _ in 0..r.range(1, if deep { 40 } else { 14 }) {
        t.push_str(&match r.below(5) {
            0 => g::string(r, 0),
            1 => g::punct(r),
            2 => g::number(r),
            _ => g::raw_word(r),
        });
        let nl = r.chance(1, 2);
        t.push_str(&g::trivia(r, nl));
    }
    Case::new("op", t)
}

fn c08(cs: &Case, o: &mut Obs) -> Verdict {
    let chars: Vec<char> = cs.text().chars().collect();
    let (want, _) = reference(&chars, &cs.mode);
    let v = compare(cs, NEWLINE | KIND, o);
    if v != Verdict::Held {
        return v;
    }
    // reading ahead does not change the flag
    let r = guard(|| -> Result<(), String> {
        let mut l = Lexer::new(cs.text().chars());
        for (i, w) in want.iter().enumerate() {
            let f = g::flag(&cs.mode, i);
            let a = l.peek_token(f).map_err(|e| format!("{:?}", e))?.newline;
            let b = l.read_token(f).map_err(|e| format!("{:?}", e))?.newline;
            if a != w.newline || b != w.newline {
                return Err(format!("token {}: newline {} when peeked, {} when read, expected {}", i, a, b, w.newline));
            }
        }
        Ok(())
    });
    tryv!(r.and_then(|x| x));
    let yes = want.iter().filter(|t| t.newline).count();
    o.count("tokens after a newline", yes as u64);
    o.count("tokens on the same line", (want.len() - yes) as u64);
    o.nontrivial = yes > 0 && yes < want.len();
    Verdict::Held
}

// ---------------------------------------------------------------- C09 lookahead

fn c09_gen(r: &mut Rng, deep: bool) -> Case {
    let t = if r.chance(1, 4) { c07_gen(r, false).parts[0].clone() } else { g::text(r, if deep { 40 } else { 14 }) };
    let t = if r.chance(1, 10) { g::mutate(r, &t, 1) } else { t };
    Case::new(format!("{}/{}", g::mode(r), r.below(1 << 30)), t)
}

fn c09(cs: &Case, o: &mut Obs) -> Verdict {
    let mut parts = cs.mode.split('/');
    let mode = parts.next().unwrap_or("op").to_string();
    let seed: u64 = parts.next().and_then(|x| x.parse().ok()).unwrap_or(0);
    let n = cs.text().chars().count();
    let (toks, err, done) = tryv!(subject_run(cs.text(), &mode, n + 2));
    if !done {
        return bad("no end of input");
    }
    let total = toks.len() + err.is_some() as usize;
    let mut r = Rng::new(seed);
    let mut ops = String::new();
    let res = guard(|| -> Result<(u64, u64), String> {
        let mut l = Lexer::new(cs.text().chars());
        let mut pos = 0; // index of the next token to be handed out
        let mut buf = 0; // how many tokens from `pos` on are buffered
        let mut taken: Vec<Token> = vec![]; // handed out, most recent last
        let (mut steps, mut kinds) = (0u64, 0u64);
        let same = |a: &Token, i: usize, what: &str| -> Result<(), String> {
            if *a != toks[i] {
                return Err(format!("{} gives {:?}, sequential reading gives {:?}", what, a, toks[i]));
            }
            Ok(())
        };
        while pos < total && steps < 400 {
            steps += 1;
            let f = g::flag(&mode, pos);
            // when the token is buffered, the flag has no influence
            let f = if buf > 0 { r.chance(1, 2) } else { f };
            let ends = pos >= toks.len(); // the next one is the error
            let op = r.below(7);
            kinds |= 1 << op;
            let at_eof = pos < toks.len() && toks[pos].value == TokenData::EOF;
            match op {
                0 | 1 => {
                    ops.push_str("peek ");
                    match l.peek_token(f) {
                        Ok(t) if !ends => {
                            same(t, pos, "peek_token")?;
                            buf = buf.max(1);
                        }
                        Err(ref e) if ends && Some(e) == err.as_ref() => return Ok((steps, kinds)),
                        x => return Err(format!("peek_token gives {:?}, sequential reading gives {:?}", x, toks.get(pos).map(|t| &t.value))),
                    }
                }
                2 if buf > 0 => {
                    ops.push_str("repeek ");
                    same(l.repeek_token(), pos, "repeek_token")?;
                }
                3 if buf > 0 => {
                    ops.push_str("reread ");
                    let t = l.reread_token();
                    same(&t, pos, "reread_token")?;
                    taken.push(t);
                    pos += 1;
                    buf -= 1;
                }
                4 if !taken.is_empty() && buf < 2 && pos > 0 => {
                    ops.push_str("unread ");
                    l.unread_token(taken.pop().unwrap());
                    pos -= 1;
                    buf += 1;
                }
                5 => {
                    ops.push_str("skip ");
                    match l.skip_token(f) {
                        Ok(()) if !ends => {
                            pos += 1;
                            buf = if buf > 0 { buf - 1 } else { 0 };
                            taken.clear();
                        }
                        Err(ref e) if ends && Some(e) == err.as_ref() => return Ok((steps, kinds)),
                        x => return Err(format!("skip_token gives {:?}, sequential reading gives {:?}", x, toks.get(pos).map(|t| &t.value))),
                    }
                }
                _ => {
                    ops.push_str("read ");
                    match l.read_token(f) {
                        Ok(t) => {
                            if ends {
                                return Err(format!("read_token gives {:?}, sequential reading fails with {:?}", t.value, err));
                            }
                            same(&t, pos, "read_token")?;
                            taken.push(t);
                            pos += 1;
                            buf = if buf > 0 { buf - 1 } else { 0 };
                        }
                        Err(ref e) if ends && Some(e) == err.as_ref() => return Ok((steps, kinds)),
                        Err(e) => return Err(format!("read_token fails with {:?}, sequential reading gives {:?}", e, toks.get(pos).map(|t| &t.value))),
                    }
                }
            }
            if at_eof && pos >= toks.len() {
                break;
            }
        }
        Ok((steps, kinds))
    });
    match res {
        Ok(Ok((steps, kinds))) => {
            o.count("operations", steps);
            o.nontrivial = steps > 3 && kinds.count_ones() > 2;
            o.count("interleavings with unread", ops.contains("unread") as u64);
            Verdict::Held
        }
        Ok(Err(m)) | Err(m) => bad(format!("after {}: {}", ops, m)),
    }
}

// ---------------------------------------------------------------- C10 streaming

struct Counting {
    cs: Rc<Vec<char>>,
    at: usize,
    pulled: Rc<Cell<usize>>,
    polls: Rc<Cell<usize>>,
    limit: usize,
}

impl Iterator for Counting {
    type Item = char;
    fn next(&mut self) -> Option<char> {
        self.polls.set(self.polls.get() + 1);
        if self.polls.get() > self.limit {
            panic!("the character source was asked {} times for {} characters", self.polls.get(), self.cs.len());
        }
        let c = self.cs.get(self.at).cloned();
        if c.is_some() {
            self.at += 1;
            self.pulled.set(self.at);
        }
        c
    }
}

const AHEAD: usize = 4;

fn c10_gen(r: &mut Rng, deep: bool) -> Case {
    let c = c01_gen(r, false);
    if r.chance(1, 2) {
        return c;
    }
    Case::new(g::mode(r), g::text(r, if deep { 60 } else { 20 }))
}

fn c10(cs: &Case, o: &mut Obs) -> Verdict {
    let chars: Rc<Vec<char>> = Rc::new(cs.text().chars().collect());
    let n = chars.len();
    let (pulled, polls) = (Rc::new(Cell::new(0)), Rc::new(Cell::new(0)));
    let src = Counting { cs: chars.clone(), at: 0, pulled: pulled.clone(), polls: polls.clone(), limit: 40 * n + 400 };
    let r = guard(|| -> Result<(u64, Vec<Token>, Option<Error>), String> {
        let mut l = Lexer::new(src);
        if pulled.get() > AHEAD {
            return Err("characters are read before a token is asked for".to_string());
        }
        let mut out = vec![];
        let mut most = 0;
        for i in 0..n + 2 {
            match l.read_token(g::flag(&cs.mode, i)) {
                Ok(t) => {
                    let end = t.location.end.offset as usize;
                    let ahead = pulled.get().saturating_sub(end);
                    most = most.max(ahead as u64);
                    if ahead > AHEAD {
                        return Err(format!("{} characters past the end of token {} ({:?}) were read", ahead, i, t.value));
                    }
                    let eof = t.value == TokenData::EOF;
                    out.push(t);
                    if eof {
                        // the end of input is the end of input for good
                        for _ in 0..5 {
                            for f in [false, true].iter() {
                                match l.read_token(*f) {
                                    Ok(ref t) if t.value == TokenData::EOF && t.location == out.last().unwrap().location => {}
                                    x => return Err(format!("after the end of input: {:?}", x)),
                                }
                            }
                        }
                        return Ok((most, out, None));
                    }
                }
                Err(e) => return Ok((most, out, Some(e))),
            }
        }
        Err("no end of input".to_string())
    });
    let (most, toks, err) = tryv!(r.and_then(|x| x));
    o.count("tokens", toks.len() as u64);
    o.count(&format!("runs that read {} ahead", most), 1);
    // What was delivered does not depend on what comes later: cut the input off somewhere, and the
    // tokens that ended well before the cut are the same.
    let mut rr = Rng::new(hash_str(cs.text()));
    for _ in 0..3 {
        let cut = rr.below(n + 1);
        let t: String = chars[..cut].iter().collect();
        let (a, _, _) = tryv!(subject_run(&t, &cs.mode, cut + 2));
        let fin = |ts: &[Token]| -> Vec<Token> {
            ts.iter().take_while(|t| t.value != TokenData::EOF && t.location.end.offset as usize + AHEAD <= cut).cloned().collect()
        };
        let (x, y) = (fin(&toks), fin(&a));
        if x != y {
            return bad(format!("cut off at {}: {:?}, whole: {:?}", cut, y, x));
        }
        o.count("tokens that were the same for a prefix of the input", x.len() as u64);
    }
    let _ = err;
    o.nontrivial = n > 3;
    Verdict::Held
}

// ---------------------------------------------------------------- C11 lexical errors

fn c11_gen(r: &mut Rng, deep: bool) -> Case {
    let lit = match r.below(6) {
        0 => g::bad_number(r),
        1 => g::string(r, 1),
        2 => g::regexp(r, 1),
        3 => g::bad_word(r),
        4 => {
            let t = g::text(r, 4);
            g::mutate(r, &t, 2)
        }
        _ => g::soup(r, if deep { 30 } else { 10 }),
    };
    let t = match r.below(3) {
        0 => lit,
        1 => g::text(r, 3) + " " + &lit,
        _ => lit + &g::text(r, 3),
    };
    Case::new(g::mode(r), t)
}

fn c11_fixed(deep: bool) -> Vec<Case> {
    let mut out = c01_fixed(false);
    out.retain(|c| c.mode != "sweep" && c.text().len() < 1000);
    out.extend(c06_fixed(deep).into_iter().filter(|c| c.mode == "op"));
    for u in 0..0x3000u32 {
        if let Some(ch) = char::from_u32(u) {
            out.push(c("op", &format!("; {} ;", ch)));
            out.push(c("op", &format!("1{}", ch)));
            out.push(c("op", &format!("0x{}", ch)));
            out.push(c("op", &format!("1e{}", ch)));
            out.push(c("op", &format!("\\{}", ch)));
            out.push(c("op", &format!("'\\x{}'", ch)));
        }
    }
    out
}

fn c11(c: &Case, o: &mut Obs) -> Verdict {
    let n = |o: &Obs| o.counts.get("errors").cloned().unwrap_or(0);
    let before = n(o);
    let v = compare(c, KIND | ERR, o);
    o.nontrivial = n(o) > before;
    v
}

const UCD: &str = "code points whose identifier status differs between Unicode versions are not judged";
const SUR: &str = "a lone surrogate in a string may be represented by any one character";

fn main() {
    let props = [
        Prop { id: "C01", rule: "character soup, mutated and truncated token streams, every string of up to 3 (thorough: 4) characters over a hostile alphabet; non-trivial: not empty",
            fixed: c01_fixed, exhaustive: false, gen: c01_gen, check: c01, quick: 2_400_000, thorough: 8_000_000, assumptions: &["a case that needs more than 20 s of CPU time is taken to hang"] },
        Prop { id: "C02", rule: "random token streams with adversarial trivia, every pair and triple of punctuator characters; non-trivial: at least one token before the end",
            fixed: c02_fixed, exhaustive: false, gen: c02_gen, check: c02, quick: 2_400_000, thorough: 8_000_000, assumptions: &[UCD] },
        Prop { id: "C03", rule: "numeric literals of every form, around rounding ties, overflow and underflow; non-trivial: at least one number was read",
            fixed: c03_fixed, exhaustive: false, gen: c03_gen, check: c03, quick: 2_550_000, thorough: 10_000_000, assumptions: &["the standard library of the reference parses decimal floats correctly"] },
        Prop { id: "C04", rule: "string literals with every kind of escape, every code point escaped; non-trivial: at least one string was read",
            fixed: c04_fixed, exhaustive: false, gen: c04_gen, check: c04, quick: 2_400_000, thorough: 8_000_000, assumptions: &[SUR] },
        Prop { id: "C05", rule: "regular expressions, every short text over / [ ] \\ and newlines, both lexing modes; non-trivial: a regexp, a division or an error was observed",
            fixed: c05_fixed, exhaustive: false, gen: c05_gen, check: c05, quick: 1_800_000, thorough: 6_000_000, assumptions: &[UCD, "escapes in flags are not judged"] },
        Prop { id: "C06", rule: "every code point alone, inside a word and escaped; every reserved and contextual word with every one-character change; random words; non-trivial: a word or an error was observed",
            fixed: c06_fixed, exhaustive: true, gen: c06_gen, check: c06, quick: 1_200_000, thorough: 6_000_000, assumptions: &[UCD] },
        Prop { id: "C07", rule: "multi-line token streams; non-trivial: at least three tokens over at least two lines",
            fixed: trivia_fixed, exhaustive: false, gen: c07_gen, check: c07, quick: 1_260_000, thorough: 4_000_000, assumptions: &[] },
        Prop { id: "C08", rule: "tokens separated by every kind of trivia; non-trivial: tokens with and without a preceding line terminator",
            fixed: trivia_fixed, exhaustive: false, gen: c08_gen, check: c08, quick: 1_260_000, thorough: 4_000_000, assumptions: &[] },
        Prop { id: "C09", rule: "random interleavings of peek, repeek, read, reread, skip and unread against the history of sequential reads; non-trivial: more than three operations of at least three kinds",
            fixed: none, exhaustive: false, gen: c09_gen, check: c09, quick: 2_400_000, thorough: 6_000_000, assumptions: &["at most two tokens are buffered, the capacity the lexer documents"] },
        Prop { id: "C10", rule: "token streams and soup through a counting character source; non-trivial: more than three characters",
            fixed: trivia_fixed, exhaustive: false, gen: c10_gen, check: c10, quick: 1_260_000, thorough: 4_000_000, assumptions: &["the look-ahead bound is four characters, the capacity the reader documents"] },
        Prop { id: "C11", rule: "malformed literals, words and characters; non-trivial: a lexical error was expected and observed",
            fixed: c11_fixed, exhaustive: false, gen: c11_gen, check: c11, quick: 2_400_000, thorough: 8_000_000, assumptions: &[UCD] },
    ];
    model::harness::main(&props, concat!(env!("CARGO_MANIFEST_DIR"), "/.."));
}
