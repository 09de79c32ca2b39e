//! Workloads for the lexer: token texts, trivia, hostile character soup and mutations.
use crate::lex::{CONTEXTUAL, PUNCT, RESERVED};
use crate::rng::Rng;

pub const NEWLINES: [&str; 5] = ["\n", "\r", "\r\n", "\u{2028}", "\u{2029}"];
const SPACES: [char; 21] = [
    ' ', '\t', '\u{b}', '\u{c}', '\u{a0}', '\u{feff}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}',
    '\u{2004}', '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{202f}', '\u{205f}', '\u{3000}',
];
const ODD: [char; 30] = [
    '\u{0}', '\u{7f}', '\u{85}', '\u{180e}', '\u{200b}', '\u{200c}', '\u{200d}', '\u{2027}', '\u{202a}', '\u{2060}',
    'é', 'Δ', '中', '\u{300}', '٣', 'ⅷ', '℘', '℮', '゛', '·', '፩', '\u{10ffff}', '😀', '𝒜', '𠮷', '\u{fffd}', '@', '#', '`', '\\',
];

pub fn newline(r: &mut Rng) -> String {
    r.pick(&NEWLINES).to_string()
}

pub fn any_char(r: &mut Rng) -> char {
    match r.below(12) {
        0 => SPACES[r.below(SPACES.len())],
        1 => ODD[r.below(ODD.len())],
        2 => loop {
            if let Some(c) = char::from_u32(r.below(0x110000) as u32) {
                break c;
            }
        },
        3 => loop {
            if let Some(c) = char::from_u32(r.below(0x3000) as u32) {
                break c;
            }
        },
        4 => r.pickc(&['\n', '\r', '\u{2028}', '\u{2029}']),
        5 | 6 => r.pickc(&['/', '*', '\\', '"', '\'', '<', '!', '-', '>', '.', '[', ']', '{', '}', 'u', 'x']),
        7 => (b'0' + r.below(10) as u8) as char,
        _ => (0x20 + r.below(0x5f) as u8) as char,
    }
}

pub fn soup(r: &mut Rng, max: usize) -> String {
    let n = r.below(max + 1);
    (0..n).map(|_| any_char(r)).collect()
}

fn digits(r: &mut Rng, set: &[u8], lo: usize, hi: usize) -> String {
    let n = r.range(lo, hi);
    let same = if r.chance(1, 6) { Some(set[r.below(set.len())]) } else { None };
    (0..n).map(|_| same.unwrap_or_else(|| set[r.below(set.len())]) as char).collect()
}

const DEC: &[u8] = b"0123456789";

fn radix_digits(r: &mut Rng, radix: u32) -> String {
    let set: &[u8] = match radix {
        16 => b"0123456789abcdefABCDEF",
        8 => b"01234567",
        _ => b"01",
    };
    match r.below(8) {
        0 => digits(r, set, 1, 3),
        1 => digits(r, set, 10, 24),
        2 => digits(r, set, 50, 70),
        3 => digits(r, set, 1, 400),
        4 => {
            // around the rounding ties of doubles: 53 bits, a half bit, a tail
            let mut bits: Vec<u8> = vec![1];
            for _ in 0..52 {
                bits.push(r.below(2) as u8);
            }
            if r.chance(1, 4) {
                for b in bits.iter_mut().skip(1) {
                    *b = 1;
                }
            }
            bits.push(r.below(2) as u8);
            let tail = r.below(80);
            let one = r.chance(1, 2);
            for k in 0..tail {
                bits.push((one && k + 1 == tail || r.chance(1, 200)) as u8);
            }
            let per = radix.trailing_zeros() as usize;
            while bits.len() % per != 0 {
                bits.insert(0, 0);
            }
            bits.chunks(per)
                .map(|c| {
                    let v = c.iter().fold(0u32, |a, &b| a * 2 + b as u32);
                    let d = std::char::from_digit(v, radix).unwrap();
                    if r.chance(1, 2) { d.to_ascii_uppercase() } else { d }
                })
                .collect()
        }
        5 => {
            // overflow to infinity and just below
            let per = radix.trailing_zeros() as usize;
            let n = 1024 / per;
            let d = std::char::from_digit(radix - 1, radix).unwrap();
            let k = r.range(n.saturating_sub(2), n + 2);
            (0..k).map(|i| if i < 20 && r.chance(9, 10) || r.chance(1, 2) { d } else { '0' }).collect()
        }
        6 => {
            let z = r.below(30);
            "0".repeat(z) + &digits(r, set, 1, 20)
        }
        _ => digits(r, set, 1, 12),
    }
}

fn exponent(r: &mut Rng) -> String {
    let e = r.pick(&["e", "E"]);
    let s = r.pick(&["", "", "+", "-"]);
    let d = match r.below(6) {
        0 => digits(r, DEC, 1, 1),
        1 => r.range(300, 330).to_string(),
        2 => "0".repeat(r.below(12)) + &digits(r, DEC, 1, 2),
        3 => digits(r, DEC, 4, 25),
        _ => digits(r, DEC, 1, 2),
    };
    format!("{}{}{}", e, s, d)
}

fn decimal_digits(r: &mut Rng) -> String {
    match r.below(8) {
        0 => digits(r, DEC, 1, 1),
        1 => digits(r, DEC, 15, 19),
        2 => digits(r, DEC, 1, 40),
        3 => digits(r, DEC, 300, 330),
        4 => (1u64 << r.range(52, 63)).wrapping_add(r.below(5) as u64).wrapping_sub(2).to_string(),
        _ => digits(r, DEC, 1, 6),
    }
}

fn no_leading_zero(d: String) -> String {
    let t = d.trim_start_matches('0');
    if t.is_empty() { "0".to_string() } else { t.to_string() }
}

pub fn number(r: &mut Rng) -> String {
    match r.below(14) {
        0 | 1 => format!("{}{}", r.pick(&["0x", "0X"]), radix_digits(r, 16)),
        2 | 3 => format!("{}{}", r.pick(&["0o", "0O"]), radix_digits(r, 8)),
        4 | 5 => format!("{}{}", r.pick(&["0b", "0B"]), radix_digits(r, 2)),
        6 => format!("0{}", radix_digits(r, 8)),
        7 => format!("0{}{}{}", digits(r, DEC, 0, 4), r.pick(&["8", "9"]), digits(r, DEC, 0, 20)),
        8 => format!(".{}{}", decimal_digits(r), if r.chance(1, 2) { exponent(r) } else { String::new() }),
        9 => format!("{}.{}", no_leading_zero(decimal_digits(r)), if r.chance(1, 3) { exponent(r) } else { String::new() }),
        10 => {
            let (a, b) = (no_leading_zero(decimal_digits(r)), decimal_digits(r));
            format!("{}.{}{}", a, b, if r.chance(1, 2) { exponent(r) } else { String::new() })
        }
        11 => format!("{}{}", no_leading_zero(decimal_digits(r)), exponent(r)),
        12 => {
            // a random double in shortest and long form
            let f = f64::from_bits(r.next());
            if f.is_finite() {
                let f = f.abs();
                match r.below(3) {
                    0 => format!("{:e}", f),
                    1 => format!("{:.25e}", f),
                    _ => {
                        let t = format!("{:?}", f);
                        if t.contains('e') { t } else { t.trim_end_matches('0').to_string() }
                    }
                }
            } else {
                "1e999".to_string()
            }
        }
        _ => no_leading_zero(decimal_digits(r)),
    }
}

pub fn bad_number(r: &mut Rng) -> String {
    let n = number(r);
    match r.below(8) {
        0 => r.pick(&["0x", "0X", "0o", "0O", "0b", "0B"]).to_string(),
        1 => format!("{}{}", r.pick(&["0x", "0o", "0b", "0B"]), any_char(r)),
        2 => format!("{}e", digits(r, DEC, 1, 3)),
        3 => format!("{}{}{}", digits(r, DEC, 1, 3), r.pick(&["e+", "E-", "e"]), any_char(r)),
        4 => format!("{}{}", n, r.pick(&["a", "_", "$", "\\u0061", "é", "in", "8", "9", "2", "x"])),
        5 => format!("{}.{}", digits(r, DEC, 1, 2), r.pick(&["e", "e+", "x", "_", "toString"])),
        6 => format!("{}{}", n, any_char(r)),
        _ => format!("0{}{}{}", r.pick(&["o", "b"]), digits(r, b"01", 1, 4), digits(r, DEC, 1, 2)),
    }
}

fn code_point(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => r.below(0x110000) as u32,
        1 => 0xD800 + r.below(0x800) as u32,
        2 => *[0, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x2028, 0x2029].get(r.below(12)).unwrap(),
        3 => 0x10000 + r.below(0x100000) as u32,
        _ => r.below(0x250) as u32,
    }
}

pub fn hex_case(r: &mut Rng, t: String) -> String {
    if r.chance(1, 2) { t } else { t.to_uppercase() }
}

pub fn unicode_escape(r: &mut Rng, cp: u32) -> String {
    if cp > 0xFFFF || r.chance(1, 2) {
        let z = if r.chance(1, 8) { r.below(20) } else { 0 };
        let h = hex_case(r, format!("{:x}", cp));
        format!("u{{{}{}}}", "0".repeat(z), h)
    } else {
        format!("u{}", hex_case(r, format!("{:04x}", cp)))
    }
}

/// An escape whose last digits alone would denote a character.
pub fn overlong(r: &mut Rng) -> String {
    let width = [4, 5, 6, 7, 8, 8, 8, 16][r.below(8)];
    let h = r.pick(&["1", "1", "f", "8", "10", "100000000"]).to_string();
    let c = if r.chance(1, 3) { code_point(r) } else { 0x61 };
    let t = format!("{}{:0w$x}", h, c, w = width);
    format!("u{{{}}}", hex_case(r, t))
}

/// `odd`: 0 = only plain content and escapes, 1 = may be wrong
pub fn string(r: &mut Rng, odd: usize) -> String {
    let q = r.pick(&["\"", "'"]).to_string();
    let mut o = q.clone();
    let n = r.below(8);
    for _ in 0..n {
        match r.below(16) {
            0 => o.push_str(&format!("\\{}", r.pick(&["n", "t", "r", "b", "f", "v", "0", "\\", "'", "\""]))),
            1 => o.push_str(&format!("\\{}", newline(r))),
            2 => o.push_str(&format!("\\{}", digits(r, b"01234567", 1, 4))),
            3 => {
                let v = r.below(256);
                o.push_str(&format!("\\x{}", hex_case(r, format!("{:02x}", v))))
            }
            4 | 5 => {
                let c = code_point(r);
                o.push_str(&format!("\\{}", unicode_escape(r, c)))
            }
            6 => {
                let (a, b) = (0xD800 + r.below(0x400) as u32, 0xDC00 + r.below(0x400) as u32);
                let (a, b) = if r.chance(1, 6) { (b, a) } else { (a, b) };
                o.push_str(&format!("\\{}", unicode_escape(r, a)));
                if r.chance(1, 5) {
                    o.push_str(r.pick(&["\\\n", "x", "\\n", "\\x41"]));
                }
                o.push_str(&format!("\\{}", unicode_escape(r, b)));
            }
            7 => {
                // identity escapes
                let c = loop {
                    let c = any_char(r);
                    if !"xu\n\r\u{2028}\u{2029}".contains(c) {
                        break c;
                    }
                };
                o.push('\\');
                o.push(c);
            }
            8 if odd > 0 => o.push_str(r.pick(&[
                "\\x", "\\x4", "\\xg1", "\\x1g", "\\u", "\\u12", "\\u{", "\\u{}", "\\u{12", "\\u{110000}", "\\u{fffffffff}", "\\u{00g}",
                "\\u004g", "\\u{ 41}", "\\u{41", "\\u D800", "\n", "\r\n", "\u{2028}", "\u{2029}", "\\",
            ])),
            11 if odd > 0 => {
                o.push('\\');
                o.push_str(&overlong(r))
            }
            9 => o.push(if q == "'" { '"' } else { '\'' }),
            10 => {
                let c = any_char(r);
                if odd > 0 || !(c == '\\' || crate::chars::is_newline(c) || q.contains(c)) {
                    o.push(c);
                }
            }
            _ => o.push_str(&digits(r, b"abcxyz0189 .e", 1, 4)),
        }
    }
    if odd == 0 || !r.chance(1, 8) {
        o.push_str(&q);
    }
    o
}

pub fn regexp(r: &mut Rng, odd: usize) -> String {
    let mut o = String::from("/");
    let n = r.range(1, 6);
    for k in 0..n {
        match r.below(10) {
            0 | 1 => {
                o.push('[');
                for _ in 0..r.below(4) {
                    o.push_str(r.pick(&["/", "\\]", "[", "^", "a-z", "\\/", "\\\\", "'", "\"", "中", "//", "/*"]));
                }
                if odd == 0 || !r.chance(1, 6) {
                    o.push(']');
                }
            }
            2 => o.push_str(r.pick(&["\\/", "\\\\", "\\[", "\\]", "\\d", "\\u{1F600}", "\\😀", "\\'"])),
            3 => o.push_str(r.pick(&["]", "(", ")", "(?:a|b)", "{2,3}", "=", "😀", "\"", "'", "`"])),
            4 if k > 0 => o.push_str(r.pick(&["*", "+", "?", "*?"])),
            5 if odd > 0 => o.push_str(r.pick(&["\n", "\\\n", "[\n]", "[\\\r]", "\\\u{2028}", "\u{2029}", "\\"])),
            _ => o.push_str(&digits(r, b"abcxyz019 .,;", 1, 4)),
        }
    }
    if odd == 0 || !r.chance(1, 8) {
        o.push('/');
        if r.chance(1, 2) {
            o.push_str(r.pick(&["g", "i", "gim", "mig", "u", "y", "gimuy", "gg", "x9", "$_", "é", "g\u{200c}", "if", "gi"]));
        }
    }
    o
}

const NAMES: [&str; 40] = [
    "a", "b", "x", "foo", "$", "_", "$1", "_a9", "instanceOf", "iffy", "i", "do_", "nul", "trueish", "Null", "été", "中文", "ªb", "a\u{200c}b",
    "a\u{200d}", "𝒜x", "x٣", "℘", "℮y", "゛", "a·", "ⅷ", "voids", "newt", "of", "ret", "th", "thiss", "vari", "whil", "wit", "enumx", "func", "e", "u0061",
];

pub fn id_char(r: &mut Rng, start: bool) -> char {
    loop {
        let c = match r.below(4) {
            0 => (b'a' + r.below(26) as u8) as char,
            1 => any_char(r),
            2 => match char::from_u32(r.below(0x3000) as u32) {
                Some(c) => c,
                None => continue,
            },
            _ => match char::from_u32(r.below(0x30000) as u32) {
                Some(c) => c,
                None => continue,
            },
        };
        if !crate::chars::skewed(c) && (if start { crate::chars::id_start(c) } else { crate::chars::id_continue(c) }) {
            return c;
        }
    }
}

pub fn raw_word(r: &mut Rng) -> String {
    match r.below(8) {
        0 | 1 => RESERVED[r.below(36)].to_string(),
        2 | 3 => CONTEXTUAL[r.below(18)].to_string(),
        4 | 5 => NAMES[r.below(NAMES.len())].to_string(),
        6 => {
            // near misses of words with a meaning
            let w = if r.chance(2, 3) { RESERVED[r.below(36)] } else { CONTEXTUAL[r.below(18)] };
            let mut cs: Vec<char> = w.chars().collect();
            match r.below(4) {
                0 => {
                    cs.pop();
                }
                1 => cs.push(id_char(r, false)),
                2 => {
                    let k = r.below(cs.len());
                    cs[k] = cs[k].to_ascii_uppercase();
                }
                _ => {
                    let k = r.range(1, cs.len());
                    cs.insert(k, id_char(r, false));
                }
            }
            cs.into_iter().collect()
        }
        _ => {
            let mut t = String::new();
            t.push(id_char(r, true));
            for _ in 0..r.below(6) {
                t.push(id_char(r, false));
            }
            t
        }
    }
}

/// Escapes some of the characters of a word.
pub fn escape_word(r: &mut Rng, w: &str) -> String {
    let all = r.chance(1, 5);
    w.chars()
        .map(|c| if all || r.chance(1, 4) { format!("\\{}", unicode_escape(r, c as u32)) } else { c.to_string() })
        .collect()
}

pub fn word(r: &mut Rng) -> String {
    let w = raw_word(r);
    if r.chance(1, 5) { escape_word(r, &w) } else { w }
}

pub fn bad_word(r: &mut Rng) -> String {
    let w = raw_word(r);
    let bad = match r.below(7) {
        5 => format!("\\{}", overlong(r)),
        0 => {
            let c = code_point(r);
            format!("\\{}", unicode_escape(r, c))
        }
        1 => format!("\\{}", any_char(r)),
        2 => r.pick(&["\\", "\\u", "\\u{", "\\u{}", "\\u{61", "\\u006", "\\u{110000}", "\\u{ffffffffff61}", "\\uD800", "\\u{d835}\\u{dc9c}", "\\ud835\\udc9c", "\\u{20}", "\\u002d", "\\x61"]).to_string(),
        3 => {
            let k = RESERVED[r.below(36)];
            return escape_word(r, k);
        }
        4 => {
            let d = 0x30 + r.below(10) as u32;
            format!("\\{}", unicode_escape(r, d))
        }
        _ => format!("\\u{:04x}", r.below(0x10000)),
    };
    match r.below(3) {
        0 => bad,
        1 => w + &bad,
        _ => bad + &w,
    }
}

pub fn space(r: &mut Rng) -> String {
    let n = r.range(1, 3);
    (0..n).map(|_| if r.chance(2, 3) { ' ' } else { SPACES[r.below(SPACES.len())] }).collect()
}

fn comment_text(r: &mut Rng) -> String {
    let n = r.below(4);
    (0..n)
        .map(|_| match r.below(9) {
            0 => "*".to_string(),
            1 => "/".to_string(),
            2 => "-->".to_string(),
            3 => "<!--".to_string(),
            4 => "\"'".to_string(),
            5 => " é\u{a0}😀 ".to_string(),
            6 => "\\u000a\\".to_string(),
            7 => "**".to_string(),
            _ => "x1 ".to_string(),
        })
        .collect()
}

/// White space and comments; with or without line terminators.
pub fn trivia(r: &mut Rng, newlines: bool) -> String {
    let mut o = String::new();
    for _ in 0..r.range(1, 3) {
        match r.below(if newlines { 10 } else { 4 }) {
            0 | 1 => o.push_str(&space(r)),
            2 | 3 => {
                let t = comment_text(r).replace("*/", "* /");
                o.push_str(&format!("/*{}*/", t.trim_end_matches('/').replace("*/", "")));
            }
            4 | 5 => o.push_str(&newline(r)),
            6 => o.push_str(&format!("//{}{}", comment_text(r), newline(r))),
            7 => {
                let (a, b) = (comment_text(r), comment_text(r));
                o.push_str(&format!("/*{}{}{}*/", a.replace("*/", ""), newline(r), b.replace("*/", "")))
            }
            8 => o.push_str(&format!("<!--{}{}", comment_text(r), newline(r))),
            _ => o.push_str(&format!("{}{}-->{}{}", newline(r), if r.chance(1, 2) { space(r) } else { String::new() }, comment_text(r), newline(r))),
        }
    }
    o
}

pub fn punct(r: &mut Rng) -> String {
    if r.chance(1, 12) {
        return r.pick(&["/", "/="]).to_string();
    }
    PUNCT[r.below(PUNCT.len())].to_string()
}

/// A token text; mostly well-formed.
pub fn token(r: &mut Rng) -> String {
    match r.below(16) {
        0..=5 => punct(r),
        6..=8 => word(r),
        9 | 10 => number(r),
        11 | 12 => string(r, 0),
        13 => regexp(r, 0),
        14 => raw_word(r),
        _ => r.pick(&["..", "....", "/*", "*/", "//", "<!--", "-->", "--", ">", "=", "=>", ".5", "1.", "1..", "1.e", "0.", "/", "!=="]).to_string(),
    }
}

/// Tokens with or without trivia in between.
pub fn text(r: &mut Rng, max: usize) -> String {
    let mut o = String::new();
    if r.chance(1, 3) {
        o.push_str(&trivia(r, true));
    }
    let tight = r.below(4);
    let n = r.range(1, max);
    let only = r.below(4);
    for _ in 0..n {
        o.push_str(&if only == 0 && r.chance(3, 4) { punct(r) } else { token(r) });
        match tight {
            0 => {}
            1 => o.push_str(&trivia(r, true)),
            2 => o.push_str(&space(r)),
            _ => match r.below(4) {
                0 => {}
                1 => o.push_str(&trivia(r, true)),
                2 => o.push(' '),
                _ => o.push_str(&newline(r)),
            },
        }
    }
    if r.chance(1, 20) {
        o.push_str(r.pick(&["/*", "/* *", "//", "<!--", "\n-->", "/*\n", "\\", "'", "/", "/["]));
    }
    o
}

pub fn mutate(r: &mut Rng, t: &str, times: usize) -> String {
    let mut cs: Vec<char> = t.chars().collect();
    for _ in 0..times {
        let k = r.below(cs.len() + 1);
        match r.below(6) {
            0 if k < cs.len() => {
                cs.remove(k);
            }
            1 => cs.insert(k, any_char(r)),
            2 if k < cs.len() => cs[k] = any_char(r),
            3 => cs.truncate(k),
            4 if k < cs.len() => {
                let c = cs[k];
                cs.insert(k, c);
            }
            _ => {
                for (i, c) in token(r).chars().enumerate() {
                    cs.insert(k + i, c);
                }
            }
        }
    }
    cs.into_iter().collect()
}

pub fn mode(r: &mut Rng) -> String {
    match r.below(4) {
        0 => "re".to_string(),
        1 | 2 => "op".to_string(),
        _ => format!("mix{}", r.below(64)),
    }
}

/// Whether the i-th token is read in a place where an operator is expected.
pub fn flag(mode: &str, i: usize) -> bool {
    if mode.starts_with("op") {
        true
    } else if mode.starts_with("mix") {
        let n: u64 = mode[3..].parse().unwrap_or(0);
        crate::rng::mix(n.wrapping_mul(1000003).wrapping_add(i as u64)) & 1 == 1
    } else {
        false
    }
}
