//! Reference lexer, written from the ECMAScript 2015 lexical grammar (with Annex B legacy octals
//! and HTML-like comments), one token at a time, over a slice of characters.
use crate::chars::*;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct St {
    pub pos: usize,
    /// only white space and comments so far on this line
    pub empty_line: bool,
}

impl St {
    pub fn start() -> St {
        St { pos: 0, empty_line: true }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    /// punctuator
    P(&'static str),
    Reserved(&'static str),
    Id { text: String, escaped: bool },
    Num { value: f64 },
    /// None: a lone surrogate
    Str { value: Vec<Option<char>> },
    Re { pattern: String, flags: Vec<char> },
    Eof,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Tok {
    pub k: K,
    pub start: usize,
    pub end: usize,
    pub newline: bool,
    /// where the trivia before the token starts
    pub from: usize,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Data {
    None,
    Ch(Option<char>),
    Code(u64),
    Word(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum LErr {
    /// class, blamed character
    E(&'static str, Data),
    /// not specified here
    Skip(&'static str),
}

pub const RESERVED: [&str; 37] = [
    "null", "true", "false", "break", "case", "catch", "class", "const", "continue", "debugger",
    "default", "delete", "do", "else", "export", "extends", "finally", "for", "function", "if",
    "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try",
    "typeof", "var", "void", "while", "with", "enum", "",
];

pub const CONTEXTUAL: [&str; 18] = [
    "arguments", "async", "await", "eval", "from", "get", "implements", "interface", "let", "of",
    "package", "private", "protected", "public", "set", "static", "target", "yield",
];

pub fn reserved(s: &str) -> Option<&'static str> {
    if s.is_empty() {
        return None;
    }
    RESERVED.iter().find(|r| **r == s).map(|r| *r)
}

/// Longest first.
pub const PUNCT: [&str; 48] = [
    ">>>=", "...", "===", "!==", "<<=", ">>=", ">>>", "<=", ">=", "==", "!=", "=>", "++", "--", "<<",
    ">>", "&&", "||", "+=", "-=", "*=", "%=", "&=", "|=", "^=", "{", "}", "(", ")", "[", "]", ".",
    ";", ",", "<", ">", "+", "-", "*", "%", "&", "|", "^", "!", "~", "?", ":", "=",
];

fn at(cs: &[char], i: usize) -> Option<char> {
    cs.get(i).cloned()
}

fn looking_at(cs: &[char], i: usize, s: &str) -> bool {
    s.chars().enumerate().all(|(k, c)| at(cs, i + k) == Some(c))
}

fn e<T>(class: &'static str, d: Data) -> Result<T, LErr> {
    Err(LErr::E(class, d))
}

/// Skips trivia. Returns (position, newline seen, empty_line).
pub fn skip_trivia(cs: &[char], st: St) -> Result<(usize, bool, bool), LErr> {
    let mut i = st.pos;
    let mut nl = false;
    let mut empty = st.empty_line;
    let line_end = |mut k: usize| {
        while k < cs.len() && !is_newline(cs[k]) {
            k += 1;
        }
        k
    };
    loop {
        let c = match at(cs, i) {
            Some(c) => c,
            None => return Ok((i, nl, empty)),
        };
        if is_newline(c) {
            nl = true;
            empty = true;
            i += 1;
        } else if is_space(c) {
            i += 1;
        } else if looking_at(cs, i, "//") {
            i = line_end(i + 2);
        } else if looking_at(cs, i, "/*") {
            let mut k = i + 2;
            loop {
                if looking_at(cs, k, "*/") {
                    break;
                }
                if k >= cs.len() {
                    return e("UnterminatedComment", Data::None);
                }
                k += 1;
            }
            if cs[i..k].iter().any(|&c| is_newline(c)) {
                nl = true;
                empty = true;
            }
            i = k + 2;
        } else if looking_at(cs, i, "<!--") {
            i = line_end(i + 4);
        } else if empty && looking_at(cs, i, "-->") {
            i = line_end(i + 3);
        } else {
            return Ok((i, nl, empty));
        }
    }
}

pub fn lex(cs: &[char], st: St, operator: bool) -> Result<(Tok, St), LErr> {
    let (i, newline, _) = skip_trivia(cs, st)?;
    let (k, end) = token(cs, i, operator)?;
    Ok((
        Tok { k, start: i, end, newline, from: st.pos },
        St { pos: end, empty_line: false },
    ))
}

pub fn token(cs: &[char], i: usize, operator: bool) -> Result<(K, usize), LErr> {
    let c = match at(cs, i) {
        None => return Ok((K::Eof, i)),
        Some(c) => c,
    };
    if c == '/' {
        if !operator {
            return regexp(cs, i);
        }
        return Ok(if at(cs, i + 1) == Some('=') { (K::P("/="), i + 2) } else { (K::P("/"), i + 1) });
    }
    if c.is_ascii_digit() || (c == '.' && at(cs, i + 1).map_or(false, |d| d.is_ascii_digit())) {
        return number(cs, i);
    }
    if c == '"' || c == '\'' {
        return string(cs, i);
    }
    if c == '\\' || id_start(c) || skewed(c) {
        return word(cs, i);
    }
    for p in PUNCT.iter() {
        if looking_at(cs, i, p) {
            return Ok((K::P(p), i + p.chars().count()));
        }
    }
    if c == '`' {
        return Err(LErr::Skip("template"));
    }
    e("IllegalChar", Data::Ch(Some(c)))
}

fn regexp(cs: &[char], start: usize) -> Result<(K, usize), LErr> {
    let mut i = start + 1;
    let mut class = false;
    loop {
        match at(cs, i) {
            None => return e("UnterminatedRegExp", Data::Ch(None)),
            Some(c) if is_newline(c) => return e("UnterminatedRegExp", Data::Ch(Some(c))),
            Some('/') if !class => break,
            Some('[') => class = true,
            Some(']') => class = false,
            Some('\\') => match at(cs, i + 1) {
                None => return e("UnterminatedRegExp", Data::Ch(None)),
                Some(c) if is_newline(c) => return e("UnterminatedRegExp", Data::Ch(Some(c))),
                _ => i += 1,
            },
            _ => {}
        }
        i += 1;
    }
    let pattern: String = cs[start + 1..i].iter().collect();
    i += 1;
    let f = i;
    while let Some(c) = at(cs, i) {
        if c == '\\' {
            return Err(LErr::Skip("escape in regexp flags"));
        }
        if skewed(c) {
            return Err(LErr::Skip("unicode version"));
        }
        if !id_continue(c) {
            break;
        }
        i += 1;
    }
    Ok((K::Re { pattern, flags: cs[f..i].to_vec() }, i))
}

fn number(cs: &[char], start: usize) -> Result<(K, usize), LErr> {
    let mut i = start;
    let value;
    let radix = match (cs[i], at(cs, i + 1)) {
        ('0', Some('x')) | ('0', Some('X')) => 16,
        ('0', Some('o')) | ('0', Some('O')) => 8,
        ('0', Some('b')) | ('0', Some('B')) => 2,
        _ => 10,
    };
    if radix != 10 {
        i += 2;
        let ds = i;
        while at(cs, i).map_or(false, |c| c.is_digit(radix)) {
            i += 1;
        }
        if i == ds {
            return match at(cs, i) {
                Some(c) => e("InvalidDigit", Data::Ch(Some(c))),
                None => e(
                    match radix {
                        16 => "MissingHexDigits",
                        8 => "MissingOctalDigits",
                        _ => "MissingBinaryDigits",
                    },
                    Data::None,
                ),
            };
        }
        value = radix_value(&cs[ds..i], radix);
    } else {
        while at(cs, i).map_or(false, |c| c.is_ascii_digit()) {
            i += 1;
        }
        let ip: String = cs[start..i].iter().collect();
        if ip.len() > 1 && ip.starts_with('0') && ip.bytes().all(|b| b < b'8') {
            value = radix_value(&cs[start..i], 8);
        } else {
            let mut text = ip;
            if at(cs, i) == Some('.') {
                i += 1;
                text.push('.');
                while let Some(d) = at(cs, i) {
                    if !d.is_ascii_digit() {
                        break;
                    }
                    text.push(d);
                    i += 1;
                }
            }
            if at(cs, i) == Some('e') || at(cs, i) == Some('E') {
                i += 1;
                text.push('e');
                if at(cs, i) == Some('+') || at(cs, i) == Some('-') {
                    text.push(cs[i]);
                    i += 1;
                }
                let ds = i;
                while let Some(d) = at(cs, i) {
                    if !d.is_ascii_digit() {
                        break;
                    }
                    text.push(d);
                    i += 1;
                }
                if i == ds {
                    return e("MissingExponent", Data::Ch(at(cs, i)));
                }
            }
            value = decimal_value(&text);
        }
    }
    match at(cs, i) {
        Some(c) if c.is_ascii_digit() => e("DigitAfterNumber", Data::Ch(Some(c))),
        Some(c) if skewed(c) => Err(LErr::Skip("unicode version")),
        Some(c) if id_start(c) || c == '\\' => e("IdAfterNumber", Data::Ch(Some(c))),
        _ => Ok((K::Num { value }, i)),
    }
}

pub fn decimal_value(text: &str) -> f64 {
    let mut t = String::from("0");
    t.push_str(text);
    let t = t.replace(".e", ".0e");
    t.parse().expect("decimal literal")
}

/// Correctly rounded value of a digit string in radix 2, 8 or 16.
pub fn radix_value(ds: &[char], radix: u32) -> f64 {
    let per = radix.trailing_zeros();
    let mut bits: Vec<u8> = Vec::new();
    for d in ds {
        let v = d.to_digit(radix).unwrap();
        for k in (0..per).rev() {
            bits.push(((v >> k) & 1) as u8);
        }
    }
    let first = match bits.iter().position(|&b| b == 1) {
        None => return 0.0,
        Some(p) => p,
    };
    let bits = &bits[first..];
    if bits.len() > 1024 {
        return f64::INFINITY;
    }
    let mut mant = 0u64;
    for k in 0..53 {
        mant = mant * 2 + *bits.get(k).unwrap_or(&0) as u64;
    }
    let mut exp = bits.len() as i32 - 1; // value = 1.xxx * 2^exp
    if bits.len() > 53 {
        let half = bits[53] == 1;
        let rest = bits[54..].iter().any(|&b| b == 1);
        if half && (rest || mant & 1 == 1) {
            mant += 1;
            if mant == 1 << 53 {
                mant >>= 1;
                exp += 1;
            }
        }
    }
    if exp > 1023 {
        return f64::INFINITY;
    }
    f64::from_bits((((exp + 1023) as u64) << 52) | (mant & ((1 << 52) - 1)))
}

/// Digits of an escape after `\u`; position after it.
fn unicode_escape(cs: &[char], mut i: usize) -> Result<(u64, usize), LErr> {
    let digit = |i: usize| -> Result<u64, LErr> {
        match at(cs, i) {
            Some(c) if c.is_digit(16) => Ok(c.to_digit(16).unwrap() as u64),
            Some(c) => e("InvalidDigit", Data::Ch(Some(c))),
            None => e("MissingHexDigits", Data::None),
        }
    };
    if at(cs, i) == Some('{') {
        i += 1;
        let mut v = digit(i)?;
        i += 1;
        while at(cs, i) != Some('}') {
            v = (v * 16 + digit(i)?).min(u32::MAX as u64);
            i += 1;
        }
        Ok((v, i + 1))
    } else {
        let mut v = 0;
        for _ in 0..4 {
            v = v * 16 + digit(i)?;
            i += 1;
        }
        Ok((v, i))
    }
}

fn string(cs: &[char], start: usize) -> Result<(K, usize), LErr> {
    let quote = cs[start];
    let mut i = start + 1;
    let mut units: Vec<u16> = Vec::new();
    let put = |units: &mut Vec<u16>, c: char| {
        let mut b = [0; 2];
        units.extend_from_slice(c.encode_utf16(&mut b));
    };
    loop {
        let c = match at(cs, i) {
            None => return e("UnterminatedString", Data::Ch(None)),
            Some(c) => c,
        };
        i += 1;
        if c == quote {
            break;
        }
        if is_newline(c) {
            return e("UnterminatedString", Data::Ch(Some(c)));
        }
        if c != '\\' {
            put(&mut units, c);
            continue;
        }
        let c = match at(cs, i) {
            None => return e("UnterminatedString", Data::Ch(None)),
            Some(c) => c,
        };
        i += 1;
        match c {
            '\r' if at(cs, i) == Some('\n') => i += 1,
            c if is_newline(c) => {}
            'n' => put(&mut units, '\n'),
            't' => put(&mut units, '\t'),
            'r' => put(&mut units, '\r'),
            'b' => put(&mut units, '\u{8}'),
            'f' => put(&mut units, '\u{c}'),
            'v' => put(&mut units, '\u{b}'),
            '0'..='7' => {
                // LegacyOctalEscapeSequence: up to 3 digits, at most \377
                let max = if c <= '3' { 3 } else { 2 };
                let mut v = c.to_digit(8).unwrap();
                let mut n = 1;
                while n < max {
                    match at(cs, i) {
                        Some(d) if d.is_digit(8) => {
                            v = v * 8 + d.to_digit(8).unwrap();
                            i += 1;
                            n += 1;
                        }
                        _ => break,
                    }
                }
                units.push(v as u16);
            }
            'x' => {
                let mut v = 0;
                for _ in 0..2 {
                    match at(cs, i) {
                        Some(d) if d.is_digit(16) => v = v * 16 + d.to_digit(16).unwrap(),
                        Some(d) => return e("InvalidDigit", Data::Ch(Some(d))),
                        None => return e("MissingHexDigits", Data::None),
                    }
                    i += 1;
                }
                units.push(v as u16);
            }
            'u' => {
                let (v, j) = unicode_escape(cs, i)?;
                i = j;
                if v > 0x10FFFF {
                    return e("IllegalUnicode", Data::Code(v));
                }
                match char::from_u32(v as u32) {
                    Some(c) => put(&mut units, c),
                    None => units.push(v as u16),
                }
            }
            c => put(&mut units, c),
        }
    }
    let value = char::decode_utf16(units.iter().cloned()).map(|r| r.ok()).collect();
    Ok((K::Str { value }, i))
}

fn word(cs: &[char], start: usize) -> Result<(K, usize), LErr> {
    let mut i = start;
    let mut text = String::new();
    let mut escaped = false;
    while let Some(c) = at(cs, i) {
        if c == '\\' {
            escaped = true;
            i += 1;
            if at(cs, i) != Some('u') {
                return e("IncompleteWordEscape", Data::Ch(at(cs, i)));
            }
            let (v, j) = unicode_escape(cs, i + 1)?;
            i = j;
            match char::from_u32(v.min(0x110000) as u32) {
                Some(c) if skewed(c) => return Err(LErr::Skip("unicode version")),
                Some(c) if id_start(c) || (!text.is_empty() && id_continue(c)) => text.push(c),
                _ => return e("IllegalUnicode", Data::Code(v)),
            }
        } else {
            if skewed(c) {
                return Err(LErr::Skip("unicode version"));
            }
            if !id_continue(c) {
                break;
            }
            text.push(c);
            i += 1;
        }
    }
    match reserved(&text) {
        Some(r) if escaped => e("ReservedWordWithEscapes", Data::Word(r.to_string())),
        Some(r) => Ok((K::Reserved(r), i)),
        None => Ok((K::Id { text, escaped }, i)),
    }
}
