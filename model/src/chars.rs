use crate::uni::{ID_CONTINUE, ID_START, SKEW};

fn within(t: &[(u32, u32)], c: u32) -> bool {
    t.binary_search_by(|&(lo, hi)| {
        if hi < c {
            std::cmp::Ordering::Less
        } else if lo > c {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    })
    .is_ok()
}

/// ECMAScript LineTerminator
pub fn is_newline(c: char) -> bool {
    c == '\n' || c == '\r' || c == '\u{2028}' || c == '\u{2029}'
}

/// ECMAScript WhiteSpace: TAB VT FF ZWNBSP and category Zs
pub fn is_space(c: char) -> bool {
    const ZS: [u32; 17] = [
        0x20, 0xA0, 0x1680, 0x2000, 0x2001, 0x2002, 0x2003, 0x2004, 0x2005, 0x2006, 0x2007, 0x2008,
        0x2009, 0x200A, 0x202F, 0x205F, 0x3000,
    ];
    let u = c as u32;
    u == 0x9 || u == 0xB || u == 0xC || u == 0xFEFF || ZS.contains(&u)
}

pub fn id_start(c: char) -> bool {
    if c.is_ascii() {
        return c == '$' || c == '_' || c.is_ascii_alphabetic();
    }
    within(&ID_START, c as u32)
}

pub fn id_continue(c: char) -> bool {
    if c.is_ascii() {
        return c == '$' || c == '_' || c.is_ascii_alphanumeric();
    }
    within(&ID_CONTINUE, c as u32)
}

/// Code points whose identifier status depends on the Unicode version.
pub fn skewed(c: char) -> bool {
    !c.is_ascii() && within(&SKEW, c as u32)
}

/// Line and column (both from 0) of every offset 0..=len, in characters. CR LF is one line
/// terminator; the line ends after its last character.
pub fn line_table(cs: &[char]) -> Vec<(u32, u32)> {
    let mut out = Vec::with_capacity(cs.len() + 1);
    let (mut line, mut col) = (0, 0);
    out.push((0, 0));
    for (i, &c) in cs.iter().enumerate() {
        let ends = match c {
            '\r' => cs.get(i + 1) != Some(&'\n'),
            c => is_newline(c),
        };
        if ends {
            line += 1;
            col = 0;
        } else {
            col += 1;
        }
        out.push((line, col));
    }
    out
}
