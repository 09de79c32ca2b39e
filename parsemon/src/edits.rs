//! Single-token edits of the corpus: every program of the corpus with one token replaced,
//! inserted, removed, doubled or exchanged with the next one.
use crate::gen;
use model::harness::Case;
use model::rng::Rng;
use std::sync::OnceLock;

const MORE: [&str; 22] = [
    "=>", "==", ">>>=", "~", "void", "else", "enum", "static", "eval", "arguments", "await", "target", "async", "0", "<!--", "-->",
    "1.5", "c", "\"t\"", "{}", "()", "of of",
];

fn alphabet() -> Vec<&'static str> {
    gen::SMALL.iter().chain(MORE.iter()).cloned().collect()
}

const LONG: [&str; 36] = [
    ">>>=", "<!--", "...", "===", "!==", ">>>", "<<=", ">>=", "-->", "**=", "=>", "==", "!=", "<=", ">=", "&&", "||", "++", "--", "+=", "-=",
    "*=", "/=", "%=", "&=", "|=", "^=", "<<", ">>", "**", "/*", "*/", "//", "?.", "??", "\\u",
];

/// Cuts a program of the corpus into its tokens, roughly: what is tested is whatever comes out.
pub fn cut(text: &str) -> Vec<String> {
    let cs: Vec<char> = text.chars().collect();
    let mut out: Vec<String> = vec![];
    let mut i = 0;
    while i < cs.len() {
        let c = cs[i];
        let from = i;
        let word = |c: char| c.is_alphanumeric() || c == '_' || c == '$' || c == '\\';
        if c == ' ' {
            i += 1;
            continue;
        }
        if c == '\n' {
            i += 1;
        } else if word(c) {
            while i < cs.len() && (word(cs[i]) || (cs[i] == '.' && c.is_ascii_digit())) {
                i += 1;
            }
        } else if c == '\'' || c == '"' || (c == '/' && regexp_may_start(&out) && cs[i + 1..].contains(&'/') && cs.get(i + 1) != Some(&'/') && cs.get(i + 1) != Some(&'*')) {
            i += 1;
            while i < cs.len() && cs[i] != c && cs[i] != '\n' {
                i += if cs[i] == '\\' { 2 } else { 1 };
            }
            i = (i + 1).min(cs.len());
            while c == '/' && i < cs.len() && word(cs[i]) {
                i += 1;
            }
        } else {
            let rest: String = cs[i..].iter().take(4).collect();
            i += LONG.iter().find(|l| rest.starts_with(**l)).map_or(1, |l| l.chars().count());
        }
        out.push(cs[from..i].iter().collect());
    }
    out
}

fn regexp_may_start(out: &[String]) -> bool {
    match out.last() {
        None => true,
        Some(t) => {
            let c = t.chars().last().unwrap();
            !(c.is_alphanumeric() || c == ')' || c == ']' || c == '}' || c == '\'' || c == '"')
        }
    }
}

fn lines() -> &'static Vec<Vec<String>> {
    static LINES: OnceLock<Vec<Vec<String>>> = OnceLock::new();
    LINES.get_or_init(|| {
        gen::CORPUS
            .trim()
            .split('\n')
            .map(|l| cut(&l.replace("⏎", "\n")))
            .filter(|t| t.len() <= 24)
            .collect()
    })
}

fn count(n: usize, a: usize) -> usize {
    n * a + (n + 1) * a + n + n + n.saturating_sub(1)
}

/// The `k`th edit of `t`.
fn edit(t: &[String], mut k: usize, alphabet: &[&str]) -> Vec<String> {
    let (n, a) = (t.len(), alphabet.len());
    let mut t = t.to_vec();
    if k < n * a {
        t[k / a] = alphabet[k % a].to_string();
        return t;
    }
    k -= n * a;
    if k < (n + 1) * a {
        t.insert(k / a, alphabet[k % a].to_string());
        return t;
    }
    k -= (n + 1) * a;
    if k < n {
        t.remove(k);
        return t;
    }
    k -= n;
    if k < n {
        let x = t[k].clone();
        t.insert(k, x);
        return t;
    }
    k -= n;
    t.swap(k, k + 1);
    t
}

pub fn join(t: &[String]) -> String {
    let mut s = String::new();
    for x in t {
        if !s.is_empty() && !s.ends_with('\n') && x != "\n" {
            s.push(' ');
        }
        s.push_str(x);
    }
    s
}

/// Every `step`th single-token edit, in one of the modes each.
pub fn edit_cases(modes: &str, step: usize) -> Vec<Case> {
    let modes: Vec<&str> = modes.split(' ').collect();
    let alphabet = alphabet();
    let mut out = vec![];
    let mut i = 0;
    let mut m = 0;
    for t in lines() {
        for k in 0..count(t.len(), alphabet.len()) {
            i += 1;
            if i % step == 0 {
                m += 1;
                out.push(Case::new(modes[m % modes.len()], join(&edit(t, k, &alphabet))));
            }
        }
    }
    out
}

/// A program of the corpus, or two of them one after or inside the other, with one to three edits.
pub fn edited(r: &mut Rng) -> String {
    let alphabet = alphabet();
    let l = lines();
    let mut t = l[r.below(l.len())].clone();
    if r.chance(1, 2) {
        let u = &l[r.below(l.len())];
        let at = if r.chance(1, 2) { t.len() } else { r.below(t.len() + 1) };
        if r.chance(1, 2) {
            t.insert(at, "\n".to_string());
        }
        for x in u.iter().rev() {
            t.insert(at, x.clone());
        }
    }
    for _ in 0..r.below(3) + r.below(2) {
        if t.is_empty() {
            break;
        }
        let k = r.below(count(t.len(), alphabet.len()));
        t = edit(&t, k, &alphabet);
    }
    if r.chance(1, 8) {
        let all = crate::gen::uncooked(&join(&t));
        if !all.is_empty() {
            return all[r.below(all.len())].clone();
        }
    }
    join(&t)
}
