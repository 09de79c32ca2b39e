//! Development tool: prints generated programs with the reference parser's verdict as JSON lines,
//! for comparison with another JavaScript parser (tools/xval.js).
use model::genprog::*;
use model::json::{obj, s, J};
use model::node::estree;
use model::parse::{parse, PErr};
use model::rng::Rng;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n: u64 = a[1].parse().unwrap();
    let seed: u64 = a[2].parse().unwrap();
    let muts: usize = a[3].parse().unwrap();
    let mut c = PLAIN;
    if a.len() > 4 {
        c.odd = a[4].parse().unwrap();
    }
    for i in 0..n {
        let mut r = Rng::new(seed * 1_000_003 + i);
        if i % 3 == 1 {
            c.semi = 30;
            c.nl = 12;
        } else {
            c.semi = 75;
            c.nl = 4;
        }
        let mut t = tokens(&mut r, &c);
        let m = if muts > 0 { r.below(muts + 1) } else { 0 };
        mutate(&mut r, &mut t, m);
        let src = layout(&mut r, &c, &t);
        let cs: Vec<char> = src.chars().collect();
        let o = match parse(&cs) {
            Ok(p) => obj(vec![
                ("src", s(src)),
                ("early", J::Arr(p.early.iter().map(|e| s(e.0)).collect())),
                ("strict", J::Arr(p.strict.iter().map(|e| obj(vec![("kind", s(e.kind)), ("definite", J::Bool(e.definite)), ("module", J::Bool(e.module_only))])).collect())),
                ("unjudged", J::Arr(p.unjudged.iter().map(|e| J::Bool(*e)).collect())),
                ("tree", estree(&p.tree)),
            ]),
            Err(PErr::Syntax(k, at)) => obj(vec![("src", s(src)), ("err", s(k)), ("at", J::Int(at as i64))]),
            Err(PErr::Lex(k)) => obj(vec![("src", s(src)), ("err", s(k))]),
            Err(PErr::Skip(k)) => obj(vec![("src", s(src)), ("skip", s(k))]),
        };
        println!("{}", o.text());
    }
}
