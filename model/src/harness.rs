//! The monitoring harness: generates cases, runs them in worker processes (so that an abort, a
//! stack overflow or a hang of the code under test is observed and not suffered), collects what
//! the monitors saw, shrinks a violation and writes the evidence file.
use crate::json::{obj, s, J};
use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fs;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

#[derive(Clone, Debug, PartialEq)]
pub struct Case {
    pub mode: String,
    pub parts: Vec<String>,
}

impl Case {
    pub fn new<M: Into<String>, T: Into<String>>(mode: M, text: T) -> Case {
        Case { mode: mode.into(), parts: vec![text.into()] }
    }
    pub fn two<M: Into<String>, T: Into<String>, U: Into<String>>(mode: M, a: T, b: U) -> Case {
        Case { mode: mode.into(), parts: vec![a.into(), b.into()] }
    }
    pub fn text(&self) -> &str {
        &self.parts[0]
    }
    fn encode(&self) -> Vec<u8> {
        let mut o = format!("{}\n{}\n", self.mode, self.parts.len()).into_bytes();
        for p in &self.parts {
            o.extend_from_slice(format!("{}\n", p.len()).as_bytes());
            o.extend_from_slice(p.as_bytes());
            o.push(b'\n');
        }
        o
    }
    fn decode(b: &[u8]) -> Option<Case> {
        fn line<'a>(b: &mut &'a [u8]) -> Option<&'a str> {
            let n = b.iter().position(|&c| c == b'\n')?;
            let l = std::str::from_utf8(&b[..n]).ok()?;
            *b = &b[n + 1..];
            Some(l)
        }
        let mut b = b;
        let mode = line(&mut b)?.to_string();
        let n: usize = line(&mut b)?.parse().ok()?;
        let mut parts = vec![];
        for _ in 0..n {
            let len: usize = line(&mut b)?.parse().ok()?;
            parts.push(std::str::from_utf8(b.get(..len)?).ok()?.to_string());
            b = b.get(len + 1..)?;
        }
        Some(Case { mode, parts })
    }
    fn show(&self) -> String {
        let mut o = format!("[{}] {}", self.mode, self.parts.join("  |||  "));
        if o.chars().count() > 600 {
            o = o.chars().take(600).collect::<String>() + "...";
        }
        o
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Held,
    /// the reference has no opinion on this input
    Skip(&'static str),
    Violation(String),
    /// a listed finding, by signature
    Known(&'static str, String),
}

/// What the monitors of one case observed.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub nontrivial: bool,
}

impl Obs {
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counts.get_mut(k) {
            *v += n;
        } else {
            self.counts.insert(k.to_string(), n);
        }
    }
    pub fn add(&mut self, o: &Obs) {
        for (k, n) in &o.counts {
            self.count(k, *n);
        }
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    /// cases that every run covers
    pub fixed: fn(bool) -> Vec<Case>,
    /// the fixed cases enumerate a finite space completely
    pub exhaustive: bool,
    pub gen: fn(&mut Rng, bool) -> Case,
    pub check: fn(&Case, &mut Obs) -> Verdict,
    pub quick: u64,
    pub thorough: u64,
    pub assumptions: &'static [&'static str],
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = RefCell::new(None);
}

/// Runs code under test; a panic is an observation.
pub fn guard<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC.with(|p| match p.borrow_mut().take() {
            Some((m, at)) => format!("panic: {} at {}", m, at),
            None => "panic".to_string(),
        })),
    }
}

/// Runs on a stack of the size that a thread gets by default; running out of it ends the worker.
pub fn small<T: Send + 'static, F: FnOnce() -> Result<T, String> + Send + 'static>(f: F) -> Result<T, String> {
    match std::thread::Builder::new().stack_size(2 << 20).spawn(move || guard(f)) {
        Ok(t) => match t.join() {
            Ok(Ok(r)) => r,
            Ok(Err(m)) => Err(m),
            Err(_) => Err("panic".to_string()),
        },
        Err(_) => panic!("monitor: no thread"),
    }
}

pub fn hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(m) = info.payload().downcast_ref::<&str>() {
            m.to_string()
        } else if let Some(m) = info.payload().downcast_ref::<String>() {
            m.clone()
        } else {
            "?".to_string()
        };
        let at = info.location().map_or("?".to_string(), |l| format!("{}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = Some((m, at)));
    }));
}

enum Ran {
    V(Verdict),
    Broken(String),
}

fn run(p: &Prop, c: &Case, o: &mut Obs) -> Ran {
    match guard(|| (p.check)(c, o)) {
        Ok(v) => Ran::V(v),
        // An unguarded panic in our own code is one of the monitor itself.
        Err(m) if m.contains(" at src/") || m.contains("/model/") || m.contains("mon/src/") => Ran::Broken(m),
        Err(m) => Ran::V(Verdict::Violation(m)),
    }
}

fn violates(p: &Prop, c: &Case, known: &BTreeSet<String>) -> Option<String> {
    let mut o = Obs::default();
    match run(p, c, &mut o) {
        Ran::V(Verdict::Violation(m)) => Some(m),
        Ran::V(Verdict::Known(sig, m)) if !known.contains(sig) => Some(m),
        _ => None,
    }
}

/// Greedy removal of pieces of the text.
fn shrink<F: FnMut(&Case) -> bool>(mut c: Case, budget: usize, mut bad: F) -> Case {
    let mut left = budget;
    let start = Instant::now();
    for k in 0..c.parts.len() {
        let mut size = (c.parts[k].chars().count() / 2).max(1);
        loop {
            let mut i = 0;
            let mut progress = false;
            loop {
                let cs: Vec<char> = c.parts[k].chars().collect();
                if i >= cs.len() || left == 0 || start.elapsed() > Duration::from_secs(20) {
                    break;
                }
                left -= 1;
                let mut d = c.clone();
                d.parts[k] = cs[..i].iter().chain(cs[(i + size).min(cs.len())..].iter()).collect();
                if bad(&d) {
                    c = d;
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 && !progress {
                break;
            }
            if size > 1 {
                size /= 2;
            }
            if left == 0 {
                break;
            }
        }
    }
    c
}

fn known_findings(root: &Path, id: &str) -> BTreeSet<String> {
    let t = fs::read_to_string(root.join("known-findings.txt")).unwrap_or_default();
    let pre = format!("known: property={} signature=", id);
    t.lines()
        .filter_map(|l| l.strip_prefix(&pre[..]))
        .filter_map(|l| l.split_whitespace().next().map(|x| x.to_string()))
        .collect()
}

const SHARDS: u64 = 8;
const CPU_LIMIT: f64 = 20.0;
static CURRENT: AtomicU64 = AtomicU64::new(0);
const HUNG: i32 = 77;
const BROKEN: i32 = 78;

extern "C" {
    fn clock_gettime(clk: i32, ts: *mut [i64; 2]) -> i32;
    fn setrlimit(resource: i32, lim: *const [u64; 2]) -> i32;
}

fn cpu() -> f64 {
    let mut ts = [0i64; 2];
    unsafe { clock_gettime(2, &mut ts) };
    ts[0] as f64 + ts[1] as f64 / 1e9
}

fn watchdog() {
    std::thread::spawn(|| {
        let mut seen = u64::MAX;
        let mut since = 0.0;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = CURRENT.load(Ordering::SeqCst);
            if now != seen {
                seen = now;
                since = cpu();
            } else if cpu() - since > CPU_LIMIT {
                std::process::exit(HUNG);
            }
        }
    });
}

fn limits() {
    unsafe {
        setrlimit(9, &[6 << 30, 6 << 30]); // RLIMIT_AS
        setrlimit(4, &[0, 0]); // RLIMIT_CORE
    }
}

fn case_at(p: &Prop, fixed: &[Case], i: u64, seed: u64, thorough: bool) -> Case {
    if (i as usize) < fixed.len() {
        return fixed[i as usize].clone();
    }
    let mut r = Rng::new(mix(seed ^ hash_str(p.id)).wrapping_add(mix(i)));
    (p.gen)(&mut r, thorough)
}

fn worker(p: &Prop, root: &Path, shard: u64, seed: u64, thorough: bool, dir: &Path, cap: f64) {
    let known = known_findings(root, p.id);
    let fixed = (p.fixed)(thorough);
    let total = fixed.len() as u64 + if thorough { p.thorough } else { p.quick };
    let start = Instant::now();
    let mut cur = fs::File::create(dir.join(format!("{}.cur", shard))).unwrap();
    let mut obs = Obs::default();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut skipped: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut found: BTreeMap<String, (String, Case)> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut violation: Option<(Case, String)> = None;
    let mut i = shard;
    while i < total {
        if i >= fixed.len() as u64 && start.elapsed().as_secs_f64() > cap {
            break;
        }
        let c = case_at(p, &fixed, i, seed, thorough);
        let b = c.encode();
        cur.seek(SeekFrom::Start(0)).unwrap();
        cur.write_all(&b).unwrap();
        cur.set_len(b.len() as u64).unwrap();
        CURRENT.fetch_add(1, Ordering::SeqCst);
        obs.nontrivial = false;
        evals += 1;
        let ran = match run(p, &c, &mut obs) {
            // a listed finding: the rest of the case was judged
            Ran::V(Verdict::Known(sig, m)) if known.contains(sig) => {
                found.entry(sig.to_string()).or_insert_with(|| (m, c.clone()));
                Ran::V(Verdict::Held)
            }
            ran => ran,
        };
        match ran {
            Ran::V(Verdict::Held) => {
                if obs.nontrivial {
                    nontrivial += 1;
                    if hashes.insert(hash_str(std::str::from_utf8(&b).unwrap())) {
                        let n = hashes.len() as u64;
                        if samples.len() < 3 && (n == 1 || n % 37 == 0) {
                            samples.push(c.show());
                        }
                    }
                }
            }
            Ran::V(Verdict::Skip(why)) => *skipped.entry(why).or_insert(0) += 1,
            Ran::V(Verdict::Known(_, m)) | Ran::V(Verdict::Violation(m)) => {
                let d = shrink(c, 3000, |d| {
                    CURRENT.fetch_add(1, Ordering::SeqCst);
                    violates(p, d, &known).is_some()
                });
                let m = violates(p, &d, &known).unwrap_or(m);
                violation = Some((d, m));
                break;
            }
            Ran::Broken(m) => {
                println!("monitor broke on {}: {}", c.show(), m);
                std::process::exit(BROKEN);
            }
        }
        i += SHARDS;
    }
    let mut o = String::new();
    o.push_str(&format!("n {} {}\n", evals, nontrivial));
    for (k, v) in &obs.counts {
        o.push_str(&format!("c {} {}\n", v, k));
    }
    for (k, v) in &skipped {
        o.push_str(&format!("k {} {}\n", v, k));
    }
    for x in &samples {
        o.push_str(&format!("s {}\n", crate::json::quote(x)));
    }
    for (sig, (m, c)) in &found {
        o.push_str(&format!("f {} {}\n", sig, crate::json::quote(&format!("{}: {}", m, c.show()))));
    }
    let mut h: Vec<u64> = hashes.into_iter().collect();
    h.sort();
    let hb: Vec<u8> = h.iter().flat_map(|x| x.to_le_bytes()).collect();
    fs::write(dir.join(format!("{}.hash", shard)), hb).unwrap();
    if let Some((c, m)) = violation {
        fs::write(dir.join(format!("{}.viol", shard)), c.encode()).unwrap();
        fs::write(dir.join(format!("{}.why", shard)), m).unwrap();
    }
    fs::write(dir.join(format!("{}.res", shard)), o).unwrap();
}

fn one(p: &Prop, root: &Path, file: &Path) -> i32 {
    let known = known_findings(root, p.id);
    let c = match fs::read(file).ok().and_then(|b| Case::decode(&b)) {
        Some(c) => c,
        None => {
            println!("cannot read {}", file.display());
            return 2;
        }
    };
    println!("case {}", c.show());
    CURRENT.fetch_add(1, Ordering::SeqCst);
    let mut o = Obs::default();
    match run(p, &c, &mut o) {
        Ran::V(Verdict::Violation(m)) => {
            println!("VIOLATION property={} replay={}\n{}", p.id, file.display(), m);
            1
        }
        Ran::V(Verdict::Known(sig, m)) if !known.contains(sig) => {
            println!("VIOLATION property={} replay={}\n{}", p.id, file.display(), m);
            1
        }
        Ran::V(v) => {
            println!("{:?} {:?}", v, o.counts);
            0
        }
        Ran::Broken(m) => {
            println!("monitor broke: {}", m);
            BROKEN
        }
    }
}

fn died(st: &std::process::ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    match (st.code(), st.signal()) {
        (Some(0), _) | (Some(1), _) => None,
        (Some(HUNG), _) => Some(format!("no answer within {} s of CPU time", CPU_LIMIT)),
        (None, Some(9)) => None, // somebody else's doing: inconclusive
        (None, Some(n)) => Some(format!("the process died of signal {} (abort, overflow of the stack or memory exhausted)", n)),
        _ => None,
    }
}

/// `dir` is where /verif is.
pub fn main(props: &[Prop], root: &str) {
    hook();
    let root = PathBuf::from(root);
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    let p = match props.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            println!("usage: {} ID [replay FILE]; IDs: {:?}", a[0], props.iter().map(|p| p.id).collect::<Vec<_>>());
            std::process::exit(2);
        }
    };
    // deep stacks are the workload's choice, so the monitors get a big one
    let big = |f: Box<dyn FnOnce() -> i32 + Send>| -> i32 {
        std::thread::Builder::new().stack_size(256 << 20).spawn(f).unwrap().join().unwrap_or(BROKEN)
    };
    // Prop is plain data and function pointers
    let pp: &'static Prop = unsafe { std::mem::transmute(p) };
    match a.get(2).map(|x| &x[..]) {
        Some("replay") => {
            let file = PathBuf::from(&a[3]);
            limits();
            watchdog();
            let r = root.clone();
            std::process::exit(big(Box::new(move || one(pp, &r, &file))));
        }
        Some("gen") => {
            let n: u64 = a.get(3).and_then(|x| x.parse().ok()).unwrap_or(20);
            let seed = a.get(4).and_then(|x| x.parse().ok()).unwrap_or(1);
            big(Box::new(move || {
                for i in 0..n {
                    println!("{}", case_at(pp, &[], i, seed, false).show());
                }
                0
            }));
            std::process::exit(0);
        }
        Some("worker") => {
            let shard: u64 = a[3].parse().unwrap();
            let seed: u64 = a[4].parse().unwrap();
            let thorough = a[5] == "thorough";
            let dir = PathBuf::from(&a[6]);
            let cap: f64 = a[7].parse().unwrap();
            limits();
            watchdog();
            std::process::exit(big(Box::new(move || {
                worker(pp, &root, shard, seed, thorough, &dir, cap);
                0
            })));
        }
        _ => std::process::exit(parent(p, &root)),
    }
}

fn parent(p: &Prop, root: &Path) -> i32 {
    let start = Instant::now();
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.trim().parse().ok()).unwrap_or(1);
    let cap = std::env::var("VERIF_CAP").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 420.0 } else { 60.0 });
    let exe = std::env::current_exe().unwrap();
    let dir = root.join("target").join(format!("run-{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let evdir = root.join("evidence");
    fs::create_dir_all(&evdir).unwrap();
    let known = known_findings(root, p.id);
    let spawn = |k: u64| {
        Command::new(&exe)
            .args(&[p.id, "worker", &k.to_string(), &seed.to_string(), tier, dir.to_str().unwrap(), &cap.to_string()])
            .stdin(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap()
    };
    let mut kids: Vec<_> = (0..SHARDS).map(|k| (k, spawn(k))).collect();
    let mut violation: Option<(Case, String)> = None;
    let mut inconclusive: Vec<String> = vec![];
    for (k, kid) in kids.iter_mut() {
        let st = kid.wait().unwrap();
        let cur = || fs::read(dir.join(format!("{}.cur", k))).ok().and_then(|b| Case::decode(&b));
        if let Some(why) = died(&st) {
            if violation.is_none() {
                if let Some(c) = cur() {
                    violation = Some((c, why));
                    continue;
                }
            }
            inconclusive.push(format!("worker {}: {}", k, why));
        } else if !st.success() {
            inconclusive.push(format!("worker {} ended with {:?}", k, st));
        } else if let Some(c) = fs::read(dir.join(format!("{}.viol", k))).ok().and_then(|b| Case::decode(&b)) {
            let why = fs::read_to_string(dir.join(format!("{}.why", k))).unwrap_or_default();
            // the smallest witness
            let size = |c: &Case| c.parts.iter().map(|x| x.len()).sum::<usize>();
            if violation.as_ref().map_or(true, |v| size(&c) < size(&v.0)) {
                violation = Some((c, why));
            }
        }
    }
    let (mut evals, mut nontrivial) = (0u64, 0u64);
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut skips: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<J> = vec![];
    let mut found: BTreeMap<String, String> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    for k in 0..SHARDS {
        if let Ok(h) = fs::read(dir.join(format!("{}.hash", k))) {
            for c in h.chunks(8) {
                let mut b = [0; 8];
                b.copy_from_slice(c);
                distinct.insert(u64::from_le_bytes(b));
            }
        }
        let t = fs::read_to_string(dir.join(format!("{}.res", k))).unwrap_or_default();
        for l in t.lines() {
            let (tag, rest) = l.split_at(2);
            let (x, y) = rest.split_once(' ').unwrap_or((rest, ""));
            match tag.trim() {
                "n" => {
                    evals += x.parse::<u64>().unwrap();
                    nontrivial += y.parse::<u64>().unwrap();
                }
                "c" => *counts.entry(y.to_string()).or_insert(0) += x.parse::<u64>().unwrap(),
                "k" => *skips.entry(y.to_string()).or_insert(0) += x.parse::<u64>().unwrap(),
                "f" => {
                    found.entry(x.to_string()).or_insert(y.to_string());
                }
                "s" if samples.len() < 8 => samples.push(s(unquote(rest))),
                _ => {}
            }
        }
    }
    let _ = fs::remove_dir_all(&dir);
    if violation.is_none() && !inconclusive.is_empty() {
        for x in &inconclusive {
            println!("inconclusive: {}", x);
        }
        return 2;
    }
    if violation.is_none() && distinct.is_empty() {
        println!("inconclusive: nothing observed");
        return 2;
    }
    if evals == 0 {
        evals = 1; // the case that killed its worker
    }
    if samples.is_empty() {
        if let Some((c, _)) = &violation {
            samples.push(s(c.show()));
        }
    }
    let nums = |m: &BTreeMap<String, u64>| J::Obj(m.iter().map(|(k, v)| (k.clone(), J::Int(*v as i64))).collect());
    let ev = obj(vec![
        ("property", s(p.id)),
        ("tier", s(tier)),
        ("seed", J::Int(seed as i64)),
        ("level", s("exploration")),
        ("coverage", obj(vec![
            ("evaluations", J::Int(evals as i64)),
            ("distinct_nontrivial", J::Int(distinct.len() as i64)),
            ("nontrivial", J::Int(nontrivial as i64)),
            ("rule", s(p.rule)),
            ("samples", J::Arr(samples)),
            ("observed", nums(&counts)),
            ("skipped", nums(&skips)),
            ("exhaustive", J::Bool(p.exhaustive && violation.is_none())),
            ("workers", J::Int(SHARDS as i64)),
        ])),
        ("assumptions", J::Arr(p.assumptions.iter().map(|x| s(*x)).collect())),
        ("violations", J::Int(violation.is_some() as i64)),
        ("known_findings", J::Arr(found.iter().map(|(k, v)| s(format!("{}: {}", k, unquote(v).chars().take(300).collect::<String>()))).collect())),
        ("wall_s", J::Num((start.elapsed().as_secs_f64() * 100.0).round() / 100.0)),
    ]);
    fs::write(evdir.join(format!("{}.json", p.id)), ev.text() + "\n").unwrap();
    println!("{} {} seed={}: {} cases, {} distinct non-trivial, skipped {:?}, observed {:?}", p.id, tier, seed, evals, distinct.len(), skips, counts);
    for (sig, what) in &found {
        if known.contains(sig) {
            println!("KNOWN-FINDING: property={} {} {}", p.id, sig, what.chars().take(300).collect::<String>());
        }
    }
    if let Some((mut c, why)) = violation {
        let replay = evdir.join(format!("{}.replay", p.id));
        if why.starts_with("the process died") {
            // shrink by running it again
            let tmp = evdir.join(format!("{}.try", p.id));
            c = shrink(c, 150, |d| {
                let _ = fs::write(&tmp, d.encode());
                let st = Command::new(&exe).args(&[p.id, "replay", tmp.to_str().unwrap()]).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()).status();
                st.ok().map_or(false, |st| died(&st).map_or(false, |w| w.starts_with("the process died")))
            });
            let _ = fs::remove_file(&tmp);
        }
        fs::write(&replay, c.encode()).unwrap();
        println!("VIOLATION property={} replay={}", p.id, replay.display());
        println!("  case {}\n  {}", c.show(), why);
        return 1;
    }
    0
}

fn unquote(t: &str) -> String {
    // written by json::quote
    let mut o = String::new();
    let cs: Vec<char> = t.chars().collect();
    let mut i = 1;
    while i + 1 < cs.len() {
        if cs[i] == '\\' {
            i += 1;
            match cs[i] {
                'n' => o.push('\n'),
                'r' => o.push('\r'),
                't' => o.push('\t'),
                'u' => {
                    let h: String = cs[i + 1..i + 5].iter().collect();
                    o.push(char::from_u32(u32::from_str_radix(&h, 16).unwrap()).unwrap_or('?'));
                    i += 4;
                }
                c => o.push(c),
            }
        } else {
            o.push(cs[i]);
        }
        i += 1;
    }
    o
}

pub fn none(_: bool) -> Vec<Case> {
    vec![]
}
