//! C30: the derived location traits, on types of every shape.

use crate::shapes;
use joker::track::*;
use model::harness::{guard, Case, Obs, Prop, Verdict};
use model::rng::Rng;

/// A part that knows how often it was erased.
pub struct Probe {
    pub location: Option<Span>,
    pub hits: u32,
}

impl TrackingRef for Probe {
    fn tracking_ref(&self) -> &Option<Span> {
        &self.location
    }
}

impl TrackingMut for Probe {
    fn tracking_mut(&mut self) -> &mut Option<Span> {
        &mut self.location
    }
}

impl Untrack for Probe {
    fn untrack(&mut self) {
        self.hits += 1;
        self.location = None;
    }
}

pub struct Mark<'a>(pub &'a str);

impl<'a> Untrack for Mark<'a> {
    fn untrack(&mut self) {}
}

pub enum Leaf<'a> {
    S(&'a mut Option<Span>),
    P(&'a mut Probe),
}

impl<'a> Leaf<'a> {
    fn location(&mut self) -> &mut Option<Span> {
        match *self {
            Leaf::S(ref mut s) => s,
            Leaf::P(ref mut p) => &mut p.location,
        }
    }
    fn hits(&self) -> Option<u32> {
        match *self {
            Leaf::S(_) => None,
            Leaf::P(ref p) => Some(p.hits),
        }
    }
}

pub trait Shape: Sized {
    /// All parts of the value that have a location, and which of them is the value's own.
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>);
    fn make(r: &mut Rng) -> Self;
}

fn posn(r: &mut Rng) -> Posn {
    Posn { offset: r.below(1 << 20) as u32, line: r.below(1000) as u32, column: r.below(1000) as u32 }
}

pub fn some(r: &mut Rng) -> Option<Span> {
    if r.chance(1, 6) {
        None
    } else {
        Some(Span { start: posn(r), end: posn(r) })
    }
}

pub fn probe(r: &mut Rng) -> Probe {
    Probe { location: some(r), hits: 0 }
}

pub fn many<T, F: Fn(&mut Rng) -> T>(r: &mut Rng, f: F) -> Vec<T> {
    let n = [0, 1, 1, 2, 3, 5, 40][r.below(7)];
    (0..n).map(|_| f(r)).collect()
}

pub fn maybe<T, F: Fn(&mut Rng) -> T>(r: &mut Rng, f: F) -> Option<T> {
    if r.chance(1, 3) {
        None
    } else {
        Some(f(r))
    }
}

#[derive(Default)]
pub struct Seen {
    pub reads: u64,
    pub writes: u64,
    pub erased: u64,
    pub leaves: u64,
}

fn locations<T: Shape>(v: &mut T) -> Vec<Option<Span>> {
    v.leaves().0.iter_mut().map(|l| *l.location()).collect()
}

pub fn judge_untrack<T: Shape + Untrack>(r: &mut Rng, o: &mut Seen) -> Result<(), String> {
    let mut v = T::make(r);
    erase(&mut v, o)
}

fn erase<T: Shape + Untrack>(v: &mut T, o: &mut Seen) -> Result<(), String> {
    for round in 1..3 {
        v.untrack();
        let (mut ls, _) = v.leaves();
        for (i, l) in ls.iter_mut().enumerate() {
            o.leaves += 1;
            if l.location().is_some() {
                return Err(format!("erasing leaves the location of part {}", i));
            }
            if l.hits().map_or(false, |h| h != round) {
                return Err(format!("after erasing {} times, part {} was erased {:?} times", round, i, l.hits()));
            }
        }
        o.erased += 1;
    }
    Ok(())
}

fn by_value<T: TrackingRef>(x: T) -> Option<Span> {
    *x.tracking_ref()
}

pub fn judge<T: Shape + Untrack + TrackingRef + TrackingMut>(r: &mut Rng, o: &mut Seen) -> Result<(), String> {
    let mut v = T::make(r);
    let at = v.leaves().1.ok_or("monitor: no location")?;
    let before = locations(&mut v);
    if *v.tracking_ref() != before[at] || by_value(&v) != before[at] || by_value(before[at]) != before[at] || *v.tracking_mut() != before[at] {
        return Err(format!("the location reported is {:?}, not {:?}", v.tracking_ref(), before[at]));
    }
    o.reads += 1;
    let mut other = some(r);
    let both = match (before[at], other) {
        (Some(a), Some(b)) => Some(Span { start: a.start, end: b.end }),
        _ => None,
    };
    if span(&v, &other) != both || span(&&v, &&other) != both {
        return Err("the span of two values is not from the start of the one to the end of the other".to_string());
    }
    let new = some(r);
    *other.tracking_mut() = new;
    if other != new {
        return Err("replacing a location itself".to_string());
    }
    let mut want = before;
    for _ in 0..2 {
        let new = some(r);
        *v.tracking_mut() = new;
        want[at] = new;
        if *v.tracking_ref() != new || locations(&mut v) != want {
            return Err("replacing the location changes another one, or not its own".to_string());
        }
        o.writes += 1;
    }
    erase(&mut v, o)?;
    if v.tracking_ref().is_some() {
        return Err("an erased value has a location".to_string());
    }
    Ok(())
}

fn c30(c: &Case, o: &mut Obs) -> Verdict {
    let n: Vec<u64> = c.text().split(' ').filter_map(|x| x.parse().ok()).collect();
    if n.len() != 2 {
        return Verdict::Skip("not a case");
    }
    let mut seen = Seen::default();
    let r = guard(|| shapes::run(n[0] as usize, &mut Rng::new(n[1]), &mut seen));
    o.count("locations read", seen.reads);
    o.count("locations replaced", seen.writes);
    o.count("values erased", seen.erased);
    o.count("parts looked at", seen.leaves);
    o.nontrivial = seen.leaves > 0;
    match r {
        Ok(Ok(())) => Verdict::Held,
        Ok(Err(e)) => Verdict::Violation(format!("type S{} of shapes.rs: {}", n[0], e)),
        Err(e) => Verdict::Violation(e),
    }
}

fn c30_gen(r: &mut Rng, _: bool) -> Case {
    Case::new("shape", format!("{} {}", r.below(shapes::SHAPES), r.next()))
}

fn c30_fixed(_: bool) -> Vec<Case> {
    (0..shapes::SHAPES).flat_map(|i| (0..40).map(move |s| Case::new("shape", format!("{} {}", i, s)))).collect()
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "random values of 84 types of different shapes; non-trivial: the value has a part with a location",
        fixed: c30_fixed,
        exhaustive: false,
        gen: c30_gen,
        check: c30,
        quick: 600_000,
        thorough: 5_000_000,
        assumptions: &["the shapes: structs and enums with up to 13 fields and 12 variants, named and positional, generic and not"],
    }]
}
