// Generated by tools/mkshapes.py.
//! Types of many shapes that derive the location traits.
use crate::derived::*;
use derive::{TrackingMut, TrackingRef, Untrack};
use joker::track::*;
use model::rng::Rng;

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S0 { V0 { location: Option<Span>, a: bool }, V1(Option<Span>), V2(Option<Span>, Option<Box<Probe>>, Vec<Probe>), V3(Option<Span>, bool, Option<Box<Probe>>, Probe, Vec<Vec<Probe>>, Vec<Option<Span>>, Option<Box<Probe>>), V4 { location: Option<Span>, locations: Option<Span>, expr: Vec<Probe>, x9: Probe }, V5(Probe, Box<Probe>), V6 { location: Option<Span> }, V7(Option<Span>), V8(Probe, Option<Probe>, Box<Probe>, bool), V9(Option<Span>, Option<Probe>, Vec<Vec<Probe>>), V10 { location: Option<Span> }, V11(Probe, Vec<Probe>, Probe) }

impl Shape for S0 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S0::V0 { location: ref mut g0, a: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; }
            S0::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S0::V2(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S0::V3(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g3)); for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S0::V4 { location: ref mut g0, locations: ref mut g1, expr: ref mut g2, x9: ref mut g3 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); }
            S0::V5(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); }
            S0::V6 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S0::V7(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S0::V8(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); let _ = g3; }
            S0::V9(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S0::V10 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S0::V11(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => S0::V0 { location: some(r), a: r.chance(1, 2) },
            1 => S0::V1(some(r)),
            2 => S0::V2(some(r), maybe(r, |r| Box::new(probe(r))), many(r, probe)),
            3 => S0::V3(some(r), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), probe(r), many(r, |r| many(r, probe)), many(r, some), maybe(r, |r| Box::new(probe(r)))),
            4 => S0::V4 { location: some(r), locations: some(r), expr: many(r, probe), x9: probe(r) },
            5 => S0::V5(probe(r), Box::new(probe(r))),
            6 => S0::V6 { location: some(r) },
            7 => S0::V7(some(r)),
            8 => S0::V8(probe(r), maybe(r, probe), Box::new(probe(r)), r.chance(1, 2)),
            9 => S0::V9(some(r), maybe(r, probe), many(r, |r| many(r, probe))),
            10 => S0::V10 { location: some(r) },
            _ => S0::V11(probe(r), many(r, probe), probe(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S1 { loc: Box<Probe>, x9: Box<Probe>, location: Option<Span>, semi: Probe }

impl Shape for S1 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S1 { loc: ref mut g0, x9: ref mut g1, location: ref mut g2, semi: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::P(&mut **g1)); at = Some(o.len()); o.push(Leaf::S(g2)); o.push(Leaf::P(g3)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S1 { loc: Box::new(probe(r)), x9: Box::new(probe(r)), location: some(r), semi: probe(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S2(Option<Span>, Option<Span>, Box<Probe>, Probe);

impl Shape for S2 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S2(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); o.push(Leaf::P(g3)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S2(some(r), some(r), Box::new(probe(r)), probe(r)),
        }
    }
}

#[derive(Untrack)]
pub enum S3<T> { V0 { _f2: T }, V1 { _f1: Option<Probe>, tracking_ref: Vec<T> }, V2(Option<Span>, Option<Span>, Vec<Probe>, Vec<Probe>, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Box<T>) }

impl Shape for S3<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S3::V0 { _f2: ref mut g0 } => { o.push(Leaf::P(g0)); }
            S3::V1 { _f1: ref mut g0, tracking_ref: ref mut g1 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } }
            S3::V2(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g6)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => S3::V0 { _f2: probe(r) },
            1 => S3::V1 { _f1: maybe(r, probe), tracking_ref: many(r, probe) },
            _ => S3::V2(some(r), some(r), many(r, probe), many(r, probe), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), Box::new(probe(r))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S4<'a> { untrack: Probe, a: Option<Probe>, inner: Vec<Probe>, b: bool, _f0: Mark<'a>, expr: Option<Probe>, Location: Box<Probe>, x9: Probe, _f2: Option<Span>, loc: Option<Probe>, location_: Option<Span>, location: Option<Span>, semi: bool }

impl Shape for S4<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S4 { untrack: ref mut g0, a: ref mut g1, inner: ref mut g2, b: ref mut g3, _f0: ref mut g4, expr: ref mut g5, Location: ref mut g6, x9: ref mut g7, _f2: ref mut g8, loc: ref mut g9, location_: ref mut g10, location: ref mut g11, semi: ref mut g12 } => { o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } let _ = g3; let _ = g4; if let Some(x) = g5 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g6)); o.push(Leaf::P(g7)); o.push(Leaf::S(g8)); if let Some(x) = g9 { o.push(Leaf::P(x)); } o.push(Leaf::S(g10)); at = Some(o.len()); o.push(Leaf::S(g11)); let _ = g12; }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S4 { untrack: probe(r), a: maybe(r, probe), inner: many(r, probe), b: r.chance(1, 2), _f0: Mark("x"), expr: maybe(r, probe), Location: Box::new(probe(r)), x9: probe(r), _f2: some(r), loc: maybe(r, probe), location_: some(r), location: some(r), semi: r.chance(1, 2) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S5 { V0(Option<Span>, Box<Probe>, Option<Probe>, Option<Probe>, Probe, Option<Span>, Option<Span>), V1(Probe), V2(Option<Span>), V3(Probe), V4(Option<Span>, Option<Box<Probe>>, Option<Probe>, Option<Span>), V5 { semi: Vec<Option<Span>>, Location: bool, location: Option<Span>, a: Vec<Probe> }, V6 { loc: Option<Span>, x9: bool, location: Option<Span>, b: Probe }, V7 { expr: Box<Probe>, span: Option<Probe>, location: Option<Span>, loc: Box<Probe> } }

impl Shape for S5 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S5::V0(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); o.push(Leaf::S(g5)); o.push(Leaf::S(g6)); }
            S5::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S5::V2(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S5::V3(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S5::V4(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); }
            S5::V5 { semi: ref mut g0, Location: ref mut g1, location: ref mut g2, a: ref mut g3 } => { for x in g0 { o.push(Leaf::S(x)); } let _ = g1; at = Some(o.len()); o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::P(x)); } }
            S5::V6 { loc: ref mut g0, x9: ref mut g1, location: ref mut g2, b: ref mut g3 } => { o.push(Leaf::S(g0)); let _ = g1; at = Some(o.len()); o.push(Leaf::S(g2)); o.push(Leaf::P(g3)); }
            S5::V7 { expr: ref mut g0, span: ref mut g1, location: ref mut g2, loc: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); o.push(Leaf::P(&mut **g3)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => S5::V0(some(r), Box::new(probe(r)), maybe(r, probe), maybe(r, probe), probe(r), some(r), some(r)),
            1 => S5::V1(probe(r)),
            2 => S5::V2(some(r)),
            3 => S5::V3(probe(r)),
            4 => S5::V4(some(r), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), some(r)),
            5 => S5::V5 { semi: many(r, some), Location: r.chance(1, 2), location: some(r), a: many(r, probe) },
            6 => S5::V6 { loc: some(r), x9: r.chance(1, 2), location: some(r), b: probe(r) },
            _ => S5::V7 { expr: Box::new(probe(r)), span: maybe(r, probe), location: some(r), loc: Box::new(probe(r)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S6(Probe, Vec<Probe>, Option<Box<Probe>>, Option<Box<Probe>>, Vec<Vec<Probe>>, Option<Probe>);

impl Shape for S6 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S6(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S6(probe(r), many(r, probe), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), maybe(r, probe)),
        }
    }
}

#[derive(Untrack)]
pub enum S7 { V0(Probe, Vec<Option<Span>>, Option<Probe>, bool), V1(Vec<Probe>, Vec<Option<Span>>, Box<Probe>), V2(Vec<Vec<Probe>>, Box<Probe>), V3 { untrack: Option<Probe>, inner: Option<Span>, b: Vec<Vec<Probe>>, tracking_ref: Vec<Probe>, _f1: bool, expr: Option<Box<Probe>>, x9: Vec<Probe> }, V4(Probe), V5(Option<Probe>, Vec<Probe>), V6(Box<Probe>), V7(Probe, Box<Probe>), V8(Vec<Option<Span>>), V9 { _f2: Option<Span>, tracking_ref: Vec<Option<Span>>, _f1: Vec<Option<Span>>, expr: Option<Box<Probe>> }, V10(Vec<Vec<Probe>>, Option<Box<Probe>>, Box<Probe>, Vec<Option<Span>>), V11 }

impl Shape for S7 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S7::V0(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } let _ = g3; }
            S7::V1(ref mut g0, ref mut g1, ref mut g2) => { for x in g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g2)); }
            S7::V2(ref mut g0, ref mut g1) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); }
            S7::V3 { untrack: ref mut g0, inner: ref mut g1, b: ref mut g2, tracking_ref: ref mut g3, _f1: ref mut g4, expr: ref mut g5, x9: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } let _ = g4; if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S7::V4(ref mut g0) => { o.push(Leaf::P(g0)); }
            S7::V5(ref mut g0, ref mut g1) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } }
            S7::V6(ref mut g0) => { o.push(Leaf::P(&mut **g0)); }
            S7::V7(ref mut g0, ref mut g1) => { o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); }
            S7::V8(ref mut g0) => { for x in g0 { o.push(Leaf::S(x)); } }
            S7::V9 { _f2: ref mut g0, tracking_ref: ref mut g1, _f1: ref mut g2, expr: ref mut g3 } => { o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::S(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S7::V10(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g2)); for x in g3 { o.push(Leaf::S(x)); } }
            S7::V11 => { }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => S7::V0(probe(r), many(r, some), maybe(r, probe), r.chance(1, 2)),
            1 => S7::V1(many(r, probe), many(r, some), Box::new(probe(r))),
            2 => S7::V2(many(r, |r| many(r, probe)), Box::new(probe(r))),
            3 => S7::V3 { untrack: maybe(r, probe), inner: some(r), b: many(r, |r| many(r, probe)), tracking_ref: many(r, probe), _f1: r.chance(1, 2), expr: maybe(r, |r| Box::new(probe(r))), x9: many(r, probe) },
            4 => S7::V4(probe(r)),
            5 => S7::V5(maybe(r, probe), many(r, probe)),
            6 => S7::V6(Box::new(probe(r))),
            7 => S7::V7(probe(r), Box::new(probe(r))),
            8 => S7::V8(many(r, some)),
            9 => S7::V9 { _f2: some(r), tracking_ref: many(r, some), _f1: many(r, some), expr: maybe(r, |r| Box::new(probe(r))) },
            10 => S7::V10(many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), many(r, some)),
            _ => S7::V11,
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S8<T: TrackingRef + TrackingMut> { V0(Option<Span>), V1 { x9: Probe, location: Option<Span> }, V2 { location: Option<Span>, expr: Vec<Vec<Probe>> }, V3 { b: Option<Probe>, expr: Vec<Probe>, location: Option<Span>, _f1: Option<Probe>, span: Option<Box<Probe>>, untrack: Vec<Option<Span>>, location_: Probe }, V4(Probe), V5(Option<Span>), V6(Option<Span>), V7 { location: Option<Span>, untrack: T } }

impl Shape for S8<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S8::V0(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S8::V1 { x9: ref mut g0, location: ref mut g1 } => { o.push(Leaf::P(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
            S8::V2 { location: ref mut g0, expr: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S8::V3 { b: ref mut g0, expr: ref mut g1, location: ref mut g2, _f1: ref mut g3, span: ref mut g4, untrack: ref mut g5, location_: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } for x in g5 { o.push(Leaf::S(x)); } o.push(Leaf::P(g6)); }
            S8::V4(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S8::V5(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S8::V6(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S8::V7 { location: ref mut g0, untrack: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => S8::V0(some(r)),
            1 => S8::V1 { x9: probe(r), location: some(r) },
            2 => S8::V2 { location: some(r), expr: many(r, |r| many(r, probe)) },
            3 => S8::V3 { b: maybe(r, probe), expr: many(r, probe), location: some(r), _f1: maybe(r, probe), span: maybe(r, |r| Box::new(probe(r))), untrack: many(r, some), location_: probe(r) },
            4 => S8::V4(probe(r)),
            5 => S8::V5(some(r)),
            6 => S8::V6(some(r)),
            _ => S8::V7 { location: some(r), untrack: probe(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S9<'a> { V0(Option<Span>, Box<Probe>, Box<Probe>), V1(Option<Span>, Mark<'a>, Option<Probe>, Box<Probe>, Vec<Probe>, Option<Probe>, Vec<Probe>), V2 { b: Vec<Vec<Probe>>, span: Mark<'a>, location: Option<Span>, _f1: Option<Box<Probe>> }, V3(Option<Span>), V4(Option<Span>) }

impl Shape for S9<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S9::V0(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(&mut **g2)); }
            S9::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); for x in g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S9::V2 { b: ref mut g0, span: ref mut g1, location: ref mut g2, _f1: ref mut g3 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g1; at = Some(o.len()); o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S9::V3(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S9::V4(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => S9::V0(some(r), Box::new(probe(r)), Box::new(probe(r))),
            1 => S9::V1(some(r), Mark("x"), maybe(r, probe), Box::new(probe(r)), many(r, probe), maybe(r, probe), many(r, probe)),
            2 => S9::V2 { b: many(r, |r| many(r, probe)), span: Mark("x"), location: some(r), _f1: maybe(r, |r| Box::new(probe(r))) },
            3 => S9::V3(some(r)),
            _ => S9::V4(some(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S10(Probe, Vec<Vec<Probe>>, Option<Box<Probe>>);

impl Shape for S10 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S10(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S10(probe(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r)))),
        }
    }
}

#[derive(Untrack)]
pub enum S11 { V0(Option<Span>) }

impl Shape for S11 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S11::V0(ref mut g0) => { o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S11::V0(some(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S12 { V0 { location: Option<Span> }, V1(Probe), V2 { location: Option<Span>, x9: Vec<Vec<Probe>>, inner: Vec<Option<Span>> }, V3(Probe, Option<Probe>, bool, Probe, Vec<Option<Span>>, Vec<Probe>, Box<Probe>), V4(Option<Span>), V5 { inner: Vec<Probe>, location: Option<Span>, tracking_ref: Vec<Probe>, untrack: Option<Probe>, a: Option<Span>, Location: Probe, locations: Option<Span> }, V6(Option<Span>, Box<Probe>), V7 { location: Option<Span> }, V8 { location: Option<Span> }, V9 { semi: Probe, location: Option<Span> }, V10 { location: Option<Span> }, V11(Probe, bool) }

impl Shape for S12 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S12::V0 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S12::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S12::V2 { location: ref mut g0, x9: ref mut g1, inner: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } }
            S12::V3(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } let _ = g2; o.push(Leaf::P(g3)); for x in g4 { o.push(Leaf::S(x)); } for x in g5 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g6)); }
            S12::V4(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S12::V5 { inner: ref mut g0, location: ref mut g1, tracking_ref: ref mut g2, untrack: ref mut g3, a: ref mut g4, Location: ref mut g5, locations: ref mut g6 } => { for x in g0 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } o.push(Leaf::S(g4)); o.push(Leaf::P(g5)); o.push(Leaf::S(g6)); }
            S12::V6(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); }
            S12::V7 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S12::V8 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S12::V9 { semi: ref mut g0, location: ref mut g1 } => { o.push(Leaf::P(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
            S12::V10 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S12::V11(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); let _ = g1; }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => S12::V0 { location: some(r) },
            1 => S12::V1(probe(r)),
            2 => S12::V2 { location: some(r), x9: many(r, |r| many(r, probe)), inner: many(r, some) },
            3 => S12::V3(probe(r), maybe(r, probe), r.chance(1, 2), probe(r), many(r, some), many(r, probe), Box::new(probe(r))),
            4 => S12::V4(some(r)),
            5 => S12::V5 { inner: many(r, probe), location: some(r), tracking_ref: many(r, probe), untrack: maybe(r, probe), a: some(r), Location: probe(r), locations: some(r) },
            6 => S12::V6(some(r), Box::new(probe(r))),
            7 => S12::V7 { location: some(r) },
            8 => S12::V8 { location: some(r) },
            9 => S12::V9 { semi: probe(r), location: some(r) },
            10 => S12::V10 { location: some(r) },
            _ => S12::V11(probe(r), r.chance(1, 2)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S13<T: TrackingRef + TrackingMut>(Option<Span>, Vec<Option<Span>>, Option<Span>, bool, Option<Probe>, Box<T>, Vec<Option<Span>>, Vec<Option<Span>>, Option<Probe>);

impl Shape for S13<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S13(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::S(g2)); let _ = g3; if let Some(x) = g4 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g5)); for x in g6 { o.push(Leaf::S(x)); } for x in g7 { o.push(Leaf::S(x)); } if let Some(x) = g8 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S13(some(r), many(r, some), some(r), r.chance(1, 2), maybe(r, probe), Box::new(probe(r)), many(r, some), many(r, some), maybe(r, probe)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S14<'a> { location: Option<Span>, Location: Mark<'a>, expr: Option<Probe> }

impl Shape for S14<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S14 { location: ref mut g0, Location: ref mut g1, expr: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S14 { location: some(r), Location: Mark("x"), expr: maybe(r, probe) },
        }
    }
}

#[derive(Untrack)]
pub struct S15 { _f1: Option<Span>, tracking_ref: Option<Probe>, loc: Option<Span>, location_: Vec<Vec<Probe>> }

impl Shape for S15 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S15 { _f1: ref mut g0, tracking_ref: ref mut g1, loc: ref mut g2, location_: ref mut g3 } => { o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S15 { _f1: some(r), tracking_ref: maybe(r, probe), loc: some(r), location_: many(r, |r| many(r, probe)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S16 { V0(Option<Span>, bool, Vec<Vec<Probe>>) }

impl Shape for S16 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S16::V0(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S16::V0(some(r), r.chance(1, 2), many(r, |r| many(r, probe))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S17 { V0(Probe) }

impl Shape for S17 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S17::V0(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S17::V0(probe(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S18<T: TrackingRef + TrackingMut>(T, Probe, Box<T>, Probe, Vec<Probe>, Option<Probe>, T, Vec<Option<Span>>, Vec<Option<Span>>);

impl Shape for S18<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S18(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(&mut **g2)); o.push(Leaf::P(g3)); for x in g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } o.push(Leaf::P(g6)); for x in g7 { o.push(Leaf::S(x)); } for x in g8 { o.push(Leaf::S(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S18(probe(r), probe(r), Box::new(probe(r)), probe(r), many(r, probe), maybe(r, probe), probe(r), many(r, some), many(r, some)),
        }
    }
}

#[derive(Untrack)]
pub struct S19<'a> { a: Vec<Option<Span>>, _f2: Probe, locations: Box<Probe>, loc: Box<Probe>, _f1: Mark<'a>, location_: Vec<Vec<Probe>>, untrack: Mark<'a>, b: Vec<Probe>, tracking_ref: Vec<Vec<Probe>>, semi: Mark<'a>, Location: Mark<'a>, x9: Mark<'a>, expr: Vec<Probe> }

impl Shape for S19<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S19 { a: ref mut g0, _f2: ref mut g1, locations: ref mut g2, loc: ref mut g3, _f1: ref mut g4, location_: ref mut g5, untrack: ref mut g6, b: ref mut g7, tracking_ref: ref mut g8, semi: ref mut g9, Location: ref mut g10, x9: ref mut g11, expr: ref mut g12 } => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::P(g1)); o.push(Leaf::P(&mut **g2)); o.push(Leaf::P(&mut **g3)); let _ = g4; for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g6; for x in g7 { o.push(Leaf::P(x)); } for x in g8.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g9; let _ = g10; let _ = g11; for x in g12 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S19 { a: many(r, some), _f2: probe(r), locations: Box::new(probe(r)), loc: Box::new(probe(r)), _f1: Mark("x"), location_: many(r, |r| many(r, probe)), untrack: Mark("x"), b: many(r, probe), tracking_ref: many(r, |r| many(r, probe)), semi: Mark("x"), Location: Mark("x"), x9: Mark("x"), expr: many(r, probe) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S20 { V0(Option<Span>, Option<Probe>, Box<Probe>, Vec<Vec<Probe>>, Box<Probe>, Option<Span>, Vec<Probe>) }

impl Shape for S20 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S20::V0(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g4)); o.push(Leaf::S(g5)); for x in g6 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S20::V0(some(r), maybe(r, probe), Box::new(probe(r)), many(r, |r| many(r, probe)), Box::new(probe(r)), some(r), many(r, probe)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S21 { tracking_ref: Vec<Vec<Probe>>, locations: Option<Span>, _f2: Probe, location_: Vec<Probe>, location: Option<Span>, a: Vec<Option<Span>>, _f0: Vec<Option<Span>>, inner: Vec<Vec<Probe>>, span: Option<Probe>, untrack: Vec<Probe>, x9: Option<Span>, expr: Option<Box<Probe>>, semi: Vec<Probe> }

impl Shape for S21 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S21 { tracking_ref: ref mut g0, locations: ref mut g1, _f2: ref mut g2, location_: ref mut g3, location: ref mut g4, a: ref mut g5, _f0: ref mut g6, inner: ref mut g7, span: ref mut g8, untrack: ref mut g9, x9: ref mut g10, expr: ref mut g11, semi: ref mut g12 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g4)); for x in g5 { o.push(Leaf::S(x)); } for x in g6 { o.push(Leaf::S(x)); } for x in g7.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g8 { o.push(Leaf::P(x)); } for x in g9 { o.push(Leaf::P(x)); } o.push(Leaf::S(g10)); if let Some(x) = g11 { o.push(Leaf::P(&mut **x)); } for x in g12 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S21 { tracking_ref: many(r, |r| many(r, probe)), locations: some(r), _f2: probe(r), location_: many(r, probe), location: some(r), a: many(r, some), _f0: many(r, some), inner: many(r, |r| many(r, probe)), span: maybe(r, probe), untrack: many(r, probe), x9: some(r), expr: maybe(r, |r| Box::new(probe(r))), semi: many(r, probe) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S22 { V0 { location: Option<Span>, b: Option<Box<Probe>>, _f2: Probe }, V1(Option<Span>, Option<Span>, Vec<Option<Span>>, Option<Probe>), V2 { location: Option<Span>, semi: Option<Span>, _f0: Vec<Probe>, _f2: Probe } }

impl Shape for S22 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S22::V0 { location: ref mut g0, b: ref mut g1, _f2: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g2)); }
            S22::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::S(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S22::V2 { location: ref mut g0, semi: ref mut g1, _f0: ref mut g2, _f2: ref mut g3 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => S22::V0 { location: some(r), b: maybe(r, |r| Box::new(probe(r))), _f2: probe(r) },
            1 => S22::V1(some(r), some(r), many(r, some), maybe(r, probe)),
            _ => S22::V2 { location: some(r), semi: some(r), _f0: many(r, probe), _f2: probe(r) },
        }
    }
}

#[derive(Untrack)]
pub struct S23<T> { span: bool, location_: Vec<Probe>, _f2: Option<Probe>, expr: Vec<T>, inner: Box<T>, a: Vec<Vec<Probe>> }

impl Shape for S23<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S23 { span: ref mut g0, location_: ref mut g1, _f2: ref mut g2, expr: ref mut g3, inner: ref mut g4, a: ref mut g5 } => { let _ = g0; for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S23 { span: r.chance(1, 2), location_: many(r, probe), _f2: maybe(r, probe), expr: many(r, probe), inner: Box::new(probe(r)), a: many(r, |r| many(r, probe)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S24<'a>(Probe, Mark<'a>, Option<Span>, Vec<Vec<Probe>>, Vec<Probe>, Vec<Option<Span>>, bool, Option<Box<Probe>>, bool);

impl Shape for S24<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S24(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8) => { at = Some(o.len()); o.push(Leaf::P(g0)); let _ = g1; o.push(Leaf::S(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } let _ = g6; if let Some(x) = g7 { o.push(Leaf::P(&mut **x)); } let _ = g8; }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S24(probe(r), Mark("x"), some(r), many(r, |r| many(r, probe)), many(r, probe), many(r, some), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S25 { location: Option<Span> }

impl Shape for S25 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S25 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S25 { location: some(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S26 { location: Option<Span> }

impl Shape for S26 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S26 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S26 { location: some(r) },
        }
    }
}

#[derive(Untrack)]
pub enum S27 { V0 { b: Option<Span>, loc: Vec<Probe>, Location: Probe, _f2: bool }, V1(Option<Box<Probe>>, Probe, Vec<Option<Span>>, Option<Probe>, Vec<Vec<Probe>>, Vec<Probe>, Option<Span>) }

impl Shape for S27 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S27::V0 { b: ref mut g0, loc: ref mut g1, Location: ref mut g2, _f2: ref mut g3 } => { o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); let _ = g3; }
            S27::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::S(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::P(x)); } o.push(Leaf::S(g6)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(2) {
            0 => S27::V0 { b: some(r), loc: many(r, probe), Location: probe(r), _f2: r.chance(1, 2) },
            _ => S27::V1(maybe(r, |r| Box::new(probe(r))), probe(r), many(r, some), maybe(r, probe), many(r, |r| many(r, probe)), many(r, probe), some(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S28<T: TrackingRef + TrackingMut>(T);

impl Shape for S28<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S28(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S28(probe(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S29<'a>(Option<Span>, Vec<Probe>, Mark<'a>, Vec<Vec<Probe>>, Mark<'a>, Vec<Probe>);

impl Shape for S29<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S29(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } let _ = g2; for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g4; for x in g5 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S29(some(r), many(r, probe), Mark("x"), many(r, |r| many(r, probe)), Mark("x"), many(r, probe)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S30 { location: Option<Span>, semi: Vec<Vec<Probe>> }

impl Shape for S30 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S30 { location: ref mut g0, semi: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S30 { location: some(r), semi: many(r, |r| many(r, probe)) },
        }
    }
}

#[derive(Untrack)]
pub struct S31(Option<Span>, Vec<Probe>, Box<Probe>);

impl Shape for S31 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S31(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S31(some(r), many(r, probe), Box::new(probe(r))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S32(Option<Span>, Probe, bool, Probe);

impl Shape for S32 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S32(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); let _ = g2; o.push(Leaf::P(g3)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S32(some(r), probe(r), r.chance(1, 2), probe(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S33<T: TrackingRef + TrackingMut> { V0(Option<Span>, Vec<Probe>, Option<Probe>, Option<Span>), V1(T, Vec<Probe>, Probe, Vec<Option<Span>>), V2(Option<Span>, Option<Box<Probe>>, Vec<Probe>, Box<Probe>), V3(T), V4(Option<Span>, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Box<T>), V5(Probe, Probe, Option<Box<Probe>>), V6 { location: Option<Span> }, V7 { location: Option<Span> } }

impl Shape for S33<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S33::V0(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); }
            S33::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::S(x)); } }
            S33::V2(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
            S33::V3(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S33::V4(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
            S33::V5(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S33::V6 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S33::V7 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => S33::V0(some(r), many(r, probe), maybe(r, probe), some(r)),
            1 => S33::V1(probe(r), many(r, probe), probe(r), many(r, some)),
            2 => S33::V2(some(r), maybe(r, |r| Box::new(probe(r))), many(r, probe), Box::new(probe(r))),
            3 => S33::V3(probe(r)),
            4 => S33::V4(some(r), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), Box::new(probe(r))),
            5 => S33::V5(probe(r), probe(r), maybe(r, |r| Box::new(probe(r)))),
            6 => S33::V6 { location: some(r) },
            _ => S33::V7 { location: some(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S34<'a> { locations: Box<Probe>, semi: Option<Probe>, location: Option<Span>, _f2: Option<Box<Probe>>, _f0: Vec<Vec<Probe>>, span: Mark<'a>, location_: Option<Probe>, b: Box<Probe>, tracking_ref: Vec<Option<Span>> }

impl Shape for S34<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S34 { locations: ref mut g0, semi: ref mut g1, location: ref mut g2, _f2: ref mut g3, _f0: ref mut g4, span: ref mut g5, location_: ref mut g6, b: ref mut g7, tracking_ref: ref mut g8 } => { o.push(Leaf::P(&mut **g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g5; if let Some(x) = g6 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g7)); for x in g8 { o.push(Leaf::S(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S34 { locations: Box::new(probe(r)), semi: maybe(r, probe), location: some(r), _f2: maybe(r, |r| Box::new(probe(r))), _f0: many(r, |r| many(r, probe)), span: Mark("x"), location_: maybe(r, probe), b: Box::new(probe(r)), tracking_ref: many(r, some) },
        }
    }
}

#[derive(Untrack)]
pub struct S35 { loc: bool, semi: Option<Box<Probe>>, expr: Probe }

impl Shape for S35 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S35 { loc: ref mut g0, semi: ref mut g1, expr: ref mut g2 } => { let _ = g0; if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g2)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S35 { loc: r.chance(1, 2), semi: maybe(r, |r| Box::new(probe(r))), expr: probe(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S36 { location: Option<Span> }

impl Shape for S36 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S36 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S36 { location: some(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S37(Probe, Vec<Probe>, Box<Probe>, bool, Option<Span>, Vec<Vec<Probe>>);

impl Shape for S37 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S37(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); let _ = g3; o.push(Leaf::S(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S37(probe(r), many(r, probe), Box::new(probe(r)), r.chance(1, 2), some(r), many(r, |r| many(r, probe))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S38<T: TrackingRef + TrackingMut>(T, Box<T>, T, Option<Probe>, Probe, Vec<T>, Vec<Vec<Probe>>, Vec<Probe>, Option<Box<Probe>>);

impl Shape for S38<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S38(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(g2)); if let Some(x) = g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); for x in g5 { o.push(Leaf::P(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g7 { o.push(Leaf::P(x)); } if let Some(x) = g8 { o.push(Leaf::P(&mut **x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S38(probe(r), Box::new(probe(r)), probe(r), maybe(r, probe), probe(r), many(r, probe), many(r, |r| many(r, probe)), many(r, probe), maybe(r, |r| Box::new(probe(r)))),
        }
    }
}

#[derive(Untrack)]
pub struct S39<'a> { location_: Probe, a: Mark<'a>, semi: Probe, _f1: Mark<'a> }

impl Shape for S39<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S39 { location_: ref mut g0, a: ref mut g1, semi: ref mut g2, _f1: ref mut g3 } => { o.push(Leaf::P(g0)); let _ = g1; o.push(Leaf::P(g2)); let _ = g3; }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S39 { location_: probe(r), a: Mark("x"), semi: probe(r), _f1: Mark("x") },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S40 { V0 { expr: Option<Probe>, location_: Option<Probe>, inner: bool, location: Option<Span> }, V1(Option<Span>), V2 { location: Option<Span> } }

impl Shape for S40 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S40::V0 { expr: ref mut g0, location_: ref mut g1, inner: ref mut g2, location: ref mut g3 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } let _ = g2; at = Some(o.len()); o.push(Leaf::S(g3)); }
            S40::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S40::V2 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => S40::V0 { expr: maybe(r, probe), location_: maybe(r, probe), inner: r.chance(1, 2), location: some(r) },
            1 => S40::V1(some(r)),
            _ => S40::V2 { location: some(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S41(Probe, bool);

impl Shape for S41 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S41(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); let _ = g1; }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S41(probe(r), r.chance(1, 2)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S42 { V0 { span: bool, location: Option<Span>, _f0: Vec<Option<Span>>, locations: Probe }, V1 { location: Option<Span>, _f0: Option<Probe>, loc: Vec<Option<Span>> }, V2 { tracking_ref: Option<Probe>, location: Option<Span>, semi: Box<Probe>, loc: Option<Span> } }

impl Shape for S42 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S42::V0 { span: ref mut g0, location: ref mut g1, _f0: ref mut g2, locations: ref mut g3 } => { let _ = g0; at = Some(o.len()); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::P(g3)); }
            S42::V1 { location: ref mut g0, _f0: ref mut g1, loc: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } }
            S42::V2 { tracking_ref: ref mut g0, location: ref mut g1, semi: ref mut g2, loc: ref mut g3 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); o.push(Leaf::S(g3)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => S42::V0 { span: r.chance(1, 2), location: some(r), _f0: many(r, some), locations: probe(r) },
            1 => S42::V1 { location: some(r), _f0: maybe(r, probe), loc: many(r, some) },
            _ => S42::V2 { tracking_ref: maybe(r, probe), location: some(r), semi: Box::new(probe(r)), loc: some(r) },
        }
    }
}

#[derive(Untrack)]
pub enum S43<T> { V0 { Location: Option<Box<Probe>>, loc: Vec<T> }, V1 { _f0: Vec<T> }, V2(Vec<T>, Box<Probe>, Box<T>, Vec<T>, Option<Span>, Option<Box<Probe>>, Option<Probe>) }

impl Shape for S43<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S43::V0 { Location: ref mut g0, loc: ref mut g1 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::P(x)); } }
            S43::V1 { _f0: ref mut g0 } => { for x in g0 { o.push(Leaf::P(x)); } }
            S43::V2(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(&mut **g2)); for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::S(g4)); if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => S43::V0 { Location: maybe(r, |r| Box::new(probe(r))), loc: many(r, probe) },
            1 => S43::V1 { _f0: many(r, probe) },
            _ => S43::V2(many(r, probe), Box::new(probe(r)), Box::new(probe(r)), many(r, probe), some(r), maybe(r, |r| Box::new(probe(r))), maybe(r, probe)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S44<'a> { V0(Option<Span>, Option<Span>, Option<Box<Probe>>), V1(Option<Span>, Mark<'a>, Box<Probe>, Option<Span>, Option<Probe>, bool, Option<Span>), V2(Option<Span>, Option<Probe>, Vec<Vec<Probe>>, Mark<'a>, Option<Probe>, Mark<'a>, Vec<Probe>), V3(Option<Span>), V4 { location: Option<Span> }, V5(Option<Span>, Probe), V6 { location: Option<Span>, Location: Option<Probe> }, V7(Option<Span>, Probe, bool), V8 { location: Option<Span> }, V9(Probe, Option<Probe>, Option<Box<Probe>>, Vec<Probe>, Vec<Option<Span>>, Option<Box<Probe>>, bool), V10(Option<Span>, bool, Mark<'a>), V11 { semi: bool, b: Vec<Vec<Probe>>, Location: Option<Span>, location_: Vec<Option<Span>>, location: Option<Span>, locations: Vec<Vec<Probe>>, untrack: Vec<Option<Span>> } }

impl Shape for S44<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S44::V0(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S44::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; o.push(Leaf::P(&mut **g2)); o.push(Leaf::S(g3)); if let Some(x) = g4 { o.push(Leaf::P(x)); } let _ = g5; o.push(Leaf::S(g6)); }
            S44::V2(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g3; if let Some(x) = g4 { o.push(Leaf::P(x)); } let _ = g5; for x in g6 { o.push(Leaf::P(x)); } }
            S44::V3(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S44::V4 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S44::V5(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); }
            S44::V6 { location: ref mut g0, Location: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } }
            S44::V7(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); let _ = g2; }
            S44::V8 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S44::V9(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } for x in g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::S(x)); } if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } let _ = g6; }
            S44::V10(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; let _ = g2; }
            S44::V11 { semi: ref mut g0, b: ref mut g1, Location: ref mut g2, location_: ref mut g3, location: ref mut g4, locations: ref mut g5, untrack: ref mut g6 } => { let _ = g0; for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::S(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => S44::V0(some(r), some(r), maybe(r, |r| Box::new(probe(r)))),
            1 => S44::V1(some(r), Mark("x"), Box::new(probe(r)), some(r), maybe(r, probe), r.chance(1, 2), some(r)),
            2 => S44::V2(some(r), maybe(r, probe), many(r, |r| many(r, probe)), Mark("x"), maybe(r, probe), Mark("x"), many(r, probe)),
            3 => S44::V3(some(r)),
            4 => S44::V4 { location: some(r) },
            5 => S44::V5(some(r), probe(r)),
            6 => S44::V6 { location: some(r), Location: maybe(r, probe) },
            7 => S44::V7(some(r), probe(r), r.chance(1, 2)),
            8 => S44::V8 { location: some(r) },
            9 => S44::V9(probe(r), maybe(r, probe), maybe(r, |r| Box::new(probe(r))), many(r, probe), many(r, some), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2)),
            10 => S44::V10(some(r), r.chance(1, 2), Mark("x")),
            _ => S44::V11 { semi: r.chance(1, 2), b: many(r, |r| many(r, probe)), Location: some(r), location_: many(r, some), location: some(r), locations: many(r, |r| many(r, probe)), untrack: many(r, some) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S45 { location: Option<Span>, tracking_ref: Option<Span>, locations: Probe, inner: Vec<Option<Span>>, x9: Vec<Vec<Probe>>, semi: bool, expr: Box<Probe>, _f1: Vec<Vec<Probe>>, span: Vec<Option<Span>>, _f0: Box<Probe>, untrack: Box<Probe>, _f2: Box<Probe>, b: Probe }

impl Shape for S45 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S45 { location: ref mut g0, tracking_ref: ref mut g1, locations: ref mut g2, inner: ref mut g3, x9: ref mut g4, semi: ref mut g5, expr: ref mut g6, _f1: ref mut g7, span: ref mut g8, _f0: ref mut g9, untrack: ref mut g10, _f2: ref mut g11, b: ref mut g12 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::S(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g5; o.push(Leaf::P(&mut **g6)); for x in g7.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g8 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g9)); o.push(Leaf::P(&mut **g10)); o.push(Leaf::P(&mut **g11)); o.push(Leaf::P(g12)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S45 { location: some(r), tracking_ref: some(r), locations: probe(r), inner: many(r, some), x9: many(r, |r| many(r, probe)), semi: r.chance(1, 2), expr: Box::new(probe(r)), _f1: many(r, |r| many(r, probe)), span: many(r, some), _f0: Box::new(probe(r)), untrack: Box::new(probe(r)), _f2: Box::new(probe(r)), b: probe(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S46 { V0(Option<Span>), V1(Probe, Option<Box<Probe>>, Option<Span>), V2(Option<Span>), V3(Option<Span>, bool, Option<Span>, Probe, Vec<Option<Span>>, Box<Probe>, Probe), V4(Probe, Vec<Probe>), V5 { location: Option<Span>, location_: Vec<Probe>, _f1: bool, loc: Probe }, V6(Option<Span>), V7(Option<Span>), V8(Option<Span>, Probe, Vec<Vec<Probe>>), V9 { span: bool, semi: Vec<Probe>, a: Vec<Option<Span>>, location: Option<Span>, b: Option<Probe>, x9: bool, location_: Option<Probe> }, V10 { x9: Probe, location: Option<Span> }, V11(Option<Span>, Vec<Vec<Probe>>) }

impl Shape for S46 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S46::V0(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S46::V1(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g2)); }
            S46::V2(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S46::V3(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; o.push(Leaf::S(g2)); o.push(Leaf::P(g3)); for x in g4 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g5)); o.push(Leaf::P(g6)); }
            S46::V4(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S46::V5 { location: ref mut g0, location_: ref mut g1, _f1: ref mut g2, loc: ref mut g3 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } let _ = g2; o.push(Leaf::P(g3)); }
            S46::V6(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S46::V7(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S46::V8(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S46::V9 { span: ref mut g0, semi: ref mut g1, a: ref mut g2, location: ref mut g3, b: ref mut g4, x9: ref mut g5, location_: ref mut g6 } => { let _ = g0; for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g3)); if let Some(x) = g4 { o.push(Leaf::P(x)); } let _ = g5; if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S46::V10 { x9: ref mut g0, location: ref mut g1 } => { o.push(Leaf::P(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
            S46::V11(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => S46::V0(some(r)),
            1 => S46::V1(probe(r), maybe(r, |r| Box::new(probe(r))), some(r)),
            2 => S46::V2(some(r)),
            3 => S46::V3(some(r), r.chance(1, 2), some(r), probe(r), many(r, some), Box::new(probe(r)), probe(r)),
            4 => S46::V4(probe(r), many(r, probe)),
            5 => S46::V5 { location: some(r), location_: many(r, probe), _f1: r.chance(1, 2), loc: probe(r) },
            6 => S46::V6(some(r)),
            7 => S46::V7(some(r)),
            8 => S46::V8(some(r), probe(r), many(r, |r| many(r, probe))),
            9 => S46::V9 { span: r.chance(1, 2), semi: many(r, probe), a: many(r, some), location: some(r), b: maybe(r, probe), x9: r.chance(1, 2), location_: maybe(r, probe) },
            10 => S46::V10 { x9: probe(r), location: some(r) },
            _ => S46::V11(some(r), many(r, |r| many(r, probe))),
        }
    }
}

#[derive(Untrack)]
pub struct S47(Option<Box<Probe>>, Vec<Option<Span>>, Option<Box<Probe>>);

impl Shape for S47 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S47(ref mut g0, ref mut g1, ref mut g2) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::S(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S47(maybe(r, |r| Box::new(probe(r))), many(r, some), maybe(r, |r| Box::new(probe(r)))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S48<T: TrackingRef + TrackingMut> { V0 { location: Option<Span>, inner: Box<Probe>, x9: Option<Span>, _f1: Vec<Option<Span>> }, V1(Probe, T, Vec<Probe>, Option<Span>), V2(T, Option<Span>), V3 { location_: Vec<Vec<Probe>>, location: Option<Span>, x9: Option<Box<Probe>> }, V4(Probe, Box<T>), V5(Option<Span>, Option<Probe>, Vec<Option<Span>>), V6(Option<Span>, Option<Probe>, Probe), V7 { location: Option<Span> }, V8(T, T, Vec<T>, bool, Option<Span>, Probe, Vec<Probe>), V9 { location: Option<Span>, location_: Probe, _f0: Option<Probe> }, V10(Probe), V11(Option<Span>, Vec<Vec<Probe>>, Vec<T>, Box<T>) }

impl Shape for S48<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S48::V0 { location: ref mut g0, inner: ref mut g1, x9: ref mut g2, _f1: ref mut g3 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::S(x)); } }
            S48::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); }
            S48::V2(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); }
            S48::V3 { location_: ref mut g0, location: ref mut g1, x9: ref mut g2 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S48::V4(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); }
            S48::V5(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } }
            S48::V6(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); }
            S48::V7 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S48::V8(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::P(x)); } let _ = g3; o.push(Leaf::S(g4)); o.push(Leaf::P(g5)); for x in g6 { o.push(Leaf::P(x)); } }
            S48::V9 { location: ref mut g0, location_: ref mut g1, _f0: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } }
            S48::V10(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S48::V11(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => S48::V0 { location: some(r), inner: Box::new(probe(r)), x9: some(r), _f1: many(r, some) },
            1 => S48::V1(probe(r), probe(r), many(r, probe), some(r)),
            2 => S48::V2(probe(r), some(r)),
            3 => S48::V3 { location_: many(r, |r| many(r, probe)), location: some(r), x9: maybe(r, |r| Box::new(probe(r))) },
            4 => S48::V4(probe(r), Box::new(probe(r))),
            5 => S48::V5(some(r), maybe(r, probe), many(r, some)),
            6 => S48::V6(some(r), maybe(r, probe), probe(r)),
            7 => S48::V7 { location: some(r) },
            8 => S48::V8(probe(r), probe(r), many(r, probe), r.chance(1, 2), some(r), probe(r), many(r, probe)),
            9 => S48::V9 { location: some(r), location_: probe(r), _f0: maybe(r, probe) },
            10 => S48::V10(probe(r)),
            _ => S48::V11(some(r), many(r, |r| many(r, probe)), many(r, probe), Box::new(probe(r))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S49<'a> { V0(Option<Span>, Vec<Vec<Probe>>, Vec<Option<Span>>), V1(Option<Span>), V2 { location: Option<Span> }, V3(Probe, Vec<Probe>, Box<Probe>, Mark<'a>), V4(Option<Span>, Box<Probe>, Vec<Probe>, Option<Box<Probe>>, Probe, Mark<'a>, Vec<Probe>) }

impl Shape for S49<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S49::V0(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } }
            S49::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S49::V2 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S49::V3(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); let _ = g3; }
            S49::V4(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); for x in g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g4)); let _ = g5; for x in g6 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => S49::V0(some(r), many(r, |r| many(r, probe)), many(r, some)),
            1 => S49::V1(some(r)),
            2 => S49::V2 { location: some(r) },
            3 => S49::V3(probe(r), many(r, probe), Box::new(probe(r)), Mark("x")),
            _ => S49::V4(some(r), Box::new(probe(r)), many(r, probe), maybe(r, |r| Box::new(probe(r))), probe(r), Mark("x"), many(r, probe)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S50 { location: Option<Span> }

impl Shape for S50 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S50 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S50 { location: some(r) },
        }
    }
}

#[derive(Untrack)]
pub struct S51 { _f2: Option<Box<Probe>>, x9: Box<Probe>, inner: Option<Span>, tracking_ref: Option<Span>, expr: bool, untrack: Vec<Option<Span>>, _f0: bool, locations: Box<Probe>, semi: Vec<Option<Span>>, _f1: Probe, b: Option<Box<Probe>>, location_: bool, a: Option<Span> }

impl Shape for S51 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S51 { _f2: ref mut g0, x9: ref mut g1, inner: ref mut g2, tracking_ref: ref mut g3, expr: ref mut g4, untrack: ref mut g5, _f0: ref mut g6, locations: ref mut g7, semi: ref mut g8, _f1: ref mut g9, b: ref mut g10, location_: ref mut g11, a: ref mut g12 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::S(g2)); o.push(Leaf::S(g3)); let _ = g4; for x in g5 { o.push(Leaf::S(x)); } let _ = g6; o.push(Leaf::P(&mut **g7)); for x in g8 { o.push(Leaf::S(x)); } o.push(Leaf::P(g9)); if let Some(x) = g10 { o.push(Leaf::P(&mut **x)); } let _ = g11; o.push(Leaf::S(g12)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S51 { _f2: maybe(r, |r| Box::new(probe(r))), x9: Box::new(probe(r)), inner: some(r), tracking_ref: some(r), expr: r.chance(1, 2), untrack: many(r, some), _f0: r.chance(1, 2), locations: Box::new(probe(r)), semi: many(r, some), _f1: probe(r), b: maybe(r, |r| Box::new(probe(r))), location_: r.chance(1, 2), a: some(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S52 { inner: Box<Probe>, location: Option<Span> }

impl Shape for S52 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S52 { inner: ref mut g0, location: ref mut g1 } => { o.push(Leaf::P(&mut **g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S52 { inner: Box::new(probe(r)), location: some(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S53<T: TrackingRef + TrackingMut>(T, T, Box<T>, bool, Option<Span>, Probe, Box<T>, Probe, Option<Box<Probe>>, Option<Box<Probe>>, Option<Probe>, Probe, Option<Span>);

impl Shape for S53<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S53(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8, ref mut g9, ref mut g10, ref mut g11, ref mut g12) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(&mut **g2)); let _ = g3; o.push(Leaf::S(g4)); o.push(Leaf::P(g5)); o.push(Leaf::P(&mut **g6)); o.push(Leaf::P(g7)); if let Some(x) = g8 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g9 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g10 { o.push(Leaf::P(x)); } o.push(Leaf::P(g11)); o.push(Leaf::S(g12)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S53(probe(r), probe(r), Box::new(probe(r)), r.chance(1, 2), some(r), probe(r), Box::new(probe(r)), probe(r), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), probe(r), some(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S54<'a> { V0 { tracking_ref: Option<Span>, location: Option<Span>, inner: Mark<'a> }, V1(Option<Span>, bool, Vec<Probe>, Box<Probe>, Option<Probe>, Vec<Probe>, Option<Span>), V2(Option<Span>, Option<Box<Probe>>, Vec<Vec<Probe>>, bool, Vec<Probe>, Mark<'a>, Option<Box<Probe>>) }

impl Shape for S54<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S54::V0 { tracking_ref: ref mut g0, location: ref mut g1, inner: ref mut g2 } => { o.push(Leaf::S(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); let _ = g2; }
            S54::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); if let Some(x) = g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::P(x)); } o.push(Leaf::S(g6)); }
            S54::V2(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g3; for x in g4 { o.push(Leaf::P(x)); } let _ = g5; if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(3) {
            0 => S54::V0 { tracking_ref: some(r), location: some(r), inner: Mark("x") },
            1 => S54::V1(some(r), r.chance(1, 2), many(r, probe), Box::new(probe(r)), maybe(r, probe), many(r, probe), some(r)),
            _ => S54::V2(some(r), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), r.chance(1, 2), many(r, probe), Mark("x"), maybe(r, |r| Box::new(probe(r)))),
        }
    }
}

#[derive(Untrack)]
pub enum S55 { V0, V1(Option<Probe>), V2(Option<Probe>, Box<Probe>, Option<Box<Probe>>, Box<Probe>, Probe, Vec<Vec<Probe>>, Vec<Probe>), V3(Option<Probe>, bool, bool, bool), V4 { _f1: Box<Probe>, untrack: Option<Box<Probe>>, inner: Vec<Option<Span>>, Location: Box<Probe> }, V5(Vec<Vec<Probe>>, Option<Box<Probe>>, bool), V6(Probe, Option<Span>, Box<Probe>, bool, bool, bool, Vec<Probe>), V7(Option<Box<Probe>>, Vec<Probe>, Vec<Vec<Probe>>, Vec<Probe>, Option<Probe>, Option<Span>, Vec<Vec<Probe>>) }

impl Shape for S55 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S55::V0 => { }
            S55::V1(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S55::V2(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g3)); o.push(Leaf::P(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S55::V3(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } let _ = g1; let _ = g2; let _ = g3; }
            S55::V4 { _f1: ref mut g0, untrack: ref mut g1, inner: ref mut g2, Location: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g3)); }
            S55::V5(ref mut g0, ref mut g1, ref mut g2) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } let _ = g2; }
            S55::V6(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); let _ = g3; let _ = g4; let _ = g5; for x in g6 { o.push(Leaf::P(x)); } }
            S55::V7(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(x)); } o.push(Leaf::S(g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => S55::V0,
            1 => S55::V1(maybe(r, probe)),
            2 => S55::V2(maybe(r, probe), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), probe(r), many(r, |r| many(r, probe)), many(r, probe)),
            3 => S55::V3(maybe(r, probe), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2)),
            4 => S55::V4 { _f1: Box::new(probe(r)), untrack: maybe(r, |r| Box::new(probe(r))), inner: many(r, some), Location: Box::new(probe(r)) },
            5 => S55::V5(many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2)),
            6 => S55::V6(probe(r), some(r), Box::new(probe(r)), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), many(r, probe)),
            _ => S55::V7(maybe(r, |r| Box::new(probe(r))), many(r, probe), many(r, |r| many(r, probe)), many(r, probe), maybe(r, probe), some(r), many(r, |r| many(r, probe))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S56(Option<Span>);

impl Shape for S56 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S56(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S56(some(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S57(Option<Span>, Vec<Vec<Probe>>, Box<Probe>, Option<Probe>, Option<Box<Probe>>, Probe, Vec<Option<Span>>, Box<Probe>, Option<Box<Probe>>);

impl Shape for S57 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S57(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); if let Some(x) = g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g5)); for x in g6 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g7)); if let Some(x) = g8 { o.push(Leaf::P(&mut **x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S57(some(r), many(r, |r| many(r, probe)), Box::new(probe(r)), maybe(r, probe), maybe(r, |r| Box::new(probe(r))), probe(r), many(r, some), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r)))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S58<T: TrackingRef + TrackingMut> { location_: Box<T>, locations: Probe, location: Option<Span> }

impl Shape for S58<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S58 { location_: ref mut g0, locations: ref mut g1, location: ref mut g2 } => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::P(g1)); at = Some(o.len()); o.push(Leaf::S(g2)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S58 { location_: Box::new(probe(r)), locations: probe(r), location: some(r) },
        }
    }
}

#[derive(Untrack)]
pub struct S59<'a> { location_: Option<Probe>, tracking_ref: Box<Probe>, b: Probe, inner: Option<Span>, _f1: Box<Probe>, Location: Option<Span>, loc: bool, _f2: Option<Probe>, untrack: Option<Span>, locations: Mark<'a>, a: Vec<Option<Span>>, x9: Vec<Probe>, expr: Option<Probe> }

impl Shape for S59<'static> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S59 { location_: ref mut g0, tracking_ref: ref mut g1, b: ref mut g2, inner: ref mut g3, _f1: ref mut g4, Location: ref mut g5, loc: ref mut g6, _f2: ref mut g7, untrack: ref mut g8, locations: ref mut g9, a: ref mut g10, x9: ref mut g11, expr: ref mut g12 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(g2)); o.push(Leaf::S(g3)); o.push(Leaf::P(&mut **g4)); o.push(Leaf::S(g5)); let _ = g6; if let Some(x) = g7 { o.push(Leaf::P(x)); } o.push(Leaf::S(g8)); let _ = g9; for x in g10 { o.push(Leaf::S(x)); } for x in g11 { o.push(Leaf::P(x)); } if let Some(x) = g12 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S59 { location_: maybe(r, probe), tracking_ref: Box::new(probe(r)), b: probe(r), inner: some(r), _f1: Box::new(probe(r)), Location: some(r), loc: r.chance(1, 2), _f2: maybe(r, probe), untrack: some(r), locations: Mark("x"), a: many(r, some), x9: many(r, probe), expr: maybe(r, probe) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S60<T> where T: TrackingRef + TrackingMut, Vec<T>: Sized  { location: Option<Span>, untrack: Box<T> }

impl Shape for S60<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S60 { location: ref mut g0, untrack: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S60 { location: some(r), untrack: Box::new(probe(r)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S61<T> where T: TrackingRef + TrackingMut, T: TrackingMut,  { V0 { Location: Option<Probe>, location: Option<Span>, _f0: Vec<Probe> }, V1(Option<Span>, Vec<T>, Box<T>), V2(Option<Span>, Option<Box<Probe>>, bool, bool, Vec<T>, Option<Probe>, T), V3(Option<Span>, Vec<Probe>), V4(Option<Span>, Vec<Vec<Probe>>, bool, Box<Probe>, Option<Span>, bool, Probe) }

impl Shape for S61<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S61::V0 { Location: ref mut g0, location: ref mut g1, _f0: ref mut g2 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::P(x)); } }
            S61::V1(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); }
            S61::V2(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } let _ = g2; let _ = g3; for x in g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } o.push(Leaf::P(g6)); }
            S61::V3(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S61::V4(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g2; o.push(Leaf::P(&mut **g3)); o.push(Leaf::S(g4)); let _ = g5; o.push(Leaf::P(g6)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => S61::V0 { Location: maybe(r, probe), location: some(r), _f0: many(r, probe) },
            1 => S61::V1(some(r), many(r, probe), Box::new(probe(r))),
            2 => S61::V2(some(r), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), r.chance(1, 2), many(r, probe), maybe(r, probe), probe(r)),
            3 => S61::V3(some(r), many(r, probe)),
            _ => S61::V4(some(r), many(r, |r| many(r, probe)), r.chance(1, 2), Box::new(probe(r)), some(r), r.chance(1, 2), probe(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S62<T> where T: TrackingRef + TrackingMut, Option<T>: Sized  { expr: Vec<Option<Span>>, untrack: Option<Span>, inner: Box<T>, location: Option<Span>, Location: Vec<Option<Span>>, location_: Option<Probe> }

impl Shape for S62<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S62 { expr: ref mut g0, untrack: ref mut g1, inner: ref mut g2, location: ref mut g3, Location: ref mut g4, location_: ref mut g5 } => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); at = Some(o.len()); o.push(Leaf::S(g3)); for x in g4 { o.push(Leaf::S(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S62 { expr: many(r, some), untrack: some(r), inner: Box::new(probe(r)), location: some(r), Location: many(r, some), location_: maybe(r, probe) },
        }
    }
}

#[derive(Untrack)]
pub struct S63<T>(Option<Probe>, Vec<Option<Span>>, T, Vec<Probe>, T, Box<T>) where T: TrackingRef + Untrack;

impl Shape for S63<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S63(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); o.push(Leaf::P(&mut **g5)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S63(maybe(r, probe), many(r, some), probe(r), many(r, probe), probe(r), Box::new(probe(r))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S64<T> where T: TrackingRef + TrackingMut, Vec<T>: Sized  { location_: Probe, x9: Probe, expr: T, location: Option<Span>, a: bool, b: Option<Box<Probe>>, semi: bool, locations: Option<Probe>, _f0: Vec<Probe>, _f1: Probe, Location: Vec<Option<Span>>, tracking_ref: T, loc: Box<Probe> }

impl Shape for S64<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S64 { location_: ref mut g0, x9: ref mut g1, expr: ref mut g2, location: ref mut g3, a: ref mut g4, b: ref mut g5, semi: ref mut g6, locations: ref mut g7, _f0: ref mut g8, _f1: ref mut g9, Location: ref mut g10, tracking_ref: ref mut g11, loc: ref mut g12 } => { o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(g2)); at = Some(o.len()); o.push(Leaf::S(g3)); let _ = g4; if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } let _ = g6; if let Some(x) = g7 { o.push(Leaf::P(x)); } for x in g8 { o.push(Leaf::P(x)); } o.push(Leaf::P(g9)); for x in g10 { o.push(Leaf::S(x)); } o.push(Leaf::P(g11)); o.push(Leaf::P(&mut **g12)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S64 { location_: probe(r), x9: probe(r), expr: probe(r), location: some(r), a: r.chance(1, 2), b: maybe(r, |r| Box::new(probe(r))), semi: r.chance(1, 2), locations: maybe(r, probe), _f0: many(r, probe), _f1: probe(r), Location: many(r, some), tracking_ref: probe(r), loc: Box::new(probe(r)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S65<T> where T: TrackingRef + TrackingMut, T: TrackingMut,  { a: Box<Probe>, untrack: Vec<Option<Span>>, location: Option<Span>, expr: Vec<Vec<Probe>>, Location: Option<Probe>, inner: Vec<Option<Span>>, _f2: Probe, tracking_ref: Probe, span: bool, semi: Option<Span>, location_: T, _f0: Probe, loc: Box<Probe> }

impl Shape for S65<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S65 { a: ref mut g0, untrack: ref mut g1, location: ref mut g2, expr: ref mut g3, Location: ref mut g4, inner: ref mut g5, _f2: ref mut g6, tracking_ref: ref mut g7, span: ref mut g8, semi: ref mut g9, location_: ref mut g10, _f0: ref mut g11, loc: ref mut g12 } => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } o.push(Leaf::P(g6)); o.push(Leaf::P(g7)); let _ = g8; o.push(Leaf::S(g9)); o.push(Leaf::P(g10)); o.push(Leaf::P(g11)); o.push(Leaf::P(&mut **g12)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S65 { a: Box::new(probe(r)), untrack: many(r, some), location: some(r), expr: many(r, |r| many(r, probe)), Location: maybe(r, probe), inner: many(r, some), _f2: probe(r), tracking_ref: probe(r), span: r.chance(1, 2), semi: some(r), location_: probe(r), _f0: probe(r), loc: Box::new(probe(r)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S66<T> where T: TrackingRef + TrackingMut, Option<T>: Sized  { V0 { location: Option<Span>, span: Vec<Vec<Probe>>, b: Vec<T> }, V1(Option<Span>), V2 { location: Option<Span> }, V3(T), V4 { location: Option<Span> }, V5(T), V6(Option<Span>), V7 { location: Option<Span> }, V8(Option<Span>, Option<Span>), V9 { location: Option<Span>, tracking_ref: Option<Probe> }, V10(T, Option<Probe>, Vec<Probe>, Box<Probe>), V11(T) }

impl Shape for S66<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S66::V0 { location: ref mut g0, span: ref mut g1, b: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S66::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S66::V2 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S66::V3(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S66::V4 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S66::V5(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S66::V6(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S66::V7 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S66::V8(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); }
            S66::V9 { location: ref mut g0, tracking_ref: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } }
            S66::V10(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
            S66::V11(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => S66::V0 { location: some(r), span: many(r, |r| many(r, probe)), b: many(r, probe) },
            1 => S66::V1(some(r)),
            2 => S66::V2 { location: some(r) },
            3 => S66::V3(probe(r)),
            4 => S66::V4 { location: some(r) },
            5 => S66::V5(probe(r)),
            6 => S66::V6(some(r)),
            7 => S66::V7 { location: some(r) },
            8 => S66::V8(some(r), some(r)),
            9 => S66::V9 { location: some(r), tracking_ref: maybe(r, probe) },
            10 => S66::V10(probe(r), maybe(r, probe), many(r, probe), Box::new(probe(r))),
            _ => S66::V11(probe(r)),
        }
    }
}

#[derive(Untrack)]
pub struct S67<T> where T: Untrack  { _f1: Vec<Vec<Probe>>, location_: Option<Box<Probe>>, inner: Box<Probe>, span: Vec<Probe>, Location: Vec<Vec<Probe>>, semi: Option<Probe>, untrack: bool, locations: Box<T>, x9: T, _f0: Vec<Vec<Probe>>, expr: Probe, a: Option<Span>, b: Box<T> }

impl Shape for S67<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S67 { _f1: ref mut g0, location_: ref mut g1, inner: ref mut g2, span: ref mut g3, Location: ref mut g4, semi: ref mut g5, untrack: ref mut g6, locations: ref mut g7, x9: ref mut g8, _f0: ref mut g9, expr: ref mut g10, a: ref mut g11, b: ref mut g12 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g2)); for x in g3 { o.push(Leaf::P(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } let _ = g6; o.push(Leaf::P(&mut **g7)); o.push(Leaf::P(g8)); for x in g9.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g10)); o.push(Leaf::S(g11)); o.push(Leaf::P(&mut **g12)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S67 { _f1: many(r, |r| many(r, probe)), location_: maybe(r, |r| Box::new(probe(r))), inner: Box::new(probe(r)), span: many(r, probe), Location: many(r, |r| many(r, probe)), semi: maybe(r, probe), untrack: r.chance(1, 2), locations: Box::new(probe(r)), x9: probe(r), _f0: many(r, |r| many(r, probe)), expr: probe(r), a: some(r), b: Box::new(probe(r)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S68<T> where T: TrackingRef + TrackingMut, Vec<T>: Sized  { V0(Probe, Box<Probe>, Option<Box<Probe>>, Box<T>), V1 { tracking_ref: Probe, x9: Vec<Vec<Probe>>, Location: T, _f1: Option<Box<Probe>>, _f2: bool, semi: Option<Probe>, location: Option<Span> } }

impl Shape for S68<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S68::V0(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g3)); }
            S68::V1 { tracking_ref: ref mut g0, x9: ref mut g1, Location: ref mut g2, _f1: ref mut g3, _f2: ref mut g4, semi: ref mut g5, location: ref mut g6 } => { o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } let _ = g4; if let Some(x) = g5 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g6)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(2) {
            0 => S68::V0(probe(r), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r))),
            _ => S68::V1 { tracking_ref: probe(r), x9: many(r, |r| many(r, probe)), Location: probe(r), _f1: maybe(r, |r| Box::new(probe(r))), _f2: r.chance(1, 2), semi: maybe(r, probe), location: some(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S69<T> where T: TrackingRef + TrackingMut, T: TrackingMut,  { location_: Vec<Probe>, span: Probe, expr: bool, b: Option<Box<Probe>>, location: Option<Span>, Location: Box<T>, _f0: Option<Span>, untrack: Box<Probe>, a: Box<Probe> }

impl Shape for S69<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S69 { location_: ref mut g0, span: ref mut g1, expr: ref mut g2, b: ref mut g3, location: ref mut g4, Location: ref mut g5, _f0: ref mut g6, untrack: ref mut g7, a: ref mut g8 } => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); let _ = g2; if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } at = Some(o.len()); o.push(Leaf::S(g4)); o.push(Leaf::P(&mut **g5)); o.push(Leaf::S(g6)); o.push(Leaf::P(&mut **g7)); o.push(Leaf::P(&mut **g8)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S69 { location_: many(r, probe), span: probe(r), expr: r.chance(1, 2), b: maybe(r, |r| Box::new(probe(r))), location: some(r), Location: Box::new(probe(r)), _f0: some(r), untrack: Box::new(probe(r)), a: Box::new(probe(r)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S70<T>(Option<Span>, Probe, Box<T>, Option<Box<Probe>>) where T: TrackingRef + TrackingMut, Option<T>: Sized;

impl Shape for S70<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S70(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(&mut **g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S70(some(r), probe(r), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r)))),
        }
    }
}

#[derive(Untrack)]
pub struct S71<T>(Probe, Vec<Vec<Probe>>, Option<Box<Probe>>, Option<Span>, Vec<Probe>, Box<T>, Option<Box<Probe>>, Box<Probe>, Option<Box<Probe>>) where Vec<T>: Untrack, T: Sized;

impl Shape for S71<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S71(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8) => { o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g3)); for x in g4 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g5)); if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g7)); if let Some(x) = g8 { o.push(Leaf::P(&mut **x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S71(probe(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), some(r), many(r, probe), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r)))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S72<T> where T: TrackingRef + TrackingMut, Vec<T>: Sized  { V0(Option<Span>, Option<Span>, Option<Probe>, Option<Probe>), V1(Option<Span>, Vec<T>, Option<Probe>, Probe, Vec<Vec<Probe>>, Option<Box<Probe>>, Option<Probe>), V2(T, Box<Probe>, Box<T>), V3(Option<Span>), V4 { location: Option<Span> }, V5(T), V6 { semi: Probe, location: Option<Span> }, V7(Probe, Vec<T>) }

impl Shape for S72<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S72::V0(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S72::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S72::V2(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(&mut **g2)); }
            S72::V3(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S72::V4 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S72::V5(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S72::V6 { semi: ref mut g0, location: ref mut g1 } => { o.push(Leaf::P(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
            S72::V7(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(8) {
            0 => S72::V0(some(r), some(r), maybe(r, probe), maybe(r, probe)),
            1 => S72::V1(some(r), many(r, probe), maybe(r, probe), probe(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), maybe(r, probe)),
            2 => S72::V2(probe(r), Box::new(probe(r)), Box::new(probe(r))),
            3 => S72::V3(some(r)),
            4 => S72::V4 { location: some(r) },
            5 => S72::V5(probe(r)),
            6 => S72::V6 { semi: probe(r), location: some(r) },
            _ => S72::V7(probe(r), many(r, probe)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S73<T> where T: TrackingRef + TrackingMut, T: TrackingMut,  { loc: Box<Probe>, _f2: Box<T>, _f0: T, location: Option<Span>, Location: Probe, untrack: Box<T> }

impl Shape for S73<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S73 { loc: ref mut g0, _f2: ref mut g1, _f0: ref mut g2, location: ref mut g3, Location: ref mut g4, untrack: ref mut g5 } => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(g2)); at = Some(o.len()); o.push(Leaf::S(g3)); o.push(Leaf::P(g4)); o.push(Leaf::P(&mut **g5)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S73 { loc: Box::new(probe(r)), _f2: Box::new(probe(r)), _f0: probe(r), location: some(r), Location: probe(r), untrack: Box::new(probe(r)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S74<T> where T: TrackingRef + TrackingMut, Option<T>: Sized  { location_: Probe, _f0: T, expr: Vec<Vec<Probe>>, location: Option<Span>, _f1: bool, inner: Box<Probe>, loc: Option<Box<Probe>>, b: Vec<Vec<Probe>>, tracking_ref: Option<Span> }

impl Shape for S74<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S74 { location_: ref mut g0, _f0: ref mut g1, expr: ref mut g2, location: ref mut g3, _f1: ref mut g4, inner: ref mut g5, loc: ref mut g6, b: ref mut g7, tracking_ref: ref mut g8 } => { o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g3)); let _ = g4; o.push(Leaf::P(&mut **g5)); if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } for x in g7.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g8)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S74 { location_: probe(r), _f0: probe(r), expr: many(r, |r| many(r, probe)), location: some(r), _f1: r.chance(1, 2), inner: Box::new(probe(r)), loc: maybe(r, |r| Box::new(probe(r))), b: many(r, |r| many(r, probe)), tracking_ref: some(r) },
        }
    }
}

#[derive(Untrack)]
pub struct S75<T> where T: TrackingMut  { tracking_ref: Option<Box<Probe>>, _f0: Vec<T>, b: Vec<Option<Span>> }

impl Shape for S75<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S75 { tracking_ref: ref mut g0, _f0: ref mut g1, b: ref mut g2 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S75 { tracking_ref: maybe(r, |r| Box::new(probe(r))), _f0: many(r, probe), b: many(r, some) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S76<T> where T: TrackingRef + TrackingMut, Vec<T>: Sized  { V0(Option<Span>, Vec<T>, T, bool, Box<T>, Vec<Option<Span>>, Probe), V1(Option<Span>, T, Option<Probe>, Box<Probe>, Vec<Option<Span>>, Option<Span>, Option<Probe>), V2(Probe, Vec<Vec<Probe>>), V3 { _f0: Vec<Option<Span>>, location_: Vec<Probe>, _f1: Box<Probe>, x9: Option<Probe>, Location: Probe, locations: bool, location: Option<Span> }, V4(Probe, Option<Span>, bool, Option<Span>, Vec<Option<Span>>, Option<Span>, Option<Span>) }

impl Shape for S76<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S76::V0(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); let _ = g3; o.push(Leaf::P(&mut **g4)); for x in g5 { o.push(Leaf::S(x)); } o.push(Leaf::P(g6)); }
            S76::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); for x in g4 { o.push(Leaf::S(x)); } o.push(Leaf::S(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S76::V2(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S76::V3 { _f0: ref mut g0, location_: ref mut g1, _f1: ref mut g2, x9: ref mut g3, Location: ref mut g4, locations: ref mut g5, location: ref mut g6 } => { for x in g0 { o.push(Leaf::S(x)); } for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); if let Some(x) = g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); let _ = g5; at = Some(o.len()); o.push(Leaf::S(g6)); }
            S76::V4(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); let _ = g2; o.push(Leaf::S(g3)); for x in g4 { o.push(Leaf::S(x)); } o.push(Leaf::S(g5)); o.push(Leaf::S(g6)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(5) {
            0 => S76::V0(some(r), many(r, probe), probe(r), r.chance(1, 2), Box::new(probe(r)), many(r, some), probe(r)),
            1 => S76::V1(some(r), probe(r), maybe(r, probe), Box::new(probe(r)), many(r, some), some(r), maybe(r, probe)),
            2 => S76::V2(probe(r), many(r, |r| many(r, probe))),
            3 => S76::V3 { _f0: many(r, some), location_: many(r, probe), _f1: Box::new(probe(r)), x9: maybe(r, probe), Location: probe(r), locations: r.chance(1, 2), location: some(r) },
            _ => S76::V4(probe(r), some(r), r.chance(1, 2), some(r), many(r, some), some(r), some(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S77<T>(T, Vec<T>, Option<Span>, Vec<T>, Box<T>, Option<Span>, Vec<Vec<Probe>>, T, bool, Probe, Option<Box<Probe>>, Vec<T>, Vec<Probe>) where T: TrackingRef + TrackingMut, T: TrackingMut;

impl Shape for S77<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S77(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8, ref mut g9, ref mut g10, ref mut g11, ref mut g12) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g4)); o.push(Leaf::S(g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g7)); let _ = g8; o.push(Leaf::P(g9)); if let Some(x) = g10 { o.push(Leaf::P(&mut **x)); } for x in g11 { o.push(Leaf::P(x)); } for x in g12 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S77(probe(r), many(r, probe), some(r), many(r, probe), Box::new(probe(r)), some(r), many(r, |r| many(r, probe)), probe(r), r.chance(1, 2), probe(r), maybe(r, |r| Box::new(probe(r))), many(r, probe), many(r, probe)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S78<T> where T: TrackingRef + TrackingMut, Option<T>: Sized  { untrack: Box<Probe>, expr: Vec<Probe>, loc: T, location_: Vec<T>, semi: Vec<Option<Span>>, location: Option<Span>, x9: T, tracking_ref: T, _f0: Vec<Vec<Probe>> }

impl Shape for S78<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S78 { untrack: ref mut g0, expr: ref mut g1, loc: ref mut g2, location_: ref mut g3, semi: ref mut g4, location: ref mut g5, x9: ref mut g6, tracking_ref: ref mut g7, _f0: ref mut g8 } => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g5)); o.push(Leaf::P(g6)); o.push(Leaf::P(g7)); for x in g8.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S78 { untrack: Box::new(probe(r)), expr: many(r, probe), loc: probe(r), location_: many(r, probe), semi: many(r, some), location: some(r), x9: probe(r), tracking_ref: probe(r), _f0: many(r, |r| many(r, probe)) },
        }
    }
}

#[derive(Untrack)]
pub struct S79<T> where T: TrackingRef + Untrack,  { _f2: Option<Span>, inner: Box<T>, a: Probe }

impl Shape for S79<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S79 { _f2: ref mut g0, inner: ref mut g1, a: ref mut g2 } => { o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(g2)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S79 { _f2: some(r), inner: Box::new(probe(r)), a: probe(r) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S80<T>(Option<Span>, Vec<Option<Span>>, Vec<Probe>, T) where T: TrackingRef + TrackingMut, Vec<T>: Sized;

impl Shape for S80<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S80(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S80(some(r), many(r, some), many(r, probe), probe(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S81<T> where T: TrackingRef + TrackingMut, T: TrackingMut,  { V0 { location_: Option<Span>, location: Option<Span> }, V1(Probe), V2 { b: Vec<Probe>, tracking_ref: T, semi: Option<Probe>, locations: Probe, location_: T, expr: Vec<Option<Span>>, location: Option<Span> }, V3(Probe, Vec<T>), V4(Option<Span>, Option<Span>, Box<T>, Vec<T>), V5(Probe), V6 { b: Box<Probe>, x9: Vec<Probe>, expr: Vec<Probe>, location: Option<Span> }, V7(Option<Span>, Probe, Box<Probe>), V8(T), V9(Option<Span>, Option<Probe>, bool), V10(Option<Span>, Option<Probe>, Vec<Option<Span>>), V11(Option<Span>) }

impl Shape for S81<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S81::V0 { location_: ref mut g0, location: ref mut g1 } => { o.push(Leaf::S(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
            S81::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S81::V2 { b: ref mut g0, tracking_ref: ref mut g1, semi: ref mut g2, locations: ref mut g3, location_: ref mut g4, expr: ref mut g5, location: ref mut g6 } => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); o.push(Leaf::P(g4)); for x in g5 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g6)); }
            S81::V3(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S81::V4(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); for x in g3 { o.push(Leaf::P(x)); } }
            S81::V5(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S81::V6 { b: ref mut g0, x9: ref mut g1, expr: ref mut g2, location: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g3)); }
            S81::V7(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(&mut **g2)); }
            S81::V8(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S81::V9(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } let _ = g2; }
            S81::V10(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } }
            S81::V11(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(12) {
            0 => S81::V0 { location_: some(r), location: some(r) },
            1 => S81::V1(probe(r)),
            2 => S81::V2 { b: many(r, probe), tracking_ref: probe(r), semi: maybe(r, probe), locations: probe(r), location_: probe(r), expr: many(r, some), location: some(r) },
            3 => S81::V3(probe(r), many(r, probe)),
            4 => S81::V4(some(r), some(r), Box::new(probe(r)), many(r, probe)),
            5 => S81::V5(probe(r)),
            6 => S81::V6 { b: Box::new(probe(r)), x9: many(r, probe), expr: many(r, probe), location: some(r) },
            7 => S81::V7(some(r), probe(r), Box::new(probe(r))),
            8 => S81::V8(probe(r)),
            9 => S81::V9(some(r), maybe(r, probe), r.chance(1, 2)),
            10 => S81::V10(some(r), maybe(r, probe), many(r, some)),
            _ => S81::V11(some(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S82<T> where T: TrackingRef + TrackingMut, Option<T>: Sized  { a: Option<Span>, _f0: T, location: Option<Span>, loc: Vec<T> }

impl Shape for S82<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S82 { a: ref mut g0, _f0: ref mut g1, location: ref mut g2, loc: ref mut g3 } => { o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); at = Some(o.len()); o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S82 { a: some(r), _f0: probe(r), location: some(r), loc: many(r, probe) },
        }
    }
}

#[derive(Untrack)]
pub struct S83<T> where T: Untrack  { expr: Probe, _f2: Vec<Option<Span>>, _f0: Vec<T>, Location: bool, semi: Box<Probe>, span: Probe, location_: Option<Span>, a: Vec<T>, x9: Vec<Option<Span>> }

impl Shape for S83<Probe> {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S83 { expr: ref mut g0, _f2: ref mut g1, _f0: ref mut g2, Location: ref mut g3, semi: ref mut g4, span: ref mut g5, location_: ref mut g6, a: ref mut g7, x9: ref mut g8 } => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::P(x)); } let _ = g3; o.push(Leaf::P(&mut **g4)); o.push(Leaf::P(g5)); o.push(Leaf::S(g6)); for x in g7 { o.push(Leaf::P(x)); } for x in g8 { o.push(Leaf::S(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S83 { expr: probe(r), _f2: many(r, some), _f0: many(r, probe), Location: r.chance(1, 2), semi: Box::new(probe(r)), span: probe(r), location_: some(r), a: many(r, probe), x9: many(r, some) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S84 { location: Option<Span>, _f0: Box<Probe>, field1: Option<Probe>, field2: Vec<Probe>, x9: Vec<Option<Span>>, Location: Vec<Vec<Probe>>, untrack: Option<Box<Probe>>, b: bool, location_: bool, inner: Vec<Option<Span>>, locations: Option<Probe>, field3: Vec<Option<Span>>, expr: Vec<Option<Span>>, a: bool, tracking_ref: Box<Probe>, _f2: Vec<Vec<Probe>>, semi: Option<Span>, field0: Option<Probe>, span: Box<Probe>, loc: Option<Probe> }

impl Shape for S84 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S84 { location: ref mut g0, _f0: ref mut g1, field1: ref mut g2, field2: ref mut g3, x9: ref mut g4, Location: ref mut g5, untrack: ref mut g6, b: ref mut g7, location_: ref mut g8, inner: ref mut g9, locations: ref mut g10, field3: ref mut g11, expr: ref mut g12, a: ref mut g13, tracking_ref: ref mut g14, _f2: ref mut g15, semi: ref mut g16, field0: ref mut g17, span: ref mut g18, loc: ref mut g19 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::S(x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } let _ = g7; let _ = g8; for x in g9 { o.push(Leaf::S(x)); } if let Some(x) = g10 { o.push(Leaf::P(x)); } for x in g11 { o.push(Leaf::S(x)); } for x in g12 { o.push(Leaf::S(x)); } let _ = g13; o.push(Leaf::P(&mut **g14)); for x in g15.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g16)); if let Some(x) = g17 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g18)); if let Some(x) = g19 { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S84 { location: some(r), _f0: Box::new(probe(r)), field1: maybe(r, probe), field2: many(r, probe), x9: many(r, some), Location: many(r, |r| many(r, probe)), untrack: maybe(r, |r| Box::new(probe(r))), b: r.chance(1, 2), location_: r.chance(1, 2), inner: many(r, some), locations: maybe(r, probe), field3: many(r, some), expr: many(r, some), a: r.chance(1, 2), tracking_ref: Box::new(probe(r)), _f2: many(r, |r| many(r, probe)), semi: some(r), field0: maybe(r, probe), span: Box::new(probe(r)), loc: maybe(r, probe) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S85(Option<Span>, Box<Probe>, Box<Probe>, Vec<Option<Span>>, Option<Span>, Box<Probe>, Option<Probe>, Probe, Option<Box<Probe>>, Box<Probe>, Option<Span>, Option<Probe>, Probe, Vec<Vec<Probe>>, bool, Option<Span>, Option<Span>, Option<Span>, Option<Span>, bool, Box<Probe>, Vec<Vec<Probe>>, Box<Probe>, Vec<Vec<Probe>>, Vec<Option<Span>>, Vec<Option<Span>>, bool, bool, Box<Probe>, Probe, Option<Probe>, bool, Vec<Option<Span>>);

impl Shape for S85 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S85(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8, ref mut g9, ref mut g10, ref mut g11, ref mut g12, ref mut g13, ref mut g14, ref mut g15, ref mut g16, ref mut g17, ref mut g18, ref mut g19, ref mut g20, ref mut g21, ref mut g22, ref mut g23, ref mut g24, ref mut g25, ref mut g26, ref mut g27, ref mut g28, ref mut g29, ref mut g30, ref mut g31, ref mut g32) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(&mut **g2)); for x in g3 { o.push(Leaf::S(x)); } o.push(Leaf::S(g4)); o.push(Leaf::P(&mut **g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } o.push(Leaf::P(g7)); if let Some(x) = g8 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g9)); o.push(Leaf::S(g10)); if let Some(x) = g11 { o.push(Leaf::P(x)); } o.push(Leaf::P(g12)); for x in g13.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g14; o.push(Leaf::S(g15)); o.push(Leaf::S(g16)); o.push(Leaf::S(g17)); o.push(Leaf::S(g18)); let _ = g19; o.push(Leaf::P(&mut **g20)); for x in g21.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g22)); for x in g23.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g24 { o.push(Leaf::S(x)); } for x in g25 { o.push(Leaf::S(x)); } let _ = g26; let _ = g27; o.push(Leaf::P(&mut **g28)); o.push(Leaf::P(g29)); if let Some(x) = g30 { o.push(Leaf::P(x)); } let _ = g31; for x in g32 { o.push(Leaf::S(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S85(some(r), Box::new(probe(r)), Box::new(probe(r)), many(r, some), some(r), Box::new(probe(r)), maybe(r, probe), probe(r), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), some(r), maybe(r, probe), probe(r), many(r, |r| many(r, probe)), r.chance(1, 2), some(r), some(r), some(r), some(r), r.chance(1, 2), Box::new(probe(r)), many(r, |r| many(r, probe)), Box::new(probe(r)), many(r, |r| many(r, probe)), many(r, some), many(r, some), r.chance(1, 2), r.chance(1, 2), Box::new(probe(r)), probe(r), maybe(r, probe), r.chance(1, 2), many(r, some)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S86 { V0(Option<Span>), V1(Option<Span>), V2(Option<Span>), V3(Option<Span>), V4 { location: Option<Span> }, V5 { a: Option<Span>, tracking_ref: bool, inner: Option<Probe>, location: Option<Span> }, V6(Option<Span>, Vec<Probe>, Vec<Option<Span>>, Vec<Option<Span>>), V7(Option<Span>, Box<Probe>, Vec<Vec<Probe>>, Option<Box<Probe>>, Vec<Probe>, Box<Probe>, Option<Span>), V8(Option<Span>, bool, Option<Box<Probe>>, Option<Span>), V9 { location: Option<Span> }, V10(Option<Span>, Option<Box<Probe>>, Box<Probe>, Probe, Option<Box<Probe>>, Option<Probe>, Option<Probe>), V11 { location: Option<Span>, loc: bool }, V12(Option<Span>), V13 { loc: Option<Probe>, span: Vec<Option<Span>>, _f0: bool, b: Option<Span>, location: Option<Span>, inner: Vec<Probe>, location_: Vec<Vec<Probe>> }, V14 { location: Option<Span> }, V15(Probe), V16(Option<Span>), V17(Option<Span>), V18(Probe, Vec<Option<Span>>, Probe, Box<Probe>), V19(Option<Span>), V20(Option<Span>, Option<Probe>, Option<Span>), V21(Option<Span>), V22(Option<Span>, Vec<Vec<Probe>>, bool), V23(Probe, Vec<Probe>, Vec<Vec<Probe>>, Option<Span>), V24 { location: Option<Span>, _f2: Option<Span>, loc: Box<Probe> }, V25 { location: Option<Span>, semi: Box<Probe>, x9: Vec<Vec<Probe>>, loc: bool, _f0: Box<Probe>, b: Option<Probe>, _f2: Option<Span> }, V26 { semi: Box<Probe>, location: Option<Span>, x9: Option<Box<Probe>>, locations: Option<Span>, expr: Vec<Option<Span>>, _f0: Vec<Option<Span>>, inner: bool }, V27(Probe), V28(Option<Span>, Option<Span>, Vec<Option<Span>>, Box<Probe>, bool, Option<Span>, Option<Probe>), V29 { location: Option<Span> }, V30 { location: Option<Span> }, V31(Option<Span>), V32(Option<Span>, Option<Span>, Vec<Vec<Probe>>, Option<Probe>, Vec<Vec<Probe>>, Option<Box<Probe>>, Option<Probe>), V33 { Location: Option<Box<Probe>>, location: Option<Span>, _f0: Option<Box<Probe>> }, V34(Probe, Vec<Option<Span>>), V35(Option<Span>), V36(Probe, Probe, Vec<Vec<Probe>>, Option<Span>), V37(Option<Span>, Vec<Probe>, Option<Probe>, Option<Box<Probe>>), V38(Probe), V39(Probe) }

impl Shape for S86 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S86::V0(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V2(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V3(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V4 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V5 { a: ref mut g0, tracking_ref: ref mut g1, inner: ref mut g2, location: ref mut g3 } => { o.push(Leaf::S(g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g3)); }
            S86::V6(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } for x in g3 { o.push(Leaf::S(x)); } }
            S86::V7(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } for x in g4 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g5)); o.push(Leaf::S(g6)); }
            S86::V8(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g3)); }
            S86::V9 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V10(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g2)); o.push(Leaf::P(g3)); if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S86::V11 { location: ref mut g0, loc: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; }
            S86::V12(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V13 { loc: ref mut g0, span: ref mut g1, _f0: ref mut g2, b: ref mut g3, location: ref mut g4, inner: ref mut g5, location_: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } let _ = g2; o.push(Leaf::S(g3)); at = Some(o.len()); o.push(Leaf::S(g4)); for x in g5 { o.push(Leaf::P(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S86::V14 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V15(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S86::V16(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V17(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V18(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); o.push(Leaf::P(&mut **g3)); }
            S86::V19(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V20(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); }
            S86::V21(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V22(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g2; }
            S86::V23(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); }
            S86::V24 { location: ref mut g0, _f2: ref mut g1, loc: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); }
            S86::V25 { location: ref mut g0, semi: ref mut g1, x9: ref mut g2, loc: ref mut g3, _f0: ref mut g4, b: ref mut g5, _f2: ref mut g6 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g3; o.push(Leaf::P(&mut **g4)); if let Some(x) = g5 { o.push(Leaf::P(x)); } o.push(Leaf::S(g6)); }
            S86::V26 { semi: ref mut g0, location: ref mut g1, x9: ref mut g2, locations: ref mut g3, expr: ref mut g4, _f0: ref mut g5, inner: ref mut g6 } => { o.push(Leaf::P(&mut **g0)); at = Some(o.len()); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g3)); for x in g4 { o.push(Leaf::S(x)); } for x in g5 { o.push(Leaf::S(x)); } let _ = g6; }
            S86::V27(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S86::V28(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g3)); let _ = g4; o.push(Leaf::S(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S86::V29 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V30 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V31(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V32(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S86::V33 { Location: ref mut g0, location: ref mut g1, _f0: ref mut g2 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } at = Some(o.len()); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S86::V34(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } }
            S86::V35(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S86::V36(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); }
            S86::V37(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S86::V38(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S86::V39(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(40) {
            0 => S86::V0(some(r)),
            1 => S86::V1(some(r)),
            2 => S86::V2(some(r)),
            3 => S86::V3(some(r)),
            4 => S86::V4 { location: some(r) },
            5 => S86::V5 { a: some(r), tracking_ref: r.chance(1, 2), inner: maybe(r, probe), location: some(r) },
            6 => S86::V6(some(r), many(r, probe), many(r, some), many(r, some)),
            7 => S86::V7(some(r), Box::new(probe(r)), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), many(r, probe), Box::new(probe(r)), some(r)),
            8 => S86::V8(some(r), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), some(r)),
            9 => S86::V9 { location: some(r) },
            10 => S86::V10(some(r), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), probe(r), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), maybe(r, probe)),
            11 => S86::V11 { location: some(r), loc: r.chance(1, 2) },
            12 => S86::V12(some(r)),
            13 => S86::V13 { loc: maybe(r, probe), span: many(r, some), _f0: r.chance(1, 2), b: some(r), location: some(r), inner: many(r, probe), location_: many(r, |r| many(r, probe)) },
            14 => S86::V14 { location: some(r) },
            15 => S86::V15(probe(r)),
            16 => S86::V16(some(r)),
            17 => S86::V17(some(r)),
            18 => S86::V18(probe(r), many(r, some), probe(r), Box::new(probe(r))),
            19 => S86::V19(some(r)),
            20 => S86::V20(some(r), maybe(r, probe), some(r)),
            21 => S86::V21(some(r)),
            22 => S86::V22(some(r), many(r, |r| many(r, probe)), r.chance(1, 2)),
            23 => S86::V23(probe(r), many(r, probe), many(r, |r| many(r, probe)), some(r)),
            24 => S86::V24 { location: some(r), _f2: some(r), loc: Box::new(probe(r)) },
            25 => S86::V25 { location: some(r), semi: Box::new(probe(r)), x9: many(r, |r| many(r, probe)), loc: r.chance(1, 2), _f0: Box::new(probe(r)), b: maybe(r, probe), _f2: some(r) },
            26 => S86::V26 { semi: Box::new(probe(r)), location: some(r), x9: maybe(r, |r| Box::new(probe(r))), locations: some(r), expr: many(r, some), _f0: many(r, some), inner: r.chance(1, 2) },
            27 => S86::V27(probe(r)),
            28 => S86::V28(some(r), some(r), many(r, some), Box::new(probe(r)), r.chance(1, 2), some(r), maybe(r, probe)),
            29 => S86::V29 { location: some(r) },
            30 => S86::V30 { location: some(r) },
            31 => S86::V31(some(r)),
            32 => S86::V32(some(r), some(r), many(r, |r| many(r, probe)), maybe(r, probe), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), maybe(r, probe)),
            33 => S86::V33 { Location: maybe(r, |r| Box::new(probe(r))), location: some(r), _f0: maybe(r, |r| Box::new(probe(r))) },
            34 => S86::V34(probe(r), many(r, some)),
            35 => S86::V35(some(r)),
            36 => S86::V36(probe(r), probe(r), many(r, |r| many(r, probe)), some(r)),
            37 => S86::V37(some(r), many(r, probe), maybe(r, probe), maybe(r, |r| Box::new(probe(r)))),
            38 => S86::V38(probe(r)),
            _ => S86::V39(probe(r)),
        }
    }
}

#[derive(Untrack)]
pub enum S87 { V0(bool), V1 { _f0: Vec<Option<Span>> }, V2, V3, V4 { _f0: Option<Box<Probe>> }, V5(Option<Box<Probe>>, Option<Span>, bool, Option<Span>), V6(Vec<Probe>), V7(Box<Probe>), V8(Vec<Vec<Probe>>, Option<Span>, Option<Box<Probe>>, Option<Span>), V9, V10 { locations: Option<Span>, span: Vec<Vec<Probe>>, expr: Vec<Probe>, untrack: bool }, V11, V12, V13(Probe, Option<Box<Probe>>, Probe), V14(Vec<Vec<Probe>>, Vec<Vec<Probe>>), V15, V16 { untrack: Box<Probe>, location_: Box<Probe>, _f2: Vec<Vec<Probe>>, tracking_ref: Vec<Probe>, loc: bool, b: Vec<Probe>, x9: Option<Box<Probe>> }, V17, V18(Vec<Probe>), V19(Option<Span>, bool, bool, bool, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Vec<Vec<Probe>>), V20(Option<Span>), V21, V22(Probe, Vec<Probe>, Probe), V23(bool), V24 { x9: Box<Probe>, Location: Box<Probe> }, V25 { semi: Vec<Option<Span>>, a: Option<Span>, b: Option<Span> }, V26(Vec<Vec<Probe>>), V27(Option<Probe>, Option<Box<Probe>>), V28(Option<Span>), V29 { inner: Option<Probe> }, V30 { x9: Option<Box<Probe>>, Location: Vec<Option<Span>>, locations: Option<Box<Probe>> }, V31(Vec<Option<Span>>, Box<Probe>, Probe), V32 { x9: Vec<Vec<Probe>> }, V33(Option<Probe>), V34(Option<Box<Probe>>, Box<Probe>, Vec<Vec<Probe>>, bool), V35(Probe), V36, V37(Probe, Vec<Vec<Probe>>), V38 { _f2: Probe, loc: Vec<Probe>, _f1: Option<Box<Probe>>, b: Option<Box<Probe>> }, V39, V40 { _f0: Option<Span> }, V41, V42(Vec<Probe>, Option<Box<Probe>>), V43(Vec<Vec<Probe>>, Vec<Vec<Probe>>, Option<Span>, Vec<Option<Span>>, Vec<Probe>, bool, Vec<Option<Span>>), V44(Vec<Vec<Probe>>, Option<Box<Probe>>, Option<Box<Probe>>), V45 { Location: Vec<Option<Span>> }, V46(Box<Probe>, Option<Span>, Option<Span>), V47 { x9: Option<Span> }, V48 { b: Probe, locations: Option<Probe>, _f2: Option<Box<Probe>>, _f0: Probe, inner: Vec<Option<Span>>, loc: Vec<Probe>, tracking_ref: Vec<Probe> }, V49 { locations: bool }, V50 { loc: Vec<Option<Span>> }, V51(Option<Span>, Option<Probe>), V52(Option<Span>, Probe, bool, Probe), V53(Vec<Vec<Probe>>, Vec<Probe>), V54(Vec<Vec<Probe>>, Box<Probe>, Probe, Probe, Vec<Probe>, Option<Probe>, Option<Probe>), V55(Option<Box<Probe>>), V56 { b: Vec<Vec<Probe>>, semi: Option<Box<Probe>>, Location: Option<Box<Probe>> }, V57(Probe), V58, V59, V60(Option<Box<Probe>>, Vec<Option<Span>>, Box<Probe>), V61 { _f2: Vec<Vec<Probe>>, semi: bool, span: Option<Probe> }, V62, V63 { location_: Option<Box<Probe>>, inner: Option<Probe>, _f2: Box<Probe>, locations: Box<Probe> }, V64(Vec<Probe>, bool) }

impl Shape for S87 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S87::V0(ref mut g0) => { let _ = g0; }
            S87::V1 { _f0: ref mut g0 } => { for x in g0 { o.push(Leaf::S(x)); } }
            S87::V2 => { }
            S87::V3 => { }
            S87::V4 { _f0: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } }
            S87::V5(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g1)); let _ = g2; o.push(Leaf::S(g3)); }
            S87::V6(ref mut g0) => { for x in g0 { o.push(Leaf::P(x)); } }
            S87::V7(ref mut g0) => { o.push(Leaf::P(&mut **g0)); }
            S87::V8(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g3)); }
            S87::V9 => { }
            S87::V10 { locations: ref mut g0, span: ref mut g1, expr: ref mut g2, untrack: ref mut g3 } => { o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } let _ = g3; }
            S87::V11 => { }
            S87::V12 => { }
            S87::V13(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g2)); }
            S87::V14(ref mut g0, ref mut g1) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S87::V15 => { }
            S87::V16 { untrack: ref mut g0, location_: ref mut g1, _f2: ref mut g2, tracking_ref: ref mut g3, loc: ref mut g4, b: ref mut g5, x9: ref mut g6 } => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } let _ = g4; for x in g5 { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S87::V17 => { }
            S87::V18(ref mut g0) => { for x in g0 { o.push(Leaf::P(x)); } }
            S87::V19(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::S(g0)); let _ = g1; let _ = g2; let _ = g3; for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S87::V20(ref mut g0) => { o.push(Leaf::S(g0)); }
            S87::V21 => { }
            S87::V22(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); }
            S87::V23(ref mut g0) => { let _ = g0; }
            S87::V24 { x9: ref mut g0, Location: ref mut g1 } => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::P(&mut **g1)); }
            S87::V25 { semi: ref mut g0, a: ref mut g1, b: ref mut g2 } => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::S(g1)); o.push(Leaf::S(g2)); }
            S87::V26(ref mut g0) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S87::V27(ref mut g0, ref mut g1) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S87::V28(ref mut g0) => { o.push(Leaf::S(g0)); }
            S87::V29 { inner: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S87::V30 { x9: ref mut g0, Location: ref mut g1, locations: ref mut g2 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::S(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S87::V31(ref mut g0, ref mut g1, ref mut g2) => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(g2)); }
            S87::V32 { x9: ref mut g0 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S87::V33(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S87::V34(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g3; }
            S87::V35(ref mut g0) => { o.push(Leaf::P(g0)); }
            S87::V36 => { }
            S87::V37(ref mut g0, ref mut g1) => { o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S87::V38 { _f2: ref mut g0, loc: ref mut g1, _f1: ref mut g2, b: ref mut g3 } => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S87::V39 => { }
            S87::V40 { _f0: ref mut g0 } => { o.push(Leaf::S(g0)); }
            S87::V41 => { }
            S87::V42(ref mut g0, ref mut g1) => { for x in g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S87::V43(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::S(x)); } for x in g4 { o.push(Leaf::P(x)); } let _ = g5; for x in g6 { o.push(Leaf::S(x)); } }
            S87::V44(ref mut g0, ref mut g1, ref mut g2) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S87::V45 { Location: ref mut g0 } => { for x in g0 { o.push(Leaf::S(x)); } }
            S87::V46(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::S(g1)); o.push(Leaf::S(g2)); }
            S87::V47 { x9: ref mut g0 } => { o.push(Leaf::S(g0)); }
            S87::V48 { b: ref mut g0, locations: ref mut g1, _f2: ref mut g2, _f0: ref mut g3, inner: ref mut g4, loc: ref mut g5, tracking_ref: ref mut g6 } => { o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g3)); for x in g4 { o.push(Leaf::S(x)); } for x in g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S87::V49 { locations: ref mut g0 } => { let _ = g0; }
            S87::V50 { loc: ref mut g0 } => { for x in g0 { o.push(Leaf::S(x)); } }
            S87::V51(ref mut g0, ref mut g1) => { o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } }
            S87::V52(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); let _ = g2; o.push(Leaf::P(g3)); }
            S87::V53(ref mut g0, ref mut g1) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } }
            S87::V54(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(g2)); o.push(Leaf::P(g3)); for x in g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S87::V55(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } }
            S87::V56 { b: ref mut g0, semi: ref mut g1, Location: ref mut g2 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S87::V57(ref mut g0) => { o.push(Leaf::P(g0)); }
            S87::V58 => { }
            S87::V59 => { }
            S87::V60(ref mut g0, ref mut g1, ref mut g2) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g2)); }
            S87::V61 { _f2: ref mut g0, semi: ref mut g1, span: ref mut g2 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(x)); } }
            S87::V62 => { }
            S87::V63 { location_: ref mut g0, inner: ref mut g1, _f2: ref mut g2, locations: ref mut g3 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); o.push(Leaf::P(&mut **g3)); }
            S87::V64(ref mut g0, ref mut g1) => { for x in g0 { o.push(Leaf::P(x)); } let _ = g1; }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(65) {
            0 => S87::V0(r.chance(1, 2)),
            1 => S87::V1 { _f0: many(r, some) },
            2 => S87::V2,
            3 => S87::V3,
            4 => S87::V4 { _f0: maybe(r, |r| Box::new(probe(r))) },
            5 => S87::V5(maybe(r, |r| Box::new(probe(r))), some(r), r.chance(1, 2), some(r)),
            6 => S87::V6(many(r, probe)),
            7 => S87::V7(Box::new(probe(r))),
            8 => S87::V8(many(r, |r| many(r, probe)), some(r), maybe(r, |r| Box::new(probe(r))), some(r)),
            9 => S87::V9,
            10 => S87::V10 { locations: some(r), span: many(r, |r| many(r, probe)), expr: many(r, probe), untrack: r.chance(1, 2) },
            11 => S87::V11,
            12 => S87::V12,
            13 => S87::V13(probe(r), maybe(r, |r| Box::new(probe(r))), probe(r)),
            14 => S87::V14(many(r, |r| many(r, probe)), many(r, |r| many(r, probe))),
            15 => S87::V15,
            16 => S87::V16 { untrack: Box::new(probe(r)), location_: Box::new(probe(r)), _f2: many(r, |r| many(r, probe)), tracking_ref: many(r, probe), loc: r.chance(1, 2), b: many(r, probe), x9: maybe(r, |r| Box::new(probe(r))) },
            17 => S87::V17,
            18 => S87::V18(many(r, probe)),
            19 => S87::V19(some(r), r.chance(1, 2), r.chance(1, 2), r.chance(1, 2), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), many(r, |r| many(r, probe))),
            20 => S87::V20(some(r)),
            21 => S87::V21,
            22 => S87::V22(probe(r), many(r, probe), probe(r)),
            23 => S87::V23(r.chance(1, 2)),
            24 => S87::V24 { x9: Box::new(probe(r)), Location: Box::new(probe(r)) },
            25 => S87::V25 { semi: many(r, some), a: some(r), b: some(r) },
            26 => S87::V26(many(r, |r| many(r, probe))),
            27 => S87::V27(maybe(r, probe), maybe(r, |r| Box::new(probe(r)))),
            28 => S87::V28(some(r)),
            29 => S87::V29 { inner: maybe(r, probe) },
            30 => S87::V30 { x9: maybe(r, |r| Box::new(probe(r))), Location: many(r, some), locations: maybe(r, |r| Box::new(probe(r))) },
            31 => S87::V31(many(r, some), Box::new(probe(r)), probe(r)),
            32 => S87::V32 { x9: many(r, |r| many(r, probe)) },
            33 => S87::V33(maybe(r, probe)),
            34 => S87::V34(maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), many(r, |r| many(r, probe)), r.chance(1, 2)),
            35 => S87::V35(probe(r)),
            36 => S87::V36,
            37 => S87::V37(probe(r), many(r, |r| many(r, probe))),
            38 => S87::V38 { _f2: probe(r), loc: many(r, probe), _f1: maybe(r, |r| Box::new(probe(r))), b: maybe(r, |r| Box::new(probe(r))) },
            39 => S87::V39,
            40 => S87::V40 { _f0: some(r) },
            41 => S87::V41,
            42 => S87::V42(many(r, probe), maybe(r, |r| Box::new(probe(r)))),
            43 => S87::V43(many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), some(r), many(r, some), many(r, probe), r.chance(1, 2), many(r, some)),
            44 => S87::V44(many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r)))),
            45 => S87::V45 { Location: many(r, some) },
            46 => S87::V46(Box::new(probe(r)), some(r), some(r)),
            47 => S87::V47 { x9: some(r) },
            48 => S87::V48 { b: probe(r), locations: maybe(r, probe), _f2: maybe(r, |r| Box::new(probe(r))), _f0: probe(r), inner: many(r, some), loc: many(r, probe), tracking_ref: many(r, probe) },
            49 => S87::V49 { locations: r.chance(1, 2) },
            50 => S87::V50 { loc: many(r, some) },
            51 => S87::V51(some(r), maybe(r, probe)),
            52 => S87::V52(some(r), probe(r), r.chance(1, 2), probe(r)),
            53 => S87::V53(many(r, |r| many(r, probe)), many(r, probe)),
            54 => S87::V54(many(r, |r| many(r, probe)), Box::new(probe(r)), probe(r), probe(r), many(r, probe), maybe(r, probe), maybe(r, probe)),
            55 => S87::V55(maybe(r, |r| Box::new(probe(r)))),
            56 => S87::V56 { b: many(r, |r| many(r, probe)), semi: maybe(r, |r| Box::new(probe(r))), Location: maybe(r, |r| Box::new(probe(r))) },
            57 => S87::V57(probe(r)),
            58 => S87::V58,
            59 => S87::V59,
            60 => S87::V60(maybe(r, |r| Box::new(probe(r))), many(r, some), Box::new(probe(r))),
            61 => S87::V61 { _f2: many(r, |r| many(r, probe)), semi: r.chance(1, 2), span: maybe(r, probe) },
            62 => S87::V62,
            63 => S87::V63 { location_: maybe(r, |r| Box::new(probe(r))), inner: maybe(r, probe), _f2: Box::new(probe(r)), locations: Box::new(probe(r)) },
            _ => S87::V64(many(r, probe), r.chance(1, 2)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S88 { field19: Vec<Probe>, field17: Option<Span>, field25: Option<Box<Probe>>, field8: Option<Probe>, field6: Option<Probe>, field44: Option<Span>, location: Option<Span>, field41: Vec<Probe>, field32: Vec<Option<Span>>, _f2: Option<Box<Probe>>, field33: Vec<Probe>, field28: Option<Span>, field26: Option<Span>, locations: Option<Span>, loc: Option<Span>, field52: bool, _f0: Probe, field4: Vec<Option<Span>>, field24: bool, field14: Vec<Option<Span>>, semi: Probe, Location: bool, field47: Vec<Option<Span>>, field34: Option<Box<Probe>>, field50: Probe, x9: bool, field49: Box<Probe>, field20: Vec<Option<Span>>, field7: Probe, field36: Option<Span>, field9: Option<Box<Probe>>, field46: Option<Box<Probe>>, field11: Vec<Option<Span>>, field38: Option<Span>, field21: Vec<Option<Span>>, field45: Vec<Option<Span>>, field10: Probe, field15: Box<Probe>, field29: Box<Probe>, field40: Vec<Option<Span>>, field5: Vec<Vec<Probe>>, field30: Option<Probe>, field31: Vec<Option<Span>>, field18: Vec<Probe>, field51: bool, field1: Vec<Vec<Probe>>, field27: Option<Box<Probe>>, field37: Vec<Option<Span>>, untrack: Option<Box<Probe>>, field43: Vec<Probe>, field42: Box<Probe>, field13: Option<Span>, _f1: Option<Probe>, field2: Vec<Vec<Probe>>, field22: Vec<Option<Span>>, b: Option<Box<Probe>>, location_: Vec<Probe>, field12: Option<Box<Probe>>, span: Option<Probe>, tracking_ref: Box<Probe>, field39: bool, field0: Probe, field53: Vec<Option<Span>>, field16: Option<Box<Probe>>, inner: bool, field48: bool, field3: Option<Probe>, field23: bool, a: Vec<Option<Span>>, field35: Vec<Vec<Probe>> }

impl Shape for S88 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S88 { field19: ref mut g0, field17: ref mut g1, field25: ref mut g2, field8: ref mut g3, field6: ref mut g4, field44: ref mut g5, location: ref mut g6, field41: ref mut g7, field32: ref mut g8, _f2: ref mut g9, field33: ref mut g10, field28: ref mut g11, field26: ref mut g12, locations: ref mut g13, loc: ref mut g14, field52: ref mut g15, _f0: ref mut g16, field4: ref mut g17, field24: ref mut g18, field14: ref mut g19, semi: ref mut g20, Location: ref mut g21, field47: ref mut g22, field34: ref mut g23, field50: ref mut g24, x9: ref mut g25, field49: ref mut g26, field20: ref mut g27, field7: ref mut g28, field36: ref mut g29, field9: ref mut g30, field46: ref mut g31, field11: ref mut g32, field38: ref mut g33, field21: ref mut g34, field45: ref mut g35, field10: ref mut g36, field15: ref mut g37, field29: ref mut g38, field40: ref mut g39, field5: ref mut g40, field30: ref mut g41, field31: ref mut g42, field18: ref mut g43, field51: ref mut g44, field1: ref mut g45, field27: ref mut g46, field37: ref mut g47, untrack: ref mut g48, field43: ref mut g49, field42: ref mut g50, field13: ref mut g51, _f1: ref mut g52, field2: ref mut g53, field22: ref mut g54, b: ref mut g55, location_: ref mut g56, field12: ref mut g57, span: ref mut g58, tracking_ref: ref mut g59, field39: ref mut g60, field0: ref mut g61, field53: ref mut g62, field16: ref mut g63, inner: ref mut g64, field48: ref mut g65, field3: ref mut g66, field23: ref mut g67, a: ref mut g68, field35: ref mut g69 } => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(x)); } o.push(Leaf::S(g5)); at = Some(o.len()); o.push(Leaf::S(g6)); for x in g7 { o.push(Leaf::P(x)); } for x in g8 { o.push(Leaf::S(x)); } if let Some(x) = g9 { o.push(Leaf::P(&mut **x)); } for x in g10 { o.push(Leaf::P(x)); } o.push(Leaf::S(g11)); o.push(Leaf::S(g12)); o.push(Leaf::S(g13)); o.push(Leaf::S(g14)); let _ = g15; o.push(Leaf::P(g16)); for x in g17 { o.push(Leaf::S(x)); } let _ = g18; for x in g19 { o.push(Leaf::S(x)); } o.push(Leaf::P(g20)); let _ = g21; for x in g22 { o.push(Leaf::S(x)); } if let Some(x) = g23 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g24)); let _ = g25; o.push(Leaf::P(&mut **g26)); for x in g27 { o.push(Leaf::S(x)); } o.push(Leaf::P(g28)); o.push(Leaf::S(g29)); if let Some(x) = g30 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g31 { o.push(Leaf::P(&mut **x)); } for x in g32 { o.push(Leaf::S(x)); } o.push(Leaf::S(g33)); for x in g34 { o.push(Leaf::S(x)); } for x in g35 { o.push(Leaf::S(x)); } o.push(Leaf::P(g36)); o.push(Leaf::P(&mut **g37)); o.push(Leaf::P(&mut **g38)); for x in g39 { o.push(Leaf::S(x)); } for x in g40.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g41 { o.push(Leaf::P(x)); } for x in g42 { o.push(Leaf::S(x)); } for x in g43 { o.push(Leaf::P(x)); } let _ = g44; for x in g45.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g46 { o.push(Leaf::P(&mut **x)); } for x in g47 { o.push(Leaf::S(x)); } if let Some(x) = g48 { o.push(Leaf::P(&mut **x)); } for x in g49 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g50)); o.push(Leaf::S(g51)); if let Some(x) = g52 { o.push(Leaf::P(x)); } for x in g53.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g54 { o.push(Leaf::S(x)); } if let Some(x) = g55 { o.push(Leaf::P(&mut **x)); } for x in g56 { o.push(Leaf::P(x)); } if let Some(x) = g57 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g58 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g59)); let _ = g60; o.push(Leaf::P(g61)); for x in g62 { o.push(Leaf::S(x)); } if let Some(x) = g63 { o.push(Leaf::P(&mut **x)); } let _ = g64; let _ = g65; if let Some(x) = g66 { o.push(Leaf::P(x)); } let _ = g67; for x in g68 { o.push(Leaf::S(x)); } for x in g69.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S88 { field19: many(r, probe), field17: some(r), field25: maybe(r, |r| Box::new(probe(r))), field8: maybe(r, probe), field6: maybe(r, probe), field44: some(r), location: some(r), field41: many(r, probe), field32: many(r, some), _f2: maybe(r, |r| Box::new(probe(r))), field33: many(r, probe), field28: some(r), field26: some(r), locations: some(r), loc: some(r), field52: r.chance(1, 2), _f0: probe(r), field4: many(r, some), field24: r.chance(1, 2), field14: many(r, some), semi: probe(r), Location: r.chance(1, 2), field47: many(r, some), field34: maybe(r, |r| Box::new(probe(r))), field50: probe(r), x9: r.chance(1, 2), field49: Box::new(probe(r)), field20: many(r, some), field7: probe(r), field36: some(r), field9: maybe(r, |r| Box::new(probe(r))), field46: maybe(r, |r| Box::new(probe(r))), field11: many(r, some), field38: some(r), field21: many(r, some), field45: many(r, some), field10: probe(r), field15: Box::new(probe(r)), field29: Box::new(probe(r)), field40: many(r, some), field5: many(r, |r| many(r, probe)), field30: maybe(r, probe), field31: many(r, some), field18: many(r, probe), field51: r.chance(1, 2), field1: many(r, |r| many(r, probe)), field27: maybe(r, |r| Box::new(probe(r))), field37: many(r, some), untrack: maybe(r, |r| Box::new(probe(r))), field43: many(r, probe), field42: Box::new(probe(r)), field13: some(r), _f1: maybe(r, probe), field2: many(r, |r| many(r, probe)), field22: many(r, some), b: maybe(r, |r| Box::new(probe(r))), location_: many(r, probe), field12: maybe(r, |r| Box::new(probe(r))), span: maybe(r, probe), tracking_ref: Box::new(probe(r)), field39: r.chance(1, 2), field0: probe(r), field53: many(r, some), field16: maybe(r, |r| Box::new(probe(r))), inner: r.chance(1, 2), field48: r.chance(1, 2), field3: maybe(r, probe), field23: r.chance(1, 2), a: many(r, some), field35: many(r, |r| many(r, probe)) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S89(Probe, Probe, Option<Box<Probe>>, Vec<Option<Span>>, Box<Probe>, Box<Probe>, Option<Probe>, Box<Probe>, Box<Probe>, Option<Probe>, Probe, Probe, Probe, Option<Probe>, Probe, Vec<Vec<Probe>>, Option<Box<Probe>>, Option<Probe>, Vec<Option<Span>>, Vec<Probe>, Option<Box<Probe>>, bool, Option<Span>, bool, bool, Option<Box<Probe>>, bool, Vec<Option<Span>>, bool, Option<Box<Probe>>, Vec<Probe>, Vec<Probe>, Probe, Box<Probe>, Option<Box<Probe>>, Option<Box<Probe>>, Vec<Option<Span>>, Probe, Probe, Box<Probe>, Option<Box<Probe>>, Vec<Option<Span>>, Option<Span>, Option<Box<Probe>>, Option<Probe>, Vec<Vec<Probe>>, bool, Probe, Vec<Probe>, Vec<Option<Span>>, Option<Probe>, bool, Vec<Probe>, Probe, Option<Box<Probe>>, Vec<Probe>, Vec<Option<Span>>, Option<Span>, Box<Probe>, bool, bool, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Option<Span>, Vec<Vec<Probe>>, Vec<Probe>, Probe, Probe, Option<Box<Probe>>, Option<Box<Probe>>, Option<Span>, bool, Vec<Probe>, Vec<Vec<Probe>>, Probe, Vec<Option<Span>>, Option<Box<Probe>>, Probe, bool, Vec<Option<Span>>, Probe, Vec<Vec<Probe>>, bool, Option<Span>, Vec<Option<Span>>, Probe, Vec<Vec<Probe>>, Probe, Vec<Probe>, Vec<Probe>, Option<Probe>, Probe, Option<Span>, Vec<Vec<Probe>>, Vec<Probe>, Option<Span>, Option<Box<Probe>>, Option<Probe>, Option<Span>, Probe, Option<Probe>, Vec<Vec<Probe>>, Option<Box<Probe>>, bool, Option<Box<Probe>>, Probe, Box<Probe>, Option<Span>, Option<Span>, Vec<Vec<Probe>>, bool, Probe, Vec<Option<Span>>, Option<Box<Probe>>, bool, Probe, Probe, Vec<Probe>, bool, Option<Span>, Vec<Option<Span>>, Vec<Probe>, Option<Box<Probe>>, Probe, Option<Probe>, bool, Vec<Vec<Probe>>, Vec<Option<Span>>, Option<Span>, Probe);

impl Shape for S89 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S89(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8, ref mut g9, ref mut g10, ref mut g11, ref mut g12, ref mut g13, ref mut g14, ref mut g15, ref mut g16, ref mut g17, ref mut g18, ref mut g19, ref mut g20, ref mut g21, ref mut g22, ref mut g23, ref mut g24, ref mut g25, ref mut g26, ref mut g27, ref mut g28, ref mut g29, ref mut g30, ref mut g31, ref mut g32, ref mut g33, ref mut g34, ref mut g35, ref mut g36, ref mut g37, ref mut g38, ref mut g39, ref mut g40, ref mut g41, ref mut g42, ref mut g43, ref mut g44, ref mut g45, ref mut g46, ref mut g47, ref mut g48, ref mut g49, ref mut g50, ref mut g51, ref mut g52, ref mut g53, ref mut g54, ref mut g55, ref mut g56, ref mut g57, ref mut g58, ref mut g59, ref mut g60, ref mut g61, ref mut g62, ref mut g63, ref mut g64, ref mut g65, ref mut g66, ref mut g67, ref mut g68, ref mut g69, ref mut g70, ref mut g71, ref mut g72, ref mut g73, ref mut g74, ref mut g75, ref mut g76, ref mut g77, ref mut g78, ref mut g79, ref mut g80, ref mut g81, ref mut g82, ref mut g83, ref mut g84, ref mut g85, ref mut g86, ref mut g87, ref mut g88, ref mut g89, ref mut g90, ref mut g91, ref mut g92, ref mut g93, ref mut g94, ref mut g95, ref mut g96, ref mut g97, ref mut g98, ref mut g99, ref mut g100, ref mut g101, ref mut g102, ref mut g103, ref mut g104, ref mut g105, ref mut g106, ref mut g107, ref mut g108, ref mut g109, ref mut g110, ref mut g111, ref mut g112, ref mut g113, ref mut g114, ref mut g115, ref mut g116, ref mut g117, ref mut g118, ref mut g119, ref mut g120, ref mut g121, ref mut g122, ref mut g123, ref mut g124, ref mut g125, ref mut g126, ref mut g127, ref mut g128, ref mut g129) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } for x in g3 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g4)); o.push(Leaf::P(&mut **g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g7)); o.push(Leaf::P(&mut **g8)); if let Some(x) = g9 { o.push(Leaf::P(x)); } o.push(Leaf::P(g10)); o.push(Leaf::P(g11)); o.push(Leaf::P(g12)); if let Some(x) = g13 { o.push(Leaf::P(x)); } o.push(Leaf::P(g14)); for x in g15.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g16 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g17 { o.push(Leaf::P(x)); } for x in g18 { o.push(Leaf::S(x)); } for x in g19 { o.push(Leaf::P(x)); } if let Some(x) = g20 { o.push(Leaf::P(&mut **x)); } let _ = g21; o.push(Leaf::S(g22)); let _ = g23; let _ = g24; if let Some(x) = g25 { o.push(Leaf::P(&mut **x)); } let _ = g26; for x in g27 { o.push(Leaf::S(x)); } let _ = g28; if let Some(x) = g29 { o.push(Leaf::P(&mut **x)); } for x in g30 { o.push(Leaf::P(x)); } for x in g31 { o.push(Leaf::P(x)); } o.push(Leaf::P(g32)); o.push(Leaf::P(&mut **g33)); if let Some(x) = g34 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g35 { o.push(Leaf::P(&mut **x)); } for x in g36 { o.push(Leaf::S(x)); } o.push(Leaf::P(g37)); o.push(Leaf::P(g38)); o.push(Leaf::P(&mut **g39)); if let Some(x) = g40 { o.push(Leaf::P(&mut **x)); } for x in g41 { o.push(Leaf::S(x)); } o.push(Leaf::S(g42)); if let Some(x) = g43 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g44 { o.push(Leaf::P(x)); } for x in g45.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g46; o.push(Leaf::P(g47)); for x in g48 { o.push(Leaf::P(x)); } for x in g49 { o.push(Leaf::S(x)); } if let Some(x) = g50 { o.push(Leaf::P(x)); } let _ = g51; for x in g52 { o.push(Leaf::P(x)); } o.push(Leaf::P(g53)); if let Some(x) = g54 { o.push(Leaf::P(&mut **x)); } for x in g55 { o.push(Leaf::P(x)); } for x in g56 { o.push(Leaf::S(x)); } o.push(Leaf::S(g57)); o.push(Leaf::P(&mut **g58)); let _ = g59; let _ = g60; for x in g61.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g62.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g63)); for x in g64.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g65 { o.push(Leaf::P(x)); } o.push(Leaf::P(g66)); o.push(Leaf::P(g67)); if let Some(x) = g68 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g69 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g70)); let _ = g71; for x in g72 { o.push(Leaf::P(x)); } for x in g73.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g74)); for x in g75 { o.push(Leaf::S(x)); } if let Some(x) = g76 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g77)); let _ = g78; for x in g79 { o.push(Leaf::S(x)); } o.push(Leaf::P(g80)); for x in g81.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g82; o.push(Leaf::S(g83)); for x in g84 { o.push(Leaf::S(x)); } o.push(Leaf::P(g85)); for x in g86.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g87)); for x in g88 { o.push(Leaf::P(x)); } for x in g89 { o.push(Leaf::P(x)); } if let Some(x) = g90 { o.push(Leaf::P(x)); } o.push(Leaf::P(g91)); o.push(Leaf::S(g92)); for x in g93.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g94 { o.push(Leaf::P(x)); } o.push(Leaf::S(g95)); if let Some(x) = g96 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g97 { o.push(Leaf::P(x)); } o.push(Leaf::S(g98)); o.push(Leaf::P(g99)); if let Some(x) = g100 { o.push(Leaf::P(x)); } for x in g101.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g102 { o.push(Leaf::P(&mut **x)); } let _ = g103; if let Some(x) = g104 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g105)); o.push(Leaf::P(&mut **g106)); o.push(Leaf::S(g107)); o.push(Leaf::S(g108)); for x in g109.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g110; o.push(Leaf::P(g111)); for x in g112 { o.push(Leaf::S(x)); } if let Some(x) = g113 { o.push(Leaf::P(&mut **x)); } let _ = g114; o.push(Leaf::P(g115)); o.push(Leaf::P(g116)); for x in g117 { o.push(Leaf::P(x)); } let _ = g118; o.push(Leaf::S(g119)); for x in g120 { o.push(Leaf::S(x)); } for x in g121 { o.push(Leaf::P(x)); } if let Some(x) = g122 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g123)); if let Some(x) = g124 { o.push(Leaf::P(x)); } let _ = g125; for x in g126.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g127 { o.push(Leaf::S(x)); } o.push(Leaf::S(g128)); o.push(Leaf::P(g129)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S89(probe(r), probe(r), maybe(r, |r| Box::new(probe(r))), many(r, some), Box::new(probe(r)), Box::new(probe(r)), maybe(r, probe), Box::new(probe(r)), Box::new(probe(r)), maybe(r, probe), probe(r), probe(r), probe(r), maybe(r, probe), probe(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), many(r, some), many(r, probe), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), some(r), r.chance(1, 2), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), many(r, some), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), many(r, probe), many(r, probe), probe(r), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r))), many(r, some), probe(r), probe(r), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), many(r, some), some(r), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), many(r, |r| many(r, probe)), r.chance(1, 2), probe(r), many(r, probe), many(r, some), maybe(r, probe), r.chance(1, 2), many(r, probe), probe(r), maybe(r, |r| Box::new(probe(r))), many(r, probe), many(r, some), some(r), Box::new(probe(r)), r.chance(1, 2), r.chance(1, 2), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), some(r), many(r, |r| many(r, probe)), many(r, probe), probe(r), probe(r), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r))), some(r), r.chance(1, 2), many(r, probe), many(r, |r| many(r, probe)), probe(r), many(r, some), maybe(r, |r| Box::new(probe(r))), probe(r), r.chance(1, 2), many(r, some), probe(r), many(r, |r| many(r, probe)), r.chance(1, 2), some(r), many(r, some), probe(r), many(r, |r| many(r, probe)), probe(r), many(r, probe), many(r, probe), maybe(r, probe), probe(r), some(r), many(r, |r| many(r, probe)), many(r, probe), some(r), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), some(r), probe(r), maybe(r, probe), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), probe(r), Box::new(probe(r)), some(r), some(r), many(r, |r| many(r, probe)), r.chance(1, 2), probe(r), many(r, some), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), probe(r), probe(r), many(r, probe), r.chance(1, 2), some(r), many(r, some), many(r, probe), maybe(r, |r| Box::new(probe(r))), probe(r), maybe(r, probe), r.chance(1, 2), many(r, |r| many(r, probe)), many(r, some), some(r), probe(r)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S90 { V0 { location: Option<Span> }, V1(Probe), V2(Option<Span>), V3(Option<Span>, Option<Span>, Probe, Probe), V4(Option<Span>, Probe, Option<Box<Probe>>, Vec<Probe>, bool, Probe, bool), V5 { location: Option<Span>, _f2: Option<Box<Probe>>, inner: Vec<Probe> }, V6(Option<Span>, Option<Probe>, Option<Span>, bool, Option<Box<Probe>>, Probe, Option<Probe>), V7(Option<Span>, Vec<Vec<Probe>>, Vec<Probe>, Box<Probe>), V8 { location: Option<Span> }, V9 { loc: Option<Span>, _f0: bool, location: Option<Span>, Location: Option<Box<Probe>>, untrack: Option<Span>, _f2: Probe, expr: Vec<Option<Span>> }, V10(Probe), V11(Option<Span>, Probe), V12(Option<Span>, Vec<Probe>, Option<Probe>, Vec<Option<Span>>, Option<Span>, Option<Span>, Option<Box<Probe>>), V13(Option<Span>, Box<Probe>), V14(Option<Span>, Vec<Probe>, Option<Span>, Vec<Option<Span>>, Option<Box<Probe>>, Vec<Vec<Probe>>, Option<Span>), V15(Option<Span>, Option<Span>, bool, Vec<Option<Span>>, Vec<Vec<Probe>>, Box<Probe>, Vec<Option<Span>>), V16 { location: Option<Span>, tracking_ref: Option<Span>, locations: Option<Span> } }

impl Shape for S90 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S90::V0 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S90::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S90::V2(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S90::V3(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(g2)); o.push(Leaf::P(g3)); }
            S90::V4(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } for x in g3 { o.push(Leaf::P(x)); } let _ = g4; o.push(Leaf::P(g5)); let _ = g6; }
            S90::V5 { location: ref mut g0, _f2: ref mut g1, inner: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S90::V6(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); let _ = g3; if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S90::V7(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
            S90::V8 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S90::V9 { loc: ref mut g0, _f0: ref mut g1, location: ref mut g2, Location: ref mut g3, untrack: ref mut g4, _f2: ref mut g5, expr: ref mut g6 } => { o.push(Leaf::S(g0)); let _ = g1; at = Some(o.len()); o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g4)); o.push(Leaf::P(g5)); for x in g6 { o.push(Leaf::S(x)); } }
            S90::V10(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S90::V11(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); }
            S90::V12(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::S(x)); } o.push(Leaf::S(g4)); o.push(Leaf::S(g5)); if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S90::V13(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); }
            S90::V14(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::S(x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g6)); }
            S90::V15(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); let _ = g2; for x in g3 { o.push(Leaf::S(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g5)); for x in g6 { o.push(Leaf::S(x)); } }
            S90::V16 { location: ref mut g0, tracking_ref: ref mut g1, locations: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::S(g2)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(17) {
            0 => S90::V0 { location: some(r) },
            1 => S90::V1(probe(r)),
            2 => S90::V2(some(r)),
            3 => S90::V3(some(r), some(r), probe(r), probe(r)),
            4 => S90::V4(some(r), probe(r), maybe(r, |r| Box::new(probe(r))), many(r, probe), r.chance(1, 2), probe(r), r.chance(1, 2)),
            5 => S90::V5 { location: some(r), _f2: maybe(r, |r| Box::new(probe(r))), inner: many(r, probe) },
            6 => S90::V6(some(r), maybe(r, probe), some(r), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), probe(r), maybe(r, probe)),
            7 => S90::V7(some(r), many(r, |r| many(r, probe)), many(r, probe), Box::new(probe(r))),
            8 => S90::V8 { location: some(r) },
            9 => S90::V9 { loc: some(r), _f0: r.chance(1, 2), location: some(r), Location: maybe(r, |r| Box::new(probe(r))), untrack: some(r), _f2: probe(r), expr: many(r, some) },
            10 => S90::V10(probe(r)),
            11 => S90::V11(some(r), probe(r)),
            12 => S90::V12(some(r), many(r, probe), maybe(r, probe), many(r, some), some(r), some(r), maybe(r, |r| Box::new(probe(r)))),
            13 => S90::V13(some(r), Box::new(probe(r))),
            14 => S90::V14(some(r), many(r, probe), some(r), many(r, some), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), some(r)),
            15 => S90::V15(some(r), some(r), r.chance(1, 2), many(r, some), many(r, |r| many(r, probe)), Box::new(probe(r)), many(r, some)),
            _ => S90::V16 { location: some(r), tracking_ref: some(r), locations: some(r) },
        }
    }
}

#[derive(Untrack)]
pub enum S91 { V0, V1(Option<Probe>), V2 { x9: Box<Probe> }, V3 { loc: Vec<Probe>, b: Box<Probe>, locations: Vec<Option<Span>>, a: bool, Location: Vec<Option<Span>>, semi: Vec<Vec<Probe>>, location_: Vec<Option<Span>> }, V4(Box<Probe>, Vec<Vec<Probe>>), V5, V6, V7(Box<Probe>, Vec<Probe>, Vec<Option<Span>>, Option<Probe>, Box<Probe>, Box<Probe>, Vec<Vec<Probe>>), V8 { _f0: Option<Probe> }, V9(Probe, Vec<Option<Span>>, Probe), V10 { span: Option<Box<Probe>>, untrack: Option<Span>, semi: Vec<Vec<Probe>>, b: Probe }, V11(Option<Span>, Option<Span>), V12 { loc: Vec<Vec<Probe>> }, V13 { location_: Option<Probe> }, V14, V15, V16, V17(Option<Box<Probe>>, Option<Box<Probe>>, Vec<Vec<Probe>>, Probe, bool, Probe, bool), V18(Vec<Option<Span>>), V19(Vec<Option<Span>>), V20 { _f1: Vec<Probe>, tracking_ref: Option<Probe>, expr: Vec<Vec<Probe>>, _f0: Vec<Vec<Probe>> }, V21 { semi: Probe, span: Vec<Vec<Probe>>, untrack: bool, expr: Box<Probe>, a: Probe, _f2: Option<Box<Probe>>, tracking_ref: Option<Span> }, V22(Option<Span>), V23, V24 { _f0: Probe, locations: Vec<Probe>, span: Vec<Vec<Probe>>, location_: Probe }, V25(Vec<Option<Span>>, Box<Probe>, Vec<Option<Span>>, Option<Box<Probe>>) }

impl Shape for S91 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S91::V0 => { }
            S91::V1(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S91::V2 { x9: ref mut g0 } => { o.push(Leaf::P(&mut **g0)); }
            S91::V3 { loc: ref mut g0, b: ref mut g1, locations: ref mut g2, a: ref mut g3, Location: ref mut g4, semi: ref mut g5, location_: ref mut g6 } => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); for x in g2 { o.push(Leaf::S(x)); } let _ = g3; for x in g4 { o.push(Leaf::S(x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::S(x)); } }
            S91::V4(ref mut g0, ref mut g1) => { o.push(Leaf::P(&mut **g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S91::V5 => { }
            S91::V6 => { }
            S91::V7(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g4)); o.push(Leaf::P(&mut **g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S91::V8 { _f0: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S91::V9(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); }
            S91::V10 { span: ref mut g0, untrack: ref mut g1, semi: ref mut g2, b: ref mut g3 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); }
            S91::V11(ref mut g0, ref mut g1) => { o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); }
            S91::V12 { loc: ref mut g0 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S91::V13 { location_: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S91::V14 => { }
            S91::V15 => { }
            S91::V16 => { }
            S91::V17(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); let _ = g4; o.push(Leaf::P(g5)); let _ = g6; }
            S91::V18(ref mut g0) => { for x in g0 { o.push(Leaf::S(x)); } }
            S91::V19(ref mut g0) => { for x in g0 { o.push(Leaf::S(x)); } }
            S91::V20 { _f1: ref mut g0, tracking_ref: ref mut g1, expr: ref mut g2, _f0: ref mut g3 } => { for x in g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S91::V21 { semi: ref mut g0, span: ref mut g1, untrack: ref mut g2, expr: ref mut g3, a: ref mut g4, _f2: ref mut g5, tracking_ref: ref mut g6 } => { o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g2; o.push(Leaf::P(&mut **g3)); o.push(Leaf::P(g4)); if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g6)); }
            S91::V22(ref mut g0) => { o.push(Leaf::S(g0)); }
            S91::V23 => { }
            S91::V24 { _f0: ref mut g0, locations: ref mut g1, span: ref mut g2, location_: ref mut g3 } => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); }
            S91::V25(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g1)); for x in g2 { o.push(Leaf::S(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(26) {
            0 => S91::V0,
            1 => S91::V1(maybe(r, probe)),
            2 => S91::V2 { x9: Box::new(probe(r)) },
            3 => S91::V3 { loc: many(r, probe), b: Box::new(probe(r)), locations: many(r, some), a: r.chance(1, 2), Location: many(r, some), semi: many(r, |r| many(r, probe)), location_: many(r, some) },
            4 => S91::V4(Box::new(probe(r)), many(r, |r| many(r, probe))),
            5 => S91::V5,
            6 => S91::V6,
            7 => S91::V7(Box::new(probe(r)), many(r, probe), many(r, some), maybe(r, probe), Box::new(probe(r)), Box::new(probe(r)), many(r, |r| many(r, probe))),
            8 => S91::V8 { _f0: maybe(r, probe) },
            9 => S91::V9(probe(r), many(r, some), probe(r)),
            10 => S91::V10 { span: maybe(r, |r| Box::new(probe(r))), untrack: some(r), semi: many(r, |r| many(r, probe)), b: probe(r) },
            11 => S91::V11(some(r), some(r)),
            12 => S91::V12 { loc: many(r, |r| many(r, probe)) },
            13 => S91::V13 { location_: maybe(r, probe) },
            14 => S91::V14,
            15 => S91::V15,
            16 => S91::V16,
            17 => S91::V17(maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), probe(r), r.chance(1, 2), probe(r), r.chance(1, 2)),
            18 => S91::V18(many(r, some)),
            19 => S91::V19(many(r, some)),
            20 => S91::V20 { _f1: many(r, probe), tracking_ref: maybe(r, probe), expr: many(r, |r| many(r, probe)), _f0: many(r, |r| many(r, probe)) },
            21 => S91::V21 { semi: probe(r), span: many(r, |r| many(r, probe)), untrack: r.chance(1, 2), expr: Box::new(probe(r)), a: probe(r), _f2: maybe(r, |r| Box::new(probe(r))), tracking_ref: some(r) },
            22 => S91::V22(some(r)),
            23 => S91::V23,
            24 => S91::V24 { _f0: probe(r), locations: many(r, probe), span: many(r, |r| many(r, probe)), location_: probe(r) },
            _ => S91::V25(many(r, some), Box::new(probe(r)), many(r, some), maybe(r, |r| Box::new(probe(r)))),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S92 { field20: Vec<Vec<Probe>>, x9: Vec<Option<Span>>, b: Vec<Vec<Probe>>, span: Vec<Probe>, field4: Probe, field28: Vec<Vec<Probe>>, field17: Option<Probe>, tracking_ref: Probe, field22: Box<Probe>, field18: Vec<Probe>, field14: Option<Probe>, field23: Box<Probe>, field13: Vec<Vec<Probe>>, field7: Probe, field11: Vec<Vec<Probe>>, loc: bool, field10: Vec<Vec<Probe>>, expr: Vec<Vec<Probe>>, inner: Probe, untrack: Option<Span>, field25: Probe, field15: Option<Span>, field32: Box<Probe>, field1: Box<Probe>, Location: Option<Box<Probe>>, location_: Probe, field16: Vec<Vec<Probe>>, field19: Probe, field27: Option<Box<Probe>>, field6: bool, semi: bool, location: Option<Span>, field26: bool, field3: Box<Probe>, field24: bool, field29: Vec<Probe>, field2: Probe, field0: Option<Span>, _f0: Option<Span>, field31: Vec<Probe>, _f1: Option<Probe>, field30: bool, field8: Probe, field5: Probe, field33: Option<Probe>, field21: Option<Span>, field9: Option<Span>, field12: Box<Probe>, a: Probe, locations: Vec<Option<Span>> }

impl Shape for S92 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S92 { field20: ref mut g0, x9: ref mut g1, b: ref mut g2, span: ref mut g3, field4: ref mut g4, field28: ref mut g5, field17: ref mut g6, tracking_ref: ref mut g7, field22: ref mut g8, field18: ref mut g9, field14: ref mut g10, field23: ref mut g11, field13: ref mut g12, field7: ref mut g13, field11: ref mut g14, loc: ref mut g15, field10: ref mut g16, expr: ref mut g17, inner: ref mut g18, untrack: ref mut g19, field25: ref mut g20, field15: ref mut g21, field32: ref mut g22, field1: ref mut g23, Location: ref mut g24, location_: ref mut g25, field16: ref mut g26, field19: ref mut g27, field27: ref mut g28, field6: ref mut g29, semi: ref mut g30, location: ref mut g31, field26: ref mut g32, field3: ref mut g33, field24: ref mut g34, field29: ref mut g35, field2: ref mut g36, field0: ref mut g37, _f0: ref mut g38, field31: ref mut g39, _f1: ref mut g40, field30: ref mut g41, field8: ref mut g42, field5: ref mut g43, field33: ref mut g44, field21: ref mut g45, field9: ref mut g46, field12: ref mut g47, a: ref mut g48, locations: ref mut g49 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } o.push(Leaf::P(g7)); o.push(Leaf::P(&mut **g8)); for x in g9 { o.push(Leaf::P(x)); } if let Some(x) = g10 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g11)); for x in g12.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g13)); for x in g14.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g15; for x in g16.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g17.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g18)); o.push(Leaf::S(g19)); o.push(Leaf::P(g20)); o.push(Leaf::S(g21)); o.push(Leaf::P(&mut **g22)); o.push(Leaf::P(&mut **g23)); if let Some(x) = g24 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g25)); for x in g26.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g27)); if let Some(x) = g28 { o.push(Leaf::P(&mut **x)); } let _ = g29; let _ = g30; at = Some(o.len()); o.push(Leaf::S(g31)); let _ = g32; o.push(Leaf::P(&mut **g33)); let _ = g34; for x in g35 { o.push(Leaf::P(x)); } o.push(Leaf::P(g36)); o.push(Leaf::S(g37)); o.push(Leaf::S(g38)); for x in g39 { o.push(Leaf::P(x)); } if let Some(x) = g40 { o.push(Leaf::P(x)); } let _ = g41; o.push(Leaf::P(g42)); o.push(Leaf::P(g43)); if let Some(x) = g44 { o.push(Leaf::P(x)); } o.push(Leaf::S(g45)); o.push(Leaf::S(g46)); o.push(Leaf::P(&mut **g47)); o.push(Leaf::P(g48)); for x in g49 { o.push(Leaf::S(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S92 { field20: many(r, |r| many(r, probe)), x9: many(r, some), b: many(r, |r| many(r, probe)), span: many(r, probe), field4: probe(r), field28: many(r, |r| many(r, probe)), field17: maybe(r, probe), tracking_ref: probe(r), field22: Box::new(probe(r)), field18: many(r, probe), field14: maybe(r, probe), field23: Box::new(probe(r)), field13: many(r, |r| many(r, probe)), field7: probe(r), field11: many(r, |r| many(r, probe)), loc: r.chance(1, 2), field10: many(r, |r| many(r, probe)), expr: many(r, |r| many(r, probe)), inner: probe(r), untrack: some(r), field25: probe(r), field15: some(r), field32: Box::new(probe(r)), field1: Box::new(probe(r)), Location: maybe(r, |r| Box::new(probe(r))), location_: probe(r), field16: many(r, |r| many(r, probe)), field19: probe(r), field27: maybe(r, |r| Box::new(probe(r))), field6: r.chance(1, 2), semi: r.chance(1, 2), location: some(r), field26: r.chance(1, 2), field3: Box::new(probe(r)), field24: r.chance(1, 2), field29: many(r, probe), field2: probe(r), field0: some(r), _f0: some(r), field31: many(r, probe), _f1: maybe(r, probe), field30: r.chance(1, 2), field8: probe(r), field5: probe(r), field33: maybe(r, probe), field21: some(r), field9: some(r), field12: Box::new(probe(r)), a: probe(r), locations: many(r, some) },
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub struct S93(Probe, Probe, Option<Probe>, bool, Vec<Probe>, Vec<Vec<Probe>>, Probe, Option<Probe>, bool, Option<Span>, Option<Box<Probe>>, bool, Vec<Probe>, bool, Vec<Probe>, Probe, Vec<Probe>, Option<Probe>, Vec<Vec<Probe>>, Box<Probe>, Vec<Probe>, Option<Box<Probe>>, Option<Probe>, Box<Probe>, bool, Option<Box<Probe>>, Option<Span>, Vec<Option<Span>>, Vec<Option<Span>>, Option<Box<Probe>>, Option<Box<Probe>>, Option<Span>, Vec<Vec<Probe>>, Option<Box<Probe>>, Box<Probe>, Box<Probe>, bool, Option<Probe>, Option<Box<Probe>>, Vec<Vec<Probe>>, Option<Probe>, Vec<Option<Span>>, Box<Probe>, Option<Probe>, Vec<Probe>, Vec<Vec<Probe>>, Vec<Probe>, Option<Box<Probe>>, Option<Box<Probe>>, Option<Span>, Option<Box<Probe>>, bool, Vec<Probe>, Option<Box<Probe>>, Option<Probe>, Probe, Option<Box<Probe>>, bool, Option<Probe>, Option<Probe>, Option<Span>, Option<Box<Probe>>, Option<Probe>, Vec<Vec<Probe>>, Vec<Probe>, Probe, Vec<Probe>, Vec<Option<Span>>, bool, Vec<Option<Span>>, Option<Probe>, Vec<Probe>, Option<Probe>, Vec<Vec<Probe>>, Vec<Probe>, Option<Span>, Option<Probe>, Vec<Option<Span>>, Vec<Probe>, Probe, Box<Probe>, bool, bool, Box<Probe>, Vec<Probe>, Vec<Option<Span>>, Vec<Probe>, Box<Probe>, Box<Probe>, bool, Vec<Option<Span>>, Vec<Probe>, bool, Vec<Probe>, Option<Span>, Vec<Vec<Probe>>, Box<Probe>, Box<Probe>, Option<Box<Probe>>, Vec<Option<Span>>);

impl Shape for S93 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S93(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6, ref mut g7, ref mut g8, ref mut g9, ref mut g10, ref mut g11, ref mut g12, ref mut g13, ref mut g14, ref mut g15, ref mut g16, ref mut g17, ref mut g18, ref mut g19, ref mut g20, ref mut g21, ref mut g22, ref mut g23, ref mut g24, ref mut g25, ref mut g26, ref mut g27, ref mut g28, ref mut g29, ref mut g30, ref mut g31, ref mut g32, ref mut g33, ref mut g34, ref mut g35, ref mut g36, ref mut g37, ref mut g38, ref mut g39, ref mut g40, ref mut g41, ref mut g42, ref mut g43, ref mut g44, ref mut g45, ref mut g46, ref mut g47, ref mut g48, ref mut g49, ref mut g50, ref mut g51, ref mut g52, ref mut g53, ref mut g54, ref mut g55, ref mut g56, ref mut g57, ref mut g58, ref mut g59, ref mut g60, ref mut g61, ref mut g62, ref mut g63, ref mut g64, ref mut g65, ref mut g66, ref mut g67, ref mut g68, ref mut g69, ref mut g70, ref mut g71, ref mut g72, ref mut g73, ref mut g74, ref mut g75, ref mut g76, ref mut g77, ref mut g78, ref mut g79, ref mut g80, ref mut g81, ref mut g82, ref mut g83, ref mut g84, ref mut g85, ref mut g86, ref mut g87, ref mut g88, ref mut g89, ref mut g90, ref mut g91, ref mut g92, ref mut g93, ref mut g94, ref mut g95, ref mut g96, ref mut g97, ref mut g98, ref mut g99) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } let _ = g3; for x in g4 { o.push(Leaf::P(x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g6)); if let Some(x) = g7 { o.push(Leaf::P(x)); } let _ = g8; o.push(Leaf::S(g9)); if let Some(x) = g10 { o.push(Leaf::P(&mut **x)); } let _ = g11; for x in g12 { o.push(Leaf::P(x)); } let _ = g13; for x in g14 { o.push(Leaf::P(x)); } o.push(Leaf::P(g15)); for x in g16 { o.push(Leaf::P(x)); } if let Some(x) = g17 { o.push(Leaf::P(x)); } for x in g18.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g19)); for x in g20 { o.push(Leaf::P(x)); } if let Some(x) = g21 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g22 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g23)); let _ = g24; if let Some(x) = g25 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g26)); for x in g27 { o.push(Leaf::S(x)); } for x in g28 { o.push(Leaf::S(x)); } if let Some(x) = g29 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g30 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g31)); for x in g32.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g33 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g34)); o.push(Leaf::P(&mut **g35)); let _ = g36; if let Some(x) = g37 { o.push(Leaf::P(x)); } if let Some(x) = g38 { o.push(Leaf::P(&mut **x)); } for x in g39.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g40 { o.push(Leaf::P(x)); } for x in g41 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g42)); if let Some(x) = g43 { o.push(Leaf::P(x)); } for x in g44 { o.push(Leaf::P(x)); } for x in g45.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g46 { o.push(Leaf::P(x)); } if let Some(x) = g47 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g48 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g49)); if let Some(x) = g50 { o.push(Leaf::P(&mut **x)); } let _ = g51; for x in g52 { o.push(Leaf::P(x)); } if let Some(x) = g53 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g54 { o.push(Leaf::P(x)); } o.push(Leaf::P(g55)); if let Some(x) = g56 { o.push(Leaf::P(&mut **x)); } let _ = g57; if let Some(x) = g58 { o.push(Leaf::P(x)); } if let Some(x) = g59 { o.push(Leaf::P(x)); } o.push(Leaf::S(g60)); if let Some(x) = g61 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g62 { o.push(Leaf::P(x)); } for x in g63.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g64 { o.push(Leaf::P(x)); } o.push(Leaf::P(g65)); for x in g66 { o.push(Leaf::P(x)); } for x in g67 { o.push(Leaf::S(x)); } let _ = g68; for x in g69 { o.push(Leaf::S(x)); } if let Some(x) = g70 { o.push(Leaf::P(x)); } for x in g71 { o.push(Leaf::P(x)); } if let Some(x) = g72 { o.push(Leaf::P(x)); } for x in g73.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g74 { o.push(Leaf::P(x)); } o.push(Leaf::S(g75)); if let Some(x) = g76 { o.push(Leaf::P(x)); } for x in g77 { o.push(Leaf::S(x)); } for x in g78 { o.push(Leaf::P(x)); } o.push(Leaf::P(g79)); o.push(Leaf::P(&mut **g80)); let _ = g81; let _ = g82; o.push(Leaf::P(&mut **g83)); for x in g84 { o.push(Leaf::P(x)); } for x in g85 { o.push(Leaf::S(x)); } for x in g86 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g87)); o.push(Leaf::P(&mut **g88)); let _ = g89; for x in g90 { o.push(Leaf::S(x)); } for x in g91 { o.push(Leaf::P(x)); } let _ = g92; for x in g93 { o.push(Leaf::P(x)); } o.push(Leaf::S(g94)); for x in g95.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g96)); o.push(Leaf::P(&mut **g97)); if let Some(x) = g98 { o.push(Leaf::P(&mut **x)); } for x in g99 { o.push(Leaf::S(x)); } }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(1) {
            _ => S93(probe(r), probe(r), maybe(r, probe), r.chance(1, 2), many(r, probe), many(r, |r| many(r, probe)), probe(r), maybe(r, probe), r.chance(1, 2), some(r), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), many(r, probe), r.chance(1, 2), many(r, probe), probe(r), many(r, probe), maybe(r, probe), many(r, |r| many(r, probe)), Box::new(probe(r)), many(r, probe), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), Box::new(probe(r)), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), some(r), many(r, some), many(r, some), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r))), some(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), Box::new(probe(r)), r.chance(1, 2), maybe(r, probe), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), maybe(r, probe), many(r, some), Box::new(probe(r)), maybe(r, probe), many(r, probe), many(r, |r| many(r, probe)), many(r, probe), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r))), some(r), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), many(r, probe), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), probe(r), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), maybe(r, probe), maybe(r, probe), some(r), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), many(r, |r| many(r, probe)), many(r, probe), probe(r), many(r, probe), many(r, some), r.chance(1, 2), many(r, some), maybe(r, probe), many(r, probe), maybe(r, probe), many(r, |r| many(r, probe)), many(r, probe), some(r), maybe(r, probe), many(r, some), many(r, probe), probe(r), Box::new(probe(r)), r.chance(1, 2), r.chance(1, 2), Box::new(probe(r)), many(r, probe), many(r, some), many(r, probe), Box::new(probe(r)), Box::new(probe(r)), r.chance(1, 2), many(r, some), many(r, probe), r.chance(1, 2), many(r, probe), some(r), many(r, |r| many(r, probe)), Box::new(probe(r)), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), many(r, some)),
        }
    }
}

#[derive(TrackingRef, TrackingMut, Untrack)]
pub enum S94 { V0(Option<Span>), V1(Option<Span>), V2(Option<Span>), V3(Option<Span>, Vec<Option<Span>>, Vec<Option<Span>>, Probe), V4(Option<Span>, Vec<Option<Span>>, Vec<Option<Span>>, Vec<Probe>), V5(Option<Span>, Option<Probe>, bool), V6(Probe), V7 { location: Option<Span> }, V8(Option<Span>, Box<Probe>, bool, Vec<Probe>, Vec<Probe>, bool, Probe), V9(Option<Span>, bool, Probe, Vec<Probe>, Option<Span>, Vec<Probe>, bool), V10(Option<Span>, Vec<Probe>, Box<Probe>, bool), V11(Probe, Vec<Vec<Probe>>), V12(Option<Span>), V13 { b: Vec<Option<Span>>, location_: bool, _f0: Probe, location: Option<Span> }, V14 { tracking_ref: Box<Probe>, location: Option<Span> }, V15 { semi: Box<Probe>, locations: Vec<Probe>, Location: bool, untrack: Vec<Probe>, loc: Probe, _f2: Option<Probe>, location: Option<Span> }, V16(Option<Span>), V17(Option<Span>), V18 { location: Option<Span>, tracking_ref: Vec<Probe> }, V19 { tracking_ref: bool, location: Option<Span> }, V20(Probe, Box<Probe>, Vec<Probe>, Probe), V21 { location: Option<Span> }, V22(Probe, Vec<Option<Span>>, Option<Span>), V23 { loc: Option<Box<Probe>>, location_: Vec<Option<Span>>, location: Option<Span> }, V24 { Location: Option<Probe>, span: Option<Span>, locations: Option<Span>, untrack: Option<Box<Probe>>, inner: bool, b: bool, location: Option<Span> }, V25(Option<Span>, Option<Box<Probe>>, Box<Probe>, Vec<Vec<Probe>>), V26 { location: Option<Span>, tracking_ref: Vec<Probe>, _f0: Option<Probe> }, V27(Option<Span>), V28 { semi: Vec<Probe>, expr: Vec<Probe>, Location: bool, location_: Vec<Vec<Probe>>, tracking_ref: Option<Box<Probe>>, location: Option<Span>, _f1: Probe }, V29(Option<Span>), V30(Option<Span>), V31 { location: Option<Span> }, V32(Probe), V33(Option<Span>, Box<Probe>, Option<Box<Probe>>, Option<Probe>, Vec<Probe>, Option<Box<Probe>>, Option<Span>), V34(Probe, Option<Probe>, Box<Probe>, Vec<Vec<Probe>>, Option<Probe>, bool, Vec<Option<Span>>), V35(Option<Span>, bool, Vec<Probe>, bool), V36(Option<Span>, Vec<Probe>, Probe, Box<Probe>), V37 { location: Option<Span>, tracking_ref: Option<Box<Probe>>, semi: Vec<Option<Span>> }, V38(Option<Span>, bool, Box<Probe>, Probe, Option<Box<Probe>>, Option<Box<Probe>>, Box<Probe>), V39(Option<Span>, Option<Span>, Vec<Option<Span>>, Vec<Option<Span>>, Probe, Option<Box<Probe>>, Probe), V40(Option<Span>, Vec<Probe>, Box<Probe>, bool), V41(Option<Span>, Box<Probe>), V42 { location: Option<Span> }, V43(Option<Span>, bool, Probe, Vec<Vec<Probe>>), V44(Option<Span>, Option<Probe>), V45 { b: Option<Span>, location: Option<Span> }, V46(Probe), V47(Probe, Option<Span>, Box<Probe>, Option<Span>, Option<Probe>, Option<Probe>, Vec<Option<Span>>), V48(Option<Span>, Vec<Option<Span>>, Vec<Probe>, Option<Span>, Vec<Vec<Probe>>, Option<Probe>, Option<Probe>), V49 { location: Option<Span>, span: Option<Box<Probe>> }, V50(Probe), V51(Probe), V52 { x9: Option<Probe>, location: Option<Span>, _f2: bool, tracking_ref: Vec<Vec<Probe>> }, V53(Option<Span>), V54 { location: Option<Span>, _f0: Option<Box<Probe>>, b: bool, Location: Option<Span> }, V55(Option<Span>, Box<Probe>), V56(Option<Span>), V57 { a: Vec<Vec<Probe>>, semi: bool, location: Option<Span>, _f1: Vec<Option<Span>> }, V58(Probe), V59(Probe, Option<Probe>), V60 { location: Option<Span> }, V61(Option<Span>, Option<Span>, Option<Probe>, Option<Probe>, Probe, Box<Probe>, Option<Probe>), V62(Probe), V63(Option<Span>), V64(Option<Span>, Option<Probe>, Box<Probe>, Vec<Vec<Probe>>, Option<Box<Probe>>, Option<Probe>, Option<Span>), V65 { Location: Option<Box<Probe>>, location: Option<Span>, locations: Probe, b: Box<Probe>, span: Probe, x9: Option<Span>, loc: Option<Span> }, V66(Option<Span>), V67(Option<Span>, Vec<Option<Span>>, Vec<Probe>), V68(Option<Span>, Option<Probe>, bool), V69 { Location: Box<Probe>, location: Option<Span>, semi: Option<Box<Probe>>, _f2: Option<Span> }, V70(Option<Span>, Vec<Option<Span>>), V71(Probe, bool, Option<Box<Probe>>, Vec<Probe>, Probe, Probe, Option<Box<Probe>>), V72(Option<Span>, Box<Probe>, Vec<Vec<Probe>>, Probe), V73 { location: Option<Span>, span: Option<Box<Probe>>, _f0: Option<Probe> }, V74 { Location: Vec<Option<Span>>, location: Option<Span>, _f0: Option<Probe> }, V75(Option<Span>, Option<Box<Probe>>, Probe), V76(Option<Span>, Option<Probe>, Option<Box<Probe>>), V77 { span: Probe, locations: Option<Probe>, location: Option<Span> }, V78(Option<Span>), V79(Option<Span>, Box<Probe>, Box<Probe>, bool), V80(Option<Span>, bool, Vec<Probe>), V81(Option<Span>, Vec<Probe>, Option<Probe>, Vec<Probe>), V82 { location: Option<Span> }, V83(Probe, Vec<Vec<Probe>>), V84 { location: Option<Span>, location_: Option<Box<Probe>> }, V85(Option<Span>), V86(Probe), V87(Option<Span>, Vec<Option<Span>>, Option<Box<Probe>>), V88 { location: Option<Span> }, V89(Option<Span>, Vec<Probe>), V90(Probe, Vec<Option<Span>>, Vec<Vec<Probe>>, Option<Probe>, Vec<Probe>, Vec<Vec<Probe>>, bool), V91(Option<Span>, Box<Probe>, Option<Span>, bool, Vec<Vec<Probe>>, Option<Probe>, Vec<Option<Span>>), V92(Option<Span>, bool, Option<Probe>, Vec<Probe>), V93(Option<Span>, Probe, Option<Box<Probe>>, Option<Box<Probe>>), V94(Option<Span>, Vec<Vec<Probe>>, Option<Box<Probe>>), V95(Option<Span>, Option<Span>, Option<Span>, Probe), V96 { location: Option<Span> }, V97(Probe, Option<Box<Probe>>), V98(Option<Span>, Option<Probe>, Option<Probe>), V99(Option<Span>, Option<Span>, Option<Span>), V100(Probe, Box<Probe>), V101(Option<Span>, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Probe), V102(Option<Span>, bool), V103 { location: Option<Span>, locations: Box<Probe>, untrack: Vec<Vec<Probe>>, inner: Option<Box<Probe>>, location_: Box<Probe>, b: Option<Box<Probe>>, _f2: bool }, V104(Option<Span>, Option<Box<Probe>>), V105(Option<Span>), V106(Option<Span>), V107(Option<Span>, Probe, Box<Probe>, Probe, Vec<Probe>, Probe, Option<Probe>), V108 { _f0: Vec<Vec<Probe>>, _f1: Option<Box<Probe>>, locations: Vec<Option<Span>>, location: Option<Span> }, V109 { expr: Option<Box<Probe>>, location: Option<Span>, loc: Vec<Option<Span>>, _f2: Box<Probe>, Location: Option<Probe>, untrack: Probe, inner: Option<Probe> }, V110 { _f1: Probe, loc: Box<Probe>, Location: Vec<Option<Span>>, b: Option<Box<Probe>>, expr: Box<Probe>, _f0: Box<Probe>, location: Option<Span> }, V111(Probe, Option<Span>, Probe), V112 { location: Option<Span> }, V113(Option<Span>, Box<Probe>, bool), V114 { expr: Option<Span>, location_: Option<Box<Probe>>, location: Option<Span> }, V115(Probe, Probe, Vec<Option<Span>>, Option<Probe>), V116(Option<Span>, bool, Vec<Option<Span>>, Option<Span>), V117(Option<Span>, Box<Probe>, Option<Span>), V118(Probe, Option<Span>, bool, Vec<Probe>), V119 { location: Option<Span> }, V120(Option<Span>, Probe, Option<Span>, Box<Probe>), V121 { _f1: bool, location: Option<Span>, locations: Box<Probe> }, V122 { b: Vec<Probe>, location_: Vec<Option<Span>>, _f2: Vec<Vec<Probe>>, location: Option<Span> }, V123(Probe), V124(Option<Span>, Option<Span>, Vec<Vec<Probe>>, Option<Span>), V125(Option<Span>, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Option<Probe>), V126(Probe, Vec<Option<Span>>, Option<Probe>, Vec<Probe>), V127(Option<Span>), V128 { location: Option<Span>, untrack: Vec<Vec<Probe>> }, V129(Option<Span>), V130(Option<Span>), V131(Option<Span>, Option<Box<Probe>>, Vec<Vec<Probe>>), V132(Option<Span>), V133 { location: Option<Span>, a: Option<Box<Probe>> }, V134(Option<Span>, Box<Probe>), V135 { b: Probe, span: Option<Box<Probe>>, _f0: Option<Probe>, inner: Option<Box<Probe>>, loc: Option<Box<Probe>>, location: Option<Span>, _f1: bool }, V136 { location: Option<Span> }, V137(Probe, Vec<Vec<Probe>>, Vec<Probe>, Probe, Vec<Vec<Probe>>, Vec<Probe>, Option<Box<Probe>>), V138(Option<Span>), V139(Option<Span>), V140(Option<Span>, Option<Box<Probe>>, Vec<Probe>, Option<Probe>, Option<Box<Probe>>, Probe, Option<Probe>), V141(Option<Span>, Option<Box<Probe>>, Option<Probe>, Vec<Vec<Probe>>, Option<Span>, Vec<Vec<Probe>>, Option<Probe>), V142(Probe, Vec<Option<Span>>, Box<Probe>), V143(Option<Span>), V144(Probe, Vec<Vec<Probe>>, Vec<Option<Span>>, Vec<Probe>), V145(Probe), V146 { location: Option<Span> }, V147(Option<Span>), V148 { location: Option<Span> }, V149(Probe, Option<Span>), V150(Option<Span>, Vec<Probe>), V151(Probe, Vec<Probe>, Vec<Vec<Probe>>, Option<Span>, Option<Span>, Vec<Option<Span>>, Vec<Probe>), V152(Probe), V153(Option<Span>, Vec<Probe>, Vec<Probe>), V154 { location: Option<Span>, semi: bool }, V155(Probe, Probe, Vec<Vec<Probe>>, bool), V156(Option<Span>, Probe, Option<Probe>, Box<Probe>), V157(Option<Span>), V158 { location: Option<Span> }, V159(Option<Span>, Vec<Vec<Probe>>, Box<Probe>), V160(Option<Span>), V161(Option<Span>, bool), V162(Probe, Option<Span>, Option<Box<Probe>>), V163 { b: Option<Box<Probe>>, location: Option<Span>, locations: Box<Probe>, _f1: Vec<Probe>, Location: Probe, span: Box<Probe>, x9: bool }, V164(Option<Span>, Box<Probe>, Vec<Vec<Probe>>, Box<Probe>), V165 { untrack: Option<Box<Probe>>, tracking_ref: Box<Probe>, location: Option<Span> }, V166(Option<Span>, Option<Span>, Box<Probe>), V167(Probe, Option<Box<Probe>>, Probe, Option<Span>, bool, Vec<Probe>, Vec<Probe>), V168 { location: Option<Span>, expr: Option<Probe> }, V169 { location: Option<Span>, Location: Vec<Vec<Probe>>, _f0: Vec<Option<Span>> }, V170(Option<Span>), V171(Option<Span>, Option<Probe>, Probe, Box<Probe>, Vec<Probe>, Vec<Option<Span>>, Box<Probe>), V172(Option<Span>, Option<Span>, Option<Probe>, Vec<Vec<Probe>>), V173 { location: Option<Span> }, V174(Probe, Option<Box<Probe>>, Option<Probe>, Option<Box<Probe>>), V175 { location: Option<Span> }, V176(Option<Span>), V177 { inner: bool, a: Box<Probe>, location: Option<Span>, x9: Option<Probe>, Location: Vec<Vec<Probe>>, _f1: Vec<Option<Span>>, expr: Vec<Vec<Probe>> }, V178(Option<Span>, Option<Box<Probe>>), V179(Option<Span>), V180(Option<Span>, Probe, bool), V181(Option<Span>, Option<Box<Probe>>), V182(Option<Span>, Box<Probe>), V183(Probe, Option<Box<Probe>>, Vec<Probe>, Vec<Probe>), V184 { location: Option<Span> }, V185(Option<Span>, Box<Probe>, Option<Probe>, Option<Span>, Box<Probe>, Vec<Vec<Probe>>, Vec<Probe>), V186 { location: Option<Span> }, V187(Option<Span>), V188(Option<Span>), V189 { location: Option<Span>, locations: Probe, tracking_ref: Probe, a: Vec<Option<Span>> }, V190(Option<Span>, Vec<Vec<Probe>>), V191(Option<Span>, Vec<Option<Span>>, Probe, Box<Probe>), V192(Option<Span>, Option<Span>, Vec<Probe>, Option<Box<Probe>>), V193 { b: Probe, location: Option<Span> }, V194 { location: Option<Span> }, V195(Option<Span>), V196 { location: Option<Span>, location_: Probe, span: Probe, _f0: Option<Probe>, x9: Option<Probe>, locations: bool, inner: Box<Probe> }, V197(Probe), V198 { location: Option<Span> }, V199(Option<Span>, Vec<Probe>, Option<Box<Probe>>, Vec<Vec<Probe>>, bool, Option<Span>, Vec<Vec<Probe>>), V200 { location: Option<Span>, _f2: Box<Probe>, tracking_ref: Probe, Location: bool, b: Box<Probe>, _f1: Option<Probe>, inner: Vec<Probe> }, V201 { expr: Option<Span>, span: Option<Probe>, location: Option<Span>, Location: Option<Span> }, V202(Option<Span>, Option<Probe>, bool), V203(Option<Span>), V204(Probe), V205(Option<Span>), V206 { location: Option<Span> }, V207(Option<Span>), V208(Option<Span>, Option<Span>), V209 { x9: Option<Span>, inner: Box<Probe>, _f1: Option<Probe>, a: Option<Span>, expr: Vec<Vec<Probe>>, location_: Vec<Vec<Probe>>, location: Option<Span> }, V210(Option<Span>, Vec<Option<Span>>, Vec<Option<Span>>, Box<Probe>, bool, Box<Probe>, Vec<Vec<Probe>>), V211 { location: Option<Span>, a: bool, semi: Option<Box<Probe>>, Location: Probe }, V212 { Location: Option<Span>, location: Option<Span>, _f0: Probe, expr: Probe, _f1: Option<Probe>, _f2: Option<Span>, locations: Vec<Vec<Probe>> }, V213 { loc: Vec<Probe>, location: Option<Span>, inner: Vec<Option<Span>> }, V214(Probe, Vec<Option<Span>>), V215 { location: Option<Span> }, V216 { b: Box<Probe>, _f2: Option<Probe>, location: Option<Span>, a: Vec<Probe> }, V217 { location: Option<Span> }, V218 { location: Option<Span>, _f0: Vec<Vec<Probe>>, untrack: Vec<Vec<Probe>> }, V219(Option<Span>), V220(Probe), V221(Option<Span>, Box<Probe>, Option<Box<Probe>>, Vec<Vec<Probe>>), V222(Option<Span>, Probe, Option<Span>, bool, Option<Probe>, Probe, Vec<Vec<Probe>>), V223(Probe, Vec<Probe>, Vec<Probe>, Box<Probe>), V224(Option<Span>, Option<Probe>, Vec<Probe>), V225(Option<Span>, bool, bool), V226(Option<Span>, Option<Box<Probe>>, Vec<Vec<Probe>>), V227 { location: Option<Span> }, V228(Probe, Option<Box<Probe>>, Box<Probe>, Vec<Probe>, Probe, Option<Span>, Option<Box<Probe>>), V229(Option<Span>), V230(Probe, Probe), V231(Probe), V232 { location: Option<Span>, tracking_ref: Probe, _f0: Vec<Option<Span>> }, V233(Probe, Vec<Probe>, Vec<Probe>), V234(Option<Span>, Box<Probe>, Option<Probe>, Vec<Vec<Probe>>, Vec<Probe>, Option<Span>, Vec<Option<Span>>), V235(Option<Span>, Probe, bool, Box<Probe>), V236(Option<Span>), V237 { location: Option<Span> }, V238(Option<Span>, Option<Span>, Vec<Vec<Probe>>, Vec<Probe>, Option<Box<Probe>>, bool, Option<Span>), V239(Probe), V240(Option<Span>, Vec<Probe>, Box<Probe>, Option<Probe>), V241(Option<Span>), V242(Option<Span>, Option<Probe>, bool), V243(Option<Span>), V244(Option<Span>), V245(Probe, Vec<Probe>), V246(Probe), V247 { location: Option<Span>, _f1: Option<Span> }, V248 { location: Option<Span> }, V249(Probe, Option<Span>, Vec<Probe>), V250 { a: Vec<Vec<Probe>>, loc: Probe, location_: Probe, span: Vec<Vec<Probe>>, location: Option<Span>, _f0: Vec<Probe>, locations: Vec<Option<Span>> }, V251(Probe), V252 { location: Option<Span>, _f2: Box<Probe> }, V253 { untrack: Box<Probe>, expr: Vec<Vec<Probe>>, location: Option<Span> }, V254 { location_: Box<Probe>, loc: Vec<Option<Span>>, location: Option<Span>, span: Option<Span> }, V255(Option<Span>, Vec<Option<Span>>, bool, Option<Box<Probe>>), V256(Option<Span>) }

impl Shape for S94 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S94::V0(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V1(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V2(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V3(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::P(g3)); }
            S94::V4(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::S(x)); } for x in g3 { o.push(Leaf::P(x)); } }
            S94::V5(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } let _ = g2; }
            S94::V6(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V7 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V8(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); let _ = g2; for x in g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::P(x)); } let _ = g5; o.push(Leaf::P(g6)); }
            S94::V9(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::S(g4)); for x in g5 { o.push(Leaf::P(x)); } let _ = g6; }
            S94::V10(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); let _ = g3; }
            S94::V11(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V12(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V13 { b: ref mut g0, location_: ref mut g1, _f0: ref mut g2, location: ref mut g3 } => { for x in g0 { o.push(Leaf::S(x)); } let _ = g1; o.push(Leaf::P(g2)); at = Some(o.len()); o.push(Leaf::S(g3)); }
            S94::V14 { tracking_ref: ref mut g0, location: ref mut g1 } => { o.push(Leaf::P(&mut **g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
            S94::V15 { semi: ref mut g0, locations: ref mut g1, Location: ref mut g2, untrack: ref mut g3, loc: ref mut g4, _f2: ref mut g5, location: ref mut g6 } => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::P(x)); } let _ = g2; for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); if let Some(x) = g5 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g6)); }
            S94::V16(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V17(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V18 { location: ref mut g0, tracking_ref: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S94::V19 { tracking_ref: ref mut g0, location: ref mut g1 } => { let _ = g0; at = Some(o.len()); o.push(Leaf::S(g1)); }
            S94::V20(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); }
            S94::V21 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V22(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::S(g2)); }
            S94::V23 { loc: ref mut g0, location_: ref mut g1, location: ref mut g2 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); }
            S94::V24 { Location: ref mut g0, span: ref mut g1, locations: ref mut g2, untrack: ref mut g3, inner: ref mut g4, b: ref mut g5, location: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } let _ = g4; let _ = g5; at = Some(o.len()); o.push(Leaf::S(g6)); }
            S94::V25(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V26 { location: ref mut g0, tracking_ref: ref mut g1, _f0: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } }
            S94::V27(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V28 { semi: ref mut g0, expr: ref mut g1, Location: ref mut g2, location_: ref mut g3, tracking_ref: ref mut g4, location: ref mut g5, _f1: ref mut g6 } => { for x in g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } let _ = g2; for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } at = Some(o.len()); o.push(Leaf::S(g5)); o.push(Leaf::P(g6)); }
            S94::V29(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V30(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V31 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V32(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V33(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g6)); }
            S94::V34(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(x)); } let _ = g5; for x in g6 { o.push(Leaf::S(x)); } }
            S94::V35(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; for x in g2 { o.push(Leaf::P(x)); } let _ = g3; }
            S94::V36(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); o.push(Leaf::P(&mut **g3)); }
            S94::V37 { location: ref mut g0, tracking_ref: ref mut g1, semi: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::S(x)); } }
            S94::V38(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; o.push(Leaf::P(&mut **g2)); o.push(Leaf::P(g3)); if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g6)); }
            S94::V39(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::S(x)); } for x in g3 { o.push(Leaf::S(x)); } o.push(Leaf::P(g4)); if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g6)); }
            S94::V40(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); let _ = g3; }
            S94::V41(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); }
            S94::V42 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V43(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; o.push(Leaf::P(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V44(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } }
            S94::V45 { b: ref mut g0, location: ref mut g1 } => { o.push(Leaf::S(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
            S94::V46(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V47(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); o.push(Leaf::S(g3)); if let Some(x) = g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::S(x)); } }
            S94::V48(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S94::V49 { location: ref mut g0, span: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S94::V50(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V51(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V52 { x9: ref mut g0, location: ref mut g1, _f2: ref mut g2, tracking_ref: ref mut g3 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g1)); let _ = g2; for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V53(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V54 { location: ref mut g0, _f0: ref mut g1, b: ref mut g2, Location: ref mut g3 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } let _ = g2; o.push(Leaf::S(g3)); }
            S94::V55(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); }
            S94::V56(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V57 { a: ref mut g0, semi: ref mut g1, location: ref mut g2, _f1: ref mut g3 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g1; at = Some(o.len()); o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::S(x)); } }
            S94::V58(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V59(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } }
            S94::V60 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V61(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); o.push(Leaf::P(&mut **g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S94::V62(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V63(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V64(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } o.push(Leaf::S(g6)); }
            S94::V65 { Location: ref mut g0, location: ref mut g1, locations: ref mut g2, b: ref mut g3, span: ref mut g4, x9: ref mut g5, loc: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } at = Some(o.len()); o.push(Leaf::S(g1)); o.push(Leaf::P(g2)); o.push(Leaf::P(&mut **g3)); o.push(Leaf::P(g4)); o.push(Leaf::S(g5)); o.push(Leaf::S(g6)); }
            S94::V66(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V67(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S94::V68(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } let _ = g2; }
            S94::V69 { Location: ref mut g0, location: ref mut g1, semi: ref mut g2, _f2: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); at = Some(o.len()); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g3)); }
            S94::V70(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } }
            S94::V71(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); o.push(Leaf::P(g5)); if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S94::V72(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); }
            S94::V73 { location: ref mut g0, span: ref mut g1, _f0: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } }
            S94::V74 { Location: ref mut g0, location: ref mut g1, _f0: ref mut g2 } => { for x in g0 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } }
            S94::V75(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g2)); }
            S94::V76(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S94::V77 { span: ref mut g0, locations: ref mut g1, location: ref mut g2 } => { o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); }
            S94::V78(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V79(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(&mut **g2)); let _ = g3; }
            S94::V80(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; for x in g2 { o.push(Leaf::P(x)); } }
            S94::V81(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } }
            S94::V82 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V83(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V84 { location: ref mut g0, location_: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S94::V85(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V86(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V87(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S94::V88 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V89(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S94::V90(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::P(x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g6; }
            S94::V91(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::S(g2)); let _ = g3; for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::S(x)); } }
            S94::V92(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } }
            S94::V93(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S94::V94(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S94::V95(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::S(g2)); o.push(Leaf::P(g3)); }
            S94::V96 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V97(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S94::V98(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } }
            S94::V99(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::S(g2)); }
            S94::V100(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); }
            S94::V101(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); }
            S94::V102(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; }
            S94::V103 { location: ref mut g0, locations: ref mut g1, untrack: ref mut g2, inner: ref mut g3, location_: ref mut g4, b: ref mut g5, _f2: ref mut g6 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g4)); if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } let _ = g6; }
            S94::V104(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S94::V105(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V106(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V107(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(&mut **g2)); o.push(Leaf::P(g3)); for x in g4 { o.push(Leaf::P(x)); } o.push(Leaf::P(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S94::V108 { _f0: ref mut g0, _f1: ref mut g1, locations: ref mut g2, location: ref mut g3 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g3)); }
            S94::V109 { expr: ref mut g0, location: ref mut g1, loc: ref mut g2, _f2: ref mut g3, Location: ref mut g4, untrack: ref mut g5, inner: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } at = Some(o.len()); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g3)); if let Some(x) = g4 { o.push(Leaf::P(x)); } o.push(Leaf::P(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S94::V110 { _f1: ref mut g0, loc: ref mut g1, Location: ref mut g2, b: ref mut g3, expr: ref mut g4, _f0: ref mut g5, location: ref mut g6 } => { o.push(Leaf::P(g0)); o.push(Leaf::P(&mut **g1)); for x in g2 { o.push(Leaf::S(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g4)); o.push(Leaf::P(&mut **g5)); at = Some(o.len()); o.push(Leaf::S(g6)); }
            S94::V111(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(g2)); }
            S94::V112 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V113(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); let _ = g2; }
            S94::V114 { expr: ref mut g0, location_: ref mut g1, location: ref mut g2 } => { o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } at = Some(o.len()); o.push(Leaf::S(g2)); }
            S94::V115(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::S(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S94::V116(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::S(g3)); }
            S94::V117(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::S(g2)); }
            S94::V118(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); let _ = g2; for x in g3 { o.push(Leaf::P(x)); } }
            S94::V119 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V120(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); o.push(Leaf::S(g2)); o.push(Leaf::P(&mut **g3)); }
            S94::V121 { _f1: ref mut g0, location: ref mut g1, locations: ref mut g2 } => { let _ = g0; at = Some(o.len()); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); }
            S94::V122 { b: ref mut g0, location_: ref mut g1, _f2: ref mut g2, location: ref mut g3 } => { for x in g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g3)); }
            S94::V123(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V124(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); }
            S94::V125(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S94::V126(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } }
            S94::V127(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V128 { location: ref mut g0, untrack: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V129(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V130(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V131(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V132(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V133 { location: ref mut g0, a: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S94::V134(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); }
            S94::V135 { b: ref mut g0, span: ref mut g1, _f0: ref mut g2, inner: ref mut g3, loc: ref mut g4, location: ref mut g5, _f1: ref mut g6 } => { o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } at = Some(o.len()); o.push(Leaf::S(g5)); let _ = g6; }
            S94::V136 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V137(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S94::V138(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V139(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V140(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S94::V141(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S94::V142(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g2)); }
            S94::V143(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V144(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } for x in g3 { o.push(Leaf::P(x)); } }
            S94::V145(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V146 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V147(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V148 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V149(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); }
            S94::V150(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S94::V151(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); o.push(Leaf::S(g4)); for x in g5 { o.push(Leaf::S(x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S94::V152(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V153(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S94::V154 { location: ref mut g0, semi: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; }
            S94::V155(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g3; }
            S94::V156(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
            S94::V157(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V158 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V159(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); }
            S94::V160(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V161(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; }
            S94::V162(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S94::V163 { b: ref mut g0, location: ref mut g1, locations: ref mut g2, _f1: ref mut g3, Location: ref mut g4, span: ref mut g5, x9: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } at = Some(o.len()); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); o.push(Leaf::P(&mut **g5)); let _ = g6; }
            S94::V164(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
            S94::V165 { untrack: ref mut g0, tracking_ref: ref mut g1, location: ref mut g2 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g1)); at = Some(o.len()); o.push(Leaf::S(g2)); }
            S94::V166(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); o.push(Leaf::P(&mut **g2)); }
            S94::V167(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g2)); o.push(Leaf::S(g3)); let _ = g4; for x in g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S94::V168 { location: ref mut g0, expr: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } }
            S94::V169 { location: ref mut g0, Location: ref mut g1, _f0: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } }
            S94::V170(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V171(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); o.push(Leaf::P(&mut **g3)); for x in g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g6)); }
            S94::V172(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V173 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V174(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S94::V175 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V176(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V177 { inner: ref mut g0, a: ref mut g1, location: ref mut g2, x9: ref mut g3, Location: ref mut g4, _f1: ref mut g5, expr: ref mut g6 } => { let _ = g0; o.push(Leaf::P(&mut **g1)); at = Some(o.len()); o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V178(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S94::V179(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V180(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); let _ = g2; }
            S94::V181(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S94::V182(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); }
            S94::V183(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } }
            S94::V184 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V185(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); o.push(Leaf::P(&mut **g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S94::V186 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V187(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V188(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V189 { location: ref mut g0, locations: ref mut g1, tracking_ref: ref mut g2, a: ref mut g3 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::S(x)); } }
            S94::V190(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V191(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); o.push(Leaf::P(&mut **g3)); }
            S94::V192(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S94::V193 { b: ref mut g0, location: ref mut g1 } => { o.push(Leaf::P(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); }
            S94::V194 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V195(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V196 { location: ref mut g0, location_: ref mut g1, span: ref mut g2, _f0: ref mut g3, x9: ref mut g4, locations: ref mut g5, inner: ref mut g6 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(g2)); if let Some(x) = g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(x)); } let _ = g5; o.push(Leaf::P(&mut **g6)); }
            S94::V197(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V198 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V199(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g4; o.push(Leaf::S(g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V200 { location: ref mut g0, _f2: ref mut g1, tracking_ref: ref mut g2, Location: ref mut g3, b: ref mut g4, _f1: ref mut g5, inner: ref mut g6 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(g2)); let _ = g3; o.push(Leaf::P(&mut **g4)); if let Some(x) = g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S94::V201 { expr: ref mut g0, span: ref mut g1, location: ref mut g2, Location: ref mut g3 } => { o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); o.push(Leaf::S(g3)); }
            S94::V202(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } let _ = g2; }
            S94::V203(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V204(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V205(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V206 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V207(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V208(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); }
            S94::V209 { x9: ref mut g0, inner: ref mut g1, _f1: ref mut g2, a: ref mut g3, expr: ref mut g4, location_: ref mut g5, location: ref mut g6 } => { o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g6)); }
            S94::V210(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g3)); let _ = g4; o.push(Leaf::P(&mut **g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V211 { location: ref mut g0, a: ref mut g1, semi: ref mut g2, Location: ref mut g3 } => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g3)); }
            S94::V212 { Location: ref mut g0, location: ref mut g1, _f0: ref mut g2, expr: ref mut g3, _f1: ref mut g4, _f2: ref mut g5, locations: ref mut g6 } => { o.push(Leaf::S(g0)); at = Some(o.len()); o.push(Leaf::S(g1)); o.push(Leaf::P(g2)); o.push(Leaf::P(g3)); if let Some(x) = g4 { o.push(Leaf::P(x)); } o.push(Leaf::S(g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V213 { loc: ref mut g0, location: ref mut g1, inner: ref mut g2 } => { for x in g0 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::S(x)); } }
            S94::V214(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::S(x)); } }
            S94::V215 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V216 { b: ref mut g0, _f2: ref mut g1, location: ref mut g2, a: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::P(x)); } }
            S94::V217 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V218 { location: ref mut g0, _f0: ref mut g1, untrack: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V219(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V220(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V221(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V222(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); o.push(Leaf::S(g2)); let _ = g3; if let Some(x) = g4 { o.push(Leaf::P(x)); } o.push(Leaf::P(g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V223(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
            S94::V224(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S94::V225(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); let _ = g1; let _ = g2; }
            S94::V226(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S94::V227 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V228(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g2)); for x in g3 { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); o.push(Leaf::S(g5)); if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S94::V229(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V230(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); }
            S94::V231(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V232 { location: ref mut g0, tracking_ref: ref mut g1, _f0: ref mut g2 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::S(x)); } }
            S94::V233(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S94::V234(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::P(x)); } o.push(Leaf::S(g5)); for x in g6 { o.push(Leaf::S(x)); } }
            S94::V235(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); let _ = g2; o.push(Leaf::P(&mut **g3)); }
            S94::V236(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V237 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V238(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } let _ = g5; o.push(Leaf::S(g6)); }
            S94::V239(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V240(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S94::V241(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V242(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } let _ = g2; }
            S94::V243(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V244(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V245(ref mut g0, ref mut g1) => { at = Some(o.len()); o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S94::V246(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V247 { location: ref mut g0, _f1: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::S(g1)); }
            S94::V248 { location: ref mut g0 } => { at = Some(o.len()); o.push(Leaf::S(g0)); }
            S94::V249(ref mut g0, ref mut g1, ref mut g2) => { at = Some(o.len()); o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); for x in g2 { o.push(Leaf::P(x)); } }
            S94::V250 { a: ref mut g0, loc: ref mut g1, location_: ref mut g2, span: ref mut g3, location: ref mut g4, _f0: ref mut g5, locations: ref mut g6 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); o.push(Leaf::P(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g4)); for x in g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::S(x)); } }
            S94::V251(ref mut g0) => { at = Some(o.len()); o.push(Leaf::P(g0)); }
            S94::V252 { location: ref mut g0, _f2: ref mut g1 } => { at = Some(o.len()); o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); }
            S94::V253 { untrack: ref mut g0, expr: ref mut g1, location: ref mut g2 } => { o.push(Leaf::P(&mut **g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); }
            S94::V254 { location_: ref mut g0, loc: ref mut g1, location: ref mut g2, span: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::S(x)); } at = Some(o.len()); o.push(Leaf::S(g2)); o.push(Leaf::S(g3)); }
            S94::V255(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { at = Some(o.len()); o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } let _ = g2; if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S94::V256(ref mut g0) => { at = Some(o.len()); o.push(Leaf::S(g0)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(257) {
            0 => S94::V0(some(r)),
            1 => S94::V1(some(r)),
            2 => S94::V2(some(r)),
            3 => S94::V3(some(r), many(r, some), many(r, some), probe(r)),
            4 => S94::V4(some(r), many(r, some), many(r, some), many(r, probe)),
            5 => S94::V5(some(r), maybe(r, probe), r.chance(1, 2)),
            6 => S94::V6(probe(r)),
            7 => S94::V7 { location: some(r) },
            8 => S94::V8(some(r), Box::new(probe(r)), r.chance(1, 2), many(r, probe), many(r, probe), r.chance(1, 2), probe(r)),
            9 => S94::V9(some(r), r.chance(1, 2), probe(r), many(r, probe), some(r), many(r, probe), r.chance(1, 2)),
            10 => S94::V10(some(r), many(r, probe), Box::new(probe(r)), r.chance(1, 2)),
            11 => S94::V11(probe(r), many(r, |r| many(r, probe))),
            12 => S94::V12(some(r)),
            13 => S94::V13 { b: many(r, some), location_: r.chance(1, 2), _f0: probe(r), location: some(r) },
            14 => S94::V14 { tracking_ref: Box::new(probe(r)), location: some(r) },
            15 => S94::V15 { semi: Box::new(probe(r)), locations: many(r, probe), Location: r.chance(1, 2), untrack: many(r, probe), loc: probe(r), _f2: maybe(r, probe), location: some(r) },
            16 => S94::V16(some(r)),
            17 => S94::V17(some(r)),
            18 => S94::V18 { location: some(r), tracking_ref: many(r, probe) },
            19 => S94::V19 { tracking_ref: r.chance(1, 2), location: some(r) },
            20 => S94::V20(probe(r), Box::new(probe(r)), many(r, probe), probe(r)),
            21 => S94::V21 { location: some(r) },
            22 => S94::V22(probe(r), many(r, some), some(r)),
            23 => S94::V23 { loc: maybe(r, |r| Box::new(probe(r))), location_: many(r, some), location: some(r) },
            24 => S94::V24 { Location: maybe(r, probe), span: some(r), locations: some(r), untrack: maybe(r, |r| Box::new(probe(r))), inner: r.chance(1, 2), b: r.chance(1, 2), location: some(r) },
            25 => S94::V25(some(r), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), many(r, |r| many(r, probe))),
            26 => S94::V26 { location: some(r), tracking_ref: many(r, probe), _f0: maybe(r, probe) },
            27 => S94::V27(some(r)),
            28 => S94::V28 { semi: many(r, probe), expr: many(r, probe), Location: r.chance(1, 2), location_: many(r, |r| many(r, probe)), tracking_ref: maybe(r, |r| Box::new(probe(r))), location: some(r), _f1: probe(r) },
            29 => S94::V29(some(r)),
            30 => S94::V30(some(r)),
            31 => S94::V31 { location: some(r) },
            32 => S94::V32(probe(r)),
            33 => S94::V33(some(r), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), many(r, probe), maybe(r, |r| Box::new(probe(r))), some(r)),
            34 => S94::V34(probe(r), maybe(r, probe), Box::new(probe(r)), many(r, |r| many(r, probe)), maybe(r, probe), r.chance(1, 2), many(r, some)),
            35 => S94::V35(some(r), r.chance(1, 2), many(r, probe), r.chance(1, 2)),
            36 => S94::V36(some(r), many(r, probe), probe(r), Box::new(probe(r))),
            37 => S94::V37 { location: some(r), tracking_ref: maybe(r, |r| Box::new(probe(r))), semi: many(r, some) },
            38 => S94::V38(some(r), r.chance(1, 2), Box::new(probe(r)), probe(r), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r))),
            39 => S94::V39(some(r), some(r), many(r, some), many(r, some), probe(r), maybe(r, |r| Box::new(probe(r))), probe(r)),
            40 => S94::V40(some(r), many(r, probe), Box::new(probe(r)), r.chance(1, 2)),
            41 => S94::V41(some(r), Box::new(probe(r))),
            42 => S94::V42 { location: some(r) },
            43 => S94::V43(some(r), r.chance(1, 2), probe(r), many(r, |r| many(r, probe))),
            44 => S94::V44(some(r), maybe(r, probe)),
            45 => S94::V45 { b: some(r), location: some(r) },
            46 => S94::V46(probe(r)),
            47 => S94::V47(probe(r), some(r), Box::new(probe(r)), some(r), maybe(r, probe), maybe(r, probe), many(r, some)),
            48 => S94::V48(some(r), many(r, some), many(r, probe), some(r), many(r, |r| many(r, probe)), maybe(r, probe), maybe(r, probe)),
            49 => S94::V49 { location: some(r), span: maybe(r, |r| Box::new(probe(r))) },
            50 => S94::V50(probe(r)),
            51 => S94::V51(probe(r)),
            52 => S94::V52 { x9: maybe(r, probe), location: some(r), _f2: r.chance(1, 2), tracking_ref: many(r, |r| many(r, probe)) },
            53 => S94::V53(some(r)),
            54 => S94::V54 { location: some(r), _f0: maybe(r, |r| Box::new(probe(r))), b: r.chance(1, 2), Location: some(r) },
            55 => S94::V55(some(r), Box::new(probe(r))),
            56 => S94::V56(some(r)),
            57 => S94::V57 { a: many(r, |r| many(r, probe)), semi: r.chance(1, 2), location: some(r), _f1: many(r, some) },
            58 => S94::V58(probe(r)),
            59 => S94::V59(probe(r), maybe(r, probe)),
            60 => S94::V60 { location: some(r) },
            61 => S94::V61(some(r), some(r), maybe(r, probe), maybe(r, probe), probe(r), Box::new(probe(r)), maybe(r, probe)),
            62 => S94::V62(probe(r)),
            63 => S94::V63(some(r)),
            64 => S94::V64(some(r), maybe(r, probe), Box::new(probe(r)), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), some(r)),
            65 => S94::V65 { Location: maybe(r, |r| Box::new(probe(r))), location: some(r), locations: probe(r), b: Box::new(probe(r)), span: probe(r), x9: some(r), loc: some(r) },
            66 => S94::V66(some(r)),
            67 => S94::V67(some(r), many(r, some), many(r, probe)),
            68 => S94::V68(some(r), maybe(r, probe), r.chance(1, 2)),
            69 => S94::V69 { Location: Box::new(probe(r)), location: some(r), semi: maybe(r, |r| Box::new(probe(r))), _f2: some(r) },
            70 => S94::V70(some(r), many(r, some)),
            71 => S94::V71(probe(r), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), many(r, probe), probe(r), probe(r), maybe(r, |r| Box::new(probe(r)))),
            72 => S94::V72(some(r), Box::new(probe(r)), many(r, |r| many(r, probe)), probe(r)),
            73 => S94::V73 { location: some(r), span: maybe(r, |r| Box::new(probe(r))), _f0: maybe(r, probe) },
            74 => S94::V74 { Location: many(r, some), location: some(r), _f0: maybe(r, probe) },
            75 => S94::V75(some(r), maybe(r, |r| Box::new(probe(r))), probe(r)),
            76 => S94::V76(some(r), maybe(r, probe), maybe(r, |r| Box::new(probe(r)))),
            77 => S94::V77 { span: probe(r), locations: maybe(r, probe), location: some(r) },
            78 => S94::V78(some(r)),
            79 => S94::V79(some(r), Box::new(probe(r)), Box::new(probe(r)), r.chance(1, 2)),
            80 => S94::V80(some(r), r.chance(1, 2), many(r, probe)),
            81 => S94::V81(some(r), many(r, probe), maybe(r, probe), many(r, probe)),
            82 => S94::V82 { location: some(r) },
            83 => S94::V83(probe(r), many(r, |r| many(r, probe))),
            84 => S94::V84 { location: some(r), location_: maybe(r, |r| Box::new(probe(r))) },
            85 => S94::V85(some(r)),
            86 => S94::V86(probe(r)),
            87 => S94::V87(some(r), many(r, some), maybe(r, |r| Box::new(probe(r)))),
            88 => S94::V88 { location: some(r) },
            89 => S94::V89(some(r), many(r, probe)),
            90 => S94::V90(probe(r), many(r, some), many(r, |r| many(r, probe)), maybe(r, probe), many(r, probe), many(r, |r| many(r, probe)), r.chance(1, 2)),
            91 => S94::V91(some(r), Box::new(probe(r)), some(r), r.chance(1, 2), many(r, |r| many(r, probe)), maybe(r, probe), many(r, some)),
            92 => S94::V92(some(r), r.chance(1, 2), maybe(r, probe), many(r, probe)),
            93 => S94::V93(some(r), probe(r), maybe(r, |r| Box::new(probe(r))), maybe(r, |r| Box::new(probe(r)))),
            94 => S94::V94(some(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r)))),
            95 => S94::V95(some(r), some(r), some(r), probe(r)),
            96 => S94::V96 { location: some(r) },
            97 => S94::V97(probe(r), maybe(r, |r| Box::new(probe(r)))),
            98 => S94::V98(some(r), maybe(r, probe), maybe(r, probe)),
            99 => S94::V99(some(r), some(r), some(r)),
            100 => S94::V100(probe(r), Box::new(probe(r))),
            101 => S94::V101(some(r), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), probe(r)),
            102 => S94::V102(some(r), r.chance(1, 2)),
            103 => S94::V103 { location: some(r), locations: Box::new(probe(r)), untrack: many(r, |r| many(r, probe)), inner: maybe(r, |r| Box::new(probe(r))), location_: Box::new(probe(r)), b: maybe(r, |r| Box::new(probe(r))), _f2: r.chance(1, 2) },
            104 => S94::V104(some(r), maybe(r, |r| Box::new(probe(r)))),
            105 => S94::V105(some(r)),
            106 => S94::V106(some(r)),
            107 => S94::V107(some(r), probe(r), Box::new(probe(r)), probe(r), many(r, probe), probe(r), maybe(r, probe)),
            108 => S94::V108 { _f0: many(r, |r| many(r, probe)), _f1: maybe(r, |r| Box::new(probe(r))), locations: many(r, some), location: some(r) },
            109 => S94::V109 { expr: maybe(r, |r| Box::new(probe(r))), location: some(r), loc: many(r, some), _f2: Box::new(probe(r)), Location: maybe(r, probe), untrack: probe(r), inner: maybe(r, probe) },
            110 => S94::V110 { _f1: probe(r), loc: Box::new(probe(r)), Location: many(r, some), b: maybe(r, |r| Box::new(probe(r))), expr: Box::new(probe(r)), _f0: Box::new(probe(r)), location: some(r) },
            111 => S94::V111(probe(r), some(r), probe(r)),
            112 => S94::V112 { location: some(r) },
            113 => S94::V113(some(r), Box::new(probe(r)), r.chance(1, 2)),
            114 => S94::V114 { expr: some(r), location_: maybe(r, |r| Box::new(probe(r))), location: some(r) },
            115 => S94::V115(probe(r), probe(r), many(r, some), maybe(r, probe)),
            116 => S94::V116(some(r), r.chance(1, 2), many(r, some), some(r)),
            117 => S94::V117(some(r), Box::new(probe(r)), some(r)),
            118 => S94::V118(probe(r), some(r), r.chance(1, 2), many(r, probe)),
            119 => S94::V119 { location: some(r) },
            120 => S94::V120(some(r), probe(r), some(r), Box::new(probe(r))),
            121 => S94::V121 { _f1: r.chance(1, 2), location: some(r), locations: Box::new(probe(r)) },
            122 => S94::V122 { b: many(r, probe), location_: many(r, some), _f2: many(r, |r| many(r, probe)), location: some(r) },
            123 => S94::V123(probe(r)),
            124 => S94::V124(some(r), some(r), many(r, |r| many(r, probe)), some(r)),
            125 => S94::V125(some(r), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), maybe(r, probe)),
            126 => S94::V126(probe(r), many(r, some), maybe(r, probe), many(r, probe)),
            127 => S94::V127(some(r)),
            128 => S94::V128 { location: some(r), untrack: many(r, |r| many(r, probe)) },
            129 => S94::V129(some(r)),
            130 => S94::V130(some(r)),
            131 => S94::V131(some(r), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe))),
            132 => S94::V132(some(r)),
            133 => S94::V133 { location: some(r), a: maybe(r, |r| Box::new(probe(r))) },
            134 => S94::V134(some(r), Box::new(probe(r))),
            135 => S94::V135 { b: probe(r), span: maybe(r, |r| Box::new(probe(r))), _f0: maybe(r, probe), inner: maybe(r, |r| Box::new(probe(r))), loc: maybe(r, |r| Box::new(probe(r))), location: some(r), _f1: r.chance(1, 2) },
            136 => S94::V136 { location: some(r) },
            137 => S94::V137(probe(r), many(r, |r| many(r, probe)), many(r, probe), probe(r), many(r, |r| many(r, probe)), many(r, probe), maybe(r, |r| Box::new(probe(r)))),
            138 => S94::V138(some(r)),
            139 => S94::V139(some(r)),
            140 => S94::V140(some(r), maybe(r, |r| Box::new(probe(r))), many(r, probe), maybe(r, probe), maybe(r, |r| Box::new(probe(r))), probe(r), maybe(r, probe)),
            141 => S94::V141(some(r), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), many(r, |r| many(r, probe)), some(r), many(r, |r| many(r, probe)), maybe(r, probe)),
            142 => S94::V142(probe(r), many(r, some), Box::new(probe(r))),
            143 => S94::V143(some(r)),
            144 => S94::V144(probe(r), many(r, |r| many(r, probe)), many(r, some), many(r, probe)),
            145 => S94::V145(probe(r)),
            146 => S94::V146 { location: some(r) },
            147 => S94::V147(some(r)),
            148 => S94::V148 { location: some(r) },
            149 => S94::V149(probe(r), some(r)),
            150 => S94::V150(some(r), many(r, probe)),
            151 => S94::V151(probe(r), many(r, probe), many(r, |r| many(r, probe)), some(r), some(r), many(r, some), many(r, probe)),
            152 => S94::V152(probe(r)),
            153 => S94::V153(some(r), many(r, probe), many(r, probe)),
            154 => S94::V154 { location: some(r), semi: r.chance(1, 2) },
            155 => S94::V155(probe(r), probe(r), many(r, |r| many(r, probe)), r.chance(1, 2)),
            156 => S94::V156(some(r), probe(r), maybe(r, probe), Box::new(probe(r))),
            157 => S94::V157(some(r)),
            158 => S94::V158 { location: some(r) },
            159 => S94::V159(some(r), many(r, |r| many(r, probe)), Box::new(probe(r))),
            160 => S94::V160(some(r)),
            161 => S94::V161(some(r), r.chance(1, 2)),
            162 => S94::V162(probe(r), some(r), maybe(r, |r| Box::new(probe(r)))),
            163 => S94::V163 { b: maybe(r, |r| Box::new(probe(r))), location: some(r), locations: Box::new(probe(r)), _f1: many(r, probe), Location: probe(r), span: Box::new(probe(r)), x9: r.chance(1, 2) },
            164 => S94::V164(some(r), Box::new(probe(r)), many(r, |r| many(r, probe)), Box::new(probe(r))),
            165 => S94::V165 { untrack: maybe(r, |r| Box::new(probe(r))), tracking_ref: Box::new(probe(r)), location: some(r) },
            166 => S94::V166(some(r), some(r), Box::new(probe(r))),
            167 => S94::V167(probe(r), maybe(r, |r| Box::new(probe(r))), probe(r), some(r), r.chance(1, 2), many(r, probe), many(r, probe)),
            168 => S94::V168 { location: some(r), expr: maybe(r, probe) },
            169 => S94::V169 { location: some(r), Location: many(r, |r| many(r, probe)), _f0: many(r, some) },
            170 => S94::V170(some(r)),
            171 => S94::V171(some(r), maybe(r, probe), probe(r), Box::new(probe(r)), many(r, probe), many(r, some), Box::new(probe(r))),
            172 => S94::V172(some(r), some(r), maybe(r, probe), many(r, |r| many(r, probe))),
            173 => S94::V173 { location: some(r) },
            174 => S94::V174(probe(r), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), maybe(r, |r| Box::new(probe(r)))),
            175 => S94::V175 { location: some(r) },
            176 => S94::V176(some(r)),
            177 => S94::V177 { inner: r.chance(1, 2), a: Box::new(probe(r)), location: some(r), x9: maybe(r, probe), Location: many(r, |r| many(r, probe)), _f1: many(r, some), expr: many(r, |r| many(r, probe)) },
            178 => S94::V178(some(r), maybe(r, |r| Box::new(probe(r)))),
            179 => S94::V179(some(r)),
            180 => S94::V180(some(r), probe(r), r.chance(1, 2)),
            181 => S94::V181(some(r), maybe(r, |r| Box::new(probe(r)))),
            182 => S94::V182(some(r), Box::new(probe(r))),
            183 => S94::V183(probe(r), maybe(r, |r| Box::new(probe(r))), many(r, probe), many(r, probe)),
            184 => S94::V184 { location: some(r) },
            185 => S94::V185(some(r), Box::new(probe(r)), maybe(r, probe), some(r), Box::new(probe(r)), many(r, |r| many(r, probe)), many(r, probe)),
            186 => S94::V186 { location: some(r) },
            187 => S94::V187(some(r)),
            188 => S94::V188(some(r)),
            189 => S94::V189 { location: some(r), locations: probe(r), tracking_ref: probe(r), a: many(r, some) },
            190 => S94::V190(some(r), many(r, |r| many(r, probe))),
            191 => S94::V191(some(r), many(r, some), probe(r), Box::new(probe(r))),
            192 => S94::V192(some(r), some(r), many(r, probe), maybe(r, |r| Box::new(probe(r)))),
            193 => S94::V193 { b: probe(r), location: some(r) },
            194 => S94::V194 { location: some(r) },
            195 => S94::V195(some(r)),
            196 => S94::V196 { location: some(r), location_: probe(r), span: probe(r), _f0: maybe(r, probe), x9: maybe(r, probe), locations: r.chance(1, 2), inner: Box::new(probe(r)) },
            197 => S94::V197(probe(r)),
            198 => S94::V198 { location: some(r) },
            199 => S94::V199(some(r), many(r, probe), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), r.chance(1, 2), some(r), many(r, |r| many(r, probe))),
            200 => S94::V200 { location: some(r), _f2: Box::new(probe(r)), tracking_ref: probe(r), Location: r.chance(1, 2), b: Box::new(probe(r)), _f1: maybe(r, probe), inner: many(r, probe) },
            201 => S94::V201 { expr: some(r), span: maybe(r, probe), location: some(r), Location: some(r) },
            202 => S94::V202(some(r), maybe(r, probe), r.chance(1, 2)),
            203 => S94::V203(some(r)),
            204 => S94::V204(probe(r)),
            205 => S94::V205(some(r)),
            206 => S94::V206 { location: some(r) },
            207 => S94::V207(some(r)),
            208 => S94::V208(some(r), some(r)),
            209 => S94::V209 { x9: some(r), inner: Box::new(probe(r)), _f1: maybe(r, probe), a: some(r), expr: many(r, |r| many(r, probe)), location_: many(r, |r| many(r, probe)), location: some(r) },
            210 => S94::V210(some(r), many(r, some), many(r, some), Box::new(probe(r)), r.chance(1, 2), Box::new(probe(r)), many(r, |r| many(r, probe))),
            211 => S94::V211 { location: some(r), a: r.chance(1, 2), semi: maybe(r, |r| Box::new(probe(r))), Location: probe(r) },
            212 => S94::V212 { Location: some(r), location: some(r), _f0: probe(r), expr: probe(r), _f1: maybe(r, probe), _f2: some(r), locations: many(r, |r| many(r, probe)) },
            213 => S94::V213 { loc: many(r, probe), location: some(r), inner: many(r, some) },
            214 => S94::V214(probe(r), many(r, some)),
            215 => S94::V215 { location: some(r) },
            216 => S94::V216 { b: Box::new(probe(r)), _f2: maybe(r, probe), location: some(r), a: many(r, probe) },
            217 => S94::V217 { location: some(r) },
            218 => S94::V218 { location: some(r), _f0: many(r, |r| many(r, probe)), untrack: many(r, |r| many(r, probe)) },
            219 => S94::V219(some(r)),
            220 => S94::V220(probe(r)),
            221 => S94::V221(some(r), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe))),
            222 => S94::V222(some(r), probe(r), some(r), r.chance(1, 2), maybe(r, probe), probe(r), many(r, |r| many(r, probe))),
            223 => S94::V223(probe(r), many(r, probe), many(r, probe), Box::new(probe(r))),
            224 => S94::V224(some(r), maybe(r, probe), many(r, probe)),
            225 => S94::V225(some(r), r.chance(1, 2), r.chance(1, 2)),
            226 => S94::V226(some(r), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe))),
            227 => S94::V227 { location: some(r) },
            228 => S94::V228(probe(r), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), many(r, probe), probe(r), some(r), maybe(r, |r| Box::new(probe(r)))),
            229 => S94::V229(some(r)),
            230 => S94::V230(probe(r), probe(r)),
            231 => S94::V231(probe(r)),
            232 => S94::V232 { location: some(r), tracking_ref: probe(r), _f0: many(r, some) },
            233 => S94::V233(probe(r), many(r, probe), many(r, probe)),
            234 => S94::V234(some(r), Box::new(probe(r)), maybe(r, probe), many(r, |r| many(r, probe)), many(r, probe), some(r), many(r, some)),
            235 => S94::V235(some(r), probe(r), r.chance(1, 2), Box::new(probe(r))),
            236 => S94::V236(some(r)),
            237 => S94::V237 { location: some(r) },
            238 => S94::V238(some(r), some(r), many(r, |r| many(r, probe)), many(r, probe), maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), some(r)),
            239 => S94::V239(probe(r)),
            240 => S94::V240(some(r), many(r, probe), Box::new(probe(r)), maybe(r, probe)),
            241 => S94::V241(some(r)),
            242 => S94::V242(some(r), maybe(r, probe), r.chance(1, 2)),
            243 => S94::V243(some(r)),
            244 => S94::V244(some(r)),
            245 => S94::V245(probe(r), many(r, probe)),
            246 => S94::V246(probe(r)),
            247 => S94::V247 { location: some(r), _f1: some(r) },
            248 => S94::V248 { location: some(r) },
            249 => S94::V249(probe(r), some(r), many(r, probe)),
            250 => S94::V250 { a: many(r, |r| many(r, probe)), loc: probe(r), location_: probe(r), span: many(r, |r| many(r, probe)), location: some(r), _f0: many(r, probe), locations: many(r, some) },
            251 => S94::V251(probe(r)),
            252 => S94::V252 { location: some(r), _f2: Box::new(probe(r)) },
            253 => S94::V253 { untrack: Box::new(probe(r)), expr: many(r, |r| many(r, probe)), location: some(r) },
            254 => S94::V254 { location_: Box::new(probe(r)), loc: many(r, some), location: some(r), span: some(r) },
            255 => S94::V255(some(r), many(r, some), r.chance(1, 2), maybe(r, |r| Box::new(probe(r)))),
            _ => S94::V256(some(r)),
        }
    }
}

#[derive(Untrack)]
pub enum S95 { V0(bool, Box<Probe>, Vec<Probe>, Vec<Option<Span>>, Box<Probe>, Box<Probe>, Vec<Vec<Probe>>), V1(Vec<Vec<Probe>>, Probe, Vec<Vec<Probe>>, Option<Probe>, Vec<Option<Span>>, Probe, Option<Probe>), V2(Vec<Vec<Probe>>, Vec<Option<Span>>), V3(Option<Box<Probe>>, Probe, Vec<Option<Span>>, Probe, bool, Vec<Option<Span>>, Option<Box<Probe>>), V4(Option<Probe>, Vec<Vec<Probe>>), V5 { expr: Box<Probe> }, V6(Box<Probe>, Option<Span>), V7(Vec<Probe>, Option<Probe>, Option<Probe>, Option<Probe>), V8, V9 { tracking_ref: Option<Box<Probe>>, Location: Vec<Vec<Probe>>, span: Option<Span>, _f2: Vec<Vec<Probe>>, semi: Vec<Probe>, loc: Option<Box<Probe>>, a: Probe }, V10(Vec<Probe>), V11 { locations: Option<Span>, _f1: Vec<Probe> }, V12, V13(Option<Probe>, Box<Probe>, bool, Option<Span>, Box<Probe>, Option<Probe>, Vec<Option<Span>>), V14, V15 { _f0: Option<Box<Probe>>, inner: Option<Box<Probe>>, Location: Probe, untrack: Vec<Option<Span>> }, V16(Box<Probe>), V17(Option<Box<Probe>>, bool, Vec<Vec<Probe>>, Vec<Vec<Probe>>), V18(Vec<Vec<Probe>>), V19 { _f1: Option<Probe>, untrack: Option<Probe>, b: Option<Probe> }, V20(Probe), V21(Box<Probe>, Option<Span>), V22, V23, V24 { Location: Option<Span>, _f1: Option<Box<Probe>>, inner: Vec<Probe>, span: Option<Box<Probe>> }, V25(Vec<Vec<Probe>>, Probe, Vec<Option<Span>>), V26, V27(Option<Box<Probe>>, Vec<Option<Span>>, bool, bool, Vec<Probe>, Vec<Option<Span>>, Option<Probe>), V28, V29, V30(Option<Span>), V31, V32(Probe, bool, bool, Box<Probe>), V33 { x9: Option<Box<Probe>> }, V34, V35(Box<Probe>, bool, Option<Box<Probe>>, Option<Span>, Vec<Probe>, Vec<Option<Span>>, Vec<Probe>), V36(Option<Probe>), V37, V38(Vec<Probe>), V39, V40 { _f0: Option<Span> }, V41, V42(Option<Box<Probe>>, Box<Probe>, Option<Box<Probe>>), V43(Box<Probe>, Box<Probe>, Option<Probe>, Option<Box<Probe>>), V44(Option<Probe>), V45, V46, V47 { location_: Vec<Option<Span>>, tracking_ref: Vec<Vec<Probe>>, expr: Vec<Option<Span>> }, V48 { loc: bool, location_: Option<Span> }, V49 { inner: Vec<Option<Span>>, expr: bool }, V50, V51(bool, Box<Probe>), V52 { inner: Option<Probe> }, V53(Vec<Probe>, Option<Span>, Probe, Vec<Option<Span>>), V54 { expr: Vec<Probe>, Location: Option<Box<Probe>>, span: Option<Box<Probe>> }, V55(Option<Probe>), V56(Box<Probe>, bool, Vec<Option<Span>>), V57(Vec<Probe>), V58(Option<Probe>, Box<Probe>, Vec<Option<Span>>, bool, Probe, Probe, Box<Probe>), V59 { span: Option<Probe>, expr: bool, _f0: Probe }, V60, V61(bool, Vec<Probe>, Option<Span>, Option<Span>, Option<Span>, Probe, Option<Probe>), V62(Vec<Vec<Probe>>), V63, V64, V65, V66 { locations: Box<Probe>, loc: Option<Probe>, a: Option<Probe>, x9: Option<Span> }, V67(bool), V68 { span: Option<Probe>, b: bool, semi: Vec<Vec<Probe>>, Location: Option<Probe>, inner: bool, tracking_ref: Vec<Vec<Probe>>, _f0: Probe }, V69, V70(Option<Probe>, Box<Probe>, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Probe, Vec<Vec<Probe>>, bool), V71(Box<Probe>, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Option<Probe>), V72(Vec<Probe>, Box<Probe>, Probe, bool), V73(Probe, Vec<Vec<Probe>>, Option<Box<Probe>>, Box<Probe>, bool, Box<Probe>, Vec<Probe>), V74 { location_: Option<Span>, b: Option<Box<Probe>>, _f0: Option<Probe>, loc: Vec<Option<Span>>, Location: Vec<Vec<Probe>>, a: Option<Span>, untrack: Vec<Probe> }, V75(bool, Option<Box<Probe>>, Option<Span>), V76 { Location: Option<Probe>, locations: Option<Span> }, V77 { loc: Vec<Probe>, _f2: Option<Box<Probe>>, tracking_ref: Vec<Vec<Probe>>, _f0: Option<Box<Probe>> }, V78(Vec<Probe>), V79 { location_: Vec<Option<Span>> }, V80(Probe), V81, V82, V83, V84(Vec<Probe>, Option<Span>), V85, V86(Vec<Vec<Probe>>, Probe, Option<Span>), V87(Probe, Probe, Option<Span>, Option<Box<Probe>>), V88, V89(Option<Probe>), V90 { tracking_ref: Option<Box<Probe>> }, V91(Box<Probe>), V92, V93, V94 { _f0: Vec<Option<Span>>, a: Probe, inner: Option<Span>, untrack: Box<Probe> }, V95(Vec<Vec<Probe>>, Box<Probe>, Vec<Vec<Probe>>), V96 { _f0: Probe, tracking_ref: Vec<Vec<Probe>>, loc: bool, locations: Option<Box<Probe>>, _f1: Vec<Vec<Probe>>, semi: Probe, span: Option<Span> }, V97(bool, Option<Probe>, Option<Span>, bool, Box<Probe>, Vec<Probe>, Vec<Option<Span>>), V98(Vec<Vec<Probe>>, Probe), V99(Box<Probe>), V100, V101(Option<Span>, Probe, Vec<Probe>, Option<Probe>), V102 { a: Vec<Vec<Probe>>, semi: Option<Box<Probe>>, inner: bool }, V103(Box<Probe>, Vec<Vec<Probe>>), V104(Option<Span>, Vec<Vec<Probe>>, Box<Probe>, Vec<Probe>, Option<Probe>, bool, Option<Box<Probe>>), V105(Option<Box<Probe>>), V106(Vec<Vec<Probe>>, Vec<Vec<Probe>>, Option<Box<Probe>>, Vec<Vec<Probe>>, bool, bool, Option<Probe>), V107 { locations: Vec<Option<Span>>, location_: Box<Probe> }, V108(Box<Probe>, Option<Span>), V109(bool), V110(Vec<Option<Span>>, Box<Probe>, Vec<Vec<Probe>>, Option<Probe>), V111(bool, Vec<Probe>, Option<Probe>), V112, V113(Option<Box<Probe>>, Vec<Vec<Probe>>, Option<Probe>, Box<Probe>, Option<Probe>, Option<Box<Probe>>, Box<Probe>), V114 { _f1: Vec<Vec<Probe>>, _f2: Probe, expr: Vec<Option<Span>> }, V115 { expr: Vec<Vec<Probe>> }, V116(Vec<Probe>, Probe, Vec<Probe>, Option<Box<Probe>>, Probe, Vec<Option<Span>>, Vec<Vec<Probe>>), V117(Probe, Option<Probe>), V118, V119, V120, V121(Option<Probe>, Vec<Vec<Probe>>, Option<Span>), V122(Option<Probe>, Option<Probe>, Option<Span>, Vec<Option<Span>>, Probe, Option<Probe>, Vec<Vec<Probe>>), V123 { inner: bool, Location: Option<Box<Probe>>, x9: bool }, V124(Option<Probe>, Vec<Option<Span>>, Probe, Option<Box<Probe>>), V125 { locations: Box<Probe>, a: Option<Span>, span: Option<Probe>, untrack: Option<Box<Probe>> }, V126, V127, V128 { semi: Box<Probe>, loc: Vec<Option<Span>>, a: Probe, b: Box<Probe> }, V129(Option<Probe>, Vec<Option<Span>>, Option<Probe>, Option<Span>, Probe, Vec<Option<Span>>, Option<Probe>), V130 { _f2: Probe }, V131(Vec<Option<Span>>, Vec<Vec<Probe>>, Vec<Probe>), V132(Vec<Option<Span>>, Vec<Probe>), V133, V134, V135(Option<Probe>, Box<Probe>, Vec<Vec<Probe>>, bool), V136(bool, Vec<Probe>), V137 { _f0: Probe, _f2: Option<Probe>, _f1: Vec<Option<Span>>, a: Vec<Vec<Probe>>, tracking_ref: Vec<Vec<Probe>>, expr: Vec<Vec<Probe>>, loc: Option<Span> }, V138, V139(Option<Span>, Vec<Vec<Probe>>, Probe, Vec<Probe>), V140(Probe), V141, V142, V143(Vec<Vec<Probe>>, Option<Probe>, Vec<Vec<Probe>>), V144(Probe), V145(Option<Span>, Box<Probe>, Box<Probe>), V146(Option<Probe>), V147(Box<Probe>, Option<Box<Probe>>, Option<Span>, Option<Probe>), V148 { tracking_ref: Probe }, V149(Probe, Vec<Probe>, Vec<Option<Span>>, bool, Option<Span>, Vec<Vec<Probe>>, Option<Box<Probe>>), V150, V151(Box<Probe>), V152(Vec<Vec<Probe>>), V153(Vec<Probe>, Box<Probe>, Option<Span>), V154, V155 { _f0: Box<Probe>, expr: Vec<Option<Span>>, tracking_ref: bool, loc: Option<Span> }, V156(Option<Span>, bool, bool), V157, V158 { loc: Option<Probe>, x9: Vec<Option<Span>>, inner: bool, tracking_ref: Vec<Probe> }, V159, V160 { loc: Option<Box<Probe>>, inner: Option<Box<Probe>>, expr: Probe, _f1: bool, x9: Option<Span>, span: Vec<Option<Span>>, locations: Option<Probe> }, V161(Option<Box<Probe>>, Probe, Option<Span>), V162, V163(Option<Span>, Vec<Vec<Probe>>, bool, Option<Box<Probe>>), V164(bool), V165, V166 { inner: bool, _f2: Option<Probe>, b: Vec<Vec<Probe>>, location_: bool }, V167, V168(Probe), V169 { location_: Box<Probe>, a: Vec<Vec<Probe>>, locations: Probe, x9: Box<Probe> }, V170, V171 { b: Option<Span>, a: Probe, location_: Box<Probe>, _f0: Vec<Vec<Probe>> }, V172 { a: Vec<Probe> }, V173(Probe, Vec<Probe>, bool, Vec<Probe>), V174(bool), V175(Option<Probe>, Option<Probe>, Probe), V176, V177(Option<Probe>), V178(Vec<Vec<Probe>>, Vec<Vec<Probe>>, Option<Box<Probe>>, Vec<Vec<Probe>>), V179(Vec<Option<Span>>, Vec<Probe>, Probe, Vec<Option<Span>>, Vec<Vec<Probe>>, Option<Span>, Probe), V180 { _f2: Probe }, V181(Vec<Probe>), V182, V183(Vec<Probe>, Vec<Option<Span>>, Option<Box<Probe>>), V184, V185(Vec<Vec<Probe>>, Probe), V186(Option<Probe>, Vec<Option<Span>>, Box<Probe>, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Probe, Option<Span>), V187(Probe), V188 { inner: Option<Probe> }, V189, V190, V191(Vec<Vec<Probe>>, Vec<Probe>), V192, V193 { untrack: bool }, V194, V195, V196 { loc: Probe, x9: Option<Box<Probe>>, span: Option<Probe>, untrack: Option<Box<Probe>>, tracking_ref: Vec<Probe>, _f2: Probe, _f1: Vec<Vec<Probe>> }, V197(Option<Span>, Option<Box<Probe>>, Probe, Option<Span>), V198 { _f1: Vec<Probe>, tracking_ref: Vec<Probe> }, V199(bool, Vec<Option<Span>>), V200(Option<Span>), V201(bool), V202, V203 { untrack: Box<Probe>, expr: Option<Box<Probe>> }, V204 { loc: Probe, _f1: Probe, untrack: Vec<Probe>, semi: Vec<Option<Span>>, inner: Vec<Probe>, b: Option<Probe>, a: Vec<Vec<Probe>> }, V205 { x9: Vec<Vec<Probe>>, inner: Vec<Probe>, a: Vec<Probe> }, V206 { expr: Vec<Option<Span>> }, V207, V208(Box<Probe>, Vec<Vec<Probe>>, Box<Probe>), V209, V210(Probe, Vec<Probe>), V211(Vec<Option<Span>>, Vec<Vec<Probe>>, Option<Span>), V212(Probe), V213, V214(Option<Box<Probe>>, Probe, Vec<Probe>, Option<Span>, Probe, Vec<Vec<Probe>>, Vec<Vec<Probe>>), V215 { b: Option<Span>, a: Box<Probe>, semi: bool }, V216 { _f2: Vec<Option<Span>>, b: Option<Box<Probe>>, Location: Option<Span>, location_: Option<Box<Probe>> }, V217(bool), V218(bool, Box<Probe>, Option<Span>, Vec<Vec<Probe>>, Vec<Vec<Probe>>, Vec<Option<Span>>, Box<Probe>), V219, V220(Vec<Option<Span>>), V221, V222 { inner: Vec<Option<Span>>, x9: Box<Probe>, expr: Option<Span>, untrack: Option<Span>, Location: Vec<Vec<Probe>>, semi: Box<Probe>, location_: Option<Probe> }, V223(Vec<Vec<Probe>>), V224(Probe), V225, V226(Vec<Option<Span>>, Option<Box<Probe>>, Option<Span>, Vec<Vec<Probe>>), V227, V228 { _f2: Box<Probe>, Location: Vec<Vec<Probe>>, loc: Probe, semi: Probe, span: Option<Span>, locations: bool, expr: Probe }, V229(bool, bool, Option<Box<Probe>>), V230(Option<Box<Probe>>, Box<Probe>, Box<Probe>, Option<Box<Probe>>), V231(Vec<Option<Span>>), V232(Option<Probe>, Box<Probe>, Vec<Option<Span>>, Vec<Probe>, bool, Box<Probe>, Option<Box<Probe>>), V233 { a: Vec<Option<Span>> }, V234(Option<Span>), V235(Vec<Option<Span>>, Option<Probe>, bool), V236, V237 { inner: Option<Probe>, location_: Probe, b: Option<Span>, tracking_ref: Probe }, V238 { semi: Probe, span: Vec<Probe>, expr: Vec<Probe>, _f0: Box<Probe> }, V239(Option<Probe>, bool), V240(Vec<Vec<Probe>>), V241 { _f1: Box<Probe>, b: Vec<Vec<Probe>> }, V242, V243(Option<Probe>, Vec<Vec<Probe>>), V244(Vec<Vec<Probe>>, Vec<Vec<Probe>>), V245(Box<Probe>, Vec<Probe>, Option<Span>), V246 { location_: Box<Probe>, _f1: Vec<Option<Span>>, a: Option<Span>, span: Option<Span>, tracking_ref: Vec<Option<Span>>, b: Box<Probe>, Location: Vec<Vec<Probe>> }, V247(Option<Box<Probe>>, Vec<Option<Span>>, Probe), V248(Vec<Vec<Probe>>), V249(Box<Probe>, Box<Probe>, Option<Span>, bool, Vec<Probe>, Vec<Option<Span>>, Box<Probe>), V250, V251, V252(Option<Span>), V253 { loc: Box<Probe> }, V254(Vec<Vec<Probe>>, Vec<Probe>, Vec<Option<Span>>, Vec<Option<Span>>), V255(Option<Probe>, Probe, Vec<Probe>, Option<Span>, Option<Box<Probe>>, Vec<Vec<Probe>>, Box<Probe>), V256, V257(Vec<Option<Span>>, Probe, Option<Box<Probe>>, Probe), V258, V259(bool, Vec<Option<Span>>, Vec<Option<Span>>, Probe), V260(Probe, Option<Span>, bool, Probe), V261(Option<Probe>), V262(Box<Probe>, Probe), V263 { location_: Vec<Probe>, untrack: Option<Box<Probe>> }, V264(Vec<Probe>, Option<Span>, bool, Box<Probe>), V265 { span: Option<Box<Probe>> }, V266(Probe), V267 { x9: Probe, semi: Option<Span>, expr: Option<Span>, loc: Probe }, V268(Box<Probe>), V269(Option<Span>), V270(bool, Option<Probe>, Vec<Probe>, Probe, Probe, Vec<Vec<Probe>>, Option<Span>), V271(Vec<Probe>), V272 { _f1: Vec<Vec<Probe>>, span: Probe }, V273(bool, Option<Span>, Probe, Vec<Vec<Probe>>, Option<Box<Probe>>, Option<Probe>, Option<Span>), V274(Option<Span>), V275(Vec<Option<Span>>), V276, V277, V278(bool, Vec<Vec<Probe>>), V279(Option<Box<Probe>>, Vec<Option<Span>>, Option<Probe>, Probe, Vec<Probe>, Option<Probe>, Option<Box<Probe>>), V280(Option<Probe>), V281 { _f1: Option<Span>, loc: Box<Probe>, x9: Option<Probe>, span: Option<Probe>, _f2: Vec<Option<Span>>, _f0: Probe, location_: Vec<Probe> }, V282, V283 { loc: Option<Span>, _f0: Vec<Option<Span>>, span: Probe, _f2: Vec<Probe>, x9: Vec<Probe>, inner: Vec<Option<Span>>, tracking_ref: Vec<Vec<Probe>> }, V284 { loc: bool }, V285(Vec<Vec<Probe>>, Option<Box<Probe>>, Option<Span>, Probe, Vec<Vec<Probe>>, Probe, Vec<Option<Span>>), V286, V287, V288 { untrack: Vec<Vec<Probe>>, semi: bool, b: Option<Span>, Location: Option<Box<Probe>>, a: bool, _f0: Box<Probe>, span: Option<Span> }, V289(Option<Span>, Vec<Option<Span>>, Probe, Vec<Probe>), V290, V291(Option<Box<Probe>>, Vec<Probe>, Option<Box<Probe>>, Option<Probe>, Option<Probe>, Vec<Option<Span>>, bool), V292(Vec<Option<Span>>), V293, V294, V295(Vec<Vec<Probe>>), V296, V297 { Location: Option<Probe>, _f1: Vec<Probe> }, V298(Vec<Probe>, Probe, Vec<Vec<Probe>>, bool, Vec<Option<Span>>, Probe, Option<Probe>), V299 { _f1: Vec<Vec<Probe>>, span: Option<Probe>, locations: Probe } }

impl Shape for S95 {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
            S95::V0(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { let _ = g0; o.push(Leaf::P(&mut **g1)); for x in g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g4)); o.push(Leaf::P(&mut **g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V1(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::S(x)); } o.push(Leaf::P(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S95::V2(ref mut g0, ref mut g1) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } }
            S95::V3(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::P(g3)); let _ = g4; for x in g5 { o.push(Leaf::S(x)); } if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S95::V4(ref mut g0, ref mut g1) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V5 { expr: ref mut g0 } => { o.push(Leaf::P(&mut **g0)); }
            S95::V6(ref mut g0, ref mut g1) => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::S(g1)); }
            S95::V7(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S95::V8 => { }
            S95::V9 { tracking_ref: ref mut g0, Location: ref mut g1, span: ref mut g2, _f2: ref mut g3, semi: ref mut g4, loc: ref mut g5, a: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g6)); }
            S95::V10(ref mut g0) => { for x in g0 { o.push(Leaf::P(x)); } }
            S95::V11 { locations: ref mut g0, _f1: ref mut g1 } => { o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S95::V12 => { }
            S95::V13(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); let _ = g2; o.push(Leaf::S(g3)); o.push(Leaf::P(&mut **g4)); if let Some(x) = g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::S(x)); } }
            S95::V14 => { }
            S95::V15 { _f0: ref mut g0, inner: ref mut g1, Location: ref mut g2, untrack: ref mut g3 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::S(x)); } }
            S95::V16(ref mut g0) => { o.push(Leaf::P(&mut **g0)); }
            S95::V17(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } let _ = g1; for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V18(ref mut g0) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V19 { _f1: ref mut g0, untrack: ref mut g1, b: ref mut g2 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } }
            S95::V20(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V21(ref mut g0, ref mut g1) => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::S(g1)); }
            S95::V22 => { }
            S95::V23 => { }
            S95::V24 { Location: ref mut g0, _f1: ref mut g1, inner: ref mut g2, span: ref mut g3 } => { o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V25(ref mut g0, ref mut g1, ref mut g2) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::S(x)); } }
            S95::V26 => { }
            S95::V27(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::S(x)); } let _ = g2; let _ = g3; for x in g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S95::V28 => { }
            S95::V29 => { }
            S95::V30(ref mut g0) => { o.push(Leaf::S(g0)); }
            S95::V31 => { }
            S95::V32(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::P(g0)); let _ = g1; let _ = g2; o.push(Leaf::P(&mut **g3)); }
            S95::V33 { x9: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } }
            S95::V34 => { }
            S95::V35(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::P(&mut **g0)); let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g3)); for x in g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } for x in g6 { o.push(Leaf::P(x)); } }
            S95::V36(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V37 => { }
            S95::V38(ref mut g0) => { for x in g0 { o.push(Leaf::P(x)); } }
            S95::V39 => { }
            S95::V40 { _f0: ref mut g0 } => { o.push(Leaf::S(g0)); }
            S95::V41 => { }
            S95::V42(ref mut g0, ref mut g1, ref mut g2) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S95::V43(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V44(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V45 => { }
            S95::V46 => { }
            S95::V47 { location_: ref mut g0, tracking_ref: ref mut g1, expr: ref mut g2 } => { for x in g0 { o.push(Leaf::S(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } }
            S95::V48 { loc: ref mut g0, location_: ref mut g1 } => { let _ = g0; o.push(Leaf::S(g1)); }
            S95::V49 { inner: ref mut g0, expr: ref mut g1 } => { for x in g0 { o.push(Leaf::S(x)); } let _ = g1; }
            S95::V50 => { }
            S95::V51(ref mut g0, ref mut g1) => { let _ = g0; o.push(Leaf::P(&mut **g1)); }
            S95::V52 { inner: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V53(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::S(x)); } }
            S95::V54 { expr: ref mut g0, Location: ref mut g1, span: ref mut g2 } => { for x in g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S95::V55(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V56(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::P(&mut **g0)); let _ = g1; for x in g2 { o.push(Leaf::S(x)); } }
            S95::V57(ref mut g0) => { for x in g0 { o.push(Leaf::P(x)); } }
            S95::V58(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); for x in g2 { o.push(Leaf::S(x)); } let _ = g3; o.push(Leaf::P(g4)); o.push(Leaf::P(g5)); o.push(Leaf::P(&mut **g6)); }
            S95::V59 { span: ref mut g0, expr: ref mut g1, _f0: ref mut g2 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } let _ = g1; o.push(Leaf::P(g2)); }
            S95::V60 => { }
            S95::V61(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { let _ = g0; for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); o.push(Leaf::S(g3)); o.push(Leaf::S(g4)); o.push(Leaf::P(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S95::V62(ref mut g0) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V63 => { }
            S95::V64 => { }
            S95::V65 => { }
            S95::V66 { locations: ref mut g0, loc: ref mut g1, a: ref mut g2, x9: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); }
            S95::V67(ref mut g0) => { let _ = g0; }
            S95::V68 { span: ref mut g0, b: ref mut g1, semi: ref mut g2, Location: ref mut g3, inner: ref mut g4, tracking_ref: ref mut g5, _f0: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } let _ = g1; for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } let _ = g4; for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g6)); }
            S95::V69 => { }
            S95::V70(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g6; }
            S95::V71(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::P(&mut **g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S95::V72(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(g2)); let _ = g3; }
            S95::V73(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g3)); let _ = g4; o.push(Leaf::P(&mut **g5)); for x in g6 { o.push(Leaf::P(x)); } }
            S95::V74 { location_: ref mut g0, b: ref mut g1, _f0: ref mut g2, loc: ref mut g3, Location: ref mut g4, a: ref mut g5, untrack: ref mut g6 } => { o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::S(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g5)); for x in g6 { o.push(Leaf::P(x)); } }
            S95::V75(ref mut g0, ref mut g1, ref mut g2) => { let _ = g0; if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g2)); }
            S95::V76 { Location: ref mut g0, locations: ref mut g1 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); }
            S95::V77 { loc: ref mut g0, _f2: ref mut g1, tracking_ref: ref mut g2, _f0: ref mut g3 } => { for x in g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V78(ref mut g0) => { for x in g0 { o.push(Leaf::P(x)); } }
            S95::V79 { location_: ref mut g0 } => { for x in g0 { o.push(Leaf::S(x)); } }
            S95::V80(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V81 => { }
            S95::V82 => { }
            S95::V83 => { }
            S95::V84(ref mut g0, ref mut g1) => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); }
            S95::V85 => { }
            S95::V86(ref mut g0, ref mut g1, ref mut g2) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); o.push(Leaf::S(g2)); }
            S95::V87(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V88 => { }
            S95::V89(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V90 { tracking_ref: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } }
            S95::V91(ref mut g0) => { o.push(Leaf::P(&mut **g0)); }
            S95::V92 => { }
            S95::V93 => { }
            S95::V94 { _f0: ref mut g0, a: ref mut g1, inner: ref mut g2, untrack: ref mut g3 } => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::P(g1)); o.push(Leaf::S(g2)); o.push(Leaf::P(&mut **g3)); }
            S95::V95(ref mut g0, ref mut g1, ref mut g2) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V96 { _f0: ref mut g0, tracking_ref: ref mut g1, loc: ref mut g2, locations: ref mut g3, _f1: ref mut g4, semi: ref mut g5, span: ref mut g6 } => { o.push(Leaf::P(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g2; if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g5)); o.push(Leaf::S(g6)); }
            S95::V97(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { let _ = g0; if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); let _ = g3; o.push(Leaf::P(&mut **g4)); for x in g5 { o.push(Leaf::P(x)); } for x in g6 { o.push(Leaf::S(x)); } }
            S95::V98(ref mut g0, ref mut g1) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); }
            S95::V99(ref mut g0) => { o.push(Leaf::P(&mut **g0)); }
            S95::V100 => { }
            S95::V101(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S95::V102 { a: ref mut g0, semi: ref mut g1, inner: ref mut g2 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } let _ = g2; }
            S95::V103(ref mut g0, ref mut g1) => { o.push(Leaf::P(&mut **g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V104(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); for x in g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(x)); } let _ = g5; if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S95::V105(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } }
            S95::V106(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g4; let _ = g5; if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S95::V107 { locations: ref mut g0, location_: ref mut g1 } => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g1)); }
            S95::V108(ref mut g0, ref mut g1) => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::S(g1)); }
            S95::V109(ref mut g0) => { let _ = g0; }
            S95::V110(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S95::V111(ref mut g0, ref mut g1, ref mut g2) => { let _ = g0; for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } }
            S95::V112 => { }
            S95::V113(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); if let Some(x) = g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g6)); }
            S95::V114 { _f1: ref mut g0, _f2: ref mut g1, expr: ref mut g2 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::S(x)); } }
            S95::V115 { expr: ref mut g0 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V116(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g4)); for x in g5 { o.push(Leaf::S(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V117(ref mut g0, ref mut g1) => { o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } }
            S95::V118 => { }
            S95::V119 => { }
            S95::V120 => { }
            S95::V121(ref mut g0, ref mut g1, ref mut g2) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); }
            S95::V122(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); for x in g3 { o.push(Leaf::S(x)); } o.push(Leaf::P(g4)); if let Some(x) = g5 { o.push(Leaf::P(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V123 { inner: ref mut g0, Location: ref mut g1, x9: ref mut g2 } => { let _ = g0; if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } let _ = g2; }
            S95::V124(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V125 { locations: ref mut g0, a: ref mut g1, span: ref mut g2, untrack: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::S(g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V126 => { }
            S95::V127 => { }
            S95::V128 { semi: ref mut g0, loc: ref mut g1, a: ref mut g2, b: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); o.push(Leaf::P(&mut **g3)); }
            S95::V129(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); o.push(Leaf::P(g4)); for x in g5 { o.push(Leaf::S(x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S95::V130 { _f2: ref mut g0 } => { o.push(Leaf::P(g0)); }
            S95::V131(ref mut g0, ref mut g1, ref mut g2) => { for x in g0 { o.push(Leaf::S(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S95::V132(ref mut g0, ref mut g1) => { for x in g0 { o.push(Leaf::S(x)); } for x in g1 { o.push(Leaf::P(x)); } }
            S95::V133 => { }
            S95::V134 => { }
            S95::V135(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g3; }
            S95::V136(ref mut g0, ref mut g1) => { let _ = g0; for x in g1 { o.push(Leaf::P(x)); } }
            S95::V137 { _f0: ref mut g0, _f2: ref mut g1, _f1: ref mut g2, a: ref mut g3, tracking_ref: ref mut g4, expr: ref mut g5, loc: ref mut g6 } => { o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g6)); }
            S95::V138 => { }
            S95::V139(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::P(x)); } }
            S95::V140(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V141 => { }
            S95::V142 => { }
            S95::V143(ref mut g0, ref mut g1, ref mut g2) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V144(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V145(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(&mut **g2)); }
            S95::V146(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V147(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::P(&mut **g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(x)); } }
            S95::V148 { tracking_ref: ref mut g0 } => { o.push(Leaf::P(g0)); }
            S95::V149(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } let _ = g3; o.push(Leaf::S(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S95::V150 => { }
            S95::V151(ref mut g0) => { o.push(Leaf::P(&mut **g0)); }
            S95::V152(ref mut g0) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V153(ref mut g0, ref mut g1, ref mut g2) => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::S(g2)); }
            S95::V154 => { }
            S95::V155 { _f0: ref mut g0, expr: ref mut g1, tracking_ref: ref mut g2, loc: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::S(x)); } let _ = g2; o.push(Leaf::S(g3)); }
            S95::V156(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::S(g0)); let _ = g1; let _ = g2; }
            S95::V157 => { }
            S95::V158 { loc: ref mut g0, x9: ref mut g1, inner: ref mut g2, tracking_ref: ref mut g3 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } let _ = g2; for x in g3 { o.push(Leaf::P(x)); } }
            S95::V159 => { }
            S95::V160 { loc: ref mut g0, inner: ref mut g1, expr: ref mut g2, _f1: ref mut g3, x9: ref mut g4, span: ref mut g5, locations: ref mut g6 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g2)); let _ = g3; o.push(Leaf::S(g4)); for x in g5 { o.push(Leaf::S(x)); } if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S95::V161(ref mut g0, ref mut g1, ref mut g2) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g1)); o.push(Leaf::S(g2)); }
            S95::V162 => { }
            S95::V163(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::S(g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g2; if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V164(ref mut g0) => { let _ = g0; }
            S95::V165 => { }
            S95::V166 { inner: ref mut g0, _f2: ref mut g1, b: ref mut g2, location_: ref mut g3 } => { let _ = g0; if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g3; }
            S95::V167 => { }
            S95::V168(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V169 { location_: ref mut g0, a: ref mut g1, locations: ref mut g2, x9: ref mut g3 } => { o.push(Leaf::P(&mut **g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); o.push(Leaf::P(&mut **g3)); }
            S95::V170 => { }
            S95::V171 { b: ref mut g0, a: ref mut g1, location_: ref mut g2, _f0: ref mut g3 } => { o.push(Leaf::S(g0)); o.push(Leaf::P(g1)); o.push(Leaf::P(&mut **g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V172 { a: ref mut g0 } => { for x in g0 { o.push(Leaf::P(x)); } }
            S95::V173(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } let _ = g2; for x in g3 { o.push(Leaf::P(x)); } }
            S95::V174(ref mut g0) => { let _ = g0; }
            S95::V175(ref mut g0, ref mut g1, ref mut g2) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); }
            S95::V176 => { }
            S95::V177(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V178(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V179(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0 { o.push(Leaf::S(x)); } for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::S(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g5)); o.push(Leaf::P(g6)); }
            S95::V180 { _f2: ref mut g0 } => { o.push(Leaf::P(g0)); }
            S95::V181(ref mut g0) => { for x in g0 { o.push(Leaf::P(x)); } }
            S95::V182 => { }
            S95::V183(ref mut g0, ref mut g1, ref mut g2) => { for x in g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S95::V184 => { }
            S95::V185(ref mut g0, ref mut g1) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); }
            S95::V186(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g5)); o.push(Leaf::S(g6)); }
            S95::V187(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V188 { inner: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V189 => { }
            S95::V190 => { }
            S95::V191(ref mut g0, ref mut g1) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } }
            S95::V192 => { }
            S95::V193 { untrack: ref mut g0 } => { let _ = g0; }
            S95::V194 => { }
            S95::V195 => { }
            S95::V196 { loc: ref mut g0, x9: ref mut g1, span: ref mut g2, untrack: ref mut g3, tracking_ref: ref mut g4, _f2: ref mut g5, _f1: ref mut g6 } => { o.push(Leaf::P(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } for x in g4 { o.push(Leaf::P(x)); } o.push(Leaf::P(g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V197(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::S(g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g2)); o.push(Leaf::S(g3)); }
            S95::V198 { _f1: ref mut g0, tracking_ref: ref mut g1 } => { for x in g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } }
            S95::V199(ref mut g0, ref mut g1) => { let _ = g0; for x in g1 { o.push(Leaf::S(x)); } }
            S95::V200(ref mut g0) => { o.push(Leaf::S(g0)); }
            S95::V201(ref mut g0) => { let _ = g0; }
            S95::V202 => { }
            S95::V203 { untrack: ref mut g0, expr: ref mut g1 } => { o.push(Leaf::P(&mut **g0)); if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S95::V204 { loc: ref mut g0, _f1: ref mut g1, untrack: ref mut g2, semi: ref mut g3, inner: ref mut g4, b: ref mut g5, a: ref mut g6 } => { o.push(Leaf::P(g0)); o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::P(x)); } for x in g3 { o.push(Leaf::S(x)); } for x in g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V205 { x9: ref mut g0, inner: ref mut g1, a: ref mut g2 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } }
            S95::V206 { expr: ref mut g0 } => { for x in g0 { o.push(Leaf::S(x)); } }
            S95::V207 => { }
            S95::V208(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::P(&mut **g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g2)); }
            S95::V209 => { }
            S95::V210(ref mut g0, ref mut g1) => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } }
            S95::V211(ref mut g0, ref mut g1, ref mut g2) => { for x in g0 { o.push(Leaf::S(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); }
            S95::V212(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V213 => { }
            S95::V214(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); o.push(Leaf::P(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V215 { b: ref mut g0, a: ref mut g1, semi: ref mut g2 } => { o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); let _ = g2; }
            S95::V216 { _f2: ref mut g0, b: ref mut g1, Location: ref mut g2, location_: ref mut g3 } => { for x in g0 { o.push(Leaf::S(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V217(ref mut g0) => { let _ = g0; }
            S95::V218(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { let _ = g0; o.push(Leaf::P(&mut **g1)); o.push(Leaf::S(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g6)); }
            S95::V219 => { }
            S95::V220(ref mut g0) => { for x in g0 { o.push(Leaf::S(x)); } }
            S95::V221 => { }
            S95::V222 { inner: ref mut g0, x9: ref mut g1, expr: ref mut g2, untrack: ref mut g3, Location: ref mut g4, semi: ref mut g5, location_: ref mut g6 } => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::S(g2)); o.push(Leaf::S(g3)); for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S95::V223(ref mut g0) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V224(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V225 => { }
            S95::V226(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0 { o.push(Leaf::S(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V227 => { }
            S95::V228 { _f2: ref mut g0, Location: ref mut g1, loc: ref mut g2, semi: ref mut g3, span: ref mut g4, locations: ref mut g5, expr: ref mut g6 } => { o.push(Leaf::P(&mut **g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); o.push(Leaf::P(g3)); o.push(Leaf::S(g4)); let _ = g5; o.push(Leaf::P(g6)); }
            S95::V229(ref mut g0, ref mut g1, ref mut g2) => { let _ = g0; let _ = g1; if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } }
            S95::V230(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(&mut **g1)); o.push(Leaf::P(&mut **g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } }
            S95::V231(ref mut g0) => { for x in g0 { o.push(Leaf::S(x)); } }
            S95::V232(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g1)); for x in g2 { o.push(Leaf::S(x)); } for x in g3 { o.push(Leaf::P(x)); } let _ = g4; o.push(Leaf::P(&mut **g5)); if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S95::V233 { a: ref mut g0 } => { for x in g0 { o.push(Leaf::S(x)); } }
            S95::V234(ref mut g0) => { o.push(Leaf::S(g0)); }
            S95::V235(ref mut g0, ref mut g1, ref mut g2) => { for x in g0 { o.push(Leaf::S(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } let _ = g2; }
            S95::V236 => { }
            S95::V237 { inner: ref mut g0, location_: ref mut g1, b: ref mut g2, tracking_ref: ref mut g3 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); o.push(Leaf::S(g2)); o.push(Leaf::P(g3)); }
            S95::V238 { semi: ref mut g0, span: ref mut g1, expr: ref mut g2, _f0: ref mut g3 } => { o.push(Leaf::P(g0)); for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g3)); }
            S95::V239(ref mut g0, ref mut g1) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } let _ = g1; }
            S95::V240(ref mut g0) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V241 { _f1: ref mut g0, b: ref mut g1 } => { o.push(Leaf::P(&mut **g0)); for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V242 => { }
            S95::V243(ref mut g0, ref mut g1) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V244(ref mut g0, ref mut g1) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V245(ref mut g0, ref mut g1, ref mut g2) => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::P(x)); } o.push(Leaf::S(g2)); }
            S95::V246 { location_: ref mut g0, _f1: ref mut g1, a: ref mut g2, span: ref mut g3, tracking_ref: ref mut g4, b: ref mut g5, Location: ref mut g6 } => { o.push(Leaf::P(&mut **g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::S(g2)); o.push(Leaf::S(g3)); for x in g4 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g5)); for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V247(ref mut g0, ref mut g1, ref mut g2) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); }
            S95::V248(ref mut g0) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V249(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::P(&mut **g1)); o.push(Leaf::S(g2)); let _ = g3; for x in g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } o.push(Leaf::P(&mut **g6)); }
            S95::V250 => { }
            S95::V251 => { }
            S95::V252(ref mut g0) => { o.push(Leaf::S(g0)); }
            S95::V253 { loc: ref mut g0 } => { o.push(Leaf::P(&mut **g0)); }
            S95::V254(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::S(x)); } for x in g3 { o.push(Leaf::S(x)); } }
            S95::V255(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::S(g3)); if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(&mut **g6)); }
            S95::V256 => { }
            S95::V257(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0 { o.push(Leaf::S(x)); } o.push(Leaf::P(g1)); if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::P(g3)); }
            S95::V258 => { }
            S95::V259(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { let _ = g0; for x in g1 { o.push(Leaf::S(x)); } for x in g2 { o.push(Leaf::S(x)); } o.push(Leaf::P(g3)); }
            S95::V260(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); let _ = g2; o.push(Leaf::P(g3)); }
            S95::V261(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V262(ref mut g0, ref mut g1) => { o.push(Leaf::P(&mut **g0)); o.push(Leaf::P(g1)); }
            S95::V263 { location_: ref mut g0, untrack: ref mut g1 } => { for x in g0 { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } }
            S95::V264(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::S(g1)); let _ = g2; o.push(Leaf::P(&mut **g3)); }
            S95::V265 { span: ref mut g0 } => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } }
            S95::V266(ref mut g0) => { o.push(Leaf::P(g0)); }
            S95::V267 { x9: ref mut g0, semi: ref mut g1, expr: ref mut g2, loc: ref mut g3 } => { o.push(Leaf::P(g0)); o.push(Leaf::S(g1)); o.push(Leaf::S(g2)); o.push(Leaf::P(g3)); }
            S95::V268(ref mut g0) => { o.push(Leaf::P(&mut **g0)); }
            S95::V269(ref mut g0) => { o.push(Leaf::S(g0)); }
            S95::V270(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { let _ = g0; if let Some(x) = g1 { o.push(Leaf::P(x)); } for x in g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); o.push(Leaf::P(g4)); for x in g5.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::S(g6)); }
            S95::V271(ref mut g0) => { for x in g0 { o.push(Leaf::P(x)); } }
            S95::V272 { _f1: ref mut g0, span: ref mut g1 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); }
            S95::V273(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { let _ = g0; o.push(Leaf::S(g1)); o.push(Leaf::P(g2)); for x in g3.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } o.push(Leaf::S(g6)); }
            S95::V274(ref mut g0) => { o.push(Leaf::S(g0)); }
            S95::V275(ref mut g0) => { for x in g0 { o.push(Leaf::S(x)); } }
            S95::V276 => { }
            S95::V277 => { }
            S95::V278(ref mut g0, ref mut g1) => { let _ = g0; for x in g1.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V279(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::S(x)); } if let Some(x) = g2 { o.push(Leaf::P(x)); } o.push(Leaf::P(g3)); for x in g4 { o.push(Leaf::P(x)); } if let Some(x) = g5 { o.push(Leaf::P(x)); } if let Some(x) = g6 { o.push(Leaf::P(&mut **x)); } }
            S95::V280(ref mut g0) => { if let Some(x) = g0 { o.push(Leaf::P(x)); } }
            S95::V281 { _f1: ref mut g0, loc: ref mut g1, x9: ref mut g2, span: ref mut g3, _f2: ref mut g4, _f0: ref mut g5, location_: ref mut g6 } => { o.push(Leaf::S(g0)); o.push(Leaf::P(&mut **g1)); if let Some(x) = g2 { o.push(Leaf::P(x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::S(x)); } o.push(Leaf::P(g5)); for x in g6 { o.push(Leaf::P(x)); } }
            S95::V282 => { }
            S95::V283 { loc: ref mut g0, _f0: ref mut g1, span: ref mut g2, _f2: ref mut g3, x9: ref mut g4, inner: ref mut g5, tracking_ref: ref mut g6 } => { o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::P(x)); } for x in g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } for x in g6.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V284 { loc: ref mut g0 } => { let _ = g0; }
            S95::V285(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(&mut **x)); } o.push(Leaf::S(g2)); o.push(Leaf::P(g3)); for x in g4.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } o.push(Leaf::P(g5)); for x in g6 { o.push(Leaf::S(x)); } }
            S95::V286 => { }
            S95::V287 => { }
            S95::V288 { untrack: ref mut g0, semi: ref mut g1, b: ref mut g2, Location: ref mut g3, a: ref mut g4, _f0: ref mut g5, span: ref mut g6 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g1; o.push(Leaf::S(g2)); if let Some(x) = g3 { o.push(Leaf::P(&mut **x)); } let _ = g4; o.push(Leaf::P(&mut **g5)); o.push(Leaf::S(g6)); }
            S95::V289(ref mut g0, ref mut g1, ref mut g2, ref mut g3) => { o.push(Leaf::S(g0)); for x in g1 { o.push(Leaf::S(x)); } o.push(Leaf::P(g2)); for x in g3 { o.push(Leaf::P(x)); } }
            S95::V290 => { }
            S95::V291(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { if let Some(x) = g0 { o.push(Leaf::P(&mut **x)); } for x in g1 { o.push(Leaf::P(x)); } if let Some(x) = g2 { o.push(Leaf::P(&mut **x)); } if let Some(x) = g3 { o.push(Leaf::P(x)); } if let Some(x) = g4 { o.push(Leaf::P(x)); } for x in g5 { o.push(Leaf::S(x)); } let _ = g6; }
            S95::V292(ref mut g0) => { for x in g0 { o.push(Leaf::S(x)); } }
            S95::V293 => { }
            S95::V294 => { }
            S95::V295(ref mut g0) => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } }
            S95::V296 => { }
            S95::V297 { Location: ref mut g0, _f1: ref mut g1 } => { if let Some(x) = g0 { o.push(Leaf::P(x)); } for x in g1 { o.push(Leaf::P(x)); } }
            S95::V298(ref mut g0, ref mut g1, ref mut g2, ref mut g3, ref mut g4, ref mut g5, ref mut g6) => { for x in g0 { o.push(Leaf::P(x)); } o.push(Leaf::P(g1)); for x in g2.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } let _ = g3; for x in g4 { o.push(Leaf::S(x)); } o.push(Leaf::P(g5)); if let Some(x) = g6 { o.push(Leaf::P(x)); } }
            S95::V299 { _f1: ref mut g0, span: ref mut g1, locations: ref mut g2 } => { for x in g0.iter_mut().flat_map(|x| x) { o.push(Leaf::P(x)); } if let Some(x) = g1 { o.push(Leaf::P(x)); } o.push(Leaf::P(g2)); }
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(300) {
            0 => S95::V0(r.chance(1, 2), Box::new(probe(r)), many(r, probe), many(r, some), Box::new(probe(r)), Box::new(probe(r)), many(r, |r| many(r, probe))),
            1 => S95::V1(many(r, |r| many(r, probe)), probe(r), many(r, |r| many(r, probe)), maybe(r, probe), many(r, some), probe(r), maybe(r, probe)),
            2 => S95::V2(many(r, |r| many(r, probe)), many(r, some)),
            3 => S95::V3(maybe(r, |r| Box::new(probe(r))), probe(r), many(r, some), probe(r), r.chance(1, 2), many(r, some), maybe(r, |r| Box::new(probe(r)))),
            4 => S95::V4(maybe(r, probe), many(r, |r| many(r, probe))),
            5 => S95::V5 { expr: Box::new(probe(r)) },
            6 => S95::V6(Box::new(probe(r)), some(r)),
            7 => S95::V7(many(r, probe), maybe(r, probe), maybe(r, probe), maybe(r, probe)),
            8 => S95::V8,
            9 => S95::V9 { tracking_ref: maybe(r, |r| Box::new(probe(r))), Location: many(r, |r| many(r, probe)), span: some(r), _f2: many(r, |r| many(r, probe)), semi: many(r, probe), loc: maybe(r, |r| Box::new(probe(r))), a: probe(r) },
            10 => S95::V10(many(r, probe)),
            11 => S95::V11 { locations: some(r), _f1: many(r, probe) },
            12 => S95::V12,
            13 => S95::V13(maybe(r, probe), Box::new(probe(r)), r.chance(1, 2), some(r), Box::new(probe(r)), maybe(r, probe), many(r, some)),
            14 => S95::V14,
            15 => S95::V15 { _f0: maybe(r, |r| Box::new(probe(r))), inner: maybe(r, |r| Box::new(probe(r))), Location: probe(r), untrack: many(r, some) },
            16 => S95::V16(Box::new(probe(r))),
            17 => S95::V17(maybe(r, |r| Box::new(probe(r))), r.chance(1, 2), many(r, |r| many(r, probe)), many(r, |r| many(r, probe))),
            18 => S95::V18(many(r, |r| many(r, probe))),
            19 => S95::V19 { _f1: maybe(r, probe), untrack: maybe(r, probe), b: maybe(r, probe) },
            20 => S95::V20(probe(r)),
            21 => S95::V21(Box::new(probe(r)), some(r)),
            22 => S95::V22,
            23 => S95::V23,
            24 => S95::V24 { Location: some(r), _f1: maybe(r, |r| Box::new(probe(r))), inner: many(r, probe), span: maybe(r, |r| Box::new(probe(r))) },
            25 => S95::V25(many(r, |r| many(r, probe)), probe(r), many(r, some)),
            26 => S95::V26,
            27 => S95::V27(maybe(r, |r| Box::new(probe(r))), many(r, some), r.chance(1, 2), r.chance(1, 2), many(r, probe), many(r, some), maybe(r, probe)),
            28 => S95::V28,
            29 => S95::V29,
            30 => S95::V30(some(r)),
            31 => S95::V31,
            32 => S95::V32(probe(r), r.chance(1, 2), r.chance(1, 2), Box::new(probe(r))),
            33 => S95::V33 { x9: maybe(r, |r| Box::new(probe(r))) },
            34 => S95::V34,
            35 => S95::V35(Box::new(probe(r)), r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), some(r), many(r, probe), many(r, some), many(r, probe)),
            36 => S95::V36(maybe(r, probe)),
            37 => S95::V37,
            38 => S95::V38(many(r, probe)),
            39 => S95::V39,
            40 => S95::V40 { _f0: some(r) },
            41 => S95::V41,
            42 => S95::V42(maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r)))),
            43 => S95::V43(Box::new(probe(r)), Box::new(probe(r)), maybe(r, probe), maybe(r, |r| Box::new(probe(r)))),
            44 => S95::V44(maybe(r, probe)),
            45 => S95::V45,
            46 => S95::V46,
            47 => S95::V47 { location_: many(r, some), tracking_ref: many(r, |r| many(r, probe)), expr: many(r, some) },
            48 => S95::V48 { loc: r.chance(1, 2), location_: some(r) },
            49 => S95::V49 { inner: many(r, some), expr: r.chance(1, 2) },
            50 => S95::V50,
            51 => S95::V51(r.chance(1, 2), Box::new(probe(r))),
            52 => S95::V52 { inner: maybe(r, probe) },
            53 => S95::V53(many(r, probe), some(r), probe(r), many(r, some)),
            54 => S95::V54 { expr: many(r, probe), Location: maybe(r, |r| Box::new(probe(r))), span: maybe(r, |r| Box::new(probe(r))) },
            55 => S95::V55(maybe(r, probe)),
            56 => S95::V56(Box::new(probe(r)), r.chance(1, 2), many(r, some)),
            57 => S95::V57(many(r, probe)),
            58 => S95::V58(maybe(r, probe), Box::new(probe(r)), many(r, some), r.chance(1, 2), probe(r), probe(r), Box::new(probe(r))),
            59 => S95::V59 { span: maybe(r, probe), expr: r.chance(1, 2), _f0: probe(r) },
            60 => S95::V60,
            61 => S95::V61(r.chance(1, 2), many(r, probe), some(r), some(r), some(r), probe(r), maybe(r, probe)),
            62 => S95::V62(many(r, |r| many(r, probe))),
            63 => S95::V63,
            64 => S95::V64,
            65 => S95::V65,
            66 => S95::V66 { locations: Box::new(probe(r)), loc: maybe(r, probe), a: maybe(r, probe), x9: some(r) },
            67 => S95::V67(r.chance(1, 2)),
            68 => S95::V68 { span: maybe(r, probe), b: r.chance(1, 2), semi: many(r, |r| many(r, probe)), Location: maybe(r, probe), inner: r.chance(1, 2), tracking_ref: many(r, |r| many(r, probe)), _f0: probe(r) },
            69 => S95::V69,
            70 => S95::V70(maybe(r, probe), Box::new(probe(r)), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), probe(r), many(r, |r| many(r, probe)), r.chance(1, 2)),
            71 => S95::V71(Box::new(probe(r)), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), maybe(r, probe)),
            72 => S95::V72(many(r, probe), Box::new(probe(r)), probe(r), r.chance(1, 2)),
            73 => S95::V73(probe(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), r.chance(1, 2), Box::new(probe(r)), many(r, probe)),
            74 => S95::V74 { location_: some(r), b: maybe(r, |r| Box::new(probe(r))), _f0: maybe(r, probe), loc: many(r, some), Location: many(r, |r| many(r, probe)), a: some(r), untrack: many(r, probe) },
            75 => S95::V75(r.chance(1, 2), maybe(r, |r| Box::new(probe(r))), some(r)),
            76 => S95::V76 { Location: maybe(r, probe), locations: some(r) },
            77 => S95::V77 { loc: many(r, probe), _f2: maybe(r, |r| Box::new(probe(r))), tracking_ref: many(r, |r| many(r, probe)), _f0: maybe(r, |r| Box::new(probe(r))) },
            78 => S95::V78(many(r, probe)),
            79 => S95::V79 { location_: many(r, some) },
            80 => S95::V80(probe(r)),
            81 => S95::V81,
            82 => S95::V82,
            83 => S95::V83,
            84 => S95::V84(many(r, probe), some(r)),
            85 => S95::V85,
            86 => S95::V86(many(r, |r| many(r, probe)), probe(r), some(r)),
            87 => S95::V87(probe(r), probe(r), some(r), maybe(r, |r| Box::new(probe(r)))),
            88 => S95::V88,
            89 => S95::V89(maybe(r, probe)),
            90 => S95::V90 { tracking_ref: maybe(r, |r| Box::new(probe(r))) },
            91 => S95::V91(Box::new(probe(r))),
            92 => S95::V92,
            93 => S95::V93,
            94 => S95::V94 { _f0: many(r, some), a: probe(r), inner: some(r), untrack: Box::new(probe(r)) },
            95 => S95::V95(many(r, |r| many(r, probe)), Box::new(probe(r)), many(r, |r| many(r, probe))),
            96 => S95::V96 { _f0: probe(r), tracking_ref: many(r, |r| many(r, probe)), loc: r.chance(1, 2), locations: maybe(r, |r| Box::new(probe(r))), _f1: many(r, |r| many(r, probe)), semi: probe(r), span: some(r) },
            97 => S95::V97(r.chance(1, 2), maybe(r, probe), some(r), r.chance(1, 2), Box::new(probe(r)), many(r, probe), many(r, some)),
            98 => S95::V98(many(r, |r| many(r, probe)), probe(r)),
            99 => S95::V99(Box::new(probe(r))),
            100 => S95::V100,
            101 => S95::V101(some(r), probe(r), many(r, probe), maybe(r, probe)),
            102 => S95::V102 { a: many(r, |r| many(r, probe)), semi: maybe(r, |r| Box::new(probe(r))), inner: r.chance(1, 2) },
            103 => S95::V103(Box::new(probe(r)), many(r, |r| many(r, probe))),
            104 => S95::V104(some(r), many(r, |r| many(r, probe)), Box::new(probe(r)), many(r, probe), maybe(r, probe), r.chance(1, 2), maybe(r, |r| Box::new(probe(r)))),
            105 => S95::V105(maybe(r, |r| Box::new(probe(r)))),
            106 => S95::V106(many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), r.chance(1, 2), r.chance(1, 2), maybe(r, probe)),
            107 => S95::V107 { locations: many(r, some), location_: Box::new(probe(r)) },
            108 => S95::V108(Box::new(probe(r)), some(r)),
            109 => S95::V109(r.chance(1, 2)),
            110 => S95::V110(many(r, some), Box::new(probe(r)), many(r, |r| many(r, probe)), maybe(r, probe)),
            111 => S95::V111(r.chance(1, 2), many(r, probe), maybe(r, probe)),
            112 => S95::V112,
            113 => S95::V113(maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), maybe(r, probe), Box::new(probe(r)), maybe(r, probe), maybe(r, |r| Box::new(probe(r))), Box::new(probe(r))),
            114 => S95::V114 { _f1: many(r, |r| many(r, probe)), _f2: probe(r), expr: many(r, some) },
            115 => S95::V115 { expr: many(r, |r| many(r, probe)) },
            116 => S95::V116(many(r, probe), probe(r), many(r, probe), maybe(r, |r| Box::new(probe(r))), probe(r), many(r, some), many(r, |r| many(r, probe))),
            117 => S95::V117(probe(r), maybe(r, probe)),
            118 => S95::V118,
            119 => S95::V119,
            120 => S95::V120,
            121 => S95::V121(maybe(r, probe), many(r, |r| many(r, probe)), some(r)),
            122 => S95::V122(maybe(r, probe), maybe(r, probe), some(r), many(r, some), probe(r), maybe(r, probe), many(r, |r| many(r, probe))),
            123 => S95::V123 { inner: r.chance(1, 2), Location: maybe(r, |r| Box::new(probe(r))), x9: r.chance(1, 2) },
            124 => S95::V124(maybe(r, probe), many(r, some), probe(r), maybe(r, |r| Box::new(probe(r)))),
            125 => S95::V125 { locations: Box::new(probe(r)), a: some(r), span: maybe(r, probe), untrack: maybe(r, |r| Box::new(probe(r))) },
            126 => S95::V126,
            127 => S95::V127,
            128 => S95::V128 { semi: Box::new(probe(r)), loc: many(r, some), a: probe(r), b: Box::new(probe(r)) },
            129 => S95::V129(maybe(r, probe), many(r, some), maybe(r, probe), some(r), probe(r), many(r, some), maybe(r, probe)),
            130 => S95::V130 { _f2: probe(r) },
            131 => S95::V131(many(r, some), many(r, |r| many(r, probe)), many(r, probe)),
            132 => S95::V132(many(r, some), many(r, probe)),
            133 => S95::V133,
            134 => S95::V134,
            135 => S95::V135(maybe(r, probe), Box::new(probe(r)), many(r, |r| many(r, probe)), r.chance(1, 2)),
            136 => S95::V136(r.chance(1, 2), many(r, probe)),
            137 => S95::V137 { _f0: probe(r), _f2: maybe(r, probe), _f1: many(r, some), a: many(r, |r| many(r, probe)), tracking_ref: many(r, |r| many(r, probe)), expr: many(r, |r| many(r, probe)), loc: some(r) },
            138 => S95::V138,
            139 => S95::V139(some(r), many(r, |r| many(r, probe)), probe(r), many(r, probe)),
            140 => S95::V140(probe(r)),
            141 => S95::V141,
            142 => S95::V142,
            143 => S95::V143(many(r, |r| many(r, probe)), maybe(r, probe), many(r, |r| many(r, probe))),
            144 => S95::V144(probe(r)),
            145 => S95::V145(some(r), Box::new(probe(r)), Box::new(probe(r))),
            146 => S95::V146(maybe(r, probe)),
            147 => S95::V147(Box::new(probe(r)), maybe(r, |r| Box::new(probe(r))), some(r), maybe(r, probe)),
            148 => S95::V148 { tracking_ref: probe(r) },
            149 => S95::V149(probe(r), many(r, probe), many(r, some), r.chance(1, 2), some(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r)))),
            150 => S95::V150,
            151 => S95::V151(Box::new(probe(r))),
            152 => S95::V152(many(r, |r| many(r, probe))),
            153 => S95::V153(many(r, probe), Box::new(probe(r)), some(r)),
            154 => S95::V154,
            155 => S95::V155 { _f0: Box::new(probe(r)), expr: many(r, some), tracking_ref: r.chance(1, 2), loc: some(r) },
            156 => S95::V156(some(r), r.chance(1, 2), r.chance(1, 2)),
            157 => S95::V157,
            158 => S95::V158 { loc: maybe(r, probe), x9: many(r, some), inner: r.chance(1, 2), tracking_ref: many(r, probe) },
            159 => S95::V159,
            160 => S95::V160 { loc: maybe(r, |r| Box::new(probe(r))), inner: maybe(r, |r| Box::new(probe(r))), expr: probe(r), _f1: r.chance(1, 2), x9: some(r), span: many(r, some), locations: maybe(r, probe) },
            161 => S95::V161(maybe(r, |r| Box::new(probe(r))), probe(r), some(r)),
            162 => S95::V162,
            163 => S95::V163(some(r), many(r, |r| many(r, probe)), r.chance(1, 2), maybe(r, |r| Box::new(probe(r)))),
            164 => S95::V164(r.chance(1, 2)),
            165 => S95::V165,
            166 => S95::V166 { inner: r.chance(1, 2), _f2: maybe(r, probe), b: many(r, |r| many(r, probe)), location_: r.chance(1, 2) },
            167 => S95::V167,
            168 => S95::V168(probe(r)),
            169 => S95::V169 { location_: Box::new(probe(r)), a: many(r, |r| many(r, probe)), locations: probe(r), x9: Box::new(probe(r)) },
            170 => S95::V170,
            171 => S95::V171 { b: some(r), a: probe(r), location_: Box::new(probe(r)), _f0: many(r, |r| many(r, probe)) },
            172 => S95::V172 { a: many(r, probe) },
            173 => S95::V173(probe(r), many(r, probe), r.chance(1, 2), many(r, probe)),
            174 => S95::V174(r.chance(1, 2)),
            175 => S95::V175(maybe(r, probe), maybe(r, probe), probe(r)),
            176 => S95::V176,
            177 => S95::V177(maybe(r, probe)),
            178 => S95::V178(many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe))),
            179 => S95::V179(many(r, some), many(r, probe), probe(r), many(r, some), many(r, |r| many(r, probe)), some(r), probe(r)),
            180 => S95::V180 { _f2: probe(r) },
            181 => S95::V181(many(r, probe)),
            182 => S95::V182,
            183 => S95::V183(many(r, probe), many(r, some), maybe(r, |r| Box::new(probe(r)))),
            184 => S95::V184,
            185 => S95::V185(many(r, |r| many(r, probe)), probe(r)),
            186 => S95::V186(maybe(r, probe), many(r, some), Box::new(probe(r)), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), probe(r), some(r)),
            187 => S95::V187(probe(r)),
            188 => S95::V188 { inner: maybe(r, probe) },
            189 => S95::V189,
            190 => S95::V190,
            191 => S95::V191(many(r, |r| many(r, probe)), many(r, probe)),
            192 => S95::V192,
            193 => S95::V193 { untrack: r.chance(1, 2) },
            194 => S95::V194,
            195 => S95::V195,
            196 => S95::V196 { loc: probe(r), x9: maybe(r, |r| Box::new(probe(r))), span: maybe(r, probe), untrack: maybe(r, |r| Box::new(probe(r))), tracking_ref: many(r, probe), _f2: probe(r), _f1: many(r, |r| many(r, probe)) },
            197 => S95::V197(some(r), maybe(r, |r| Box::new(probe(r))), probe(r), some(r)),
            198 => S95::V198 { _f1: many(r, probe), tracking_ref: many(r, probe) },
            199 => S95::V199(r.chance(1, 2), many(r, some)),
            200 => S95::V200(some(r)),
            201 => S95::V201(r.chance(1, 2)),
            202 => S95::V202,
            203 => S95::V203 { untrack: Box::new(probe(r)), expr: maybe(r, |r| Box::new(probe(r))) },
            204 => S95::V204 { loc: probe(r), _f1: probe(r), untrack: many(r, probe), semi: many(r, some), inner: many(r, probe), b: maybe(r, probe), a: many(r, |r| many(r, probe)) },
            205 => S95::V205 { x9: many(r, |r| many(r, probe)), inner: many(r, probe), a: many(r, probe) },
            206 => S95::V206 { expr: many(r, some) },
            207 => S95::V207,
            208 => S95::V208(Box::new(probe(r)), many(r, |r| many(r, probe)), Box::new(probe(r))),
            209 => S95::V209,
            210 => S95::V210(probe(r), many(r, probe)),
            211 => S95::V211(many(r, some), many(r, |r| many(r, probe)), some(r)),
            212 => S95::V212(probe(r)),
            213 => S95::V213,
            214 => S95::V214(maybe(r, |r| Box::new(probe(r))), probe(r), many(r, probe), some(r), probe(r), many(r, |r| many(r, probe)), many(r, |r| many(r, probe))),
            215 => S95::V215 { b: some(r), a: Box::new(probe(r)), semi: r.chance(1, 2) },
            216 => S95::V216 { _f2: many(r, some), b: maybe(r, |r| Box::new(probe(r))), Location: some(r), location_: maybe(r, |r| Box::new(probe(r))) },
            217 => S95::V217(r.chance(1, 2)),
            218 => S95::V218(r.chance(1, 2), Box::new(probe(r)), some(r), many(r, |r| many(r, probe)), many(r, |r| many(r, probe)), many(r, some), Box::new(probe(r))),
            219 => S95::V219,
            220 => S95::V220(many(r, some)),
            221 => S95::V221,
            222 => S95::V222 { inner: many(r, some), x9: Box::new(probe(r)), expr: some(r), untrack: some(r), Location: many(r, |r| many(r, probe)), semi: Box::new(probe(r)), location_: maybe(r, probe) },
            223 => S95::V223(many(r, |r| many(r, probe))),
            224 => S95::V224(probe(r)),
            225 => S95::V225,
            226 => S95::V226(many(r, some), maybe(r, |r| Box::new(probe(r))), some(r), many(r, |r| many(r, probe))),
            227 => S95::V227,
            228 => S95::V228 { _f2: Box::new(probe(r)), Location: many(r, |r| many(r, probe)), loc: probe(r), semi: probe(r), span: some(r), locations: r.chance(1, 2), expr: probe(r) },
            229 => S95::V229(r.chance(1, 2), r.chance(1, 2), maybe(r, |r| Box::new(probe(r)))),
            230 => S95::V230(maybe(r, |r| Box::new(probe(r))), Box::new(probe(r)), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r)))),
            231 => S95::V231(many(r, some)),
            232 => S95::V232(maybe(r, probe), Box::new(probe(r)), many(r, some), many(r, probe), r.chance(1, 2), Box::new(probe(r)), maybe(r, |r| Box::new(probe(r)))),
            233 => S95::V233 { a: many(r, some) },
            234 => S95::V234(some(r)),
            235 => S95::V235(many(r, some), maybe(r, probe), r.chance(1, 2)),
            236 => S95::V236,
            237 => S95::V237 { inner: maybe(r, probe), location_: probe(r), b: some(r), tracking_ref: probe(r) },
            238 => S95::V238 { semi: probe(r), span: many(r, probe), expr: many(r, probe), _f0: Box::new(probe(r)) },
            239 => S95::V239(maybe(r, probe), r.chance(1, 2)),
            240 => S95::V240(many(r, |r| many(r, probe))),
            241 => S95::V241 { _f1: Box::new(probe(r)), b: many(r, |r| many(r, probe)) },
            242 => S95::V242,
            243 => S95::V243(maybe(r, probe), many(r, |r| many(r, probe))),
            244 => S95::V244(many(r, |r| many(r, probe)), many(r, |r| many(r, probe))),
            245 => S95::V245(Box::new(probe(r)), many(r, probe), some(r)),
            246 => S95::V246 { location_: Box::new(probe(r)), _f1: many(r, some), a: some(r), span: some(r), tracking_ref: many(r, some), b: Box::new(probe(r)), Location: many(r, |r| many(r, probe)) },
            247 => S95::V247(maybe(r, |r| Box::new(probe(r))), many(r, some), probe(r)),
            248 => S95::V248(many(r, |r| many(r, probe))),
            249 => S95::V249(Box::new(probe(r)), Box::new(probe(r)), some(r), r.chance(1, 2), many(r, probe), many(r, some), Box::new(probe(r))),
            250 => S95::V250,
            251 => S95::V251,
            252 => S95::V252(some(r)),
            253 => S95::V253 { loc: Box::new(probe(r)) },
            254 => S95::V254(many(r, |r| many(r, probe)), many(r, probe), many(r, some), many(r, some)),
            255 => S95::V255(maybe(r, probe), probe(r), many(r, probe), some(r), maybe(r, |r| Box::new(probe(r))), many(r, |r| many(r, probe)), Box::new(probe(r))),
            256 => S95::V256,
            257 => S95::V257(many(r, some), probe(r), maybe(r, |r| Box::new(probe(r))), probe(r)),
            258 => S95::V258,
            259 => S95::V259(r.chance(1, 2), many(r, some), many(r, some), probe(r)),
            260 => S95::V260(probe(r), some(r), r.chance(1, 2), probe(r)),
            261 => S95::V261(maybe(r, probe)),
            262 => S95::V262(Box::new(probe(r)), probe(r)),
            263 => S95::V263 { location_: many(r, probe), untrack: maybe(r, |r| Box::new(probe(r))) },
            264 => S95::V264(many(r, probe), some(r), r.chance(1, 2), Box::new(probe(r))),
            265 => S95::V265 { span: maybe(r, |r| Box::new(probe(r))) },
            266 => S95::V266(probe(r)),
            267 => S95::V267 { x9: probe(r), semi: some(r), expr: some(r), loc: probe(r) },
            268 => S95::V268(Box::new(probe(r))),
            269 => S95::V269(some(r)),
            270 => S95::V270(r.chance(1, 2), maybe(r, probe), many(r, probe), probe(r), probe(r), many(r, |r| many(r, probe)), some(r)),
            271 => S95::V271(many(r, probe)),
            272 => S95::V272 { _f1: many(r, |r| many(r, probe)), span: probe(r) },
            273 => S95::V273(r.chance(1, 2), some(r), probe(r), many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), some(r)),
            274 => S95::V274(some(r)),
            275 => S95::V275(many(r, some)),
            276 => S95::V276,
            277 => S95::V277,
            278 => S95::V278(r.chance(1, 2), many(r, |r| many(r, probe))),
            279 => S95::V279(maybe(r, |r| Box::new(probe(r))), many(r, some), maybe(r, probe), probe(r), many(r, probe), maybe(r, probe), maybe(r, |r| Box::new(probe(r)))),
            280 => S95::V280(maybe(r, probe)),
            281 => S95::V281 { _f1: some(r), loc: Box::new(probe(r)), x9: maybe(r, probe), span: maybe(r, probe), _f2: many(r, some), _f0: probe(r), location_: many(r, probe) },
            282 => S95::V282,
            283 => S95::V283 { loc: some(r), _f0: many(r, some), span: probe(r), _f2: many(r, probe), x9: many(r, probe), inner: many(r, some), tracking_ref: many(r, |r| many(r, probe)) },
            284 => S95::V284 { loc: r.chance(1, 2) },
            285 => S95::V285(many(r, |r| many(r, probe)), maybe(r, |r| Box::new(probe(r))), some(r), probe(r), many(r, |r| many(r, probe)), probe(r), many(r, some)),
            286 => S95::V286,
            287 => S95::V287,
            288 => S95::V288 { untrack: many(r, |r| many(r, probe)), semi: r.chance(1, 2), b: some(r), Location: maybe(r, |r| Box::new(probe(r))), a: r.chance(1, 2), _f0: Box::new(probe(r)), span: some(r) },
            289 => S95::V289(some(r), many(r, some), probe(r), many(r, probe)),
            290 => S95::V290,
            291 => S95::V291(maybe(r, |r| Box::new(probe(r))), many(r, probe), maybe(r, |r| Box::new(probe(r))), maybe(r, probe), maybe(r, probe), many(r, some), r.chance(1, 2)),
            292 => S95::V292(many(r, some)),
            293 => S95::V293,
            294 => S95::V294,
            295 => S95::V295(many(r, |r| many(r, probe))),
            296 => S95::V296,
            297 => S95::V297 { Location: maybe(r, probe), _f1: many(r, probe) },
            298 => S95::V298(many(r, probe), probe(r), many(r, |r| many(r, probe)), r.chance(1, 2), many(r, some), probe(r), maybe(r, probe)),
            _ => S95::V299 { _f1: many(r, |r| many(r, probe)), span: maybe(r, probe), locations: probe(r) },
        }
    }
}

pub fn run(which: usize, r: &mut Rng, o: &mut Seen) -> Result<(), String> {
    match which {
        0 => judge::<S0>(r, o),
        1 => judge::<S1>(r, o),
        2 => judge::<S2>(r, o),
        3 => judge_untrack::<S3<Probe>>(r, o),
        4 => judge::<S4<'static>>(r, o),
        5 => judge::<S5>(r, o),
        6 => judge::<S6>(r, o),
        7 => judge_untrack::<S7>(r, o),
        8 => judge::<S8<Probe>>(r, o),
        9 => judge::<S9<'static>>(r, o),
        10 => judge::<S10>(r, o),
        11 => judge_untrack::<S11>(r, o),
        12 => judge::<S12>(r, o),
        13 => judge::<S13<Probe>>(r, o),
        14 => judge::<S14<'static>>(r, o),
        15 => judge_untrack::<S15>(r, o),
        16 => judge::<S16>(r, o),
        17 => judge::<S17>(r, o),
        18 => judge::<S18<Probe>>(r, o),
        19 => judge_untrack::<S19<'static>>(r, o),
        20 => judge::<S20>(r, o),
        21 => judge::<S21>(r, o),
        22 => judge::<S22>(r, o),
        23 => judge_untrack::<S23<Probe>>(r, o),
        24 => judge::<S24<'static>>(r, o),
        25 => judge::<S25>(r, o),
        26 => judge::<S26>(r, o),
        27 => judge_untrack::<S27>(r, o),
        28 => judge::<S28<Probe>>(r, o),
        29 => judge::<S29<'static>>(r, o),
        30 => judge::<S30>(r, o),
        31 => judge_untrack::<S31>(r, o),
        32 => judge::<S32>(r, o),
        33 => judge::<S33<Probe>>(r, o),
        34 => judge::<S34<'static>>(r, o),
        35 => judge_untrack::<S35>(r, o),
        36 => judge::<S36>(r, o),
        37 => judge::<S37>(r, o),
        38 => judge::<S38<Probe>>(r, o),
        39 => judge_untrack::<S39<'static>>(r, o),
        40 => judge::<S40>(r, o),
        41 => judge::<S41>(r, o),
        42 => judge::<S42>(r, o),
        43 => judge_untrack::<S43<Probe>>(r, o),
        44 => judge::<S44<'static>>(r, o),
        45 => judge::<S45>(r, o),
        46 => judge::<S46>(r, o),
        47 => judge_untrack::<S47>(r, o),
        48 => judge::<S48<Probe>>(r, o),
        49 => judge::<S49<'static>>(r, o),
        50 => judge::<S50>(r, o),
        51 => judge_untrack::<S51>(r, o),
        52 => judge::<S52>(r, o),
        53 => judge::<S53<Probe>>(r, o),
        54 => judge::<S54<'static>>(r, o),
        55 => judge_untrack::<S55>(r, o),
        56 => judge::<S56>(r, o),
        57 => judge::<S57>(r, o),
        58 => judge::<S58<Probe>>(r, o),
        59 => judge_untrack::<S59<'static>>(r, o),
        60 => judge::<S60<Probe>>(r, o),
        61 => judge::<S61<Probe>>(r, o),
        62 => judge::<S62<Probe>>(r, o),
        63 => judge_untrack::<S63<Probe>>(r, o),
        64 => judge::<S64<Probe>>(r, o),
        65 => judge::<S65<Probe>>(r, o),
        66 => judge::<S66<Probe>>(r, o),
        67 => judge_untrack::<S67<Probe>>(r, o),
        68 => judge::<S68<Probe>>(r, o),
        69 => judge::<S69<Probe>>(r, o),
        70 => judge::<S70<Probe>>(r, o),
        71 => judge_untrack::<S71<Probe>>(r, o),
        72 => judge::<S72<Probe>>(r, o),
        73 => judge::<S73<Probe>>(r, o),
        74 => judge::<S74<Probe>>(r, o),
        75 => judge_untrack::<S75<Probe>>(r, o),
        76 => judge::<S76<Probe>>(r, o),
        77 => judge::<S77<Probe>>(r, o),
        78 => judge::<S78<Probe>>(r, o),
        79 => judge_untrack::<S79<Probe>>(r, o),
        80 => judge::<S80<Probe>>(r, o),
        81 => judge::<S81<Probe>>(r, o),
        82 => judge::<S82<Probe>>(r, o),
        83 => judge_untrack::<S83<Probe>>(r, o),
        84 => judge::<S84>(r, o),
        85 => judge::<S85>(r, o),
        86 => judge::<S86>(r, o),
        87 => judge_untrack::<S87>(r, o),
        88 => judge::<S88>(r, o),
        89 => judge::<S89>(r, o),
        90 => judge::<S90>(r, o),
        91 => judge_untrack::<S91>(r, o),
        92 => judge::<S92>(r, o),
        93 => judge::<S93>(r, o),
        94 => judge::<S94>(r, o),
        95 => judge_untrack::<S95>(r, o),
        _ => Ok(()),
    }
}

pub const SHAPES: usize = 96;
