#!/usr/bin/env python3
"""Writes shapemon/src/shapes.rs: types of many shapes that derive the location traits, and how to make and see through their values."""
import random
random.seed(20)
out = ['''// Generated by tools/mkshapes.py.
//! Types of many shapes that derive the location traits.
use crate::derived::*;
use derive::{TrackingMut, TrackingRef, Untrack};
use joker::track::*;
use model::rng::Rng;
''']
KINDS = ['Option<Span>', 'Probe', 'Box<Probe>', 'Vec<Probe>', 'Option<Probe>', 'bool', 'Option<Box<Probe>>', 'Vec<Option<Span>>', 'Vec<Vec<Probe>>']
MAKE = {'Option<Span>': 'some(r)', 'Probe': 'probe(r)', 'Box<Probe>': 'Box::new(probe(r))', 'Vec<Probe>': 'many(r, probe)', 'Option<Probe>': 'maybe(r, probe)', 'bool': 'r.chance(1, 2)',
        'Option<Box<Probe>>': 'maybe(r, |r| Box::new(probe(r)))', 'Vec<Option<Span>>': 'many(r, some)', 'Vec<Vec<Probe>>': 'many(r, |r| many(r, probe))', 'T': 'probe(r)', 'Vec<T>': 'many(r, probe)', "Mark<'static>": 'Mark("x")', "Mark<'a>": 'Mark("x")', 'Box<T>': 'Box::new(probe(r))'}
SEE = {'Option<Span>': 'o.push(Leaf::S({}));', 'Probe': 'o.push(Leaf::P({}));', 'Box<Probe>': 'o.push(Leaf::P(&mut **{}));', 'Vec<Probe>': 'for x in {} {{ o.push(Leaf::P(x)); }}',
       'Option<Probe>': 'if let Some(x) = {} {{ o.push(Leaf::P(x)); }}', 'bool': 'let _ = {};', 'Option<Box<Probe>>': 'if let Some(x) = {} {{ o.push(Leaf::P(&mut **x)); }}',
       'Vec<Option<Span>>': 'for x in {} {{ o.push(Leaf::S(x)); }}', 'Vec<Vec<Probe>>': 'for x in {}.iter_mut().flat_map(|x| x) {{ o.push(Leaf::P(x)); }}', "Mark<'static>": 'let _ = {};', "Mark<'a>": 'let _ = {};',
       'T': 'o.push(Leaf::P({}));', 'Vec<T>': 'for x in {} {{ o.push(Leaf::P(x)); }}', 'Box<T>': 'o.push(Leaf::P(&mut **{}));'}
NAMES = ['loc', '_f0', '_f1', '_f2', 'locations', 'location_', 'a', 'b', 'span', 'untrack', 'tracking_ref', 'expr', 'x9', 'inner', 'semi', 'Location']
made = []   # (name, trackable, inner type usable for delegation)
def fields(kind, n, generic, first):
    ks = KINDS + (['T', 'Vec<T>', 'Box<T>'] if generic == 'T' else []) + (["Mark<'a>"] if generic == 'a' else [])
    fs = [random.choice(ks) for _ in range(n)]
    if kind == 'named':
        if first: fs[random.randrange(len(fs))] = None     # the location
        names = random.sample(NAMES + ['field%d' % i for i in range(max(0, n - len(NAMES)))], n)
        return [('location', 'Option<Span>') if t is None else (nm, t) for nm, t in zip(names, fs)]
    if first: fs[0] = random.choice(['Option<Span>', 'Option<Span>', 'Probe'] + (['T'] if generic == 'T' else []))
    return [(None, t) for t in fs]
def variant(name, fs, kind):
    if kind == 'unit': return name
    if kind == 'named': return name + ' { ' + ', '.join('%s: %s' % f for f in fs) + ' }'
    return name + '(' + ', '.join(t for _, t in fs) + ')'
def pattern(path, fs, kind):
    if kind == 'unit': return path
    if kind == 'named': return path + ' { ' + ', '.join('%s: ref mut g%d' % (f[0], i) for i, f in enumerate(fs)) + ' }'
    return path + '(' + ', '.join('ref mut g%d' % i for i in range(len(fs))) + ')'
def construct(path, fs, kind):
    if kind == 'unit': return path
    if kind == 'named': return path + ' { ' + ', '.join('%s: %s' % (n, MAKE[t]) for n, t in fs) + ' }'
    return path + '(' + ', '.join(MAKE[t] for _, t in fs) + ')'
def where_location(fs, kind):
    """how many fields come before the location"""
    if kind == 'named': return [n for n, _ in fs].index('location')
    return 0
def see(fs, loc):
    s = ''
    for i, (n, t) in enumerate(fs):
        if loc is not None and i == loc: s += 'at = Some(o.len()); '
        s += SEE[t].format('g%d' % i) + ' '
    return s
def emit(i):
    name = 'S%d' % i
    generic = ['', '', '', 'T', 'a'][i % 5] if i < 60 else 'T' if i < 84 else ''
    where = ''
    track = i % 4 != 3
    form = random.choice(['struct', 'struct', 'enum'])
    if i >= 84: form = ['struct', 'enum'][i // 2 % 2]
    bounds = {'': '', 'a': "<'a>", 'T': '<T: TrackingRef + TrackingMut>' if track else '<T>'}[generic]
    if 60 <= i < 84:
        # the bounds stand in a where clause, next to one on another type
        if track: where = ' where T: TrackingRef + TrackingMut, ' + ['Vec<T>: Sized', 'T: TrackingMut,', 'Option<T>: Sized', 'Box<T>: Untrack'][i % 4] + ' '
        else: where = ' where ' + ['T: Untrack', 'Vec<T>: Untrack, T: Sized', 'T: TrackingMut', 'T: TrackingRef + Untrack,'][i // 4 % 4] + ' '
        bounds = '<T>'
    derive = '#[derive(TrackingRef, TrackingMut, Untrack)]' if track else '#[derive(Untrack)]'
    arms, decl, makes = [], '', []
    use = False
    if form == 'struct':
        kind = random.choice(['named', 'tuple'])
        if i >= 84: kind = ['named', 'tuple'][i % 2]
        while True:
            fs = fields(kind, LARGE or random.choice([1, 2, 3, 4, 6, 9, 13]), generic, track)
            if generic == '' or any(g in t for _, t in fs for g in (['T', 'Vec<T>', 'Box<T>'] if generic == 'T' else ["Mark<'a>"]) if g == t): break
        decl = '%s\npub struct %s%s%s;\n' % (derive, name + bounds, variant('', fs, kind), where.rstrip(' ,')) if kind == 'tuple' else '%s\npub struct %s%s%s\n' % (derive, name + bounds, where, variant('', fs, kind))
        arms.append('%s => { %s}' % (pattern(name, fs, kind), see(fs, where_location(fs, kind) if track else None)))
        makes.append(construct(name, fs, kind))
    else:
        while True:
            vs = []
            for k in range(LARGE or random.choice([1, 2, 3, 5, 8, 12])):
                kind = random.choice(['named', 'tuple', 'tuple'] + ([] if track else ['unit']))
                vs.append(('V%d' % k, kind, [] if kind == 'unit' else fields(kind, random.choice([1, 1, 2, 3, 4, 7]), generic, track)))
            ts = [t for _, _, fs in vs for _, t in fs]
            if generic == '' or (generic == 'T' and any(t in ('T', 'Vec<T>', 'Box<T>') for t in ts)) or (generic == 'a' and "Mark<'a>" in ts): break
        decl = '%s\npub enum %s%s { %s }\n' % (derive, name + bounds, where, ', '.join(variant(n, fs, kd) for n, kd, fs in vs))
        for n, kd, fs in vs:
            arms.append('%s => { %s}' % (pattern(name + '::' + n, fs, kd), see(fs, where_location(fs, kd) if track and kd != 'unit' else None)))
            makes.append(construct(name + '::' + n, fs, kd))
    inst = name + {'': '', 'T': '<Probe>', 'a': "<'static>"}[generic]
    out.append(decl)
    out.append('''impl Shape for %s {
    fn leaves(&mut self) -> (Vec<Leaf<'_>>, Option<usize>) {
        let (mut o, mut at) = (vec![], None);
        let _ = (&mut o, &mut at);
        match *self {
%s
        }
        (o, at)
    }
    fn make(r: &mut Rng) -> Self {
        match r.below(%d) {
%s
        }
    }
}
''' % (inst, '\n'.join('            ' + a for a in arms), len(makes), '\n'.join('            %s => %s,' % (k if k < len(makes) - 1 else '_', m) for k, m in enumerate(makes))))
    made.append((inst, track))
LARGE = 0
for i in range(84): emit(i)
# large ones
for i, LARGE in zip(range(84, 96), [20, 33, 40, 65, 70, 130, 17, 26, 50, 100, 257, 300]): emit(i)
out.append('pub fn run(which: usize, r: &mut Rng, o: &mut Seen) -> Result<(), String> {\n    match which {')
for i, (inst, track) in enumerate(made):
    out.append('        %d => judge%s::<%s>(r, o),' % (i, '' if track else '_untrack', inst))
out.append('        _ => Ok(()),\n    }\n}\n\npub const SHAPES: usize = %d;' % len(made))
open('/verif/shapemon/src/shapes.rs', 'w').write('\n'.join(out) + '\n')
