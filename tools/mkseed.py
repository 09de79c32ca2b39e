#!/usr/bin/env python3
"""Development tool: writes /verif/seeded/<id>/ from the specifications in tools/seed/*.py and
confirms each planted bug: the patch applies, builds, passes the tests, the demo tells it apart.
  mkseed.py [--check] [ID...]      --check also runs the property's own check on the patched tree
"""
import json, re, os, subprocess, sys, shutil, glob, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '9d3fbee'
DEPS = {'lex': ['joker'], 'json': ['unjson'], 'parse': ['joker', 'easter', 'estree', 'unjson', 'esprit'], 'derive': ['joker', 'derive']}
PRELUDE = {
 'lex': '''#![allow(dead_code)]
extern crate joker;
use joker::lexer::Lexer;
use joker::token::*;
use joker::track::*;
use joker::word::*;
fn tokens(s: &str) -> Result<Vec<Token>, joker::error::Error> {
    let mut l = Lexer::new(s.chars());
    let mut v = vec![];
    loop {
        let t = l.read_token(false)?;
        if t.value == TokenData::EOF { return Ok(v); }
        v.push(t);
    }
}
fn kinds(s: &str) -> Vec<TokenData> { tokens(s).unwrap().into_iter().map(|t| t.value).collect() }
''',
 'json': '''#![allow(dead_code)]
extern crate unjson;
extern crate serde_json;
use unjson::*;
use unjson::ty::*;
use unjson::error::Error;
use serde_json::value::Value;
fn obj(s: &str) -> Object { match serde_json::from_str(s).unwrap() { Value::Object(o) => o, _ => panic!() } }
''',
 'derive': '''#![allow(dead_code)]
extern crate joker; #[macro_use] extern crate derive;
use joker::track::*;
''',
 'parse': '''#![allow(dead_code, unused_imports)]
extern crate joker; extern crate easter; extern crate estree; extern crate esprit; extern crate serde_json;
use joker::track::*;
use easter::stmt::*;
use easter::expr::*;
use estree::IntoScript;
use esprit::error::Error;
fn tree(s: &str) -> Script { match esprit::script(s) { Ok(mut t) => { t.untrack(); t } Err(e) => panic!("{:?} refused: {:?}", s, e) } }
fn located(s: &str) -> Script { esprit::script(s).unwrap() }
fn refused(s: &str) { if let Ok(t) = esprit::script(s) { panic!("{:?} accepted: {:?}", s, t) } }
fn same(a: &str, b: &str) { assert_eq!(tree(a), tree(b)); }
fn differ(a: &str, b: &str) { assert!(tree(a) != tree(b)); }
fn read(s: &str) -> Result<Script, String> {
    match serde_json::from_str(s).unwrap() {
        serde_json::value::Value::Object(o) => o.into_script().map_err(|e| format!("{}", e)),
        _ => panic!()
    }
}
fn expr_of(s: &Script) -> &Expr { match s.items[0] { StmtListItem::Stmt(Stmt::Expr(_, ref e, _)) => e, _ => panic!() } }
''',
}
DEMO = '''#!/bin/bash
# Builds a small program against /repo (the current directory) in a scratch directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cp "$here/Cargo.lock" "$work/Cargo.lock"
sed -e "s|@REPO@|$PWD|; s|@HERE@|$here|" "$here/manifest.in" >"$work/Cargo.toml"
cd "$work" || exit 2
CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$work/target" RUSTFLAGS="--cap-lints allow" cargo build --offline >"$work/log" 2>&1 || { cat "$work/log"; exit 3; }
timeout 60 "$work/target/debug/demo"
'''
def run(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def sh(cmd, **k):
    r = run(cmd, **k)
    if r.returncode: sys.exit('%s\n%s' % (cmd, r.stdout))
    return r.stdout
specs = []
def S(id, prop, kind, file, edits, needs, breaks, demo):
    specs.append(dict(id=id, prop=prop, kind=kind, file=file, edits=edits, needs=needs, breaks=breaks, demo=demo))
for f in sorted(glob.glob(V + '/tools/seed/*.py')):
    exec(open(f).read())
args = [a for a in sys.argv[1:] if not a.startswith('--')]
assert not sh('git -C /repo status --porcelain --untracked-files=no').strip(), '/repo is not clean'
def plant(s):
    if args and s['id'] not in args: return
    d = V + '/seeded/' + s['id']
    if not args and os.path.exists(d + '/ok'): return
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    files = s['file'] if isinstance(s['file'], list) else [s['file']] * len(s['edits'])
    try:
        for f, (a, b) in zip(files, s['edits']):
            t = open('/repo/' + f).read()
            if t.count(a) != 1: sys.exit('%s: %d occurrences in %s of\n%s' % (s['id'], t.count(a), f, a))
            open('/repo/' + f, 'w').write(t.replace(a, b))
        patch = sh('git -C /repo diff')
        base = ''.join(sh('git -C /repo show %s:%s' % (BASE, f)) for f in set(files))
        gone = [l[1:] for l in patch.split('\n') if l.startswith('-') and not l.startswith('---')]
        orig = [l for l in gone if l in base.split('\n') and re.search(r'\w', l) and not l.strip().startswith('//')]
        if not orig: sys.exit(s['id'] + ': changes no original line')
        open(d + '/patch.diff', 'w').write(patch)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        k = s['kind']
        m = '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2018"\n[workspace]\n[dependencies]\n'
        for c in DEPS[k]: m += '%s = { path = "@REPO@%s" }\n' % (c, '' if c == 'esprit' else '/crates/' + c)
        if k in ('json', 'parse'): m += 'serde_json = "0.8"\n'
        if k == 'derive':
            m += '[patch.crates-io]\nsyn = { path = "@HERE@/syn" }\n'
            shutil.copytree(V + '/shims/syn', d + '/syn', ignore=shutil.ignore_patterns('target', 'LICENSE*'))
        if k == 'parse':
            m += '[patch.crates-io]\nsyn = { path = "@HERE@/syn" }\ntristate = { path = "@HERE@/tristate" }\n'
            m = m.replace('@HERE@', '@HERE@')
            for c in ('syn', 'tristate'): shutil.copytree(V + '/shims/' + c, d + '/' + c, ignore=shutil.ignore_patterns('target', 'LICENSE*'))
        open(d + '/manifest.in', 'w').write(m)
        open(d + '/main.rs', 'w').write(PRELUDE[k] + 'fn main() {\n' + s['demo'].strip('\n') + '\n}\n')
        open(d + '/demo.sh', 'w').write(DEMO.replace('s|@HERE@|$here|"', 's|@HERE@|$here|"'))
        os.chmod(d + '/demo.sh', 0o755)
        shutil.copy('/repo/Cargo.lock' if os.path.exists('/repo/Cargo.lock') and k == 'none' else V + '/' + {'lex': 'lexmon', 'json': 'jsonmon', 'parse': 'parsemon', 'derive': 'shapemon'}[k] + '/Cargo.lock', d + '/Cargo.lock')
        lock = open(d + '/Cargo.lock').read().replace('lexmon', 'demo').replace('jsonmon', 'demo').replace('parsemon', 'demo').replace('shapemon', 'demo')
        open(d + '/Cargo.lock', 'w').write(lock)
        sh('bash /opt/vp/build.sh')
        sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        if json.load(open('/tmp/seedtest.json'))['failed']: sys.exit(s['id'] + ': the tests notice')
        r = run('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode in ((0, 2) if k == 'derive' else (0, 2, 3)): sys.exit('%s: demo with the patch: %d\n%s' % (s['id'], r.returncode, r.stdout))
        caught = ''
        if '--check' in sys.argv:
            c = run('bash %s/check.sh %s' % (V, s['prop']))
            caught = 'caught' if c.returncode == 1 and 'VIOLATION property=' + s['prop'] in c.stdout else 'MISSED rc=%d' % c.returncode
    finally:
        sh('git -C /repo checkout -- .')
    r = run('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode: sys.exit('%s: demo on the unchanged tree: %d\n%s' % (s['id'], r.returncode, r.stdout))
    open(d + '/ok', 'w').write('')
    print(s['id'], s['prop'], 'confirmed', caught, flush=True)
for s in specs:
    try: plant(s)
    except SystemExit as e:
        print('FAILED', s['id'], str(e)[-1500:], flush=True)
        shutil.rmtree(V + '/seeded/' + s['id'], ignore_errors=True)
sh('bash /opt/vp/build.sh')
