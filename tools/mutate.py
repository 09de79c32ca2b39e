#!/usr/bin/env python3
"""Development tool: small random changes to copies of /repo, each run against the checks.
  mutate.py OUT.jsonl WORKERS SEED COUNT [--all] [FILE-SUBSTRING...]
Each worker has its own copies of /repo and /verif below /tmp/mutN (removed at the end).  Without --all
a mutant's checks stop at the first that reports it; with it every check of the file's list runs."""
import re, os, sys, json, random, subprocess, shutil, threading, queue, time, glob
out, workers, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
ALL = '--all' in sys.argv
subs = [a for a in sys.argv[5:] if not a.startswith('--')]
LEX = 'C02 C07 C04 C03 C05 C06 C08 C09 C10 C11 C01'.split()
PARSE = 'C21 C27 C26 C24 C25 C22 C20 C19 C32 C33'.split()
PLAN = [('crates/joker/', LEX + PARSE), ('crates/unjson/', ['C12', 'C13', 'C28', 'C29']),
        ('crates/easter/', 'C21 C14 C15 C16 C17 C18 C26 C27 C29 C31 C33'.split()), ('crates/derive/', 'C15 C14 C16 C26 C21'.split()),
        ('crates/estree/', 'C28 C29 C21'.split()), ('src/', PARSE + ['C29'])]
def plan(f):
    for p, l in PLAN:
        if f.startswith(p): return l
files = [f for f in subprocess.check_output(['git', '-C', '/repo', 'ls-files'], text=True).split()
         if f.endswith('.rs') and plan(f) and not f.endswith('test.rs') and '/tests/' not in f and '/bin/' not in f and not f.endswith('error.rs')]
if subs: files = [f for f in files if any(s in f for s in subs)]
def mutants(f):
    text = open('/repo/' + f).read()
    cut = len(text)
    m = re.search(r'#\[cfg\(test\)\]\s*mod', text)
    lines = text.split('\n')
    variants = {}
    for m2 in re.finditer(r'\b([A-Z]\w+)::([A-Z]\w*)', text): variants.setdefault(m2[1], set()).add(m2[2])
    chars = sorted(set(re.findall(r"'(?:\\.|[^'\\])'", text)))
    intest = False
    r = []
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith('#[cfg(test)]'): intest = True
        if intest or not s or s.startswith(('//', 'use ', 'pub use', '#', 'extern', 'mod ', 'pub mod', 'impl', 'pub struct', 'pub enum', 'fn ', 'pub fn', '}', 'struct', 'enum', 'type ', 'pub type', 'let message', 'fmt.write')): continue
        def add(new, op):
            if new != l: r.append((i, l, new, op))
        for a, b in [('==', '!='), ('!=', '=='), ('<=', '<'), (' < ', ' <= '), (' > ', ' >= '), ('>=', '>'), ('&&', '||'), ('||', '&&'),
                     ('true', 'false'), ('false', 'true'), ('.start', '.end'), ('.end', '.start'), ('is_some', 'is_none'), ('is_none', 'is_some'),
                     (' + ', ' - '), (' - ', ' + '), ('push_front', 'push_back'), ('push_back', 'push_front'), ('self.start()', 'self.end()')]:
            for m in re.finditer(re.escape(a), l): add(l[:m.start()] + b + l[m.end():], a + '->' + b)
        for m in re.finditer(r'(?<![\w.])\d+(?![\w.])', l):
            n = int(m[0])
            add(l[:m.start()] + str(n + 1) + l[m.end():], 'n+1')
            if n: add(l[:m.start()] + str(n - 1) + l[m.end():], 'n-1')
        for m in re.finditer(r"'(?:\\.|[^'\\])'", l):
            add(l[:m.start()] + random.choice(chars) + l[m.end():], 'char')
        for m in re.finditer(r'"(\w{2,})"', l):
            add(l[:m.start(1)] + m[1][:-1] + ('x' if m[1][-1] != 'x' else 'y') + l[m.end(1):], 'string')
        if re.match(r'^(self\.|[a-z_.]+(\(|\s*[-+|&]?=\s)|try!).*;$', s) and not s.startswith('let'): add('', 'delete')
        if re.match(r'.*=>.*,$', s) or re.match(r'.*=> \{.*\}$', s): add('', 'arm')
        if '=>' in l:
            pat, rest = l.split('=>', 1)
            alts = pat.split(' | ')
            if len(alts) > 1:
                k = random.randrange(len(alts))
                add(' | '.join(alts[:k] + alts[k + 1:]) + ' =>' + rest, 'alt')
            m = re.search(r'\bif (.*)', pat)
            if m:
                add(pat[:m.start(1)] + 'false && ' + m[1] + '=>' + rest, 'guard-false')
                add(pat[:m.start()] + ' =>' + rest, 'guard-true')
        elif s.startswith('| ') or s.endswith('|'):
            add('', 'alt-line')
        m = re.match(r'^(.*\bif )(?!let)(.*) \{(.*)$', l)
        if m and '=>' not in m[2]:
            add('%s!(%s) {%s' % m.groups(), 'if-not'); add('%sfalse && (%s) {%s' % m.groups(), 'if-false'); add('%strue || (%s) {%s' % m.groups(), 'if-true')
        for m in re.finditer(r'\b([A-Z]\w+)::([A-Z]\w*)', l):
            o = sorted(variants[m[1]] - {m[2]})
            if o: add(l[:m.start(2)] + random.choice(o) + l[m.end(2):], 'variant')
        for m in re.finditer(r'!(?=[\w(])(?<!\w!)', l): add(l[:m.start()] + l[m.end():], 'un-not')
        for m in re.finditer(r'\((\&?[\w.]+), (\&?[\w.]+)\)', l): add(l[:m.start()] + '(%s, %s)' % (m[2], m[1]) + l[m.end():], 'swap')
        for m in re.finditer(r'\bSome\((\w+)\)(?! *=>)', l): add(l[:m.start()] + 'None' + l[m.end():], 'none')
        m = re.search(r'(?:if |= |return |\()([^()=]*(?:\([^()]*\)[^()=]*)*?) && (.*?)(?= \{| =>|;|\)$|$)', l)
        if m and '=>' not in m[0]:
            add(l[:m.start(1)] + m[1] + l[m.end(2):], 'only-left'); add(l[:m.start(1)] + m[2] + l[m.end(2):], 'only-right')
        if s.endswith(';') and i + 1 < len(lines) and lines[i + 1].strip().endswith(';') and len(lines[i + 1]) - len(lines[i + 1].lstrip()) == len(l) - len(l.lstrip()) and not s.startswith('let'):
            add(lines[i + 1] + '\n' + l, 'swap-next')
    return r
random.seed(seed)
q = queue.Queue()
allm = [(f,) + m for f in files for m in mutants(f)]
random.shuffle(allm)
seen = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); seen.add((d['file'], d['line'], d['new']))
allm = [m for m in allm if (m[0], m[1] + 1, m[3]) not in seen]
print(len(allm), 'candidates', flush=True)
for m in allm[:count]: q.put(m)
lock = threading.Lock()
def worker(n):
    root = '/tmp/mut%d' % n
    shutil.rmtree(root, ignore_errors=True); os.makedirs(root)
    subprocess.check_call('cp -a /repo %s/repo && mkdir %s/verif && cd /verif && git archive HEAD | tar -x -C %s/verif && rm -rf %s/verif/seeded' % (root, root, root, root), shell=True)
    subprocess.check_call("cd %s/verif && sed -i 's|/repo|%s/repo|' */Cargo.toml shims/*/Cargo.toml" % (root, root), shell=True)
    subprocess.check_call("cd %s/verif && sed -i 's|6 << 30, 6 << 30|2 << 30, 2 << 30|' model/src/harness.rs" % root, shell=True)
    while True:
        try: f, i, old, new, op = q.get_nowait()
        except queue.Empty: break
        p = root + '/repo/' + f
        text = open(p).read(); lines = text.split('\n'); lines[i] = new
        if op == 'swap-next': lines[i + 1] = ''
        open(p, 'w').write('\n'.join(lines))
        res, t0, cases = {}, time.time(), None
        for c in plan(f):
            try:
                r = subprocess.run(['timeout', '300', 'bash', root + '/verif/check.sh', c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'))
            except Exception as e: res[c] = 'exc %s' % e; continue
            if 'does not build' in r.stdout: res = None; break
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout: 
                res[c] = 'caught'
                m = re.search(r': (\d+) cases', r.stdout)
                cases = m and int(m[1])
            elif r.returncode == 0: res[c] = 'quiet'
            else: res[c] = 'rc%d %s' % (r.returncode, r.stdout[-300:])
            if res[c] == 'caught' and not ALL: break
        open(p, 'w').write(text)
        if res is None: continue
        with lock:
            open(out, 'a').write(json.dumps(dict(file=f, line=i + 1, old=old, new=new, op=op, cases=cases, res=res, t=round(time.time() - t0))) + '\n')
    shutil.rmtree(root, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(n,)) for n in range(workers)]
for t in ts: t.start()
for t in ts: t.join()
