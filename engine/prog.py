"""Extract the code under test: run rustc on /repo's working tree, parse its typed trees, index functions and types."""
import os, re, subprocess, sys, fcntl, shutil, hashlib
sys.path.insert(0, os.path.dirname(__file__))
import thir
from thir import N, span as pspan
from types_ import *

REPO = os.environ.get('VP_REPO', '/repo')
CACHE = os.environ.get('VP_CACHE', '/verif/.cache')
CRATES = ['common', 'multi-target-decision-tree', 'multi-target-grad-boost']

class ExtractError(Exception): pass

def run_rustc(repo=REPO, cache=CACHE):
    """-> {crate: thir text}; always from the current working tree"""
    os.makedirs(cache, exist_ok=True)
    tgt = os.path.join(cache, 'thir-target')
    out = {}
    with open(os.path.join(cache, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        # a scratch copy of the sources, so that nothing is written under the repository
        src = os.path.join(cache, 'src')
        if os.path.isdir(src): shutil.rmtree(src)
        shutil.copytree(repo, src, ignore=shutil.ignore_patterns('target', '.git', '*.csv'))
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true'); env.pop('RUSTFLAGS', None)
        env['CARGO_INCREMENTAL'] = '0'
        for c in CRATES:
            # the dump goes to stdout of rustc, so the crate itself must be rebuilt each time
            subprocess.run(['cargo', '+nightly', 'clean', '--offline', '-p', c], cwd=src, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            p = subprocess.run(['cargo', '+nightly', 'rustc', '--offline', '-p', c, '--lib', '--', '-Zunpretty=thir-flat', '-Awarnings'],
                               cwd=src, env=env, capture_output=True, text=True)
            if p.returncode != 0 or 'DefId(' not in p.stdout:
                raise ExtractError('rustc failed on %s: %s' % (c, p.stderr[-3000:]))
            out[c] = p.stdout
    return out

class Program:
    def __init__(self, texts=None, repo=REPO):
        self.repo = repo
        if texts is None: texts = run_rustc(repo)
        self.bodies = {}
        self.crates = set()
        for c, t in texts.items():
            self.bodies.update(thir.parse_file(t)); self.crates.add(c.replace('-', '_'))
        self.bodies = {p: b for p, b in self.bodies.items() if b is not None}
        self.adts = ADTs()
        self.sources = {}
        for c in CRATES:
            for d, _, fs in os.walk(os.path.join(repo, c, 'src')):
                for f in fs:
                    if f.endswith('.rs'):
                        t = open(os.path.join(d, f)).read()
                        self.sources[os.path.relpath(os.path.join(d, f), repo)] = t
                        self.adts.add_source(t)
        self._strs = {}
        self._sigs = {}
        self._reified = None
        self.canon_map = {}
        for p in self.bodies: self.canon_map.setdefault(self.canon(p), []).append(p)
    # ----- names
    def san(self, path):
        return re.sub(r'[^A-Za-z0-9]+', '_', self.canon(path)).strip('_')
    def canon(self, path):
        """`a::b::{impl#0}::m` -> `a::b::Self::m` with the impl's Self type, guessed from the signature"""
        if '{impl#' not in path: return path
        parts = path.split('::')
        i = [j for j, x in enumerate(parts) if x.startswith('{impl#')][0]
        base = '::'.join(parts[:i + 2])
        b = self.bodies.get(base)
        nm = 'Self'
        if b is not None:
            a, r = self.sig(base, [])
            ts = [no_mut(x) for x in a] + [r]
            for t in ts:
                while t[0] in ('Seq', 'Opt', 'Box'): t = t[1]
                if t[0] == 'adt' and t[1] in self.adts.t: nm = t[1]; break
            if parts[i + 1] in ('new',) or '%s' % parts[i + 1].startswith('train'):
                if r[0] == 'adt' and r[1] in self.adts.t: nm = r[1]
        parts[i] = nm
        return '::'.join(parts)
    def stdkey(self, path): return re.sub(r'::\{impl#\d+\}', '', path)
    def is_local(self, path): return path.split('::')[0] in self.crates
    def strid(self, text):
        with LOCK: return self._strs.setdefault(text, len(self._strs))
    # ----- signatures
    def sig(self, path, g):
        key = (path, tuple(map(repr, g or [])))
        if key in self._sigs: return self._sigs[key]
        b = self.bodies[path]; bt = b.body_type
        sub = {i: t for i, t in enumerate(g)} if g else {}
        t = parse_ty(bt if isinstance(bt, str) else str(bt), sub)
        if t[0] != 'fn': r = ((), t)
        else: r = (t[1], t[2])
        self._sigs[key] = r
        return r
    def generics(self, path):
        """names of the type parameters in the signature"""
        return sorted(set(re.findall(r'\b([A-Za-z_]\w*)/#\d+', str(self.bodies[path].body_type))))
    # ----- resolution
    def resolve(self, path, g, args, lw):
        if path in self.bodies: return path
        name = path.split('::')[-1]
        selfty = None
        if g: selfty = no_mut(g[0])
        if selfty is None or selfty[0] != 'adt':
            for a in args or []:
                t = getattr(a, 'ty', None)
                if t and t[0] == 'adt': selfty = t; break
        if selfty is None or selfty[0] not in ('adt',): return None
        c = []
        for p in self.bodies:
            if re.search(r'\{impl#\d+\}::%s$' % re.escape(name), p):
                a, r = self.sig(p, [])
                ts = [no_mut(x) for x in a] + [r]
                if any(x[0] == 'adt' and x[1] == selfty[1] for x in ts): c.append(p)
        if len(c) == 1: return c[0]
        c2 = [p for p in c if self.canon(p).split('::')[-2] == selfty[1]]
        if len(c2) == 1: return c2[0]
        # trait default method
        return None
    def contract_for(self, path, contracts):
        if '{closure' in path: return None
        can = self.canon(path)
        for k in contracts_keys(can):
            if k in contracts:
                c = contracts[k]
                if 'params' in c:
                    a, r = self.sig(path, [])
                    if c['params'] != len(a): return None
                return c
        return None
    def find(self, key):
        """the function a contract key names, or None"""
        r = [p for p in self.bodies if '{closure' not in p and (self.canon(p) == key or self.canon(p).endswith('::' + key))]
        return r[0] if len(r) == 1 else None
    def reified_for(self, fnty):
        if self._reified is None:
            found = []          # assigned when complete: several threads may ask at once
            for p, b in self.bodies.items():
                for e in b.exprs:
                    k = e['kind']
                    if isinstance(k, N) and k.k == 'PointerCoercion' and getattr(k['cast'], 'k', k['cast']) == 'ReifyFnPointer':
                        s = b.e(k['source'])
                        while isinstance(s['kind'], N) and s['kind'].k in ('Scope', 'Use', 'ValueExpr'): s = b.e(s['kind'].get('value') or s['kind'].get('source'))
                        t = s['ty']
                        if isinstance(t, N) and t.k == 'FnDef':
                            d = thir.defpath(t['_'][0])
                            if d not in found: found.append(d)
            self._reified = found
        out = []
        for d in self._reified:
            if d not in self.bodies: continue
            a, r = self.sig(d, [])
            if same_ty(('fn', tuple(a), r), fnty): out.append(d)
        return out
    def derived(self, path):
        b = self.bodies[path]
        return pspan(b.e('e%d' % b.root)['span'])[3] != 0
    def hand_clone(self, name):
        for p in self.bodies:
            if re.search(r'\{impl#\d+\}::clone$', p):
                a, r = self.sig(p, [])
                if r[0] == 'adt' and r[1] == name and not self.derived(p): return p
        return None

def contracts_keys(can):
    parts = can.split('::')
    return ['::'.join(parts[i:]) for i in range(len(parts))]

def same_ty(a, b):
    if a == b: return True
    if 'param' in (a[0], b[0]): return True
    if a[0] != b[0] or len(a) != len(b): return False
    for x, y in zip(a[1:], b[1:]):
        if isinstance(x, tuple) and isinstance(y, tuple):
            if x and isinstance(x[0], str):
                if not same_ty(x, y): return False
            else:
                if len(x) != len(y) or not all(same_ty(p, q) for p, q in zip(x, y)): return False
        elif x != y: return False
    return True

def load_cached(d):
    return {c: open(os.path.join(d, c + '.flat')).read() for c in CRATES}
