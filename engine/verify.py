"""Assemble a Verus file for one function, run Verus, drop the loop-invariant candidates it refutes until only proved ones
are left, and report the obligations."""
import json, os, re, subprocess, sys, tempfile, time, hashlib, threading, signal, shutil
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
from types_ import *
from lower import Lowerer, Unsupported
from emit import Emitter, Ob, active, ptr_key
from cands import all_cands
import terms as T

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, '..', 'spec')
RLIMIT = os.environ.get('VP_RLIMIT', '60')

def read(p): return open(os.path.join(SPEC, p)).read()

def spec_text(prop, lemmas=False):
    """the specification files serving these properties (first line `// props: ..`, absent = all; `// lemmas only: ..` = not beside functions); broadcast lemmas they name"""
    out = []; bc = []
    for f in sorted(os.listdir(SPEC)):
        if not f.endswith('.rs') or f == 'prelude.rs': continue
        t = read(f)
        m = re.match(r'// (?:props|lemmas only): (.*)', t)
        if t.startswith('// lemmas only') and not lemmas: continue
        if m and not set(m.group(1).split()) & set(prop): continue
        for b in re.findall(r'^// broadcast: (.*)$', t, re.M): bc += b.split()
        out.append(t)
    return '\n'.join(out), bc

def adt_defs(prog, want):
    out = []; done = set()
    order = list(want)
    while order:
        n = order.pop(0)
        if n in done or n not in prog.adts.t: continue
        done.add(n)
        kind, gens, fl = prog.adts.t[n]
        ug = [gens[i] for i in prog.adts.used(n)]
        g = '<%s>' % ', '.join(ug) if ug else ''
        pm = {x: ('param', x) for x in gens}
        if kind == 'struct':
            fs = [(f, parse_ty(t, pm)) for f, t in fl]
            out.append('pub struct %s%s { %s }' % (n, g, ', '.join('pub %s: %s' % (f, vty(t, prog.adts)) for f, t in fs)))
            used = gens
            for _, t in fs: order += adts_in(t)
        else:
            vs = []
            for v, fl2 in fl:
                fs = [(f, parse_ty(t, pm)) for f, t in fl2]
                for _, t in fs: order += adts_in(t)
                if not fs: vs.append(v)
                elif re.match(r'f\d+$', fs[0][0]): vs.append('%s(%s)' % (v, ', '.join(vty(t, prog.adts) for _, t in fs)))
                else: vs.append('%s { %s }' % (v, ', '.join('%s: %s' % (f, vty(t, prog.adts)) for f, t in fs)))
            out.append('pub enum %s%s { %s }' % (n, g, ', '.join(vs)))
    return out, done
def adts_in(t):
    r = []
    if t[0] == 'adt':
        r.append(t[1])
        for x in t[2]: r += adts_in(x)
    elif t[0] in ('Seq', 'Opt', 'Box', 'Res', 'mut'): r += adts_in(t[1])
    elif t[0] == 'tup':
        for x in t[1]: r += adts_in(x)
    return r

class Result:
    def __init__(self): self.path = ''; self.obs = []; self.failed = []; self.error = None; self.time = 0.0; self.rounds = 0; self.inlined = []; self.called = []; self.notes = set(); self.ext = set(); self.dropped = 0; self.kept = 0; self.text = ''; self.out = ''; self.unsupported = None; self.vacuous = False; self.smt_ms = 0; self.callees = set(); self.survivors = []; self.em_loops = False; self.slow = set()

LIFT = '#[verifier::external_body] pub broadcast proof fn '
SEM = threading.BoundedSemaphore(int(os.environ.get('VP_JOBS', '8')))
class Deadline(Exception): pass
LIVE = set()
def stop_all():
    for pid in list(LIVE):
        try: os.killpg(pid, signal.SIGKILL)
        except OSError: pass
def run_verus(text, name, extra=(), timeout=200, rlimit=None, deadline=None):
    """-> (exit code or -1 on time-out, stdout, stderr so far, seconds)"""
    with SEM:
        if deadline is not None:
            left = deadline - time.time()
            if left < 3: raise Deadline()
            timeout = min(timeout, left)
        d = tempfile.mkdtemp(prefix='vp_', dir=os.environ.get('VP_TMP', '/tmp'))
        f = os.path.join(d, 'm.rs')
        open(f, 'w').write(text)
        cmd = ['verus', f, '--verify-root', '--verify-function', name, '--multiple-errors', '60', '--triggers-mode', 'silent', '--error-format=json', '--output-json', '--time', '--rlimit', str(rlimit or RLIMIT)] + list(extra)
        t = time.time()
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=open(d + '/err', 'w'), text=True, cwd=d, start_new_session=True)
        LIVE.add(p.pid)
        try:
            out, _ = p.communicate(timeout=timeout); rc = p.returncode
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.communicate(); out, rc = '', -1
        LIVE.discard(p.pid)
        if rc is not None and rc < 0: rc = -1
        err = open(d + '/err').read()
        shutil.rmtree(d, ignore_errors=True)
        return rc, out, err, time.time() - t

def parse(err):
    """-> (failing lines, rlimit?, other errors)"""
    lines = set(); rl = False; other = []
    for l in err.splitlines():
        if not l.startswith('{'): 
            continue
        try: m = json.loads(l)
        except Exception: continue
        if m.get('level') != 'error': continue
        msg = m.get('message', '')
        if 'assertion failed' in msg or 'assertion not satisfied' in msg or 'precondition not satisfied' in msg:
            for s in m.get('spans', []):
                if s.get('is_primary'): lines.add(s['line_start'])
        elif 'Resource limit' in msg or 'rlimit' in msg.lower(): rl = True
        elif 'aborting due to' in msg: pass
        else: other.append(msg + ' ' + ' '.join('%d: %s' % (s['line_start'], (s.get('text') or [{}])[0].get('text', '').strip()) for s in m.get('spans', [])[:2]))
    return lines, rl, other

class Verifier:
    def __init__(self, prog, contracts, prop, panic):
        self.prog = prog; self.contracts = {k: expand(c, prog) for k, c in contracts.items() if not c.get('only') or c['only'] in prop}; self.prop = prop; self.panic = panic
        if 'C11R' in prop:      # unconditional: two functions are compared, whatever they are called with
            for c in self.contracts.values(): c['req'] = []
        self.lemmas = getattr(contracts, 'LEMMAS', [])
    def lower(self, path):
        lw = Lowerer(self.prog, path, self.contracts)
        return lw.lower()
    def header(self, em, path):
        prog = self.prog
        spec, self.bcast = spec_text(self.prop, path is None)
        extra = '\n'.join(em.lines)
        names = sorted(prog.adts.t)
        defs, _ = adt_defs(prog, names)
        out = ['#![allow(unused)]', 'use vstd::prelude::*;', 'verus! {', read('prelude.rs')]
        out += defs
        fns = []
        for p in prog.bodies:
            pass
        pt = sorted(fnptr_all(prog))
        out.append('pub enum FnPtr { %s FnOther(int) }' % ''.join('FN_%s, ' % prog.san(p) for p in pt))
        out.append('pub use FnPtr::*;')
        # uninterpreted meanings of the contracted functions
        for key, c in self.contracts.items():
            p = prog.find(key)
            if p is None: continue
            ptys, rty = prog.sig(p, [])
            mts = [no_mut(t) for t in ptys if t[0] == 'mut']
            res = ([] if rty[0] in ('unit', 'never') else [rty]) + mts
            if not res: continue
            rt = vty(res[0], prog.adts) if len(res) == 1 else '(' + ', '.join(vty(x, prog.adts) for x in res) + ')'
            g = prog.generics(p); gs = '<%s>' % ', '.join(g) if g else ''
            if c.get('sem_def'): continue
            out.append('pub uninterp spec fn sem_%s%s(%s) -> %s;' % (prog.san(p), gs, ', '.join('p%d: %s' % (i, vty(t, prog.adts)) for i, t in enumerate(ptys)), rt))
        for key, fnty, cands in ptr_all(prog):
            out.append('pub uninterp spec fn %s(f: FnPtr, %s) -> %s;' % (key, ', '.join('a%d: %s' % (i, vty(x, prog.adts)) for i, x in enumerate(fnty[1])), vty(fnty[2], prog.adts)))
            for p in cands:
                if self.contracts_has(p):
                    a = ', '.join('a%d' % i for i in range(len(fnty[1]))); pa = ', '.join('a%d: %s' % (i, vty(x, prog.adts)) for i, x in enumerate(fnty[1]))
                    out.append('#[verifier::external_body] pub broadcast proof fn ax_%s_%s(%s) ensures #[trigger] %s(FN_%s, %s) == sem_%s(%s) { }' % (key, prog.san(p), pa, key, prog.san(p), a, prog.san(p), a))
        out.append(subst_sem(spec, prog))
        return out
    def contracts_has(self, p): return self.prog.contract_for(p, self.contracts) is not None
    def lifts(self, path):
        """postconditions of the other functions as facts about their meanings"""
        prog = self.prog; out = []; names = []
        for key, c in self.contracts.items():
            if not c.get('lift'): continue
            p = prog.find(key)
            if p is None or p == path: continue
            if any(t[0] == 'mut' for t in prog.sig(p, [])[0]): continue
            if prog.generics(p): pass
            ens = [q['e'] for q in c.get('ens', []) if active(q, self.prop)]
            if not ens: continue
            req = [q['e'] for q in c.get('req', []) if active(q, self.prop)]
            ptys, rty = prog.sig(p, [])
            g = prog.generics(p); gs = '<%s>' % ', '.join(g) if g else ''
            pr = ', '.join('p%d: %s' % (i, vty(t, prog.adts)) for i, t in enumerate(ptys))
            sem = 'sem_%s(%s)' % (prog.san(p), ', '.join('p%d' % i for i in range(len(ptys))))
            body = ' && '.join('(%s)' % x for x in ens)
            out.append('#[verifier::external_body] pub broadcast proof fn lift_%s%s(%s) requires %s ensures #![trigger %s] ({ let res: %s = %s; %s }) { }' % (
                prog.san(p), gs, pr, (', '.join('(%s)' % x for x in req) or 'true'), sem, vty(rty, prog.adts), sem, body))
            names.append('lift_' + prog.san(p))
        return out, names
    def build(self, path, lw, cands, fname, ind=False):
        c = self.prog.contract_for(path, self.contracts)
        em = Emitter(lw, self.prog, c, self.prop, self.contracts, cands, self.panic)
        em.independent = ind
        if c and c.get('mirror') and 'C11R' in self.prop:
            q = self.prog.find(c['mirror'][0])
            if q is None: raise Unsupported('no ' + c['mirror'][0])
            em.mirror = (self.lower(q), c['mirror'][1])
        body = em.function(fname)
        head = self.header(em, path)
        lf, names = self.lifts(path)
        head += lf
        bc = ['lemma_fadd_comm', 'lemma_fmul_comm', 'lemma_fmul_zero'] + self.bcast + list(names)
        for key, fnty, cs in ptr_all(self.prog):
            bc += ['ax_%s_%s' % (key, self.prog.san(p)) for p in cs if self.contracts_has(p)]
        bc += [b for b in (c or {}).get('bcast', []) if re.search(r'proof fn %s\b' % b, '\n'.join(head))]
        bc = relevant('\n'.join(body) + ' fadd fmul', '\n'.join(head), bc)
        head = [l for l in head if not (l.startswith(LIFT) and l[len(LIFT):].split('(')[0].split('<')[0] not in bc)]
        if bc: body.insert(1 if len(body) > 1 else 0, '')  # keep numbering simple; replaced below
        # the broadcast uses go in as the first statement of the body
        text = '\n'.join(head)
        off = text.count('\n') + 1
        k = [i for i, l in enumerate(body) if l.strip() == '{'][0]
        if bc:
            # body[1] was a filler line: every recorded line number moves down by one
            for o in em.obs: o.line += 1
            em.reach_lines = [x + 1 for x in getattr(em, 'reach_lines', [])]
            body[k] = body[k] + ''.join(' hide(%s);' % h for h in (c or {}).get('hide', []) if re.search(r'spec fn %s\b' % h, text)) + ' broadcast use {%s};' % ', '.join(bc)
        for o in em.obs: o.line = o.line + off + 1
        em.reach_lines = [x + off + 1 for x in getattr(em, 'reach_lines', [])]
        tail = ['} // verus!', 'fn main() {}']
        return em, text + '\n' + '\n'.join(body) + '\n' + '\n'.join(tail) + '\n'
    pool = ()
    def verify(self, path, hints=None, log=None):
        t0 = time.time(); ms = 0
        R = None
        for mode in ((('hints',) if hints else ()) + ('quick', 'full')):
            R = self.verify1(path, hints if mode == 'hints' else None, log, mode == 'quick')
            ms += R.smt_ms; R.smt_ms = ms; R.time = time.time() - t0
            if R.unsupported or (not R.failed and not R.error): break
            if self.on_fail: self.on_fail(R)
            if not R.em_loops or (self.deadline and time.time() > self.deadline - 5): break
        return R
    def verify1(self, path, hints=None, log=None, quick=False):
        R = Result(); R.path = path
        t0 = time.time()
        try:
            lw = self.lower(path)
            c = self.prog.contract_for(path, self.contracts)
            cands = all_cands(lw, c, self.prop, self.pool)
        except Unsupported as e:
            R.unsupported = str(e); return R
        R.inlined = list(dict.fromkeys(lw.inlined)); R.called = list(dict.fromkeys(lw.called)); R.notes = lw.notes; R.ext = lw.ext
        fname = 'vc_' + self.prog.san(path)
        total = sum(len(x) for x in cands.values())
        R.em_loops = total > 0
        ind = quick and total > 0
        if hints:
            good = set(hints)
            cands = {l: [x for x in cs if (l, x.text) in good] for l, cs in cands.items()}
        while True:
            R.rounds += 1
            em, text = self.build(path, lw, cands, fname, ind)
            R.text = text
            t1 = time.time()
            byline = {o.line: o for o in em.obs}
            try: lines, undec, other = self.solve(text, em, fname, R)
            except Deadline: R.error = 'time budget used up'; R.obs = em.obs; R.callees = em.callees; break
            if other:
                R.error = '; '.join(other)[:3000]; break
            unk = [l for l in lines if l not in byline]
            if unk: R.error = 'unmapped failures at lines %s' % unk; break
            bad = [byline[l] for l in sorted(lines)]
            badc = {(o.loop, o.cand.text) for o in bad if o.kind == 'inv' and o.cand is not None}
            slow = [byline[l] for l in sorted(undec)]
            slowc = {(o.loop, o.cand.text) for o in slow if o.kind == 'inv' and o.cand is not None}
            R.slow |= slowc - badc
            badc |= slowc
            slow = [o for o in slow if not (o.kind == 'inv' and o.cand is not None)]
            if log: log('%s round %d: %d obligations, %d candidates, %d refuted, %d of them undecided, %d other failures, %d others undecided, %.1fs' % (path.split('::')[-1], R.rounds, len(em.obs), sum(len(x) for x in cands.values()), len(badc), len(slowc), len([o for o in bad if o.cand is None]), len(slow), time.time() - t1))
            if not badc and ind and not slow: ind = False; continue
            if not badc:
                R.obs = em.obs; R.failed = bad
                if slow: R.error = 'no answer within the limits for: ' + '; '.join(o.name + ' ' + o.text[:100] for o in slow)
                elif bad and R.slow:
                    # an invariant the solver gave no answer on was left out: the failure may be due to that, so it is no verdict
                    R.error = 'not proved without the invariants left undecided (%d): ' % len(R.slow) + '; '.join(o.name + ' ' + o.text[:100] for o in bad); R.failed = []
                R.callees = em.callees
                break
            cands = {l: [x for x in cs if (l, x.text) not in badc] for l, cs in cands.items()}
            if R.rounds > 25: R.error = 'no fixpoint'; break
        R.survivors = [(l, x.text) for l, cs in cands.items() for x in cs]
        R.kept = len(R.survivors); R.dropped = total - R.kept
        R.em = em; R.time = time.time() - t0
        R.fname = fname
        return R
    deadline = None
    on_fail = None
    GROUP = int(os.environ.get('VP_GROUP', '24'))
    def only(self, text, em, keep):
        """the same text with every obligation outside `keep` assumed"""
        ls = text.split('\n')
        for o in em.obs:
            if o.line not in keep: ls[o.line - 1] = ls[o.line - 1].replace('assert(', 'assume(', 1)
        return '\n'.join(ls)
    def ask(self, text, em, want, fname, R, timeout, rlimit, extra=()):
        """-> (refuted lines, decided?, other errors)"""
        rc, out, err, dt = run_verus(self.only(text, em, want), fname, extra, timeout, rlimit, self.deadline)
        R.smt_ms += smt_ms(out)
        lines, rl, other = parse(err)
        if lines or other: R.out = err
        if rc == -1: return lines & want, False, []
        if not other and not rl and not lines and rc != 0: other = ['verus exit %d: %s' % (rc, err[-800:])]
        if not other: other = ['unmapped failure at line %d' % l for l in lines - want]
        return lines, not rl, other
    def solve(self, text, em, fname, R):
        """decide every obligation of one round -> (refuted lines, undecided lines, errors)"""
        allw = [o.line for o in em.obs]
        hard = {o.line for o in em.obs if not (o.kind == 'inv' and o.cand is not None)}
        ref = set(); und = set(); errs = []; lock = threading.Lock()
        def job(want, level):
            lim = [(60, 30), (40, 20), (25, 12)][min(level, 2)]
            if len(want) == 1 and set(want) & hard: lim = (150, 60)
            elif set(want) & hard: lim = (lim[0] * 2, lim[1] * 2)
            l, done, other = self.ask(text, em, set(want), fname, R, lim[0], lim[1])
            if other:
                with lock: errs.extend(other)
                return []
            with lock: ref.update(l)
            if done: return []
            rest = [x for x in want if x not in l]
            if len(rest) == 1 and len(want) == 1:
                with lock: und.update(rest)
                return []
            k = max(1, (len(rest) + 3) // 4) if level == 0 else max(1, (len(rest) + 1) // 2)
            if level >= 2: k = 1
            return [(rest[i:i + k], level + 1) for i in range(0, len(rest), k)]
        g = self.GROUP
        todo = [(allw[i:i + g], 0) for i in range(0, len(allw), g)] if len(allw) > g * 2 else [(allw, 0)]
        with ThreadPoolExecutor(8) as ex:
            while todo and not errs:
                nxt = []
                for r in ex.map(lambda a: job(*a), todo): nxt += r
                todo = nxt
        if errs: return ref, und, errs
        if ref and not und: ref = self.again(text, em, ref, fname, R)
        return ref, und, []
    def again(self, text, em, ref, fname, R):
        """a refutation may be the solver giving up in the crowd: ask again for the refuted ones alone, with other seeds"""
        byline = {o.line: o for o in em.obs}; still = set(ref)
        for seed in (7, 11):
            chunks = sorted(still); chunks = [chunks[i:i + self.GROUP] for i in range(0, len(chunks), self.GROUP)]
            def one(c):
                l, done, other = self.ask(text, em, set(c), fname, R, 40, 20, ['--smt-option', 'smt.random_seed=%d' % seed])
                return set(c) if other or not done else l
            with ThreadPoolExecutor(8) as ex: left = set().union(*ex.map(one, chunks))
            still &= left
            if not any(byline[l].cand is None or byline[l].cand.src == 'template' for l in still): break
        return still
    def vacuity(self, R):
        """every return must be reachable: `false` must not be provable there"""
        ls = R.text.split('\n'); n = 0
        exp = []
        for l in getattr(R.em, 'reach_lines', []):
            # reach_lines point at the assume(false) after the postconditions
            if 'assume(false)' in ls[l - 1]: ls[l - 1] = ls[l - 1].replace('assume(false);', 'assert(false);'); exp.append(l)
        if not exp: return []
        rc, out, err, dt = run_verus('\n'.join(ls), R.fname, rlimit=20, timeout=60)
        lines, rl, other = parse(err)
        if rl or rc == -1: return []
        v = [l for l in exp if l not in lines]
        return v if len(v) == len(exp) else []

def verify_lemmas(V):
    """verify every specification-level lemma used for these properties"""
    class E: lines = []
    head = V.header(E, None)
    lf, names = V.lifts(None)
    used = set(re.findall(r'\blift_\w+', '\n'.join(head)))
    lf = [l for l in lf if l[len(LIFT):].split('(')[0].split('<')[0] in used]
    text = '\n'.join(head + lf) + '\n} // verus!\nfn main() {}\n'
    d = tempfile.mkdtemp(prefix='vp_', dir=os.environ.get('VP_TMP', '/tmp'))
    open(os.path.join(d, 'm.rs'), 'w').write(text)
    if os.environ.get('VP_KEEP'): open(os.environ['VP_KEEP'], 'w').write(text)
    try:
        p = subprocess.run(['verus', 'm.rs', '--multiple-errors', '20', '--triggers-mode', 'silent', '--error-format=json', '--output-json', '--time', '--rlimit', '100', '--num-threads', '4'], capture_output=True, text=True, timeout=400, cwd=d)
        out, err = p.stdout, p.stderr
    except subprocess.TimeoutExpired: out, err = '', ''
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    r = {'n': 0, 'ok': 0, 'error': None, 'ms': smt_ms(out), 'names': re.findall(r'^(?:pub )?(?:broadcast )?proof fn (\w+)', re.sub(r'#\[verifier::external_body\]\s*(pub )?(broadcast )?proof fn \w+', '', text), re.M)}
    try:
        v = json.loads(out)['verification-results']
        r['ok'] = v['verified']; r['n'] = v['verified'] + v['errors']
        if not v['success']: raise ValueError
    except Exception:
        msgs = []
        for l in err.splitlines():
            try: m = json.loads(l)
            except Exception: continue
            if m.get('level') == 'error': msgs.append(m.get('rendered') or m.get('message', ''))
        r['error'] = '\n'.join(msgs)[:4000] or 'no verdict'
    return r

def smt_ms(out):
    try: return json.loads(out)['times-ms']['smt']['smt-run']
    except Exception: return 0

def items(text):
    """top-level specification functions and lemmas -> {name: text}"""
    out = {}
    for m in re.finditer(r'^(?:#\[[^\]]*\]\s*)?(?:pub )?(?:broadcast )?(?:open |closed |uninterp )?(?:spec|proof) fn (\w+).*?(?=^(?:#\[|pub |proof |spec |//|\}\s*// verus)|\Z)', text, re.M | re.S): out[m.group(1)] = m.group(0)
    return out
def relevant(body, text, bc):
    """the broadcast lemmas whose triggers can occur in this obligation"""
    it = items(text)
    trig = {}
    for b in bc:
        t = it.get(b, '')
        k = re.search(r'#!\[trigger ([^\]]*(?:\[[^\]]*\][^\]]*)*)\]', t)
        hs = set(re.findall(r'#\[trigger\] \(?(\w+)\(', t))
        if k: hs |= set(re.findall(r'(\w+)\(', k.group(1))[:1])
        trig[b] = {h for h in hs if h in it}
    seen = set(); todo = set(re.findall(r'\w+', body)); on = []
    while todo:
        x = todo.pop()
        if x in seen: continue
        seen.add(x)
        if x in it and not x.startswith(('lemma_', 'lift_', 'ax_')): todo |= set(re.findall(r'\w+', it[x])) - seen
        if not todo:
            for b in bc:
                if b not in on and trig[b] <= seen:
                    on.append(b); todo |= set(re.findall(r'\w+', re.sub(r'\{[^{}]*\}\s*$', '', it.get(b, '')))) - seen
    return [b for b in bc if b in on]
def expand(c, prog):
    """contract text with sem!/FN!/ptr! written out"""
    c = dict(c)
    for k in ('req', 'ens', 'inv', 'proof', 'pre_proof', 'loop_proof'):
        if k in c: c[k] = [dict(x, e=subst_sem(x['e'], prog)) for x in c[k]]
    return c
_fp = {}
def fnptr_all(prog):
    prog.reified_for(('fn', (), ('unit',)))
    return [p for p in prog._reified if p in prog.bodies]
def ptr_all(prog):
    """function-pointer signatures whose candidates all have plain (non-&mut) parameters"""
    out = {}
    for p in fnptr_all(prog):
        a, r = prog.sig(p, [])
        if any(t[0] == 'mut' for t in a): continue
        fnty = ('fn', tuple(a), r); k = ptr_key(fnty, prog)
        out.setdefault(k, (k, fnty, []))[2].append(p)
    return list(out.values())

def subst_sem(spec, prog):
    """`sem!(key)` in the spec text -> the sanitised name"""
    def f(m):
        p = prog.find(m.group(1))
        return 'sem_' + (prog.san(p) if p else re.sub(r'[^A-Za-z0-9]+', '_', m.group(1)))
    s = re.sub(r'sem!\(([A-Za-z0-9_:]+)\)', f, spec)
    def h(m):
        p = prog.find(m.group(1))
        return 'FN_' + (prog.san(p) if p else re.sub(r'[^A-Za-z0-9]+', '_', m.group(1)))
    def g(m):
        p = prog.find(m.group(1))
        if not p: return 'ptr_missing'
        a, r = prog.sig(p, [])
        return ptr_key(('fn', tuple(a), r), prog)
    s = re.sub(r'ptr!\(([A-Za-z0-9_:]+)\)', g, s)
    s = re.sub(r'LIFT!\(([A-Za-z0-9_:]+)\)', lambda m: f(m).replace('sem_', 'lift_', 1), s)
    s = re.sub(r'AX!\(([A-Za-z0-9_:]+)\)', lambda m: 'ax_%s_%s' % (g(m), f(m)[4:]), s)
    return re.sub(r'FN!\(([A-Za-z0-9_:]+)\)', h, s)
