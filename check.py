#!/usr/bin/env python3
"""check.py <property> [quick|thorough] - decide one property by verifying the contracts it rests on against /repo's current source."""
import sys, os, json, time, glob, importlib, re, traceback, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts')]
from concurrent.futures import ThreadPoolExecutor, wait, FIRST_COMPLETED
import contracts
for f in sorted(glob.glob(os.path.join(HERE, 'contracts', 'c_*.py'))): importlib.import_module(os.path.basename(f)[:-3])
import prog as PR
from verify import Verifier, active, verify_lemmas
import verify, witness, threading

def log(*a): print(*a, file=sys.stderr, flush=True)

def load(repo, ident):
    d = os.environ.get('VP_THIR')          # development only: dumps made earlier
    if d: return PR.Program(PR.load_cached(d), repo=repo)
    return PR.Program(repo=repo)

class Run:
    def __init__(self, P, pid, jobs=8, deadline=None, rlimit=None):
        self.P = P; self.pid = pid; self.prop = {pid} | set(contracts.DEPS.get(pid, '').split()); self.C = contracts.C; self.jobs = jobs; self.deadline = deadline
        self.results = {}; self.missing = []; self.fallbacks = []; self.vac = []
    def roots(self):
        r = []
        for key, c in self.C.items():
            cls = [x for x in c.get('ens', []) if self.pid in x['tags']]
            if c.get('root') and self.pid in c['root']: cls = cls or [1]
            if self.pid == 'C23' and key in contracts.ENTRY: cls = [1]
            if cls: r.append(key)
        return r
    def has_duty(self, path, V):
        c = self.P.contract_for(path, V.contracts)
        if c is None: return False
        if self.pid == 'C23': return True
        return any(active(x, self.prop) for x in c.get('ens', []))
    def verify_cone(self, V, roots, hints, keep={}):
        """-> {path: Result}; keep: results that stand as they are"""
        res = {}; pend = {}
        with ThreadPoolExecutor(self.jobs) as ex:
            def submit(p):
                if p in res or p in pend.values() : return
                if p in keep:
                    res[p] = keep[p]
                    for q in keep[p].callees:
                        if self.has_duty(q, V): submit(q)
                    return
                pend[ex.submit(V.verify, p, hints.get(V.prog.canon(p)), None)] = p
            for p in roots: submit(p)
            while pend:
                done, _ = wait(list(pend), return_when=FIRST_COMPLETED)
                for d in done:
                    p = pend.pop(d)
                    try: R = d.result()
                    except Exception as e:
                        log(traceback.format_exc())
                        from verify import Result
                        R = Result(); R.path = p; R.unsupported = 'engine: %r' % e
                    res[p] = R
                    log('  %-60s %s' % (V.prog.canon(p), status(R)))
                    for q in R.callees:
                        if self.has_duty(q, V): submit(q)
        return res

def status(R):
    if R.unsupported: return 'UNSUPPORTED ' + R.unsupported[:200]
    if R.error: return 'ERROR ' + R.error[:300]
    s = '%d obligations, %d failed, invariants %d kept %d dropped, %d rounds, %.1fs' % (len(R.obs), len(R.failed), R.kept, R.dropped, R.rounds, R.time)
    for o in R.failed: s += '\n      FAILED %s: %s   [%s]' % (o.name, o.text[:200], o.span)
    return s

class Search:
    """the bounded search, started at the first obligation that does not go through and run beside the proof"""
    def __init__(self, pid, repo, seed, secs, jobs): self.a = (pid, repo, seed, secs, jobs); self.t = None; self.w = None; self.stop = threading.Event(); self.lock = threading.Lock(); self.V = []; self.seen = []; self.hit = False
    def start(self, R=None):
        with self.lock:
            if R is not None: self.seen.append(R)
            if self.t is None: self.t = threading.Thread(target=self.run, daemon=True); self.t.start()
    def run(self):
        log('searching for a failing input')
        self.w = witness.search(*self.a, stop=self.stop)
        if self.w.found:
            log('failing input found: the proof is stopped'); self.hit = True
            for V in self.V: V.deadline = time.time()
            verify.stop_all()
    def result(self):
        self.start(); self.t.join(); return self.w

def ok(R): return not R.unsupported and not R.error and not R.failed

def main():
    t0 = time.time()
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    repo = os.environ.get('VP_REPO', '/repo')
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': {}, 'assumptions': [], 'violations': 0}
    cov = ev['coverage']
    problem = None; failed = []; res = {}; lem = None; notes = set(); ext = set()
    tx = 0
    P = None; V = None; run = None
    S = Search(pid, repo, seed, 60 if tier == 'quick' else 240, 4)
    try:
        P = load(repo, pid)
        tx = time.time() - t0
        log('extracted %d bodies in %.1fs' % (len(P.bodies), tx))
        run = Run(P, pid)
        hints = load_hints(pid)
        roots = []; lost = []
        for k in run.roots():
            p = P.find(k)
            c = run.C[k]
            if p is None or P.contract_for(p, run.C) is None:
                if not c.get('helper'): lost.append(k)
            else: roots.append(p)
        if lost: problem = 'anchors not found in the current source: ' + ', '.join(lost)
        V = Verifier(P, run.C, run.prop, pid == 'C23'); V.deadline = t0 + int(os.environ.get('VP_BUDGET', '480')); V.on_fail = S.start; S.V.append(V)
        if problem: S.start()
        with ThreadPoolExecutor(2) as ex:
            lf = ex.submit(verify_lemmas, V)
            res = run.verify_cone(V, roots, hints)
            lem = lf.result()
        bad = [R for R in res.values() if not ok(R)]
        if bad: S.start()
        if bad and pid == 'C11' and not S.hit:
            # a change made to both builders alike: compare them with each other instead of with the description of the tree
            log('second attempt: each multi-threaded builder against the single-threaded one')
            V2 = Verifier(P, run.C, {'C11R'}, False); V2.deadline = t0 + 700; S.V.append(V2)
            roots2 = [p for p in (P.find(k) for k, c in run.C.items() if any('C11R' in x['tags'] for x in c.get('ens', []))) if p]
            run.prop = {'C11R'}; res2 = run.verify_cone(V2, roots2, {}); run.prop = {pid} | set(contracts.DEPS.get(pid, '').split())
            if len(roots2) == 9 and all(ok(R) for R in res2.values()): res = res2; V = V2; bad = []; run.fallbacks.append('builders compared with each other')
        if bad and not S.hit:
            # second attempt: no contracts on private helpers (they are inlined into their callers), all templates pooled
            log('second attempt with helpers inlined')
            C2 = {k: c for k, c in run.C.items() if not (c.get('helper') and any(R.path == P.find(k) or P.find(k) is None or P.contract_for(P.find(k), run.C) is None for R in bad))}
            pool = [t for k, c in run.C.items() if c.get('helper') and k not in C2 for t in c.get('inv', [])]
            groups = {run.C[k].get('group') for k in run.C if P.find(k) in [R.path for R in bad]}
            for k, c in run.C.items():
                if c.get('group') in groups and c.get('group'): pool += c.get('inv', [])
            V2 = Verifier(P, C2, run.prop, pid == 'C23'); V2.pool = pool; V2.deadline = t0 + 740; V2.on_fail = S.start; S.V.append(V2)
            roots2 = [p for p in roots if P.contract_for(p, C2) is not None]
            # a helper's own root clauses serve its callers: they are verified through them
            for k, c in run.C.items():
                if c.get('helper') and k not in C2:
                    for q in c.get('callers', []):
                        p = P.find(q)
                        if p and p not in roots2: roots2.append(p)
            gone = {P.find(k) for k in run.C if k not in C2}
            keep = {p: R for p, R in res.items() if ok(R) and p not in gone and not any(q in gone for q in R.callees)}
            res2 = run.verify_cone(V2, roots2, {}, keep)
            if all(ok(R) for R in res2.values()): res = res2; V = V2; run.fallbacks.append('helpers inlined: ' + ', '.join(k for k in run.C if k not in C2))
            bad = [R for R in res.values() if not ok(R)]
        for R in bad:
            if R.failed: failed += [(R, o) for o in R.failed]
            elif R.unsupported: problem = (problem + '; ' if problem else '') + '%s: outside the verifier\'s reach: %s' % (R.path, R.unsupported)
            else: problem = (problem + '; ' if problem else '') + '%s: %s' % (R.path, R.error)
        if lem['error']: problem = (problem + '; ' if problem else '') + 'lemma file: ' + lem['error'][:1500]
        if not problem and not failed:
            with ThreadPoolExecutor(8) as ex:
                for R, v in zip(res.values(), ex.map(V.vacuity, res.values())):
                    if v: problem = 'vacuous: every return of %s at generated lines %s is unreachable' % (R.path, v)
            if sum(len(R.obs) for R in res.values()) == 0: problem = 'no obligations'
    except PR.ExtractError as e:
        problem = 'extraction: %s' % e
    except Exception as e:
        log(traceback.format_exc()); problem = 'engine: %r' % e
    obs = sum(len(R.obs) for R in res.values()) + (lem['n'] if lem else 0)
    dis = sum(len(R.obs) - len(R.failed) for R in res.values() if not R.error and not R.unsupported) + (lem['ok'] if lem else 0)
    for R in res.values(): notes |= R.notes; ext |= R.ext
    cov.update({
        'obligations': obs, 'discharged': dis,
        'checker_cmd': 'verus m.rs --verify-root --verify-function vc_<function> --multiple-errors 60 --rlimit %s (one call per function and round; Z3 back end)' % os.environ.get('VP_RLIMIT', '60'),
        'functions_under_contract': [{'function': P.canon(R.path), 'obligations': len(R.obs), 'failed': len(R.failed), 'inlined': R.inlined, 'callee_contracts_used': sorted(P.canon(x) for x in R.callees),
            'loop_invariants_kept': R.kept, 'candidates_refuted': R.dropped, 'rounds': R.rounds, 'smt_ms': R.smt_ms, 'seconds': round(R.time, 1), 'unsupported': R.unsupported, 'error': (R.error or '')[:500] or None} for R in res.values()] if P else [],
        'lemmas': lem and {'verified': lem['ok'], 'of': lem['n'], 'names': lem['names']},
        'smt_ms': sum(R.smt_ms for R in res.values()) + (lem['ms'] if lem else 0),
        'extraction_s': round(tx, 1), 'fallbacks': run.fallbacks if run else [],
        'trusted_base': contracts.TRUSTED,
    })
    ev['assumptions'] = list(contracts.ASSUMPTIONS) + sorted('lowering: ' + n for n in notes) + sorted('assumed meaning of library call: ' + n for n in ext)
    rc = 0; line = None
    if S.t is not None and not failed and not problem and not S.hit: S.stop.set(); S.t.join()
    if S.hit and not failed:
        failed = [(R, o) for R in S.seen for o in R.failed]
        if not failed and not problem: problem = 'not proved before a failing input was found: ' + '; '.join('%s: %s' % (R.path, R.unsupported or R.error) for R in S.seen)
    if failed or problem:
        log('not proved: %s' % (problem or '; '.join('%s / %s' % (R.path, o.name) for R, o in failed)))
        w = S.result()
        cov['bounded_search'] = w.summary
        rep = write_replay(pid, failed, problem, w, P)
        if w.found:
            rc = 1; line = 'VIOLATION property=%s replay=%s' % (pid, rep)
        elif failed:
            rc = 1; line = 'VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep)
        else:
            ev['level'] = 'exploration'
            cov['label'] = 'bounded: not proved on this source'
            cov['not_proved_because'] = problem
            cov['evaluations'] = w.evaluations; cov['distinct_nontrivial'] = w.distinct; cov['rule'] = w.rule; cov['samples'] = w.samples
            line = 'BOUNDED property=%s not proved on this source (%s); bounded search found no violation' % (pid, problem.splitlines()[0][:300])
    elif tier == 'thorough':
        S.a = (pid, repo, seed, 240, 7); w = S.result()
        cov['bounded_search'] = w.summary
        if w.found:
            rep = write_replay(pid, [], 'the proof went through but the running code fails: rounding or the trusted base', w, P)
            rc = 1; line = 'VIOLATION property=%s replay=%s' % (pid, rep)
    for l in known_findings(pid): print('KNOWN-FINDING: property=%s %s' % (pid, l))
    ev['violations'] = 1 if rc else 0
    ev['wall_s'] = round(time.time() - t0, 1)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)
    if os.environ.get('VP_SAVE_HINTS') and not failed and not problem: save_hints(pid, P, res)
    if line: print(line)
    else: print('OK property=%s %d obligations discharged over %d functions and %d lemmas in %.0fs' % (pid, obs, len(res), lem['n'] if lem else 0, ev['wall_s']))
    return rc

def write_replay(pid, failed, problem, w, P):
    d = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, pid + '.txt')
    with open(p, 'w') as f:
        f.write('property %s\n' % pid)
        if problem: f.write('problem: %s\n' % problem)
        for R, o in failed:
            f.write('FAILED OBLIGATION in %s: %s\n  kind %s  loop %s  source %s\n  %s\n' % (P.canon(R.path), o.name, o.kind, o.loop, o.span, o.text))
        f.write('\nbounded search: %s\n' % json.dumps(w.summary, default=str))
        if w.found: f.write('\nFAILING INPUT (rerun: %s)\n%s\n' % (w.cmd, w.found))
        for R in {id(R): R for R, _ in failed}.values():
            f.write('\n--- verifier output for %s ---\n' % R.path)
            for l in R.out.splitlines():
                try: f.write(json.loads(l).get('rendered', '') + '\n')
                except Exception: pass
    return p
def known_findings(pid):
    p = os.path.join(HERE, 'known-findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) (.*)', l.strip())
            if m and m.group(1) == pid: out.append(m.group(2))
    return out
def load_hints(pid):
    p = os.path.join(HERE, 'hints', pid + '.json')
    if not os.path.exists(p): return {}
    return {k: [tuple(x) for x in v] for k, v in json.load(open(p)).items()}
def save_hints(pid, P, res):
    os.makedirs(os.path.join(HERE, 'hints'), exist_ok=True)
    json.dump({P.canon(R.path): R.survivors for R in sorted(res.values(), key=lambda r: P.canon(r.path)) if R.survivors}, open(os.path.join(HERE, 'hints', pid + '.json'), 'w'), indent=0, sort_keys=True)

if __name__ == '__main__':
    sys.exit(main())
