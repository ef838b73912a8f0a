"""Bounded search for a failing input against the real code: harness/ built against the current source (when the proof does
not go through, and in the thorough tier).  It never decides that a property holds."""
import os, json, shutil, subprocess, tempfile, time, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, '..', 'harness')
RULE = 'pseudo-random inputs from (seed, case number): tables of 1..300 rows, 1..12 features with ties, constants, tiny and huge values, 1..12 targets, one-hot / real / residual labels, all thresholds at and between values, depths 0..20, hand-made trees with exact scores; compared with an oracle written from the property text; distinct = distinct inputs'
class W:
    def __init__(self): self.found = None; self.cmd = ''; self.summary = {'status': 'not run'}; self.evaluations = 0; self.distinct = 0; self.rule = RULE; self.samples = []
_built = {}
def build(repo):
    if repo in _built: return _built[repo]
    d = tempfile.mkdtemp(prefix='vp_harness_', dir=os.environ.get('VP_TMP', '/tmp'))
    atexit.register(shutil.rmtree, d, True)
    shutil.copytree(os.path.join(HARNESS, 'src'), d + '/src')
    t = open(os.path.join(HARNESS, 'Cargo.toml')).read().replace('/repo/', repo.rstrip('/') + '/')
    open(d + '/Cargo.toml', 'w').write(t)
    lock = os.path.join(HARNESS, 'Cargo.lock')
    if os.path.exists(lock): shutil.copy(lock, d + '/Cargo.lock')
    env = dict(os.environ, CARGO_TARGET_DIR=d + '/target', RUSTFLAGS='-Awarnings')
    try: p = subprocess.run(['cargo', 'build', '--offline', '-q'], cwd=d, env=env, capture_output=True, text=True, timeout=240)
    except subprocess.TimeoutExpired: _built[repo] = (None, 'build took more than 240 s', d); return _built[repo]
    exe = d + '/target/debug/vp-harness'
    _built[repo] = (exe, None, d) if p.returncode == 0 and os.path.exists(exe) else (None, p.stderr[-2000:], d)
    return _built[repo]
def search(pid, repo, seed, budget, jobs=6, stop=None):
    w = W(); t0 = time.time()
    exe, err, d = build(repo)
    if exe is None: w.summary = {'status': 'the harness does not build against this source', 'error': err}; return w
    env = dict(os.environ, HARNESS_TMP=d, RAYON_NUM_THREADS='2')
    ps = [(seed + 1000 * i, subprocess.Popen([exe, pid, str(seed + 1000 * i), str(budget)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for i in range(jobs)]
    end = time.time() + budget + 75
    live = list(ps); bad = []
    while live and time.time() < end and not (stop and stop.is_set()):
        time.sleep(0.2)
        for s, p in list(live):
            if p.poll() is None: continue
            live.remove((s, p))
            out = p.stdout.read()
            try: r = json.loads(out.strip().splitlines()[-1])
            except Exception:
                # the process died: a stack overflow or an abort in the code under test
                if p.returncode < 0: r = {'found': 'the process died with signal %d' % -p.returncode, 'case': -1, 'evaluations': 0, 'distinct': 0, 'samples': []}
                else: bad.append('exit %s' % p.returncode); continue
            w.evaluations += r['evaluations']; w.distinct += r['distinct']
            if len(w.samples) < 5: w.samples += r['samples'][:5 - len(w.samples)]
            if r['found'] and not w.found:
                w.found = r['found']; w.cmd = 'vp-harness %s %d 60 %d   (crate /verif/harness: cargo build --offline)' % (pid, s, r['case'])
                for _, q in live: q.kill()
                live = []
                break
    for _, p in ps:
        if p.poll() is None: p.kill()
    w.summary = {'status': 'failing input found' if w.found else 'stopped' if stop and stop.is_set() else 'no failing input', 'seconds': round(time.time() - t0, 1), 'cases': w.evaluations, 'processes': jobs, 'errors': bad}
    return w
