"""Turn a lowered function and its contract into one Verus proof function whose obligations are labelled line by line."""
import re
import terms as T
from terms import show, v as tv
from types_ import vty, no_mut, RANGE
from lower import TV, Unsupported

def set_targets(ss, acc=None):
    """variables assigned in ss and not declared in it"""
    if acc is None: acc = []
    decl = set()
    def go(ss):
        for s in ss:
            if s[0] == 'mut': decl.add(s[1])
            elif s[0] == 'set': acc.append(s[1])
            elif s[0] == 'if': go(s[2]); go(s[3])
            elif s[0] == 'loop': go(s[1].body)
            elif s[0] == 'call': acc.extend(s[1])
            elif s[0] in ('callptr', 'ppoint'): acc.append(s[1])
            elif s[0] == 'sort': acc.extend([s[1], s[2]])
    go(ss)
    out = []
    for x in acc:
        if x not in decl and x not in out: out.append(x)
    return out

class Ob:
    """one proof obligation"""
    __slots__ = ('line', 'kind', 'name', 'text', 'span', 'fn', 'loop', 'cand', 'tags')
    def __init__(self, **k):
        for s in self.__slots__: setattr(self, s, k.get(s))

class Emitter:
    def __init__(self, lw, prog, contract, prop, contracts, cands, panic_mode):
        """cands: {loop label: [Cand]}"""
        self.lw = lw; self.prog = prog; self.c = contract or {}; self.prop = prop; self.contracts = contracts
        self.cands = cands; self.panic = panic_mode
        self.lines = []; self.obs = []; self.ind = 1
        self.loopk = {}
        self.callees = set()
        self.ptrs = set()
        self.n_ret = 0
        self.fname = lw.path; self.mainlw = lw
    independent = False
    def ty(self, t): return vty(t, self.prog.adts) if t is not None else 'Opq'
    def w(self, s): self.lines.append('  ' * self.ind + s)
    def ob(self, expr, **k):
        self.obs.append(Ob(line=len(self.lines), fn=self.fname, text=expr, **k))
        self.w('assert(%s);' % expr.replace('\n', ' '))
    def active(self, cl): return active(cl, self.prop)
    def assume(self, e):
        self.w('assume(%s);' % e.replace('\n', ' '))
    # ------------------------------------------------------------------
    def function(self, name):
        lw = self.lw
        gens = self.prog.generics(lw.path)
        g = '<%s>' % ', '.join(gens) if gens else ''
        ps = ', '.join('%s: %s' % (n, self.ty(t)) for n, t in lw.params)
        self.ind = 0
        self.w('proof fn %s%s(%s)' % (name, g, ps))
        self.ind = 1
        reqs = [c for c in self.c.get('req', []) if self.active(c)]
        if reqs:
            self.w('requires')
            for c in reqs: self.w('  %s,' % c['e'].replace('\n', ' '))
        self.w('{')
        self.ind = 2
        # machine integers are in the range of their type
        for n, t in lw.params:
            for e in ranges(tv(n), no_mut(t), self.prog.adts): self.assume(e)
        for x in self.c.get('pre_proof', []):
            if active(x, self.prop): self.w(x['e'])
        if self.mirror:
            # the other function first, on the given arguments: its result is what its name means; then, on every path, this one
            ml, args = self.mirror; pq = ['p%d' % i for i in range(len(args))]
            self.w('let (%s,) = (%s,);' % (', '.join('q%d' % i for i in range(len(args))), ', '.join(args)))
            self.w('{'); self.ind += 1
            for (n, t), a in zip(ml.params, args): self.w('let %s__m: %s = %s;' % (n, self.ty(t), n))
            self.w('let (%s,) = (%s,);' % (', '.join(n for n, _ in ml.params), ', '.join('q%d' % i for i in range(len(args)))))
            self.inmirror = True; self.lw = ml
            self.stmts(ml.out, {}, lambda: None)
            self.inmirror = False; self.lw = lw
            self.ind -= 1; self.w('}')
        else: self.stmts(lw.out, {}, lambda: None)
        self.ind = 1
        self.vacuity_line = len(self.lines)
        self.w('}')
        return self.lines
    def stmts(self, ss, conts, after):
        """after() emits whatever follows this block up to the end of the path (used where a break jumps)"""
        for i, s in enumerate(ss):
            k = s[0]
            if k in ('if', 'loop'):
                rest = ss[i + 1:]
                def after2(rest=rest):
                    self.stmts(rest, conts, after); after()
            if k == 'let': self.w('let %s: %s = %s;' % (s[1], self.ty(s[2]), show(s[3])))
            elif k == 'mut':
                self.w('let mut %s: %s = %s;' % (s[1], self.ty(s[2]), 'havoc()' if s[3] is None else show(s[3])))
            elif k == 'set': self.w('%s = %s;' % (s[1], show(s[2])))
            elif k == 'if':
                self.w('if %s {' % show(s[1])); self.ind += 1
                self.stmts(s[2], conts, after2); self.ind -= 1
                if s[3]:
                    self.w('} else {'); self.ind += 1; self.stmts(s[3], conts, after2); self.ind -= 1
                self.w('}')
            elif k == 'assert':
                e = show(s[1])
                if s[2] == 'panic' and not self.panic: self.assume(e)
                else: self.ob(e, kind='panic' if s[2] == 'panic' else 'req', name=s[3], span=s[4])
            elif k == 'dead': self.assume('false'); return
            elif k == 'ret': self.ret(s[1]); return
            elif k == 'break':
                self.w('{ // break ' + s[1]); self.ind += 1; conts[s[1]](); self.ind -= 1; self.w('}'); self.assume('false'); return
            elif k == 'continue':
                self.loop_end(s[1]); self.assume('false'); return
            elif k == 'call': self.call(s)
            elif k == 'callptr': self.callptr(s)
            elif k == 'sort': self.sort(s)
            elif k == 'ppoint': self.ppoint(s)
            elif k == 'loop':
                self.loop(s[1], conts, after2)
                if s[1].raw: return
            else: raise Unsupported('emit ' + k)
    mirror = None; inmirror = False
    def mirror_ret(self, V):
        ml = self.lw; names = [n for n, _ in ml.params]
        self.w('{'); self.ind += 1
        self.assume('%s == sem_%s(%s)' % (show(V.t), self.prog.san(ml.path), ', '.join(names)))
        self.w('let (%s,) = (%s,);' % (', '.join(names), ', '.join(n + '__m' for n in names)))
        self.inmirror = False; self.lw = self.mainlw
        self.stmts(self.lw.out, {}, lambda: None)
        self.inmirror = True; self.lw = ml
        self.assume('false')
        self.ind -= 1; self.w('}')
        self.assume('false')
    def ret(self, V):
        if self.inmirror: return self.mirror_ret(V)
        self.n_ret += 1
        lw = self.lw; unit = lw.rty[0] in ('unit', 'never')
        self.w('{'); self.ind += 1
        if not unit: self.w('let res: %s = %s;' % (self.ty(lw.rty), show(V.t)))
        for i, m, t in lw.outs: self.w('let out%d: %s = %s;' % (i, self.ty(t), m))
        for p in self.c.get('proof', []):
            if active(p, self.prop): self.w(self.pexpr(p['e']))
        for j, c in enumerate(self.c.get('ens', [])):
            if not self.active(c): continue
            self.ob(c['e'], kind='post', name='postcondition %d' % j + (' (%s)' % c['d'] if c.get('d') else ''), tags=c['tags'])
        self.ind -= 1; self.w('}')
        self.reach_lines = getattr(self, 'reach_lines', [])
        self.reach_lines.append(len(self.lines))
        self.assume('false')
    def pexpr(self, e): return e
    # ------------------------------------------------------------------
    def sub_clause(self, e, args, res, outs):
        """instantiate a callee clause"""
        m = {}
        for i, a in enumerate(args): m['p%d' % i] = '(' + a + ')'
        if res is not None: m['res'] = res
        for i, o in outs.items(): m['out%d' % i] = o
        return re.sub(r'\b(p\d+|res|out\d+)\b(?!\s*:[^:])', lambda x: m.get(x.group(1), x.group(1)), e)
    def call(self, s):
        _, res, path, args, sp = s
        a = [show(x) for x in args]
        c = self.prog.contract_for(path, self.contracts) or {}
        self.callees.add(path)
        ptys, rty = self.prog.sig(path, [])
        self.w('// call ' + path)
        for j, q in enumerate(c.get('req', [])):
            if not self.active(q) or self.inmirror: continue
            self.ob(self.sub_clause(q['e'], a, None, {}), kind='req', name='precondition %d of %s' % (j, path.split('::')[-1]), span=sp, tags=q['tags'])
        if path == self.lw.path and 'C23' in self.prop and c.get('measure'):
            m = c['measure']
            self.ob('0 <= %s && %s < %s' % (self.sub_clause(m, a, None, {}), self.sub_clause(m, a, None, {}), m), kind='term', name='recursion terminates', span=sp)
        mts = [i for i, t in enumerate(ptys) if t[0] == 'mut']
        unit = rty[0] in ('unit', 'never')
        sem = 'sem_%s(%s)' % (self.prog.san(path), ', '.join(a))
        n = len(mts) + (0 if unit else 1)
        if n == 1: self.w('%s = %s;' % (res[0], sem))
        elif n > 1:
            for j, r in enumerate(res): self.w('%s = %s.%d;' % (r, sem, j))
        rr = None if unit else res[0]
        outs = dict(zip(mts, res[0 if unit else 1:]))
        for q in c.get('ens', []):
            if self.active(q): self.assume(self.sub_clause(q['e'], a, rr, outs))
    def callptr(self, s):
        _, r, fnty, cands, f, args, sp = s
        a = [show(x) for x in args]
        key = ptr_key(fnty, self.prog)
        self.ptrs.add((key, fnty, tuple(cands)))
        for p in cands:
            c = self.prog.contract_for(p, self.contracts) or {}
            self.callees.add(p)
            for j, q in enumerate(c.get('req', [])):
                if self.active(q):
                    self.ob('%s == FN_%s ==> %s' % (show(f), self.prog.san(p), self.sub_clause(q['e'], a, None, {})), kind='req', name='precondition %d of %s' % (j, p.split('::')[-1]), span=sp)
        self.w('%s = %s(%s, %s);' % (r, key, show(f), ', '.join(a)))
        for p in cands:
            c = self.prog.contract_for(p, self.contracts) or {}
            for q in c.get('ens', []):
                if self.active(q): self.assume('%s == FN_%s ==> (%s)' % (show(f), self.prog.san(p), self.sub_clause(q['e'], a, r, {})))
    def sort(self, s):
        _, r, pm, q, le, stable, sp = s
        q = show(q); le = show(le)
        self.w('let le_ = %s;' % le)
        self.w('%s = sort_by_fn(%s, le_); %s = sort_perm(%s, le_);' % (r, q, pm, q))
        self.assume('sort_result(%s, %s, %s)' % (q, r, pm))
        self.assume('(forall|i_: int, j_: int| 0 <= i_ < %s.len() && 0 <= j_ < %s.len() ==> le_(%s[i_], %s[j_]) || le_(%s[j_], %s[i_])) && (forall|i_: int, j_: int, h_: int| 0 <= i_ < %s.len() && 0 <= j_ < %s.len() && 0 <= h_ < %s.len() && le_(%s[i_], %s[j_]) && le_(%s[j_], %s[h_]) ==> le_(%s[i_], %s[h_])) ==> (forall|i_: int, j_: int| 0 <= i_ < j_ < %s.len() ==> le_(#[trigger] %s[i_], #[trigger] %s[j_]))' % ((q,) * 15 + (r,) * 3))
        if stable:
            self.assume('forall|i_: int, j_: int| 0 <= i_ < j_ < %s.len() && le_(%s[j_], %s[i_]) ==> #[trigger] %s[i_] < #[trigger] %s[j_]' % (r, r, r, pm, pm))
    def ppoint(self, s):
        _, o, q, pr, sp = s
        q = show(q); pr = show(pr)
        self.w('let pr_ = %s; %s = havoc();' % (pr, o))
        self.assume('0 <= %s && %s <= %s.len()' % (o, o, q))
        self.assume('(forall|i_: int, j_: int| 0 <= i_ < j_ < %s.len() && pr_(%s[j_]) ==> pr_(%s[i_])) ==> (forall|i_: int| 0 <= i_ < %s ==> pr_(%s[i_])) && (forall|i_: int| %s <= i_ < %s.len() ==> !pr_(%s[i_]))' % (q, q, q, o, q, o, q, q))
    # ------------------------------------------------------------------
    def loop(self, L, conts, after):
        mods = set_targets(L.body)
        lw = self.lw
        for x in mods: self.w('let %s__%s: %s = %s;' % (x, L.label, self.ty(lw.vty[x]), x))
        cs = self.cands.get(L.label, [])
        n = show(L.n) if not L.raw else None
        if not L.raw: self.ob('0 <= %s && %s <= %s' % (L.kvar, L.kvar, n), kind='inv', name='loop counter in range at entry', loop=L.label, span=L.span)
        for c in cs: self.inv_ob(c, 'entry', L)
        for x in mods: self.w('%s = havoc();' % x)
        if not L.raw: self.assume('0 <= %s && %s <= %s' % (L.kvar, L.kvar, n))
        for c in cs: self.assume(c.text)
        inner = dict(conts)
        inner[L.label] = after
        self.loopk[L.label] = (L, cs)
        if L.raw:
            self.w('{'); self.ind += 1
        else:
            self.w('if %s < %s {' % (L.kvar, n)); self.ind += 1
        def end():
            self.loop_end(L.label); self.assume('false')
        self.stmts(L.body, inner, end)
        end(); self.ind -= 1
        self.w('}')
    def loop_end(self, label):
        L, cs = self.loopk[label]
        for p in self.c.get('loop_proof', []):
            if active(p, self.prop): self.w(p['e'])
        if not L.raw: self.ob('0 <= %s && %s <= %s' % (L.kvar, L.kvar, show(L.n)), kind='inv', name='loop counter in range', loop=label, span=L.span)
        for c in cs: self.inv_ob(c, 'preserved', L)
    def inv_ob(self, c, what, L):
        if self.independent:
            self.n_ind = getattr(self, 'n_ind', 0) + 1
            self.w('let b_%d: bool = havoc(); if b_%d {' % (self.n_ind, self.n_ind))
            self.ob(c.text, kind='inv', name='loop invariant %s %s' % (c.name, what), loop=L.label, cand=c, span=L.span)
            self.w('assume(false); }'); return
        self.ob(c.text, kind='inv', name='loop invariant %s %s' % (c.name, what), loop=L.label, cand=c, span=L.span)

def ranges(t, ty, adts, d=3):
    if ty[0] == 'int' and ty[1] in RANGE: return ['%d <= %s <= %d' % (RANGE[ty[1]][0], show(t), RANGE[ty[1]][1])]
    out = []
    if d and ty[0] == 'adt' and ty[1] in adts.t and adts.t[ty[1]][0] == 'struct':
        for f, ft in adts.fields(ty[1], ty[2]): out += ranges(T.fld(t, f), ft, adts, d - 1)
    elif d and ty[0] == 'tup':
        for i, x in enumerate(ty[1]): out += ranges(T.tfld(t, i), x, adts, d - 1)
    return out

def ptr_key(fnty, prog):
    return 'ptr_' + re.sub(r'[^A-Za-z0-9]+', '_', '_'.join(vty(x, prog.adts) for x in fnty[1]) + '_to_' + vty(fnty[2], prog.adts)).strip('_')

def active(c, prop):
    """prop: set of property tags being decided"""
    t = c['tags']
    return '*' in t or bool(set(t) & set(prop))
