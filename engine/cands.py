"""Candidate loop invariants: read off one symbolic iteration, plus the contract's templates.  Candidates are guesses -
each is kept only if the verifier proves it at loop entry and across every iteration."""
import itertools, re, os
import terms as T
from terms import v as tv, app, fld, tfld, show
from types_ import vty, no_mut
from emit import set_targets, active

class Cand:
    __slots__ = ('text', 'name', 'src')
    def __init__(self, text, name, src): self.text = text; self.name = name; self.src = src
    def __repr__(self): return self.name + ': ' + self.text

def under(q, p):
    while q[0] in ('fld', 'tfld'):
        q = q[1]
        if q == p: return True
    return False

class Sym:
    """symbolic effect of one loop iteration"""
    def __init__(self, lw, closed): self.lw = lw; self.m = {}; self.opq = 0; self.closed = closed; self.passed = []
    def opaque(self, x):
        self.opq += 1; self.m[x] = tv('__opq%d' % self.opq)
    def t(self, t): return T.subst(t, self.m)
    def run(self, ss):
        """False if the path ends"""
        for s in ss:
            k = s[0]
            if k == 'let': self.m[s[1]] = self.t(s[3])
            elif k == 'mut':
                if s[3] is None: self.opaque(s[1])
                else: self.m[s[1]] = self.t(s[3])
            elif k == 'set': self.m[s[1]] = self.t(s[2])
            elif k == 'assert':
                if getattr(self, 'depth', 0) == 0: self.passed.append(self.t(s[1]))
            elif k in ('dead', 'ret', 'break'): return False
            elif k == 'continue': return 'cont'
            elif k == 'if':
                c = self.t(s[1]); base = dict(self.m)
                self.depth = getattr(self, 'depth', 0) + 1
                ra = self.run(s[2]); ma = self.m
                self.m = dict(base); rb = self.run(s[3]); mb = self.m
                self.depth -= 1
                if ra is False and rb is False: return False
                if ra is False or rb is False:
                    if getattr(self, 'depth', 0) == 0: self.passed.append(T.not_(c) if ra is False else c)
                    self.m = mb if ra is False else ma
                    continue
                if ra == 'cont' or rb == 'cont':
                    for x in set(ma) | set(mb):
                        if ma.get(x) != mb.get(x): pass
                    self.cont = True
                    # a continue: the rest of the body may or may not run
                    self.m = ma if rb == 'cont' else mb
                    rest_m = dict(self.m); other = mb if rb == 'cont' else ma
                    self.pending = getattr(self, 'pending', []) + [(c if rb == 'cont' else T.not_(c), other)]
                    continue
                out = {}
                for x in list(dict.fromkeys(list(ma) + list(mb))):
                    a = ma.get(x, tv(x)); b = mb.get(x, tv(x))
                    out[x] = T.ite(c, a, b)
                self.m = out
            elif k == 'call':
                _, res, path, args, sp = s
                self.callsem(res, path, [self.t(a) for a in args])
            elif k == 'callptr':
                self.m[s[1]] = self.ptrsem(s)
            elif k == 'sort':
                q = self.t(s[3]); le = s[4]
                self.m[s[1]] = app('sort_by_fn({}, {})', q, self.t(le)); self.m[s[2]] = app('sort_perm({}, {})', q, self.t(le))
            elif k == 'ppoint': self.opaque(s[1])
            elif k == 'loop':
                L = s[1]; mods = set_targets(L.body)
                cl = self.closed.get(L.label, {})
                pre = dict(self.m)
                new = {}
                for x in mods:
                    if x in cl:
                        # closed form in terms of entry values named x__label and outer variables
                        mm = dict(pre)
                        for y in mods: mm['%s__%s' % (y, L.label)] = pre.get(y, tv(y))
                        new[x] = T.subst(cl[x], mm)
                    else: new[x] = self.havoc(tv(x), no_mut(self.lw.vty[x]), getattr(L, 'frames', ()), {x: pre.get(x, tv(x))})
                self.m.update(new)
        return True
    def havoc(self, p, ty, frames, pre):
        """what place p holds after a loop that leaves the places in frames alone"""
        if p in frames: return T.subst(p, pre)
        adts = self.lw.prog.adts
        if ty[0] == 'adt' and ty[1] in adts.t and adts.t[ty[1]][0] == 'struct' and any(under(q, p) for q in frames):
            r = T.subst(p, pre)
            for f, ft in adts.fields(ty[1], ty[2]):
                if fld(p, f) not in frames: r = T.supd(r, ty[1], f, self.havoc(fld(p, f), ft, frames, pre))
            return r
        self.opq += 1
        return tv('__opq%d' % self.opq)
    def callsem(self, res, path, args):
        prog = self.lw.prog
        ptys, rty = prog.sig(path, [])
        mts = [i for i, t in enumerate(ptys) if t[0] == 'mut']
        unit = rty[0] in ('unit', 'never'); n = len(mts) + (0 if unit else 1)
        sem = app('sem_%s(' % prog.san(path) + ', '.join(['{}'] * len(args)) + ')', *args)
        if n == 1: self.m[res[0]] = sem
        else:
            for j, r in enumerate(res): self.m[r] = tfld(sem, j)
    def ptrsem(self, s):
        from emit import ptr_key
        _, r, fnty, cands, f, args, sp = s
        return app(ptr_key(fnty, self.lw.prog) + '({}, ' + ', '.join(['{}'] * len(args)) + ')', self.t(f), *[self.t(a) for a in args])

def paths(name, ty, adts, depth=3):
    """(term, type) of a variable and the places inside it"""
    out = []
    def go(t, ty, d):
        out.append((t, ty))
        if d == 0: return
        if ty[0] == 'adt' and ty[1] in adts.t and adts.t[ty[1]][0] == 'struct':
            for f, ft in adts.fields(ty[1], ty[2]): go(fld(t, f), ft, d - 1)
        elif ty[0] == 'tup':
            for i, x in enumerate(ty[1]): go(tfld(t, i), x, d - 1)
        elif ty[0] == 'Opt': go(T.unsome(t), ty[1], d - 1)
    go(tv(name), no_mut(ty), depth)
    return out

def opaque_in(t): return any(x.startswith('__opq') for x in T.vars_(t))

def closed_and_cands(lw, L, outer, closed, adts):
    """closed forms of the variables modified by L, and candidate invariants"""
    mods = set_targets(L.body)
    cl = {}; cs = []
    seen = set()
    def add(text, name):
        if text not in seen:
            seen.add(text); cs.append(Cand(text, name, 'auto'))
    S = Sym(lw, closed)
    body = L.body
    r = S.run(body)
    kv = L.kvar
    b = 'i_' + L.label
    newt = {}
    for x in mods:
        t = S.m.get(x, tv(x))
        if getattr(S, 'pending', None):
            for c, other in S.pending: t = T.ite(c, other.get(x, tv(x)), t)
        newt[x] = t
    modset = set(mods)
    counters = [(tv(kv), T.k('0int'))] if kv else []
    # integer counters
    for x in mods:
        ty = lw.vty[x]
        if x == kv: continue
        if ty[0] == 'int':
            e = '%s__%s' % (x, L.label)
            t = newt[x]
            if kv and t == app('({} + {})', tv(x), T.k('1int')) or t == app('({} + 1)', tv(x)):
                if kv: add('%s == %s + %s' % (x, e, kv), 'count'); cl[x] = app('({} + {})', tv(e), L.n)
                else: counters.append((tv(x), tv(e)))
            add('%s >= %s' % (x, e), 'grows'); add('%s <= %s' % (x, e), 'shrinks')
    def cnt():
        return counters
    if kv:
        # conditions every finished iteration has passed
        for t in S.passed:
            if T.vars_(t) & set(mods) - {kv} or opaque_in(t) or kv not in T.vars_(t): continue
            q = T.subst(t, {kv: tv(b)}); pos = position(q, tv(b))
            if pos is None: continue
            add('forall|%s: int| 0 <= %s < %s ==> %s' % (b, b, kv, trig(show(q), show(pos))), 'passed')
    # places no iteration changes
    frames = []
    for y in mods:
        if y == kv: continue
        for q2, _ in paths(y, lw.vty[y], adts):
            if q2[0] != 'v' and T.subst(q2, {y: newt[y]}) == q2: frames.append((q2, T.subst(q2, {y: tv('%s__%s' % (y, L.label))})))
    L.frames = set(q for q, _ in frames)
    for x in mods:
        ty = no_mut(lw.vty[x])
        if x == kv: continue
        t = newt[x]; e = '%s__%s' % (x, L.label)
        for (p, pty), in [(q,) for q in paths(x, ty, adts)]:
            # new value of this place
            pn = T.subst(p, {x: t})
            pe = T.subst(p, {x: tv(e)})
            if pn == p: add('%s == %s' % (show(p), show(pe)), 'frame'); continue
            if pty[0] == 'Opt' or pty[0] == 'bool':
                pass
            if pty[0] != 'Seq': continue
            ps = show(p); es = show(pe)
            add('%s.len() == %s.len()' % (ps, es), 'len')
            for c, c0 in cnt():
                add('%s.len() == %s.len() + %s - %s' % (ps, es, show(c), show(c0)), 'lenk')
            if pty[1][0] == 'Seq':
                add('forall|%s: int| 0 <= %s < %s.len() ==> (#[trigger] %s[%s]).len() == %s[%s].len()' % (b, b, es, ps, b, es, b), 'innerlen')
            kk = L.kk if kv else None
            pm = merge_upd(pn, p)
            if pm[0] == 'app' and pm[1] == UPD and pm[2][0] == p and not (T.vars_(pm[2][1]) & modset) and not opaque_in(pm[2][1]):
                add('forall|%s: int| 0 <= %s < %s.len() && %s != %s ==> (#[trigger] %s[%s]) == %s[%s]' % (b, b, ps, b, show(pm[2][1]), ps, b, es, b), 'others')
            for c, c0 in cnt():
                off = app('({} + {} - {})', T.length(pe), tv(b), c0) if c0 != T.k('0int') else app('({} + {})', T.length(pe), tv(b))
                # x := x.push(E)
                if pn[0] == 'app' and pn[1] == '{}.push({})' and pn[2][0] == p and not opaque_in(pn[2][1]):
                    E = pn[2][1]
                    for q2, qe in frames: E = replace(E, q2, qe)
                    E = T.subst(E, {c[1]: tv(b)})
                    if not (T.vars_(E) & modset):
                        empty = False
                        lo = show(c0)
                        idx = '%s.len() + %s - %s' % (es, b, lo)
                        for txt, nm in elem_forms('%s[%s]' % (ps, idx), E, pty[1], adts, b):
                            add('forall|%s: int| %s <= %s < %s ==> %s' % (b, lo, b, show(c), trig(txt, '%s[%s]' % (ps, idx))), 'pushed' + nm)
                            if nm == '' or True:
                                # same fact indexed by position
                                E2 = T.subst(E, {b: app('({} - {}.len() + {})', tv(b), pe, c0)}) if True else E
                        add('forall|%s: int| 0 <= %s < %s.len() ==> %s[%s] == %s[%s]' % (b, b, es, ps, b, es, b), 'kept')
                        # from empty: position = counter
                        for txt, nm in elem_forms('%s[%s]' % (ps, b), E, pty[1], adts, b):
                            add('%s.len() == 0 && %s == 0 ==> (forall|%s: int| 0 <= %s < %s ==> %s)' % (es, lo, b, b, show(c), trig(txt, '%s[%s]' % (ps, b))), 'collected' + nm)
                        if p == tv(x) and kv:
                            nlen = app('(({} + {}) as nat)', T.length(pe), L.n)
                            bb = b + 'c'
                            E3 = T.subst(E, {b: app('({} - {})', tv(bb), T.length(pe))})
                            cl[x] = app('Seq::new(({}.len() + {}) as nat, |%s: int| if %s < {}.len() {{ {}[%s] }} else {{ {} }})' % (bb, bb, bb), pe, L.n, pe, pe, E3)
                # x := x.update(c, E(x[c]))
                pn = merge_upd(pn, p)
                if pn[0] == 'app' and pn[1] == '{}.update({}, {})' and pn[2][0] == p and not opaque_in(pn[2][2]):
                    ix = pn[2][1]; E = reads(pn[2][2])
                    if ix == c:
                        old = T.idx(p, c)
                        E1 = replace(E, old, T.idx(pe, tv(b)))
                        # other places that are themselves only updated at position c
                        for y in mods:
                            if y == kv: continue
                            for (q2, qty) in paths(y, lw.vty[y], adts):
                                if qty[0] != 'Seq' or q2 == p: continue
                                E1 = replace(E1, T.idx(q2, c), T.idx(T.subst(q2, {y: tv('%s__%s' % (y, L.label))}), tv(b)))
                        for q2, qe in frames: E1 = replace(E1, q2, qe)
                        E1 = T.subst(E1, {c[1]: tv(b)})
                        if not (T.vars_(E1) & modset):
                            for txt, nm in elem_forms('%s[%s]' % (ps, b), E1, pty[1], adts, b):
                                add('forall|%s: int| %s <= %s < %s ==> %s' % (b, show(c0), b, show(c), trig(txt, '%s[%s]' % (ps, b))), 'updated' + nm)
                            add('forall|%s: int| %s <= %s < %s.len() ==> %s[%s] == %s[%s]' % (b, show(c), b, ps, ps, b, es, b), 'rest')
                            if p == tv(x) and kv:
                                bb = b + 'c'
                                cl[x] = app('Seq::new({}.len(), |%s: int| if %s < {} {{ {} }} else {{ {}[%s] }})' % (bb, bb, bb), pe, L.n, T.subst(E1, {b: tv(bb)}), pe)
    return cl, cs

UPD = '{}.update({}, {})'
def reads(t):
    """x.update(i, e)[i] -> e  (a guess at a candidate's shape: what survives is proved)"""
    o = t[0]
    if o in 'vk': return t
    if o == 'app':
        a = tuple(reads(x) for x in t[2])
        if t[1] == '{}[{}]' and a[0][0] == 'app' and a[0][1] == UPD and a[0][2][1] == a[1]: return a[0][2][2]
        return ('app', t[1], a)
    if o == 'fld': return fld(reads(t[1]), t[2])
    if o == 'tfld': return tfld(reads(t[1]), t[2])
    if o == 'struct': return ('struct', t[1], t[2], tuple((n, reads(x)) for n, x in t[3]))
    if o == 'supd': return T.supd(reads(t[1]), t[2], t[3], reads(t[4]))
    if o == 'tup': return ('tup', tuple(reads(x) for x in t[1]))
    if o == 'ite': return T.ite(*[reads(x) for x in t[1:]])
    return t
def merge_upd(t, p):
    """if c { p.update(k, A) } else { p }  ->  p.update(k, if c { A } else { p[k] })"""
    if t[0] != 'ite': return t
    a = merge_upd(t[2], p); b = merge_upd(t[3], p)
    ia = a[2][1] if a[0] == 'app' and a[1] == UPD and a[2][0] == p else None
    ib = b[2][1] if b[0] == 'app' and b[1] == UPD and b[2][0] == p else None
    if (ia is None and a != p) or (ib is None and b != p) or (ia is None and ib is None) or (ia is not None and ib is not None and ia != ib): return t
    ix = ia if ia is not None else ib
    old = T.idx(p, ix)
    return app(UPD, p, ix, T.ite(t[1], a[2][2] if ia is not None else old, b[2][2] if ib is not None else old))

def position(t, i):
    """a subterm X[i]"""
    if t[0] == 'app':
        if t[1] == '{}[{}]' and t[2][1] == i and i[1] not in T.vars_(t[2][0]): return t
        for x in t[2]:
            r = position(x, i)
            if r: return r
    elif t[0] in ('fld', 'tfld'): return position(t[1], i)
    elif t[0] in ('tup', 'ite'):
        for x in (t[1] if t[0] == 'tup' else t[1:]):
            r = position(x, i)
            if r: return r
    return None

def trig(txt, sub):
    return txt.replace(sub, '(#[trigger] %s)' % sub, 1) if sub in txt else txt

def replace(t, a, b):
    if t == a: return b
    o = t[0]
    if o in 'vk': return t
    if o == 'app': return ('app', t[1], tuple(replace(x, a, b) for x in t[2]))
    if o == 'fld': return fld(replace(t[1], a, b), t[2])
    if o == 'tfld': return tfld(replace(t[1], a, b), t[2])
    if o == 'struct': return ('struct', t[1], t[2], tuple((n, replace(x, a, b)) for n, x in t[3]))
    if o == 'supd': return T.supd(replace(t[1], a, b), t[2], t[3], replace(t[4], a, b))
    if o == 'tup': return ('tup', tuple(replace(x, a, b) for x in t[1]))
    if o == 'ite': return T.ite(*[replace(x, a, b) for x in t[1:]])

def elem_forms(lhs, E, ty, adts, b):
    """statements that lhs is E, also taken apart pointwise"""
    out = []
    if ty[0] == 'Seq':
        out.append(('%s =~= %s' % (lhs, show(E)), ''))
        out.append(('%s.len() == %s' % (lhs, show(T.length(E))), ' length'))
    elif ty[0] == 'adt' and E[0] == 'struct':
        for n, x in E[3]: out.append(('%s.%s == %s' % (lhs, n, show(x)), ' ' + n))
    else:
        out.append(('%s == %s' % (lhs, show(E)), ''))
    return out

def walk_loops(ss, f, outer=()):
    for s in ss:
        if s[0] == 'if': walk_loops(s[2], f, outer); walk_loops(s[3], f, outer)
        elif s[0] == 'loop':
            walk_loops(s[1].body, f, outer + (s[1],))
            f(s[1], outer)

def all_cands(lw, contract, prop, extra_templates=()):
    closed = {}; out = {}
    scope = {}
    collect_scope(lw, scope)
    def f(L, outer):
        cl, cs = closed_and_cands(lw, L, outer, closed, lw.prog.adts)
        closed[L.label] = cl
        tm = [t for t in (contract or {}).get('inv', []) if active(t, prop)] + [t for t in extra_templates if active(t, prop)]
        for t in tm: cs += instantiate(t, lw, L, outer, scope.get(L.label, []), scope.get('mut ' + L.label, []))
        # duplicates
        seen = set(); u = []
        for c in cs:
            if c.text not in seen: seen.add(c.text); u.append(c)
        out[L.label] = u
    walk_loops(lw.out, f)
    return out

def collect_scope(lw, scope):
    """immutable names visible at each loop"""
    muts = {}
    def go(ss, names):
        nonlocal muts
        names = list(names); keep = dict(muts)
        for s in ss:
            if s[0] == 'let': names.append((s[1], s[2]))
            elif s[0] == 'mut' and s[2] is not None: muts[s[1]] = no_mut(s[2])
            elif s[0] == 'if': go(s[2], names); go(s[3], names)
            elif s[0] == 'loop':
                scope[s[1].label] = list(names); scope['mut ' + s[1].label] = list(muts.items())
                go(s[1].body, names)
        muts = keep
    go(lw.out, [(n, t) for n, t in lw.params])

def stmt_terms(ss):
    for s in ss:
        for x in s[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('app', 'fld', 'tfld', 'struct', 'supd', 'tup', 'ite', 'v', 'k'): yield x
        if s[0] == 'if':
            yield from stmt_terms(s[2]); yield from stmt_terms(s[3])
        elif s[0] == 'loop': yield from stmt_terms(s[1].body)
        elif s[0] == 'call':
            for x in s[3]: yield x
        elif s[0] == 'callptr':
            for x in s[5]: yield x

def offsets(L, mods):
    """terms a such that the loop body uses a + counter as a position"""
    out = []
    def go(t):
        if t[0] == 'app':
            if t[1] == '({} + {})' and t[2][1] == tv(L.kk) and not (T.vars_(t[2][0]) & mods) and L.kk not in T.vars_(t[2][0]) and t[2][0] not in out: out.append(t[2][0])
            if t[1] == '({} + {})' and t[2][0] == tv(L.kk) and t[2][1][0] != 'k' and not (T.vars_(t[2][1]) & mods) and t[2][1] not in out: out.append(t[2][1])
            for x in t[2]: go(x)
        elif t[0] in ('fld', 'tfld'): go(t[1])
        elif t[0] == 'struct':
            for _, x in t[3]: go(x)
        elif t[0] == 'supd': go(t[1]); go(t[4])
        elif t[0] == 'tup':
            for x in t[1]: go(x)
        elif t[0] == 'ite':
            for x in t[1:]: go(x)
    declared = set(s[1] for s in walk_stmts(L.body) if s[0] in ('let', 'mut'))
    for t in stmt_terms(L.body): go(t)
    return [a for a in out if not (T.vars_(a) & declared)]

def walk_stmts(ss):
    for s in ss:
        yield s
        if s[0] == 'if': yield from walk_stmts(s[2]); yield from walk_stmts(s[3])
        elif s[0] == 'loop': yield from walk_stmts(s[1].body)

def x_ty(lw, t):
    """type of a place, None if unknown"""
    o = t[0]
    if o == 'v': return no_mut(lw.vty[t[1]]) if t[1] in lw.vty else dict(lw.params).get(t[1])
    if o == 'fld':
        ty = x_ty(lw, t[1])
        if ty and ty[0] == 'adt' and ty[1] in lw.prog.adts.t and lw.prog.adts.t[ty[1]][0] == 'struct': return dict(lw.prog.adts.fields(ty[1], ty[2])).get(t[2])
    elif o == 'tfld':
        ty = x_ty(lw, t[1])
        if ty and ty[0] == 'tup' and t[2] < len(ty[1]): return ty[1][t[2]]
    elif o == 'app' and t[1] == '{}[{}]':
        ty = x_ty(lw, t[2][0])
        if ty and ty[0] == 'Seq': return ty[1]
    elif o == 'app' and t[1] == '(*{})':
        ty = x_ty(lw, t[2][0])
        if ty and ty[0] == 'Box': return ty[1]
    elif o == 'app' and t[1] == '({})->Some_0':
        ty = x_ty(lw, t[2][0])
        if ty and ty[0] == 'Opt': return ty[1]
    return None
def sources(lw, L, mods):
    out = []
    def go(t):
        if t[0] == 'app':
            if t[1] == '{}[{}]' and L.kk in T.vars_(t[2][1]) and L.kk not in T.vars_(t[2][0]) and not (T.vars_(t[2][0]) & mods) and t[2][0] not in out: out.append(t[2][0])
            for x in t[2]: go(x)
        elif t[0] in ('fld', 'tfld'): go(t[1])
        elif t[0] == 'struct':
            for _, x in t[3]: go(x)
        elif t[0] == 'supd': go(t[1]); go(t[4])
        elif t[0] in ('tup', 'ite'):
            for x in (t[1] if t[0] == 'tup' else t[1:]): go(x)
    if L.kvar is None: return []
    for t in stmt_terms(L.body): go(t)
    declared = set(s[1] for s in walk_stmts(L.body) if s[0] in ('let', 'mut'))
    return [a for a in out if not (T.vars_(a) & declared)]

def instantiate(t, lw, L, outer, names, muts=()):
    """template: {'e': text with holes written $name, 'holes': {name: spec}}"""
    adts = lw.prog.adts
    mods = [x for x in set_targets(L.body)]
    if t.get('outer') and outer: return []
    if t.get('inner') and not outer: return []
    if t.get('depth') is not None and len(outer) != t['depth']: return []
    opts = []
    keys = []
    for h, spec in t.get('holes', {}).items():
        c = []
        kind, _, arg = spec.partition(' ')
        if kind == 'mod':       # a place modified by the loop (or declared outside it and modified), of the given type
            for x in mods:
                if x == L.kvar: continue
                for p, pty in paths(x, lw.vty[x], adts):
                    if vty(pty, adts) == arg and p not in L.frames: c.append(show(p))
        elif kind in ('modi', 'modl'):    # the same, indexed by an enclosing loop's counter
            for x in mods:
                for p, pty in paths(x, lw.vty[x], adts):
                    if pty[0] == 'Seq' and vty(pty[1], adts) == arg and p not in L.frames:
                        for o in (outer if kind == 'modi' else outer[-1:]):
                            if not o.raw: c.append('%s[%s]' % (show(p), o.kk))
        elif kind == 'entry':   # entry value of a modified place
            for x in mods:
                if x == L.kvar: continue
                for p, pty in paths(x, lw.vty[x], adts):
                    if vty(pty, adts) == arg: c.append(show(T.subst(p, {x: tv('%s__%s' % (x, L.label))})))
        elif kind == 'k':       # the loop's progress counter
            if L.kvar: c.append(L.kvar)
            for x in mods:
                if x != L.kvar and lw.vty[x][0] == 'int': c.append(x)
            if L.kvar:
                for a in offsets(L, set(mods)): c.append('(%s + %s)' % (show(a), L.kvar))
        elif kind == 'okk':     # counters of enclosing loops
            for o in outer:
                if not o.raw: c.append(o.kk)
            for x, ty in names:
                if ty is not None and ty[0] == 'int' and x not in c and not x.startswith('p') : c.append(x)
            c = c[:8]
        elif kind == 'n':
            if L.n is not None: c.append(show(L.n))
        elif kind == 'any':
            for x, ty in names:
                if ty is None: continue
                for p, pty in paths(x, ty, adts):
                    if vty(pty, adts) == arg: c.append(show(p))
        elif kind == 'var':     # any place outside the loop that it does not change
            for x, ty in list(names) + [(x, ty) for x, ty in muts if x not in mods]:
                if ty is None: continue
                for p, pty in paths(x, ty, adts):
                    if vty(pty, adts) == arg: c.append(show(p))
        elif kind == 'ok':      # counters of enclosing loops only
            c = [o.kk for o in outer if not o.raw]
            if arg: c = c[:1] if arg == 'first' else c[-1:]
        elif kind == 'src':     # what the loop reads at its counter
            c = [show(x) for x in sources(lw, L, set(mods)) if vty(x_ty(lw, x) or ('unit',), adts) == arg]
        c = list(dict.fromkeys(c))
        keys.append(h); opts.append(c)
    out = []
    for combo in itertools.islice(itertools.product(*opts), 400):
        e = t['e']
        for h, x in sorted(zip(keys, combo), key=lambda q: -len(q[0])):
            e = re.sub(r'\$%s\b' % h, lambda m: x, e)
        out.append(Cand(e, t.get('d', 'template'), 'template'))
    return out
