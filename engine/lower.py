"""Lower rustc's typed trees (THIR) of the code under test to a small imperative program over mathematical values.

What the lowering drops or idealises is stated in DESIGN.md: references/Arc/clone become values, rayon becomes the
sequential iterator it is specified to be equivalent to, f64 becomes F (reals + infinities + NaN, no rounding), machine
integers become mathematical ones with a range obligation at every arithmetic operation, output formatting is ignored."""
import re
from thir import defpath, span as pspan, N
from types_ import *
import terms as T
from terms import v as tv, k as tk, app, fld, tfld, ite, show

class Unsupported(Exception): pass

class TV:
    __slots__ = ('t', 'ty')
    def __init__(self, t, ty): self.t = t; self.ty = ty
class MutRef:
    def __init__(self, place): self.place = place
class PV:            # a place used as a scrutinee
    def __init__(self, place): self.place = place
class TupV:
    def __init__(self, items): self.items = items
class Clo:
    def __init__(self, cid, body, env, fr): self.cid = cid; self.body = body; self.env = env; self.fr = fr
class FnI:
    def __init__(self, path, gargs): self.path = path; self.gargs = gargs
class It:
    def __init__(self, k, *a): self.k = k; self.a = a
class CondRef:       # a mutable reference chosen by a condition
    def __init__(self, cond, a, b): self.cond = cond; self.a = a; self.b = b
class IterVar:       # iterator held in a local and advanced by next()
    def __init__(self, it, pos): self.it = it; self.pos = pos
class OptV:          # an Option whose payload is not a plain term
    def __init__(self, cond, val): self.cond = cond; self.val = val
UNIT = TV(tk('()'), ('unit',))
NEVER = TV(tk('arbitrary()'), ('never',))

class Place:
    def __init__(self, root, projs=(), ty=None): self.root = root; self.projs = tuple(projs); self.ty = ty
    def add(self, p, ty): return Place(self.root, self.projs + (p,), ty)

class Loop:
    def __init__(self): self.label = None; self.kvar = None; self.n = None; self.body = []; self.srcs = []; self.raw = False; self.span = ''; self.cond = None

class Frame:
    def __init__(self, body, env, tsub, parent=None, kind='top'):
        self.body = body; self.env = env; self.tsub = tsub; self.parent = parent; self.kind = kind
        self.labels = {}; self.res = None; self.used_ret = False; self.retty = None

def kk(x): return x if isinstance(x, str) else x.k
def opt(x): return None if x == 'None' or x is None else x['_'][0]
def lid(x): return x['_'][0]      # LocalVarId -> "HirId(..)"
def is_set(st): return st[0] in ('set', 'call', 'loop', 'if')

def fterm(r): return app('F::Fin({})', r)
def int2f(t): return app('F::Fin(({}) as real)', t)
def real_lit(s):
    s = s.replace('_', '')
    s = re.sub(r'f(32|64)$', '', s)
    if 'e' in s or 'E' in s:
        from decimal import Decimal
        s = format(Decimal(s), 'f')
    if s.endswith('.'): s += '0'
    if '.' not in s: s += '.0'
    a, b = s.split('.'); b = b.rstrip('0'); a = a.lstrip('0') or '0'
    return a + ('.' + b if b else '') + 'real'

class Lowerer:
    def __init__(self, prog, path, contracts, noinline=True):
        self.prog = prog; self.path = path; self.contracts = contracts
        self.adts = prog.adts
        self.out = []
        self.cnt = {}
        self.vty = {}         # ghost name -> lowered type
        self.mut = set()      # mutable ghost names
        self.inlined = []     # functions inlined
        self.called = []      # contracted functions called
        self.stack = []
        self.loops = []       # active loop labels for sinks
        self.notes = set()
        self.ext = set()
        self.fnptrs = set()
        self.pure_depth = 0
        self.panics_pure = None
        self.cur_span = ''

    # ---------- names, emission
    def fresh(self, base):
        base = re.sub(r'[^A-Za-z0-9_]', '_', base) or 'x'
        n = self.cnt.get(base, 0); self.cnt[base] = n + 1
        return '%s_%d' % (base, n)
    def emit(self, *st): self.out.append(list(st))
    def let(self, base, t, ty):
        n = self.fresh(base); self.vty[n] = ty
        self.emit('let', n, ty, t); return tv(n)
    def empty(self, t): return tk('Seq::<%s>::empty()' % vty(no_mut(t)[1], self.adts))
    def newmut(self, base, ty, t=None):
        n = self.fresh(base); self.vty[n] = ty; self.mut.add(n)
        self.emit('mut', n, ty, t); return n
    def mentions_mut(self, t): return bool(T.vars_(t) & self.mut)
    def snap(self, V, base='t'):
        """make V independent of later mutation"""
        if isinstance(V, PV): V = self.read(V.place)
        if isinstance(V, TV):
            if V.ty[0] in ('unit', 'never'): return V
            if V.t[0] == 'app' and V.t[1] == '{}.subrange({}, {})' and not self.mentions_mut(V.t[2][0]) and T.size(V.t[2][0]) <= 12:
                # a slice of something that does not change stays a slice of it
                return TV(app('{}.subrange({}, {})', V.t[2][0], *[x if x[0] in 'vk' and not self.mentions_mut(x) else self.let('at', x, ('int', 'usize')) for x in V.t[2][1:]]), V.ty)
            if self.mentions_mut(V.t) or T.size(V.t) > 12:
                return TV(self.let(base, V.t, V.ty), V.ty)
            return V
        if isinstance(V, TupV): return TupV([self.snap(x, base) for x in V.items])
        if isinstance(V, It): return self.snap_it(V)
        return V
    def snap_it(self, it):
        if it.k == 'src' and self.mentions_mut(it.a[0]):
            return It('src', self.let('s', it.a[0], ('Seq', it.a[1])), it.a[1])
        if it.k in ('range', 'rangei'):
            a, b, ty = it.a
            if self.mentions_mut(a): a = self.let('lo', a, ty)
            if self.mentions_mut(b): b = self.let('hi', b, ty)
            return It(it.k, a, b, ty)
        return It(it.k, *[self.snap_it(x) if isinstance(x, It) else x for x in it.a])
    def sub(self, f):
        save = self.out; self.out = []
        try: V = f(); o = self.out
        finally: self.out = save
        return o, V
    def panic_assert(self, cond, what):
        if cond == T.TRUE: return
        if self.pure_depth:
            self.panics_pure.append(cond); return
        self.emit('assert', cond, 'panic', what, self.cur_span)
    def req_assert(self, cond, what):
        if cond == T.TRUE: return
        self.emit('assert', cond, 'req', what, self.cur_span)

    # ---------- types
    def ty(self, s):
        if isinstance(s, N):
            if s.k == 'FnDef': return ('fnitem',)
            if s.k == 'Closure': return ('clo', '')
            return ('opq', s.k)
        if isinstance(s, list): return ('Seq', ('opq', ''))
        return parse_ty(s, self.fr.tsub)
    def raw_ref(self, ref): return str(self.fr.body.e(ref)['ty']).lstrip().startswith('&')
    def single(self, ty): return isinstance(ty, str) and ty.strip() == 'f32'
    def round32(self, V): return TV(app('round32({})', V.t), V.ty)       # nothing is known about rounding to single precision
    def ety(self, ref): return self.ty(self.fr.body.e(ref)['ty'])

    # ---------- places
    def read(self, p):
        V = p.root
        if isinstance(V, CondRef):
            a, b = [self.as_tv(self.read(Place(x.root, x.projs + p.projs, p.ty))) for x in (V.a, V.b)]
            return TV(ite(V.cond, a.t, b.t), p.ty or a.ty)
        if isinstance(V, str): V = TV(tv(V), self.vty[V])
        for pr in p.projs: V = self.proj(V, pr)
        if p.ty is not None and isinstance(V, TV): V = TV(V.t, p.ty)
        return V
    def proj(self, V, pr):
        if isinstance(V, MutRef): return self.read(V.place.add(pr, None))
        if isinstance(V, TupV) and pr[0] == 't': return V.items[pr[1]]
        if isinstance(V, PV): V = self.read(V.place)
        if isinstance(V, OptV) and pr[0] == 'some': return V.val
        if not isinstance(V, TV): raise Unsupported('projection of %s' % type(V).__name__)
        t = V.t
        if pr[0] == 'f': return TV(fld(t, pr[2]), pr[3])
        if pr[0] == 't': return TV(tfld(t, pr[1]), V.ty[1][pr[1]] if V.ty[0] == 'tup' else None)
        if pr[0] == 'i': return TV(T.idx(t, pr[1]), V.ty[1] if V.ty and V.ty[0] == 'Seq' else None)
        if pr[0] == 'box': return TV(T.unbox(t), V.ty[1] if V.ty and V.ty[0] == 'Box' else V.ty)
        if pr[0] == 'some': return TV(T.unsome(t), V.ty[1] if V.ty and V.ty[0] == 'Opt' else None)
        if pr[0] == 'sl': return TV(app('{}.subrange({}, {})', t, pr[1], pr[2]), V.ty)
        if pr[0] == 'v': return TV(app('({})->%s' % pr[1], t), pr[2])
        raise Unsupported('proj ' + pr[0])
    def upd(self, base, projs, val):
        if not projs: return val
        pr = projs[0]; rest = projs[1:]
        if pr[0] == 'f': return T.supd(base, pr[1], pr[2], self.upd(fld(base, pr[2]), rest, val))
        if pr[0] == 't':
            n = pr[2]
            return ('tup', tuple(self.upd(tfld(base, i), rest, val) if i == pr[1] else tfld(base, i) for i in range(n)))
        if pr[0] == 'i': return app('{}.update({}, {})', base, pr[1], self.upd(T.idx(base, pr[1]), rest, val))
        if pr[0] == 'box': return T.box(self.upd(T.unbox(base), rest, val))
        if pr[0] == 'some': return T.some(self.upd(T.unsome(base), rest, val))
        if pr[0] == 'sl':
            inner = self.upd(app('{}.subrange({}, {})', base, pr[1], pr[2]), rest, val)
            return app('splice({}, {}, {})', base, pr[1], inner)
        raise Unsupported('update through ' + pr[0])
    def flat(self, p):
        """resolve MutRef roots"""
        while isinstance(p.root, MutRef):
            q = p.root.place; p = Place(q.root, q.projs + p.projs, p.ty)
        return p
    def write(self, p, V):
        if self.pure_depth: raise Unsupported('side effect in a pure context')
        p = self.flat(p)
        if isinstance(V, PV): V = self.read(V.place)
        if isinstance(p.root, CondRef):
            c = p.root
            if not isinstance(V, TV): V = self.as_tv(V)
            oa, ob = [self.sub(lambda x=x: self.write(Place(x.root, x.projs + p.projs, p.ty), TV(T.given(V.t, c.cond, x is c.a), V.ty)))[0] for x in (c.a, c.b)]
            self.emit('if', c.cond, oa, ob); return
        if not isinstance(p.root, str):
            if isinstance(p.root, TupV) and len(p.projs) == 1 and p.projs[0][0] == 't':
                p.root.items[p.projs[0][1]] = V; return
            raise Unsupported('write to a non-variable')
        if not isinstance(V, TV): V = self.as_tv(V)
        self.emit('set', p.root, self.upd(tv(p.root), p.projs, V.t))
    def as_tv(self, V):
        if isinstance(V, PV): V = self.read(V.place)
        if isinstance(V, MutRef): V = self.read(V.place)
        if isinstance(V, TV): return V
        if isinstance(V, TupV):
            xs = [self.as_tv(x) for x in V.items]
            return TV(T.tup([x.t for x in xs]), ('tup', tuple(x.ty for x in xs)))
        if isinstance(V, OptV):
            x = self.as_tv(V.val)
            return TV(ite(V.cond, T.some(x.t), T.NONE), ('Opt', x.ty))
        if isinstance(V, FnI): return TV(self.fnconst(V.path), ('fn', (), ('unit',)))
        raise Unsupported('%s used as a plain value' % type(V).__name__)
    def fnconst(self, path):
        self.fnptrs.add(path)
        return tk('FN_' + self.prog.san(path))

    PLACE = {'VarRef', 'UpvarRef', 'Deref', 'Field', 'Index'}
    def strip(self, ref):
        e = self.fr.body.e(ref)
        while kk(e['kind']) in ('Scope', 'ValueExpr', 'PlaceTypeAscription', 'ValueTypeAscription', 'PlaceUnwrapUnsafeBinder', 'Use', 'PlaceExpr', 'PlaceUse'):
            n = e['kind']
            if n.k == 'Scope' and kk(self.fr.body.e(n['value'])['kind']) == 'Loop':
                self.fr.labels[n['region_scope']] = None
            e = self.fr.body.e(n.get('value') or n.get('source'))
        return e
    def is_place(self, ref):
        e = self.strip(ref); k = kk(e['kind'])
        if k in ('VarRef', 'UpvarRef', 'Field', 'Index'): return True
        if k == 'Deref': return True
        return False
    def lookup(self, i):
        env = self.fr.env
        while env is not None:
            if i in env[0]: return env[0][i]
            env = env[1]
        raise Unsupported('unbound variable')
    def place(self, ref):
        e = self.strip(ref); k = kk(e['kind']); n = e['kind']; ty = self.ty(e['ty'])
        if k in ('VarRef', 'UpvarRef'):
            s = self.lookup(lid(n['id'] if k == 'VarRef' else n['var_hir_id']))
            if isinstance(s, str): return Place(s, (), None)
            if isinstance(s, PV): return s.place
            return Place(s, (), None)
        if k == 'Deref':
            at = self.ety(n['arg'])
            if at[0] == 'Box' and not self.raw_ref(n['arg']): return self.place(n['arg']).add(('box',), ty)
            V = self.ev(n['arg'], want_ref=True)
            if isinstance(V, MutRef): return V.place
            if isinstance(V, PV): return V.place
            return Place(V, (), None)
        if k == 'Field':
            p = self.place(n['lhs']); lt = no_mut(self.ety(n['lhs'])); i = int(n['name'])
            if lt[0] == 'tup': return p.add(('t', i, len(lt[1])), ty)
            if lt[0] == 'adt' and lt[1] in ('Range', 'RangeInclusive'):
                V = self.read(p)
                if isinstance(V, It) and V.k == 'range': return Place(TV(V.a[i], V.a[2]))
                raise Unsupported('range field')
            if lt[0] == 'adt' and lt[1] in self.adts.t:
                f, fty = self.adts.fields(lt[1], lt[2], int(n['variant_index']))[i]
                return p.add(('f', lt[1], f, fty), fty)
            raise Unsupported('field of %s' % (lt,))
        if k == 'Index':
            p = self.place(n['lhs'])
            i = self.as_tv(self.ev(n['index']))
            return self.index_place(p, i)
        V = self.ev(ref)
        if isinstance(V, PV): return V.place
        if isinstance(V, MutRef): return Place(V)
        return Place(V, (), None)
    def index_place(self, p, i, what='index in range'):
        cur = self.read(p)
        cur = self.as_tv(cur)
        it = i.t
        if self.mentions_mut(it): it = self.let('ix', it, i.ty) if not self.pure_depth else it
        self.panic_assert(app('(0 <= {} && {} < {})', it, it, T.length(cur.t)), what)
        return p.add(('i', it), cur.ty[1] if cur.ty and cur.ty[0] == 'Seq' else None)

    # ---------- statements and blocks
    def block(self, bref, ty=None):
        b = self.fr.body.b(bref)
        if kk(b.get('safety_mode', 'Safe')) not in ('Safe',) and 'Builtin' not in kk(b.get('safety_mode')): raise Unsupported('unsafe block')
        for s in b['stmts']:
            if self.stmt(s) == 'never': return NEVER
        x = opt(b['expr'])
        if x is None: return UNIT
        return self.ev(x)
    def stmt(self, sref):
        st = self.fr.body.s(sref)['kind']
        if st.k == 'Expr':
            V = self.ev(st['expr'])
            if isinstance(V, TV) and V.ty[0] == 'never': return 'never'
            return
        if st.k == 'Let':
            init = opt(st['initializer']); eb = opt(st['else_block']) if st.get('else_block', 'None') != 'None' else None
            pat = st['pattern']
            if init is None:
                self.bind_uninit(pat); return
            V = self.ev_scrut(init, pat)
            if isinstance(V, TV) and V.ty[0] == 'never': return 'never'
            if eb is not None:
                c, binds = self.pat_test(pat, V)
                o, _ = self.sub(lambda: self.block(eb))
                self.emit('if', T.not_(c), o, [])
                for f in binds: f()
                return
            self.bind(pat, V); return
        raise Unsupported('stmt ' + st.k)
    def bind_uninit(self, pat):
        pk = pat['kind']
        if kk(pk) != 'Binding': raise Unsupported('uninitialised pattern')
        ty = no_mut(self.ty(pk['ty']))
        n = self.newmut(self.bname(pk), ty, None)
        self.fr.env[0][lid(pk['var'])] = n
    def bname(self, pk): return pk['name'].strip('"')
    def ev_scrut(self, ref, pat=None):
        if self.is_place(ref):
            p = self.place(ref)
            return PV(p)
        return self.ev(ref)
    def bind(self, pat, V):
        c, binds = self.pat_test(pat, V)
        for f in binds: f()
    def sub_v(self, V, pr, ty):
        if isinstance(V, PV): return PV(V.place.add(pr, ty))
        if isinstance(V, MutRef): return MutRef(V.place.add(pr, ty))
        if isinstance(V, TupV) and pr[0] == 't': return V.items[pr[1]]
        if isinstance(V, OptV) and pr[0] == 'some': return V.val
        if isinstance(V, TV):
            r = self.proj(V, pr)
            if r.ty is None: r.ty = ty
            return r
        raise Unsupported('pattern on %s' % type(V).__name__)
    def pat_test(self, pat, V):
        """-> (condition term, [binders])"""
        pk = pat['kind']; k = kk(pk)
        if k in ('Wild', 'Missing'): return T.TRUE, []
        if k == 'Never': return T.TRUE, []
        if k == 'Binding':
            c, bs = T.TRUE, []
            mode = pk['mode']['_']
            byref = mode[0]; mutbl = mode[1]
            var = lid(pk['var']); name = self.bname(pk); ty = self.ty(pk['ty'])
            sp = opt(pk['subpattern'])
            if sp is not None: c, bs = self.pat_test(sp, V)
            env = self.fr.env[0]
            def go():
                W = V
                br = byref if isinstance(byref, str) else byref.k
                if br != 'No':
                    inner = kk(byref['_'][-1]) if isinstance(byref, N) else ''
                    if 'Mut' in inner:
                        if isinstance(W, PV): W = MutRef(W.place)
                        elif not isinstance(W, MutRef): raise Unsupported('ref mut of a value')
                        env[var] = W; return
                    if isinstance(W, PV): W = self.read(W.place)
                    env[var] = self.snap(W, name); return
                if isinstance(W, PV):
                    W = self.read(W.place)
                if isinstance(W, (TupV,)) and mutbl == 'Mut': W = self.as_tv(W)
                if mutbl == 'Mut' and isinstance(W, It):
                    pos = self.newmut('pos', ('int', 'usize'), tk('0int'))
                    env[var] = IterVar(self.snap_it(W), pos); return
                if mutbl == 'Mut' and isinstance(W, TV) and ty[0] != 'mut':
                    n = self.newmut(name, no_mut(ty) if W.ty is None else W.ty, W.t)
                    env[var] = n; return
                if isinstance(W, TV) and W.ty is None: W = TV(W.t, no_mut(ty))
                env[var] = self.snap(W, name)
            return c, bs + [go]
        if k == 'Leaf':
            ty = no_mut(self.ty(pat['ty'])); c = T.TRUE; bs = []
            for sp in pk['subpatterns']:
                i = int(sp['field']); st = self.ty(sp['pattern']['ty'])
                if ty[0] == 'tup': pr = ('t', i, len(ty[1]))
                elif ty[0] == 'adt' and ty[1] in self.adts.t:
                    f, ft = self.adts.fields(ty[1], ty[2])[i]; pr = ('f', ty[1], f, ft)
                else: raise Unsupported('leaf pattern %s' % (ty,))
                c2, b2 = self.pat_test(sp['pattern'], self.sub_v(V, pr, st)); c = T.and_(c, c2); bs += b2
            return c, bs
        if k == 'Variant':
            ty = no_mut(self.ty(pat['ty'])); vi = int(pk['variant_index'])
            if ty[0] == 'Opt':
                if isinstance(V, OptV): cond = V.cond
                else: cond = T.is_some(self.as_tv(self.read(V.place) if isinstance(V, (PV, MutRef)) else V).t)
                if vi == 0: return T.not_(cond), []
                sp = pk['subpatterns'][0] if pk['subpatterns'] else None
                if sp is None: return cond, []
                c2, b2 = self.pat_test(sp['pattern'], self.sub_v(V, ('some',), ty[1]))
                return T.and_(cond, c2), b2
            W = self.as_tv(V)
            if ty[0] == 'Res':
                nm = ['Ok', 'Err'][vi]; c = app('({} is %s)' % ('ROk' if vi == 0 else 'RErr'), W.t)
                bs = []
                for sp in pk['subpatterns']:
                    x = TV(app('({})->ROk_0', W.t), ty[1]) if vi == 0 else TV(tk('arbitrary()'), ('opq', 'err'))
                    c2, b2 = self.pat_test(sp['pattern'], x); c = T.and_(c, c2); bs += b2
                return c, bs
            if ty[0] == 'ord':
                return app('({} is %s)' % ['Less', 'Equal', 'Greater'][vi], W.t), []
            if ty[0] == 'adt' and ty[1] == 'ControlFlow':
                # produced by Try::branch below as ('cf', ...)
                raise Unsupported('ControlFlow')
            if ty[0] == 'adt' and ty[1] in self.adts.t:
                vn = self.adts.variant(ty[1], vi)
                fs = self.adts.fields(ty[1], ty[2], vi)
                c = app('({} is %s)' % vn, W.t); bs = []
                if W.t[0] == 'k' and W.t[1].startswith(ty[1] + '::'): c = T.TRUE if W.t[1] == ty[1] + '::' + vn else T.FALSE
                for sp in pk['subpatterns']:
                    i = int(sp['field']); f, ft = fs[i]
                    acc = '%s_%s' % (vn, f[1:] if re.match(r'f\d+$', f) else f)
                    c2, b2 = self.pat_test(sp['pattern'], TV(app('({})->%s' % acc, W.t), ft)); c = T.and_(c, c2); bs += b2
                return c, bs
            raise Unsupported('variant pattern %s' % (ty,))
        if k in ('Deref', 'DerefPattern'):
            sp = pk['subpattern']
            pt = self.ty(pat['ty'])
            if pt[0] == 'Box' and not str(pat['ty']).lstrip().startswith('&'):
                return self.pat_test(sp, self.sub_v(V, ('box',), pt[1]))
            return self.pat_test(sp, V)
        if k == 'Constant':
            W = self.as_tv(V); val = pk['value']; ty = no_mut(self.ty(pat['ty']))
            lit = self.valtree(val['valtree'], ty)
            if ty[0] == 'bool': return (W.t if lit == T.TRUE else T.not_(W.t)), []
            if ty[0] == 'F': return app('feq({}, {})', W.t, lit), []
            return app('({} == {})', W.t, lit), []
        if k == 'Or':
            cs = []
            for p in pk['pats']:
                c, b = self.pat_test(p, V)
                if b: raise Unsupported('bindings in or-pattern')
                cs.append(c)
            return T.or_(*cs), []
        if k in ('ExpandedConstant',):
            return self.pat_test(pk['subpattern'], V)
        if k == 'Range': raise Unsupported('range pattern')
        raise Unsupported('pattern ' + k)
    def valtree(self, vt, ty):
        x = vt['_'][0] if isinstance(vt, N) and vt.get('_') else vt
        if isinstance(x, N) or not isinstance(x, str): raise Unsupported('constant pattern')
        n = int(x, 16)
        if ty[0] == 'bool': return T.TRUE if n else T.FALSE
        if ty[0] == 'int':
            lo, hi = RANGE[ty[1]]
            if n > hi: n -= (hi - lo + 1)
            return tk('%dint' % n if n >= 0 else '(-%dint)' % -n)
        if ty[0] == 'F':
            import struct
            f = struct.unpack('<d', n.to_bytes(8, 'little'))[0]
            return self.flit(f)
        raise Unsupported('constant pattern')
    def flit(self, f):
        if f != f: return tk('F::NaN')
        if f in (float('inf'), float('-inf')): return tk('F::PInf' if f > 0 else 'F::NInf')
        s = real_lit(repr(abs(f)))
        return tk('F::Fin(%s)' % s) if f >= 0 else tk('F::Fin(-%s)' % s)

    # ---------- expressions
    def evs(self, refs, want_ref=False):
        vals = []; 
        for r in refs:
            V = self.ev(r, want_ref=want_ref)
            vals.append((V, len(self.out), self.out))
        # snapshot operands that a later operand may have changed
        shift = 0
        for j, (V, pos, o) in enumerate(vals):
            if isinstance(V, PV): V = self.read(V.place)
            if isinstance(V, TV) and any(is_set(s) for s in o[pos + shift:]) and self.mentions_mut(V.t):
                n = self.fresh('arg'); self.vty[n] = V.ty
                o.insert(pos + shift, ['let', n, V.ty, V.t]); shift += 1
                V = TV(tv(n), V.ty)
            vals[j] = (V, pos, o)
        return [x[0] for x in vals]

    def merge(self, cond, fa, fb, ty):
        if cond == T.TRUE: return fa()
        if cond == T.FALSE: return fb()
        if self.mentions_mut(cond) and not self.pure_depth: pass
        oa, va = self.sub(fa); ob, vb = self.sub(fb)
        na = isinstance(va, TV) and va.ty[0] == 'never'; nb = isinstance(vb, TV) and vb.ty[0] == 'never'
        if na and nb:
            self.emit('if', cond, oa, ob); return NEVER
        if na:
            self.emit('if', cond, oa, []); self.out.extend(ob); return vb
        if nb:
            self.emit('if', T.not_(cond), ob, []); self.out.extend(oa); return va
        if ty[0] in ('unit', 'never'):
            if oa or ob: self.emit('if', cond, oa, ob)
            return UNIT
        if self.has_mutref(va) and self.has_mutref(vb) and all(x[0] == 'let' for x in oa + ob):
            if self.mentions_mut(cond): cond = self.let('cond', cond, ('bool',))
            self.out.extend(oa + ob)
            return self.cond_ref(cond, va, vb)
        if isinstance(va, OptV) or isinstance(vb, OptV) or isinstance(va, (TupV, PV, TV, FnI)) or isinstance(vb, (TupV, PV, TV, FnI)):
            so, self.out = self.out, oa; 
            try: va = self.as_tv(va)
            finally: self.out = so
            so, self.out = self.out, ob
            try: vb = self.as_tv(vb)
            finally: self.out = so
        else: raise Unsupported('branches yield %s' % type(va).__name__)
        rty = no_mut(ty)
        if va.ty is not None and (rty[0] in ('opq',)): rty = va.ty
        if not oa and not ob:
            return TV(ite(cond, va.t, vb.t), rty)
        if self.pure_depth:
            if all(s[0] == 'let' for s in oa + ob):
                m1 = {}; 
                for s in oa: m1[s[1]] = T.subst(s[3], m1)
                m2 = {}
                for s in ob: m2[s[1]] = T.subst(s[3], m2)
                return TV(ite(cond, T.subst(va.t, m1), T.subst(vb.t, m2)), rty)
            raise Unsupported('effect in a pure context')
        n = self.fresh('m'); self.vty[n] = rty; self.mut.add(n)
        self.emit('mut', n, rty, None)
        oa.append(['set', n, va.t]); ob.append(['set', n, vb.t])
        self.emit('if', cond, oa, ob)
        return TV(tv(n), rty)

    def has_mutref(self, V): return isinstance(V, MutRef) or (isinstance(V, TupV) and any(self.has_mutref(x) for x in V.items))
    def cond_ref(self, cond, a, b):
        if isinstance(a, MutRef) and isinstance(b, MutRef): return MutRef(Place(CondRef(cond, self.flat(a.place), self.flat(b.place))))
        if isinstance(a, TupV) and isinstance(b, TupV) and len(a.items) == len(b.items): return TupV([self.cond_ref(cond, x, y) for x, y in zip(a.items, b.items)])
        a = self.as_tv(a); b = self.as_tv(b)
        return TV(ite(cond, a.t, b.t), a.ty)
    def ev(self, ref, want_ref=False):
        e = self.fr.body.e(ref); n = e['kind']; k = kk(n)
        self.cur_span = e.get('span', self.cur_span)
        m = getattr(self, 'e_' + k, None)
        if m is None: raise Unsupported('expression ' + k)
        return m(n, e, ref, want_ref)

    def e_Scope(self, n, e, ref, wr):
        inner = self.fr.body.e(n['value'])
        if kk(inner['kind']) == 'Loop':
            self.fr.labels[n['region_scope']] = self.pending_label = self.fresh("'l").replace("'", '') if False else None
            self.scope_of_loop = n['region_scope']
        return self.ev(n['value'], wr)
    def e_ValueExpr(self, n, e, ref, wr): return self.ev(n['source'], wr)
    e_Use = e_ValueExpr
    e_NeverToAny = e_ValueExpr
    e_PlaceTypeAscription = e_ValueExpr
    e_ValueTypeAscription = e_ValueExpr
    def e_PlaceExpr(self, n, e, ref, wr): return self.ev(n['source'], wr)
    def rp(self, ref, wr):
        p = self.place(ref)
        V = self.read(p)
        ty = self.ty(self.fr.body.e(ref)['ty'])
        if isinstance(V, TV) and (V.ty is None): V = TV(V.t, no_mut(ty))
        return V
    def e_VarRef(self, n, e, ref, wr): return self.rp(ref, wr)
    e_UpvarRef = e_VarRef; e_Deref = e_VarRef; e_Field = e_VarRef; e_Index = e_VarRef
    def e_Borrow(self, n, e, ref, wr):
        bk = kk(n['borrow_kind'])
        if bk == 'Mut':
            if self.is_place(n['arg']):
                p = self.place(n['arg'])
                p = self.flat(p)
                if isinstance(p.root, (It, IterVar, Clo)) and not p.projs: return p.root
                return MutRef(p)
            V = self.ev(n['arg'])
            if isinstance(V, (It, IterVar, Clo, MutRef)): return V
            V = self.as_tv(V)
            return MutRef(Place(self.newmut('tmp', V.ty, V.t)))
        V = self.ev(n['arg'], wr)
        return V
    def e_Literal(self, n, e, ref, wr):
        lit = n['lit']['node']; ty = self.ty(e['ty']); neg = n['neg'] == 'true'
        if self.single(e['ty']): raise Unsupported('single-precision constant')
        if lit.k == 'Int':
            x = int(lit['_'][0]['_'][0]); x = -x if neg else x
            if ty[0] == 'F': return TV(fterm(tk('%s%sreal' % ('-' if x < 0 else '', abs(x)))), ty)
            return TV(tk('%dint' % x if x >= 0 else '(-%dint)' % -x), ty)
        if lit.k == 'Float':
            s = real_lit(lit['_'][0].strip('"'))
            return TV(fterm(tk(('-' if neg else '') + s)), ty)
        if lit.k == 'Bool': return TV(tk(lit['_'][0]), ('bool',))
        if lit.k == 'Str': return TV(tk('str_lit(%d)' % self.prog.strid(lit['_'][0])), ('str',))
        raise Unsupported('literal ' + lit.k)
    def e_NamedConst(self, n, e, ref, wr):
        p = defpath(n['def_id']); last = p.split('::')[-1]; ty = self.ty(e['ty'])
        if ty[0] == 'F':
            tab = {'INFINITY': 'F::PInf', 'NEG_INFINITY': 'F::NInf', 'NAN': 'F::NaN', 'MAX': 'F::Fin(fmax_r())', 'MIN': 'F::Fin(-fmax_r())',
                   'EPSILON': 'F::Fin(feps_r())', 'MIN_POSITIVE': 'F::Fin(fminpos_r())'}
            if p.startswith(('core', 'std')) and last in tab: 
                if last in ('MAX', 'MIN'): self.notes.add('f64::MAX is treated as an upper bound of all finite values')
                return TV(tk(tab[last]), ty)
        if ty[0] == 'int' and p.startswith(('core', 'std')):
            lo, hi = RANGE[ty[1]]
            if last == 'MAX': return TV(tk('%dint' % hi), ty)
            if last == 'MIN': return TV(tk('(%dint)' % lo), ty)
        b = self.prog.bodies.get(p)
        if b is not None: return self.inline(p, b, [], [])
        raise Unsupported('constant ' + p)
    def e_Block(self, n, e, ref, wr): return self.block(n['block'])
    def e_Tuple(self, n, e, ref, wr):
        if not n['fields']: return UNIT
        vs = self.evs(n['fields'])
        if all(isinstance(x, TV) for x in vs):
            return TV(T.tup([x.t for x in vs]), ('tup', tuple(x.ty for x in vs)))
        return TupV(vs)
    def e_Array(self, n, e, ref, wr):
        vs = self.evs(n['fields']); ty = self.ty(e['ty'])
        vs = [self.as_tv(x) for x in vs]
        return TV(app('seq![' + ', '.join(['{}'] * len(vs)) + ']', *[x.t for x in vs]), ('Seq', vs[0].ty if vs else ty[1]))
    def e_Repeat(self, n, e, ref, wr):
        V = self.as_tv(self.ev(n['value'])); c = re.match(r"(\d+)", str(n['count']))
        if not c: raise Unsupported('repeat count')
        return TV(app('Seq::new(%s as nat, |i_: int| {})' % c.group(1), V.t), ('Seq', V.ty))
    def e_Adt(self, n, e, ref, wr):
        a = n['_'][0]; ty = self.ty(e['ty'])
        name = a['adt_def'].split('::')[-1]; vi = int(a['variant_index'])
        fs = sorted(a['fields'], key=lambda f: 0)
        vs = self.evs([f['expr'] for f in fs])
        base = a['base']
        if ty[0] == 'Opt':
            if vi == 0: return TV(T.NONE, ty)
            if isinstance(vs[0], TV): return TV(T.some(vs[0].t), ('Opt', vs[0].ty))
            return OptV(T.TRUE, vs[0])
        if ty[0] == 'Res':
            if vi == 0: return TV(app('Res::ROk({})', self.as_tv(vs[0]).t), ty)
            return TV(tk('Res::RErr'), ty)
        if ty[0] == 'ord': return TV(tk('Ord3::' + ['Less', 'Equal', 'Greater'][vi]), ty)
        if name in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'):
            d = {int(f['name']): self.as_tv(x) for f, x in zip(fs, vs)}
            if name == 'Range': return It('range', d[0].t, d[1].t, d[0].ty)
            if name == 'RangeFrom': return It('from', d[0].t, d[0].ty)
            if name == 'RangeTo': return It('to', d[0].t, d[0].ty)
            return It('full')
        if ty[0] != 'adt' or name not in self.adts.t:
            if name in ('AssertKind', 'Arguments'): return TV(tk('arbitrary()'), ('opq', name))
            raise Unsupported('struct ' + name)
        kind = self.adts.t[name][0]
        fl = self.adts.fields(name, ty[2], vi)
        d = {int(f['name']): self.as_tv(x) for f, x in zip(fs, vs)}
        if kind == 'enum':
            vn = self.adts.variant(name, vi)
            if not fl: return TV(tk('%s::%s' % (name, vn)), ty)
            if re.match(r'f\d+$', fl[0][0]):
                return TV(app('%s::%s(' % (name, vn) + ', '.join(['{}'] * len(fl)) + ')', *[d[i].t for i in range(len(fl))]), ty)
            return TV(app('%s::%s {{ ' % (name, vn) + ', '.join('%s: {}' % f for f, _ in fl) + ' }}', *[d[i].t for i in range(len(fl))]), ty)
        if kk(base) not in ('None',):
            b = base
            try: bref = b['_'][0]['base']
            except Exception: raise Unsupported('struct base')
            B = self.as_tv(self.ev(bref))
            for i, (f, ft) in enumerate(fl):
                if i not in d: d[i] = TV(fld(B.t, f), ft)
        # the type arguments as the values have them
        return TV(('struct', name, (), tuple((f, d[i].t) for i, (f, ft) in enumerate(fl))), ty)
    def e_Closure(self, n, e, ref, wr):
        c = n['_'][0]; cid = defpath(c['closure_id'])
        b = self.prog.bodies.get(cid)
        if b is None: raise Unsupported('closure body missing')
        return Clo(cid, b, self.fr.env, self.fr)
    def e_ZstLiteral(self, n, e, ref, wr):
        t = e['ty']
        if isinstance(t, N) and t.k == 'FnDef':
            return FnI(defpath(t['_'][0]), self.gargs(t))
        return UNIT
    def gargs(self, fndef):
        out = []
        b = fndef['_'][1] if len(fndef['_']) > 1 else None
        vals = (b['value'] if isinstance(b, N) else b) or []
        if isinstance(vals, N): vals = vals.get('_', [])
        for x in vals if isinstance(vals, list) else []:
            out.append(self.ty(x) if not isinstance(x, N) or x.k != 'Closure' else ('clo', ''))
        return out
    def e_PointerCoercion(self, n, e, ref, wr):
        c = kk(n['cast'])
        V = self.ev(n['source'], wr)
        if c == 'Unsize': return V
        if c == 'ReifyFnPointer':
            if not isinstance(V, FnI): raise Unsupported('reify')
            return TV(self.fnconst(V.path), self.ty(e['ty']))
        if c == 'ClosureFnPointer': raise Unsupported('closure as fn pointer')
        return V
    def e_Cast(self, n, e, ref, wr):
        V = self.as_tv(self.ev(n['source'])); s = V.ty; d = self.ty(e['ty'])
        s = s or self.ety(n['source'])
        if self.single(e['ty']): return self.round32(TV(int2f(V.t), d) if s[0] == 'int' else V)
        if s == d: return V
        if s[0] == 'int' and d[0] == 'F': return TV(int2f(V.t), d)
        if s[0] == 'F' and d[0] == 'F': return V
        if s[0] == 'F' and d[0] == 'int':
            lo, hi = RANGE[d[1]]
            return TV(app('f2i({}, %dint, %dint)' % (lo, hi), V.t), d)
        if s[0] == 'int' and d[0] == 'int':
            (a, b), (lo, hi) = RANGE[s[1]], RANGE[d[1]]
            if lo <= a and b <= hi: return TV(V.t, d)
            if d[1] in ('usize',) and s[1] in ('u64',): return TV(V.t, d)
            return TV(app('wrap({}, %dint, %dint)' % (lo, hi), V.t), d)
        if s[0] == 'bool' and d[0] == 'int': return TV(app('(if {} {{ 1int }} else {{ 0int }})', V.t), d)
        raise Unsupported('cast %s to %s' % (s, d))
    def e_Unary(self, n, e, ref, wr):
        V = self.as_tv(self.ev(n['arg']))
        if n['op'] == 'Not':
            if V.ty[0] == 'bool': return TV(T.not_(V.t), V.ty)
            raise Unsupported('bit not')
        if V.ty[0] == 'F': return TV(app('fneg({})', V.t), V.ty)
        t = app('(-({}))', V.t); self.range_ob(t, V.ty); return TV(t, V.ty)
    def range_ob(self, t, ty):
        lo, hi = RANGE[ty[1]]
        self.panic_assert(app('(%dint <= {} && {} <= %dint)' % (lo, hi), t, t), 'no arithmetic overflow')
    FB = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem', 'Lt': 'flt', 'Le': 'fle', 'Gt': 'fgt', 'Ge': 'fge', 'Eq': 'feq', 'Ne': 'fne'}
    IB = {'Add': '+', 'Sub': '-', 'Mul': '*', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>=', 'Eq': '==', 'Ne': '!='}
    def binop(self, op, a, b):
        ty = a.ty
        if ty[0] == 'F':
            t = app('%s({}, {})' % self.FB[op], a.t, b.t)
            return TV(t, ('bool',) if op in ('Lt', 'Le', 'Gt', 'Ge', 'Eq', 'Ne') else ty)
        if ty[0] == 'int':
            if op in ('Div', 'Rem'):
                self.panic_assert(app('({} != 0)', b.t), 'no division by zero')
                if ty[1].startswith('i'): return TV(app('i%s({}, {})' % op.lower(), a.t, b.t), ty)
                return TV(app('({} %s {})' % ('/' if op == 'Div' else '%'), a.t, b.t), ty)
            if op in self.IB:
                t = app('({} %s {})' % self.IB[op], a.t, b.t)
                if op in ('Add', 'Sub', 'Mul'):
                    self.range_ob(t, ty); return TV(t, ty)
                return TV(t, ('bool',))
            raise Unsupported('int operator ' + op)
        if ty[0] == 'bool':
            if op == 'BitAnd': return TV(T.and_(a.t, b.t), ty)
            if op == 'BitOr': return TV(T.or_(a.t, b.t), ty)
            if op in ('BitXor', 'Ne'): return TV(app('({} != {})', a.t, b.t), ty)
            if op == 'Eq': return TV(app('({} == {})', a.t, b.t), ty)
        if op in ('Eq', 'Ne'):
            t = self.eq(a.t, b.t, ty)
            return TV(t if op == 'Eq' else T.not_(t), ('bool',))
        raise Unsupported('operator %s on %s' % (op, ty))
    def eq(self, a, b, ty):
        if ty[0] == 'F': return app('feq({}, {})', a, b)
        if ty[0] in ('int', 'bool', 'str', 'ord', 'unit'): return app('({} == {})', a, b)
        if ty[0] == 'Seq':
            if ty[1] == ('F',): return app('veq({}, {})', a, b)
            if ty[1] == ('Seq', ('F',)): return app('vveq({}, {})', a, b)
            if ty[1][0] in ('int', 'bool'): return app('({} =~= {})', a, b)
        if ty[0] == 'tup': return T.and_(*[self.eq(tfld(a, i), tfld(b, i), x) for i, x in enumerate(ty[1])])
        if ty[0] == 'Opt':
            return app('(({} is Some) == ({} is Some) && (({} is Some) ==> {}))', a, b, a, self.eq(T.unsome(a), T.unsome(b), ty[1]))
        if ty[0] == 'adt' and ty[1] in self.adts.t and self.adts.t[ty[1]][0] == 'enum' and all(not f for _, f in self.adts.t[ty[1]][2]):
            return app('({} == {})', a, b)
        raise Unsupported('equality on %s' % (ty,))
    def e_Binary(self, n, e, ref, wr):
        a, b = [self.as_tv(x) for x in self.evs([n['lhs'], n['rhs']])]
        if a.ty is None or a.ty[0] == 'mut': a = TV(a.t, no_mut(self.ety(n['lhs'])))
        r = self.binop(n['op'], a, b)
        return self.round32(r) if self.single(e['ty']) else r
    def e_LogicalOp(self, n, e, ref, wr):
        a = self.as_tv(self.ev(n['lhs']))
        if n['op'] == 'And': return self.merge(a.t, lambda: self.as_tv(self.ev(n['rhs'])), lambda: TV(T.FALSE, ('bool',)), ('bool',)) if True else None
        return self.merge(a.t, lambda: TV(T.TRUE, ('bool',)), lambda: self.as_tv(self.ev(n['rhs'])), ('bool',))
    def e_AssignOp(self, n, e, ref, wr):
        b = self.as_tv(self.ev(n['rhs'])); 
        if self.mentions_mut(b.t): b = TV(self.let('rhs', b.t, b.ty), b.ty)
        p = self.flat(self.place(n['lhs']))
        a = self.as_tv(self.read(p))
        if a.ty is None: a = TV(a.t, no_mut(self.ety(n['lhs'])))
        r = self.binop(n['op'].replace('Assign', ''), a, b)
        if self.single(self.fr.body.e(n['lhs'])['ty']): r = self.round32(r)
        self.write(p, r); return UNIT
    def e_Assign(self, n, e, ref, wr):
        V = self.ev(n['rhs'])
        l = self.strip(n['lhs'])
        if isinstance(V, (It, IterVar, Clo, MutRef)) and kk(l['kind']) == 'VarRef': raise Unsupported('assignment of %s' % type(V).__name__)
        V = self.as_tv(V)
        if self.mentions_mut(V.t): V = TV(self.let('rhs', V.t, V.ty), V.ty)
        self.write(self.place(n['lhs']), V); return UNIT
    def e_If(self, n, e, ref, wr):
        ty = self.ty(e['ty'])
        c, binds = self.cond(n['cond'])
        eo = opt(n['else_opt'])
        def fa():
            for f in binds: f()
            return self.ev(n['then'])
        return self.merge(c, fa, (lambda: self.ev(eo)) if eo is not None else (lambda: UNIT), ty)
    def cond(self, ref):
        """condition, possibly with `let` patterns -> (term, binders)"""
        e = self.strip(ref); n = e['kind']
        if kk(n) == 'Let':
            V = self.ev_scrut(n['expr'], n['pat'])
            return self.pat_test(n['pat'], V)
        if kk(n) == 'LogicalOp' and n['op'] == 'And':
            c, b = self.cond(n['lhs'])
            if b:
                if kk(self.strip(n['rhs'])['kind']) != 'Let' and True:
                    for f in b: f()     # total projections: binding before the test is harmless in the logic
                    c2, b2 = self.cond(n['rhs'])
                    return T.and_(c, c2), b2
                for f in b: f()
                c2, b2 = self.cond(n['rhs']); return T.and_(c, c2), b2
            o, r = self.sub(lambda: self.cond(n['rhs']))
            if not o: return T.and_(c, r[0]), r[1]
            if r[1]: raise Unsupported('let chain')
            m = self.newmut('c', ('bool',), T.FALSE)
            o.append(['set', m, r[0]])
            self.emit('if', c, o, []); return tv(m), []
        return self.as_tv(self.ev(ref)).t, []
    def e_Let(self, n, e, ref, wr):
        V = self.ev_scrut(n['expr'], n['pat'])
        c, b = self.pat_test(n['pat'], V)
        if b: raise Unsupported('let expression with bindings')
        return TV(c, ('bool',))
    def e_Match(self, n, e, ref, wr):
        ms = kk(n['match_source'])
        if ms == 'ForLoopDesugar': return self.for_loop(n, e)
        arms = [self.fr.body.a(a) for a in n['arms']]
        if ms.startswith('TryDesugar'): return self.try_(n, arms)
        ty = self.ty(e['ty'])
        V = self.ev_scrut(n['scrutinee'])
        if isinstance(V, TV): 
            if V.ty[0] == 'never': return NEVER
            V = self.snap(V, 'sc')
        def go(i):
            if i == len(arms): 
                return NEVER
            a = arms[i]
            c, binds = self.pat_test(a['pattern'], V)
            g = opt(a['guard'])
            last = i == len(arms) - 1
            if g is not None:
                for f in binds: f()
                c2, b2 = self.cond(g)
                c = T.and_(c, c2); binds = b2
            elif last: c = T.TRUE
            def body():
                for f in binds: f()
                return self.ev(a['body'])
            if c == T.TRUE: return body()
            return self.merge(c, body, lambda: go(i + 1), ty)
        return go(0)
    def try_(self, n, arms):
        sc = self.strip(n['scrutinee'])
        if kk(sc['kind']) != 'Call': raise Unsupported('?')
        V = self.as_tv(self.ev(sc['kind']['args'][0]))
        cont = [a for a in arms if int(a['pattern']['kind']['variant_index']) == 0][0]
        sp = cont['pattern']['kind']['subpatterns'][0]['pattern']
        if V.ty[0] == 'Opt':
            ok = T.is_some(V.t); val = TV(T.unsome(V.t), V.ty[1]); bad = TV(T.NONE, V.ty)
        elif V.ty[0] == 'Res':
            ok = app('({} is ROk)', V.t); val = TV(app('({})->ROk_0', V.t), V.ty[1]); bad = TV(tk('Res::RErr'), V.ty)
        else: raise Unsupported('? on %s' % (V.ty,))
        o, _ = self.sub(lambda: self.do_return(bad))
        self.emit('if', T.not_(ok), o, [])
        self.bind(sp, val)
        return self.ev(cont['body'])

    # ---------- control flow
    def e_Return(self, n, e, ref, wr):
        x = opt(n['value'])
        V = self.ev(x) if x is not None else UNIT
        self.do_return(V); return NEVER
    def do_return(self, V):
        fr = self.fr
        if self.pure_depth and fr.kind != 'pure' : pass
        if fr.kind == 'top':
            self.emit('ret', self.as_tv(V) if not (isinstance(V, TV)) else V)
            return
        fr.used_ret = True
        if self.pure_depth: raise Unsupported('return in a pure context')
        if fr.retty and fr.retty[0] not in ('unit', 'never'):
            W = self.as_tv(V)
            self.emit('setres', fr, W.t)
        self.emit('brkframe', fr)
    def e_Loop(self, n, e, ref, wr):
        scope = getattr(self, 'scope_of_loop', None)
        if self.pure_depth: raise Unsupported('loop in a pure context')
        L = Loop(); L.raw = True; L.label = self.fresh('l'); L.span = e['span']
        self.fr.labels[scope] = L.label
        self.loops.append(L)
        save = self.out; self.out = []
        self.ev(n['body'])
        L.body = self.out; self.out = save
        self.loops.pop()
        self.emit('loop', L)
        ty = self.ty(e['ty'])
        if ty[0] not in ('unit', 'never'): 
            if getattr(L, 'res', None): return TV(tv(L.res), ty)
            raise Unsupported('loop value')
        return UNIT if self.has_break(L.body, L.label) else NEVER
    def has_break(self, body, label):
        for s in body:
            if s[0] == 'break' and s[1] == label: return True
            if s[0] == 'if' and (self.has_break(s[2], label) or self.has_break(s[3], label)): return True
            if s[0] == 'loop' and self.has_break(s[1].body, label): return True
        return False
    def find_label(self, l):
        fr = self.fr
        if l in fr.labels and fr.labels[l]: return fr.labels[l]
        raise Unsupported('break out of a closure or labelled block')
    def e_Break(self, n, e, ref, wr):
        if opt(n['value']) is not None:
            V = self.ev(opt(n['value']))
            if not (isinstance(V, TV) and V.ty[0] == 'unit'): raise Unsupported('break with value')
        self.emit('break', self.find_label(n['label'])); return NEVER
    def e_Continue(self, n, e, ref, wr):
        lab = self.find_label(n['label'])
        c = getattr(self, 'cont_flags', {}).get(lab)
        self.emit('continue', lab); return NEVER
    def for_loop(self, n, e):
        it = self.as_iter(self.ev(n['scrutinee']))
        arm = self.fr.body.a(n['arms'][0])
        # arm body: Scope(Loop(Block { stmts: [match next(&mut iter) {..}] }))
        ref = arm['body']; scope = None; ex = self.fr.body.e(ref)
        while kk(ex['kind']) in ('Scope', 'NeverToAny', 'ValueExpr'):
            if ex['kind'].k == 'Scope': scope = ex['kind']['region_scope']
            ref = ex['kind'].get('value') or ex['kind'].get('source'); ex = self.fr.body.e(ref)
        if kk(ex['kind']) != 'Loop': raise Unsupported('for desugaring')
        # the scope that the loop's break/continue name is the innermost Scope around the Loop
        b = self.strip(ex['kind']['body'])
        blk = self.fr.body.b(b['kind']['block'])
        inner = None
        if blk['stmts']:
            inner = self.fr.body.s(blk['stmts'][0])['kind']['expr']
        else: inner = opt(blk['expr'])
        me = self.strip(inner)
        while kk(me['kind']) == 'NeverToAny': me = self.strip(me['kind']['source'])
        if kk(me['kind']) != 'Match': raise Unsupported('for desugaring')
        sa = [self.fr.body.a(a) for a in me['kind']['arms']]
        sa = [a for a in sa if int(a['pattern']['kind']['variant_index']) == 1][0]
        pat = sa['pattern']['kind']['subpatterns'][0]['pattern']
        breaks = [0]
        def body(V, L):
            self.fr.labels[scope] = L.label if L is not None else None
            self.bind(pat, V)
            self.ev(sa['body'])
        self.drive(it, body, e['span'], user_body=True)
        return UNIT

    # ---------- iterators
    def as_iter(self, V):
        if isinstance(V, PV): V = self.read(V.place)
        if isinstance(V, (It, IterVar)): 
            return V
        if isinstance(V, MutRef):
            W = self.read(V.place)
            if isinstance(W, (It, IterVar)): return W
            W = self.as_tv(W)
            if W.ty[0] == 'Seq': return It('srcmut', V.place, W.ty[1], T.length(W.t))
            raise Unsupported('iteration over &mut %s' % (W.ty,))
        if isinstance(V, TV):
            if V.ty[0] == 'Seq': return It('src', V.t, V.ty[1])
            if V.ty[0] == 'Opt':
                return It('optiter', V)
        raise Unsupported('iteration over %s' % (V.ty if isinstance(V, TV) else type(V).__name__,))
    def is_ra(self, it):
        if isinstance(it, IterVar): return self.is_ra(it.it)
        if it.k in ('src', 'srcmut', 'range', 'rangei', 'windows', 'chunks', 'repeat', 'from'): return True
        if it.k in ('map', 'enum', 'rev', 'skip', 'take', 'stepby', 'copied', 'inspect'): return self.is_ra(it.a[0])
        if it.k in ('zip', 'chain'): return self.is_ra(it.a[0]) and self.is_ra(it.a[1]) and not self.infinite(it.a[0]) if it.k == 'chain' else self.is_ra(it.a[0]) and self.is_ra(it.a[1])
        return False
    def infinite(self, it):
        if isinstance(it, IterVar): return self.infinite(it.it)
        if it.k in ('repeat', 'from'): return True
        if it.k == 'zip': return self.infinite(it.a[0]) and self.infinite(it.a[1])
        if it.k in ('map', 'enum', 'rev', 'skip', 'stepby', 'copied', 'inspect'): return self.infinite(it.a[0])
        return False
    def it_len(self, it):
        if isinstance(it, IterVar): return app('({} - {})', self.it_len(it.it), tv(it.pos))
        k = it.k
        if k == 'src': return T.length(it.a[0])
        if k == 'srcmut': return it.a[2]
        if k == 'range':
            if it.a[0] == tk('0int'): return app('imax0({})', it.a[1]) if it.a[1][0] != 'app' or not it.a[1][1].endswith('.len() as int)') else it.a[1]
            return app('imax0({} - {})', it.a[1], it.a[0])
        if k == 'rangei': return app('imax0({} - {} + 1)', it.a[1], it.a[0])
        if k in ('map', 'enum', 'rev', 'copied', 'inspect'): return self.it_len(it.a[0])
        if k == 'skip': return app('imax0({} - {})', self.it_len(it.a[0]), it.a[1])
        if k == 'take':
            if self.infinite(it.a[0]): return app('imax0({})', it.a[1])
            return app('imin({}, {})', self.it_len(it.a[0]), it.a[1])
        if k == 'stepby': return app('cdiv({}, {})', self.it_len(it.a[0]), it.a[1])
        if k == 'zip':
            if self.infinite(it.a[0]): return self.it_len(it.a[1])
            if self.infinite(it.a[1]): return self.it_len(it.a[0])
            a, b = self.it_len(it.a[0]), self.it_len(it.a[1])
            return a if a == b else app('imin({}, {})', a, b)
        if k == 'chain': return app('({} + {})', self.it_len(it.a[0]), self.it_len(it.a[1]))
        if k == 'windows': return app('imax0({} - {} + 1)', T.length(it.a[0]), it.a[2])
        if k == 'chunks': return app('cdiv({}, {})', T.length(it.a[0]), it.a[2])
        raise Unsupported('length of iterator ' + k)
    def it_get(self, it, i):
        if isinstance(it, IterVar): return self.it_get(it.it, app('({} + {})', i, tv(it.pos)))
        k = it.k
        if k == 'src': return TV(T.idx(it.a[0], i), it.a[1])
        if k == 'srcmut': return MutRef(it.a[0].add(('i', i), it.a[1]))
        if k in ('range', 'rangei', 'from'):
            return TV(i if it.a[0] == tk('0int') else app('({} + {})', it.a[0], i), it.a[2] if k != 'from' else it.a[1])
        if k == 'map': return self.call_clo(it.a[1], [self.it_get(it.a[0], i)])
        if k == 'inspect':
            V = self.snap(self.it_get(it.a[0], i)); self.call_clo(it.a[1], [V]); return V
        if k == 'copied': 
            V = self.it_get(it.a[0], i)
            return self.as_tv(V) if isinstance(V, MutRef) else V
        if k == 'enum':
            V = self.it_get(it.a[0], i)
            if isinstance(V, TV): return TV(T.tup([i, V.t]), ('tup', (('int', 'usize'), V.ty)))
            return TupV([TV(i, ('int', 'usize')), V])
        if k == 'zip':
            a, b = self.it_get(it.a[0], i), self.it_get(it.a[1], i)
            if isinstance(a, TV) and isinstance(b, TV): return TV(T.tup([a.t, b.t]), ('tup', (a.ty, b.ty)))
            return TupV([a, b])
        if k == 'rev': return self.it_get(it.a[0], app('({} - 1 - {})', self.it_len(it.a[0]), i))
        if k == 'skip': return self.it_get(it.a[0], app('({} + {})', it.a[1], i))
        if k == 'take': return self.it_get(it.a[0], i)
        if k == 'stepby': return self.it_get(it.a[0], app('({} * {})', it.a[1], i))
        if k == 'repeat': return it.a[0]
        if k == 'chain':
            la = self.it_len(it.a[0])
            c = app('({} < {})', i, la)
            return self.merge(c, lambda: self.it_get(it.a[0], i), lambda: self.it_get(it.a[1], app('({} - {})', i, la)), ('opq', 'chain'))
        if k == 'windows': return TV(app('{}.subrange({}, {})', it.a[0], i, app('({} + {})', i, it.a[2])), ('Seq', it.a[1]))
        if k == 'chunks': return TV(app('{}.subrange({} * {}, imin(({} + 1) * {}, {}))', it.a[0], i, it.a[2], i, it.a[2], T.length(it.a[0])), ('Seq', it.a[1]))
        raise Unsupported('element of iterator ' + k)
    def sources(self, it, acc=None):
        if acc is None: acc = []
        if isinstance(it, IterVar): return self.sources(it.it, acc)
        if it.k == 'src': acc.append((it.a[0], ('Seq', it.a[1])))
        for x in it.a:
            if isinstance(x, (It, IterVar)): self.sources(x, acc)
        return acc
    def drive(self, it, sink, sp, user_body=False):
        """emit the loop(s) that feed every item of `it` to sink(V, loop)"""
        if self.pure_depth: raise Unsupported('loop in a pure context')
        if isinstance(it, IterVar):
            if not self.is_ra(it.it): raise Unsupported('resumed iterator')
            # consume the rest
            pos = it.pos; inner = it.it
            base = self.let('pos0', tv(pos), ('int', 'usize'))
            rest = It('skip', inner, base)
            n = self.it_len(inner)
            self.emit('set', pos, n)
            return self.drive(rest, sink, sp, user_body)
        it = self.snap_it(it)
        k = it.k
        if self.is_ra(it) and k != 'chain':
            return self.indexed(self.it_len(it), lambda i, L: sink(self.it_get(it, i), L), sp, self.sources(it), it)
        if k == 'map': return self.drive(it.a[0], lambda V, L: sink(self.call_clo(it.a[1], [V]), L), sp, user_body)
        if k == 'copied': return self.drive(it.a[0], lambda V, L: sink(self.as_tv(V) if isinstance(V, MutRef) else V, L), sp, user_body)
        if k == 'filter':
            def f(V, L):
                V = self.snap(V, 'item')
                c = self.as_tv(self.call_clo(it.a[1], [V]))
                o, _ = self.sub(lambda: sink(V, L))
                self.emit('if', c.t, o, [])
            return self.drive(it.a[0], f, sp, user_body)
        if k == 'filtermap':
            def f(V, L):
                R = self.call_clo(it.a[1], [V])
                if isinstance(R, OptV): c, x = R.cond, R.val
                else:
                    R = self.as_tv(R); R = self.snap(R, 'fm'); c, x = T.is_some(R.t), TV(T.unsome(R.t), R.ty[1])
                o, _ = self.sub(lambda: sink(x, L))
                self.emit('if', c, o, [])
            return self.drive(it.a[0], f, sp, user_body)
        if k == 'enum':
            c = self.newmut('cnt', ('int', 'usize'), tk('0int'))
            def f(V, L):
                i = self.let('en', tv(c), ('int', 'usize'))
                self.emit('set', c, app('({} + 1)', tv(c)))
                if isinstance(V, TV): sink(TV(T.tup([i, V.t]), ('tup', (('int', 'usize'), V.ty))), L)
                else: sink(TupV([TV(i, ('int', 'usize')), V]), L)
            return self.drive(it.a[0], f, sp, user_body)
        if k == 'chain':
            if user_body: self.no_break = True
            self.drive(it.a[0], sink, sp, user_body); return self.drive(it.a[1], sink, sp, user_body)
        if k in ('flatmap', 'flatten'):
            def f(V, L):
                R = self.call_clo(it.a[1], [V]) if k == 'flatmap' else V
                if isinstance(R, PV): R = self.read(R.place)
                self.drive(self.as_iter(R), sink, sp, user_body)
            return self.drive(it.a[0], f, sp, user_body)
        if k == 'optiter':
            V = it.a[0]
            o, _ = self.sub(lambda: sink(TV(T.unsome(V.t), V.ty[1]), None))
            self.emit('if', T.is_some(V.t), o, []); return
        if k == 'once': sink(it.a[0], None); return
        if k == 'empty': return
        if k == 'zip':
            a, b = it.a
            if self.is_ra(b):
                c = self.newmut('zc', ('int', 'usize'), tk('0int')); lb = self.it_len(b)
                def f(V, L):
                    V = self.snap(V, 'za')
                    def g():
                        i = self.let('zi', tv(c), ('int', 'usize'))
                        self.emit('set', c, app('({} + 1)', tv(c)))
                        sink(TupV([V, self.it_get(b, i)]), L)
                    o, _ = self.sub(g)
                    self.emit('if', app('({} < {})', tv(c), lb), o, [])
                return self.drive(a, f, sp, user_body)
        if k in ('take', 'skip'):
            c = self.newmut('tc', ('int', 'usize'), tk('0int')); lim = it.a[1]
            def f(V, L):
                V = self.snap(V, 'tk')
                i = self.let('ti', tv(c), ('int', 'usize'))
                self.emit('set', c, app('({} + 1)', tv(c)))
                o, _ = self.sub(lambda: sink(V, L))
                self.emit('if', app('({} < {})' if k == 'take' else '({} >= {})', i, lim), o, [])
            return self.drive(it.a[0], f, sp, user_body)
        if k in ('takewhile', 'skipwhile'):
            c = self.newmut('tw', ('bool',), T.TRUE)
            def f(V, L):
                V = self.snap(V, 'tk')
                def g():
                    r = self.as_tv(self.call_clo(it.a[1], [V])); self.emit('set', c, r.t)
                o, _ = self.sub(g)
                self.emit('if', tv(c), o, [])
                o, _ = self.sub(lambda: sink(V, L))
                self.emit('if', tv(c) if k == 'takewhile' else T.not_(tv(c)), o, [])
            return self.drive(it.a[0], f, sp, user_body)
        raise Unsupported('iterator ' + k)
    def indexed(self, n, body, sp, srcs, it=None):
        if self.mentions_mut(n) or T.size(n) > 3: n = self.let('n', n, ('int', 'usize'))
        L = Loop(); L.label = self.fresh('l'); L.span = sp; L.srcs = srcs
        L.kvar = self.fresh('k'); self.vty[L.kvar] = ('int', 'usize'); self.mut.add(L.kvar)
        L.n = n; L.it = it
        self.emit('mut', L.kvar, ('int', 'usize'), tk('0int'))
        save = self.out; self.out = []
        kkv = self.fresh('kk'); self.vty[kkv] = ('int', 'usize')
        self.emit('let', kkv, ('int', 'usize'), tv(L.kvar))
        self.emit('set', L.kvar, app('({} + 1)', tv(L.kvar)))
        L.kk = kkv
        self.loops.append(L)
        body(tv(kkv), L)
        self.loops.pop()
        L.body = self.out; self.out = save
        self.emit('loop', L)
        return L

    # ---------- calls
    def call_clo(self, f, args):
        if isinstance(f, PV): f = self.read(f.place)
        if isinstance(f, MutRef): f = self.read(f.place)
        if isinstance(f, FnI): return self.call_fn(f.path, f.gargs, args, None)
        if isinstance(f, TV) and f.ty[0] == 'fn': return self.call_ptr(f, args)
        if not isinstance(f, Clo): raise Unsupported('call of %s' % type(f).__name__)
        body = f.body
        fr = Frame(body, ({}, f.env), f.fr.tsub, self.fr, 'clo')
        m = re.search(r'->\s*(.*)$', body.body_type, re.S) if isinstance(body.body_type, str) else None
        fr.retty = parse_ty(m.group(1), fr.tsub) if m else ('unit',)
        return self.run_frame(fr, body.params[1:], args)
    def run_frame(self, fr, params, args):
        save_fr = self.fr; self.fr = fr
        save_out = self.out; self.out = []
        try:
            if len(params) != len(args): raise Unsupported('arity')
            for p, a in zip(params, args):
                pat = opt(p['pat'])
                if pat is None: continue
                self.bind(pat, a)
            V = self.ev('e%d' % fr.body.root)
            if fr.used_ret:
                rty = fr.retty
                unit = rty[0] in ('unit', 'never')
                never = isinstance(V, TV) and V.ty[0] == 'never'
                if not unit and not never:
                    W = self.as_tv(V); self.emit('setres', fr, W.t)
                o = self.out; self.out = save_out
                if not unit:
                    r = self.newmut('res', rty, None); fr.res = r
                o = self.elim(o, fr)
                self.out.extend(o)
                return TV(tv(r), rty) if not unit else UNIT
            o = self.out; self.out = save_out; self.out.extend(o)
            return V
        finally:
            self.fr = save_fr; self.out = save_out
    def elim(self, o, fr):
        flag = [None]
        def has(ss):
            for s in ss:
                if s[0] == 'brkframe' and s[1] is fr: return True
                if s[0] == 'if' and (has(s[2]) or has(s[3])): return True
                if s[0] == 'loop' and has(s[1].body): return True
            return False
        def definite(ss):
            for s in ss:
                if s[0] == 'brkframe' and s[1] is fr: return True
                if s[0] in ('ret', 'break', 'continue', 'brkframe', 'dead'): return True
                if s[0] == 'if' and definite(s[2]) and definite(s[3]): return True
            return False
        def getflag():
            if flag[0] is None:
                n = self.fresh('done'); self.vty[n] = ('bool',); self.mut.add(n); flag[0] = n
            return flag[0]
        def go(ss, inloop, needflag):
            r = []
            for i, s in enumerate(ss):
                if s[0] == 'setres' and s[1] is fr: r.append(['set', fr.res, s[2]]); continue
                if s[0] == 'brkframe' and s[1] is fr:
                    if inloop or needflag: r.append(['set', getflag(), T.TRUE])
                    if inloop: r.append(['break', inloop])
                    return r
                if s[0] == 'if' and (has(s[2]) or has(s[3])):
                    rest = ss[i + 1:]
                    if inloop:
                        r.append(['if', s[1], go(s[2], inloop, needflag), go(s[3], inloop, needflag)]); continue
                    if has(s[2]) and definite(s[2]) and not has(s[3]):
                        r.append(['if', s[1], go(s[2], inloop, needflag), go(s[3] + rest, inloop, needflag)]); return r
                    if has(s[3]) and definite(s[3]) and not has(s[2]):
                        r.append(['if', s[1], go(s[2] + rest, inloop, needflag), go(s[3], inloop, needflag)]); return r
                    if has(s[2]) and has(s[3]) and definite(s[2]) and definite(s[3]):
                        r.append(['if', s[1], go(s[2], inloop, needflag), go(s[3], inloop, needflag)]); return r
                    getflag()
                    r.append(['if', s[1], go(s[2], inloop, True), go(s[3], inloop, True)])
                    if rest: r.append(['if', T.not_(tv(flag[0])), go(rest, inloop, needflag), []])
                    return r
                if s[0] == 'loop' and has(s[1].body):
                    f = getflag()
                    s[1].body = go(s[1].body, s[1].label, True)
                    r.append(s)
                    rest = ss[i + 1:]
                    if inloop:
                        r.append(['if', tv(f), [['break', inloop]], []])
                        r += go(rest, inloop, needflag); return r
                    if rest: r.append(['if', T.not_(tv(f)), go(rest, inloop, needflag), []])
                    return r
                if s[0] == 'if': r.append(['if', s[1], go(s[2], inloop, needflag), go(s[3], inloop, needflag)]); continue
                r.append(s)
            return r
        r = go(o, None, False)
        if flag[0] is not None:
            # the flag is declared once, outside every loop of the inlined body
            r.insert(0, ['mut', flag[0], ('bool',), T.FALSE])
        return r
    def pure(self, f, args):
        """evaluate a closure as a pure expression"""
        self.pure_depth += 1; sp = self.panics_pure; self.panics_pure = []
        try:
            o, V = self.sub(lambda: self.as_tv(self.call_clo(f, args)))
            m = {}
            for s in o:
                if s[0] != 'let': raise Unsupported('effect in a pure context')
                m[s[1]] = T.subst(s[3], m)
            return TV(T.subst(V.t, m), V.ty), [T.subst(c, m) for c in self.panics_pure]
        finally:
            self.pure_depth -= 1; self.panics_pure = sp
    def e_Call(self, n, e, ref, wr):
        fty = n['ty']; rty = self.ty(e['ty'])
        if self.single(e['ty']): raise Unsupported('single-precision result of a call')
        sp = e['span']
        if isinstance(fty, N) and fty.k == 'FnDef':
            path = defpath(fty['_'][0]); g = self.gargs(fty)
            if path.startswith(('core::panicking', 'std::rt', 'core::rt')) or path in ('std::process::exit',):
                self.cur_span = sp
                self.emit('assert', T.FALSE, 'panic', 'panic not reached', sp); self.emit('dead'); return NEVER
            key = self.prog.stdkey(path)
            if key in ('core::ops::function::Fn::call', 'core::ops::function::FnMut::call_mut', 'core::ops::function::FnOnce::call_once'):
                vs = self.evs(n['args'])
                a = vs[1]
                if isinstance(a, TupV): al = a.items
                elif isinstance(a, TV) and a.ty[0] == 'tup': al = [TV(tfld(a.t, i), x) for i, x in enumerate(a.ty[1])]
                else: al = []
                return self.call_clo(vs[0], al)
            if key in ('std::io::stdio::_print', 'std::io::stdio::_eprint'): return UNIT
            if key in ('alloc::fmt::format', 'core::hint::must_use') and rty == ('str',): 
                return TV(tk('str_any()'), ('str',))
            args = self.evs(n['args'], want_ref=True)
            self.cur_span = sp
            if any(isinstance(a, TV) and a.ty[0] == 'never' for a in args): return NEVER
            return self.call_fn(path, g, args, rty)
        f = self.ev(n['fun'])
        args = self.evs(n['args'])
        return self.call_clo(f, args)
    def call_ptr(self, f, args):
        """call through a function pointer: one of the functions of that signature whose address the workspace takes"""
        cands = self.prog.reified_for(f.ty)
        if not cands: raise Unsupported('call through an unknown function pointer')
        if f.t[0] == 'k' and f.t[1].startswith('FN_'):
            c = [p for p in cands if 'FN_' + self.prog.san(p) == f.t[1]]
            if c: return self.call_fn(c[0], [], args, f.ty[2])
        sem = None
        if all(self.prog.contract_for(p, self.contracts) for p in cands) and not any(isinstance(a, MutRef) for a in args):
            for p in cands: self.fnptrs.add(p)
            ats = [self.as_tv(a) for a in args]
            for p in cands: self.called.append(p)
            r = self.newmut('fp', f.ty[2], None)
            self.emit('callptr', r, f.ty, cands, f.t, [a.t for a in ats], self.cur_span)
            return TV(self.let('fpr', tv(r), f.ty[2]), f.ty[2])
        for p in cands: self.fnptrs.add(p)
        args = [self.snap(a) for a in args]
        ft = self.snap(f, 'fptr')
        def go(i):
            if i == len(cands):
                self.emit('assert', T.FALSE, 'req', 'the function pointer is one of the known functions', self.cur_span); self.emit('dead'); return NEVER
            p = cands[i]
            return self.merge(app('({} == FN_%s)' % self.prog.san(p), ft.t), lambda: self.call_fn(p, [], args, f.ty[2]), lambda: go(i + 1), f.ty[2])
        return go(0)
    def call_fn(self, path, g, args, rty):
        key = self.prog.stdkey(path)
        if not self.prog.is_local(path):
            m = BUILTIN.get(key)
            if m is None:
                last2 = '::'.join(key.split('::')[-2:])
                m = BUILTIN.get('*::' + last2) or BUILTIN.get('*::' + key.split('::')[-1])
            if m is None:
                r = self.trait_impl(path, g, args, rty)
                if r is not None: return r
                raise Unsupported('call of ' + key)
            r = m(self, args, g, rty, path)
            return r
        real = self.prog.resolve(path, g, args, self)
        if real is None: raise Unsupported('unresolved ' + path)
        return self.call_local(real, g, args, rty)
    def trait_impl(self, path, g, args, rty):
        """a std trait method with a hand-written impl in the workspace"""
        real = self.prog.resolve(path, g, args, self)
        if real is None or real not in self.prog.bodies: return None
        return self.call_local(real, g, args, rty)
    def call_local(self, path, g, args, rty):
        body = self.prog.bodies.get(path)
        if body is None: raise Unsupported('no body for ' + path)
        c = self.prog.contract_for(path, self.contracts)
        if c is not None and not self.pure_depth:
            return self.call_contract(path, c, g, args)
        if c is not None and self.pure_depth and c.get('pure'):
            ats = [self.as_tv(a) for a in args]
            sig = self.prog.sig(path, g)
            self.called.append(path)
            return TV(app('sem_%s(' % self.prog.san(path) + ', '.join(['{}'] * len(ats)) + ')', *[a.t for a in ats]), sig[1])
        return self.inline(path, body, g, args)
    def inline(self, path, body, g, args):
        if path in self.stack: raise Unsupported('recursion without a contract: ' + path)
        if len(self.stack) > 12: raise Unsupported('inlining too deep')
        self.stack.append(path); self.inlined.append(path)
        try:
            fr = Frame(body, ({}, None), {i: t for i, t in enumerate(g)} if g else {}, getattr(self, 'fr', None), 'inl')
            fr.retty = self.prog.sig(path, g)[1]
            return self.run_frame(fr, body.params, args)
        finally: self.stack.pop()
    def call_contract(self, path, c, g, args):
        ptys, rty = self.prog.sig(path, g)
        ins = []; outs = []
        for a, t in zip(args, ptys):
            if t[0] == 'mut':
                if not isinstance(a, MutRef):
                    if isinstance(a, PV): a = MutRef(a.place)
                    else: raise Unsupported('&mut argument')
                p = self.flat(a.place)
                cur = self.as_tv(self.read(p)); ins.append(cur.t); outs.append((p, t[1]))
            else:
                ins.append(self.as_tv(a).t)
        self.called.append(path)
        res = []
        unit = rty[0] in ('unit', 'never')
        if not unit:
            r = self.fresh('r'); self.vty[r] = rty; self.mut.add(r); self.emit('mut', r, rty, None); res.append(r)
        tmp = []
        for p, t in outs:
            n = self.fresh('o'); self.vty[n] = t; self.mut.add(n); self.emit('mut', n, t, None); res.append(n); tmp.append(n)
        self.emit('call', res, path, ins, self.cur_span)
        for n, (p, t) in zip(tmp, outs):
            self.write(p, TV(tv(n), t))
        return TV(self.let('rr', tv(r), rty), rty) if not unit else UNIT

    # ---------- whole function
    def lower(self):
        body = self.prog.bodies[self.path]
        ptys, rty = self.prog.sig(self.path, [])
        self.fr = Frame(body, ({}, None), {}, None, 'top'); self.fr.retty = rty
        self.stack.append(self.path)
        self.params = []; self.outs = []
        for i, (p, t) in enumerate(zip(body.params, ptys)):
            n = 'p%d' % i
            self.vty[n] = no_mut(t); self.params.append((n, no_mut(t)))
            pat = opt(p['pat'])
            if t[0] == 'mut':
                m = self.newmut('q%d' % i, t[1], tv(n)); self.outs.append((i, m, t[1]))
                self.bind(pat, MutRef(Place(m)))
            elif pat is not None: self.bind(pat, TV(tv(n), t))
        V = self.ev('e%d' % body.root)
        if not (isinstance(V, TV) and V.ty[0] == 'never'):
            if rty[0] in ('unit',): V = UNIT
            self.emit('ret', self.as_tv(V))
        self.rty = rty
        return self

# ================= library functions =================
BUILTIN = {}
def bi(*names):
    def d(f):
        for n in names: BUILTIN[n] = f
        return f
    return d
def val(lw, V): return lw.as_tv(V)
def I(t): return TV(t, ('int', 'usize'))
def F_(t): return TV(t, ('F',))
def B_(t): return TV(t, ('bool',))

# --- identity-like
@bi('core::ops::deref::Deref::deref', 'core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', 'alloc::rcs::arc::new', 'alloc::sync::new', 'alloc::rc::new',
    'alloc::vec::as_slice', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow', 'core::convert::Into::into', 'core::convert::From::from',
    'alloc::slice::to_vec', 'alloc::slice::into_vec', 'core::option::cloned', 'core::option::copied', 'core::option::as_ref', 'core::option::as_deref', 'alloc::string::to_string', 'alloc::string::ToString::to_string',
    'core::hint::black_box', 'core::mem::drop', 'alloc::boxed::into_vec', 'alloc::vec::into_boxed_slice', 'core::array::as_slice', 'alloc::str::to_owned', 'core::hint::must_use', 'alloc::vec::as_ref', 'alloc::boxed::as_ref', 'core::clone::Clone::clone_from_')
def _id(lw, a, g, rty, path):
    V = a[0]
    key = path.split('::')[-1]
    if isinstance(V, PV): V = lw.read(V.place)
    if isinstance(V, MutRef): V = lw.read(V.place)
    if key == 'clone':
        t = V.ty if isinstance(V, TV) else None
        if t and t[0] == 'adt':
            real = lw.prog.hand_clone(t[1])
            if real: return lw.call_local(real, list(t[2]), [V], rty)
    if key in ('into', 'from') and isinstance(V, TV) and rty is not None:
        d = no_mut(rty)
        if V.ty == d: return V
        if V.ty[0] == 'int' and d[0] == 'F': return TV(int2f(V.t), d)
        if V.ty[0] == 'int' and d[0] == 'int': return TV(V.t, d)
        if V.ty[0] == 'opq' or d[0] == 'opq' or V.ty[0] == 'str' or d[0] == 'str': return TV(tk('arbitrary()'), d)
        if d[0] == 'Box' and d[1] == V.ty: return TV(T.box(V.t), d)
        if V.ty[0] == 'Seq' and d[0] == 'Seq': return V
        if d[0] == 'Opt': return TV(T.some(V.t), d)
        raise Unsupported('conversion')
    if key in ('deref', 'as_ref') and isinstance(V, TV) and V.ty[0] == 'Box' and rty is not None and no_mut(rty)[0] != 'Box':
        return TV(T.unbox(V.t), V.ty[1])
    return V
@bi('core::ops::deref::DerefMut::deref_mut', 'alloc::vec::as_mut_slice', 'core::convert::AsMut::as_mut', 'core::borrow::BorrowMut::borrow_mut')
def _idm(lw, a, g, rty, path):
    V = a[0]
    if isinstance(V, MutRef):
        c = lw.read(V.place)
        if isinstance(c, TV) and c.ty[0] == 'Box': return MutRef(V.place.add(('box',), c.ty[1]))
    return V
@bi('alloc::boxed::new')
def _box(lw, a, g, rty, path):
    V = val(lw, a[0]); return TV(T.box(V.t), ('Box', V.ty))
@bi('core::mem::take')
def _take(lw, a, g, rty, path):
    p = a[0].place; cur = lw.snap(val(lw, lw.read(p)), 'taken')
    if cur.ty[0] == 'Seq': z = TV(lw.empty(cur.ty), cur.ty)
    elif cur.ty[0] == 'Opt': z = TV(T.NONE, cur.ty)
    elif cur.ty[0] == 'F': z = TV(tk('F::Fin(0real)'), cur.ty)
    elif cur.ty[0] == 'int': z = TV(tk('0int'), cur.ty)
    else: raise Unsupported('mem::take')
    lw.write(p, z); return cur
@bi('core::mem::replace')
def _repl(lw, a, g, rty, path):
    p = a[0].place; cur = lw.snap(val(lw, lw.read(p)), 'old'); lw.write(p, a[1]); return cur
@bi('core::mem::swap')
def _swapm(lw, a, g, rty, path):
    p, q = a[0].place, a[1].place
    x = lw.snap(val(lw, lw.read(p)), 'x'); y = lw.snap(val(lw, lw.read(q)), 'y')
    x = TV(lw.let('x', x.t, x.ty), x.ty)
    lw.write(p, y); lw.write(q, x); return UNIT
@bi('core::default::Default::default')
def _default(lw, a, g, rty, path):
    t = no_mut(rty)
    if t[0] == 'F': return TV(tk('F::Fin(0real)'), t)
    if t[0] == 'int': return TV(tk('0int'), t)
    if t[0] == 'bool': return TV(T.FALSE, t)
    if t[0] == 'Seq': return TV(lw.empty(t), t)
    if t[0] == 'Opt': return TV(T.NONE, t)
    if t[0] == 'tup' : return lw.as_tv(TupV([_default(lw, a, g, x, path) for x in t[1]]))
    raise Unsupported('Default')

# --- Vec
@bi('alloc::vec::new', 'alloc::vec::with_capacity')
def _vnew(lw, a, g, rty, path):
    t = no_mut(rty) if rty else ('Seq', g[0])
    return TV(lw.empty(t), t)
@bi('alloc::vec::from_elem', 'core::iter::sources::repeat_n::repeat_n_')
def _from_elem(lw, a, g, rty, path):
    x = val(lw, a[0]); n = val(lw, a[1])
    if lw.mentions_mut(x.t): x = lw.snap(x, 'fe')
    return TV(app('Seq::new(({}) as nat, |i_: int| {})', n.t, x.t), ('Seq', x.ty))
@bi('alloc::vec::len', 'core::slice::len', 'core::array::len')
def _len(lw, a, g, rty, path): return I(T.length(val(lw, a[0]).t))
@bi('alloc::vec::is_empty', 'core::slice::is_empty')
def _empty(lw, a, g, rty, path): return B_(app('({} == 0)', T.length(val(lw, a[0]).t)))
@bi('alloc::vec::capacity')
def _cap(lw, a, g, rty, path): return I(tk('arbitrary()'))
@bi('alloc::vec::reserve', 'alloc::vec::shrink_to_fit', 'alloc::vec::reserve_exact')
def _noop(lw, a, g, rty, path): return UNIT
def mref(a):
    if isinstance(a, PV): return a.place
    if not isinstance(a, MutRef): raise Unsupported('&mut expected')
    return a.place
@bi('alloc::vec::push')
def _push(lw, a, g, rty, path):
    p = mref(a[0]); x = val(lw, a[1]); cur = val(lw, lw.read(p))
    lw.write(p, TV(app('{}.push({})', cur.t, x.t), cur.ty)); return UNIT
@bi('alloc::vec::pop')
def _pop(lw, a, g, rty, path):
    p = mref(a[0]); cur = lw.snap(val(lw, lw.read(p)), 'v'); el = cur.ty[1]
    ne = app('({} > 0)', T.length(cur.t))
    lw.write(p, TV(ite(ne, app('{}.drop_last()', cur.t), cur.t), cur.ty))
    return TV(ite(ne, T.some(app('{}.last()', cur.t)), T.NONE), ('Opt', el))
@bi('alloc::vec::clear')
def _clear(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p)); lw.write(p, TV(lw.empty(cur.ty), cur.ty)); return UNIT
@bi('alloc::vec::insert')
def _insert(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p)); i = val(lw, a[1]); x = val(lw, a[2])
    lw.panic_assert(app('({} <= {})', i.t, T.length(cur.t)), 'insert index in range')
    lw.write(p, TV(app('{}.insert({}, {})', cur.t, i.t, x.t), cur.ty)); return UNIT
@bi('alloc::vec::remove')
def _remove(lw, a, g, rty, path):
    p = mref(a[0]); cur = lw.snap(val(lw, lw.read(p)), 'v'); i = lw.snap(val(lw, a[1]))
    lw.panic_assert(app('({} < {})', i.t, T.length(cur.t)), 'remove index in range')
    lw.write(p, TV(app('{}.remove({})', cur.t, i.t), cur.ty)); return TV(T.idx(cur.t, i.t), cur.ty[1])
@bi('alloc::vec::truncate')
def _trunc(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p)); n = val(lw, a[1])
    lw.write(p, TV(app('{}.subrange(0, imin({}, {}))', cur.t, n.t, T.length(cur.t)), cur.ty)); return UNIT
@bi('alloc::vec::extend_from_slice', 'alloc::vec::append')
def _extsl(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p)); x = val(lw, a[1])
    lw.write(p, TV(app('({} + {})', cur.t, x.t), cur.ty))
    if path.endswith('append'):
        lw.write(mref(a[1]), TV(lw.empty(cur.ty), cur.ty))
    return UNIT
@bi('core::iter::traits::collect::Extend::extend', 'rayon::iter::ParallelExtend::par_extend')
def _extend(lw, a, g, rty, path):
    p = mref(a[0])
    def sink(V, L):
        V = val(lw, V); cur = val(lw, lw.read(p)); lw.write(p, TV(app('{}.push({})', cur.t, V.t), cur.ty))
    lw.drive(lw.as_iter(a[1]), sink, lw.cur_span); return UNIT
@bi('core::slice::fill')
def _fill(lw, a, g, rty, path):
    p = mref(a[0]); cur = lw.snap(val(lw, lw.read(p)), 'v'); x = lw.snap(val(lw, a[1]))
    lw.write(p, TV(app('Seq::new({} as nat, |i_: int| {})', T.length(cur.t), x.t), cur.ty)); return UNIT
@bi('alloc::vec::resize')
def _resize(lw, a, g, rty, path):
    p = mref(a[0]); cur = lw.snap(val(lw, lw.read(p)), 'v'); n = lw.snap(val(lw, a[1])); x = lw.snap(val(lw, a[2]))
    lw.write(p, TV(app('Seq::new({} as nat, |i_: int| if i_ < {} {{ {}[i_] }} else {{ {} }})', n.t, T.length(cur.t), cur.t, x.t), cur.ty)); return UNIT
@bi('core::slice::swap')
def _swap(lw, a, g, rty, path):
    p = mref(a[0]); cur = lw.snap(val(lw, lw.read(p)), 'v'); i = lw.snap(val(lw, a[1])); j = lw.snap(val(lw, a[2]))
    lw.panic_assert(app('({} < {} && {} < {})', i.t, T.length(cur.t), j.t, T.length(cur.t)), 'swap index in range')
    lw.write(p, TV(app('{}.update({}, {}[{}]).update({}, {}[{}])', cur.t, i.t, cur.t, j.t, j.t, cur.t, i.t), cur.ty)); return UNIT
@bi('core::slice::reverse')
def _reverse(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p)); lw.write(p, TV(app('{}.reverse()', cur.t), cur.ty)); return UNIT
@bi('core::slice::first')
def _first(lw, a, g, rty, path):
    s = val(lw, a[0]); return TV(ite(app('({} > 0)', T.length(s.t)), T.some(T.idx(s.t, tk('0'))), T.NONE), ('Opt', s.ty[1]))
@bi('core::slice::last')
def _last(lw, a, g, rty, path):
    s = val(lw, a[0]); return TV(ite(app('({} > 0)', T.length(s.t)), T.some(T.idx(s.t, app('({} - 1)', T.length(s.t)))), T.NONE), ('Opt', s.ty[1]))
@bi('core::slice::get')
def _get(lw, a, g, rty, path):
    s = val(lw, a[0]); i = val(lw, a[1])
    return TV(ite(app('({} < {})', i.t, T.length(s.t)), T.some(T.idx(s.t, i.t)), T.NONE), ('Opt', s.ty[1]))
@bi('core::slice::get_mut')
def _get_mut(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p)); i = lw.snap(val(lw, a[1]))
    return OptV(app('({} < {})', i.t, T.length(cur.t)), MutRef(p.add(('i', i.t), cur.ty[1])))
@bi('core::slice::last_mut', 'core::slice::first_mut')
def _last_mut(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p))
    i = lw.let('li', app('({} - 1)', T.length(cur.t)), ('int', 'usize')) if path.endswith('last_mut') else tk('0int')
    return OptV(lw.let('ne', app('({} > 0)', T.length(cur.t)), ('bool',)), MutRef(p.add(('i', i), cur.ty[1])))
@bi('core::slice::contains')
def _contains(lw, a, g, rty, path):
    s = val(lw, a[0]); x = val(lw, a[1])
    return B_(app('(exists|i_: int| 0 <= i_ < {} && {})', T.length(s.t), lw.eq(T.idx(s.t, tk('i_')), x.t, s.ty[1])))
@bi('core::slice::split_at')
def _split_at(lw, a, g, rty, path):
    s = val(lw, a[0]); i = val(lw, a[1])
    lw.panic_assert(app('({} <= {})', i.t, T.length(s.t)), 'split index in range')
    return TV(T.tup([app('{}.subrange({}, {})', s.t, T.ZERO, i.t), app('{}.subrange({}, {})', s.t, i.t, T.length(s.t))]), ('tup', (s.ty, s.ty)))
def rng(lw, V, n):
    """Range value -> (lo, hi)"""
    if isinstance(V, PV): V = lw.read(V.place)
    if isinstance(V, It):
        if V.k == 'range': return V.a[0], V.a[1]
        if V.k == 'rangei': return V.a[0], app('({} + 1)', V.a[1])
        if V.k == 'from': return V.a[0], n
        if V.k == 'to': return tk('0int'), V.a[0]
        if V.k == 'full': return tk('0int'), n
    return None
@bi('core::ops::index::Index::index')
def _index(lw, a, g, rty, path):
    p = a[0].place if isinstance(a[0], (PV, MutRef)) else Place(a[0])
    cur = val(lw, lw.read(p)); r = rng(lw, a[1], T.length(cur.t))
    if r:
        lw.panic_assert(app('({} <= {} && {} <= {})', r[0], r[1], r[1], T.length(cur.t)), 'slice range in range')
        return TV(app('{}.subrange({}, {})', cur.t, r[0], r[1]), cur.ty)
    return lw.read(lw.index_place(p, val(lw, a[1])))
@bi('core::ops::index::IndexMut::index_mut')
def _index_mut(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p)); r = rng(lw, a[1], T.length(cur.t))
    if r:
        r = tuple(lw.let('ix', x, ('int', 'usize')) if lw.mentions_mut(x) else x for x in r)
        lw.panic_assert(app('({} <= {} && {} <= {})', r[0], r[1], r[1], T.length(cur.t)), 'slice range in range')
        return MutRef(p.add(('sl', r[0], r[1]), cur.ty))
    return MutRef(lw.index_place(p, val(lw, a[1])))
@bi('core::slice::copy_from_slice', 'core::slice::clone_from_slice')
def _copyfs(lw, a, g, rty, path):
    p = mref(a[0]); cur = val(lw, lw.read(p)); x = val(lw, a[1])
    lw.panic_assert(app('({} == {})', T.length(cur.t), T.length(x.t)), 'equal slice lengths')
    lw.write(p, x); return UNIT
@bi('alloc::slice::concat', 'core::slice::concat')
def _concat(lw, a, g, rty, path):
    s = val(lw, a[0]); return TV(app('{}.flatten()', s.t), s.ty[1])

# --- sorting
def sort_le(lw, s, cmpf):
    el = s.ty[1]
    a, b = TV(tk('a_'), el), TV(tk('b_'), el)
    c, pn = cmpf(a, b)
    return c, pn
def do_sort(lw, p, s, c, pn, stable):
    """c: Ordering term over a_, b_"""
    le = app('|a_: %s, b_: %s| !({} is Greater)' % (vty(s.ty[1], lw.adts), vty(s.ty[1], lw.adts)), c)
    if pn:
        cond = T.and_(*pn)
        m = {}
        lw.panic_assert(app('(forall|i_: int, j_: int| 0 <= i_ < {} && 0 <= j_ < {} ==> ({{ let a_ = #[trigger] {}[i_]; let b_ = #[trigger] {}[j_]; {} }}))', T.length(s.t), T.length(s.t), s.t, s.t, cond), 'comparison yields an ordering')
    r = lw.newmut('sorted', s.ty, None); pm = lw.newmut('perm', ('Seq', ('int', 'usize')), None)
    lw.emit('sort', r, pm, s.t, le, stable, lw.cur_span)
    if p is not None: lw.write(p, TV(tv(r), s.ty))
    return TV(tv(r), s.ty)
@bi('alloc::slice::sort_by', 'core::slice::sort_unstable_by', 'alloc::slice::sort_unstable_by')
def _sort_by(lw, a, g, rty, path):
    p = mref(a[0]); s = lw.snap(val(lw, lw.read(p)), 'unsorted')
    c, pn = sort_le(lw, s, lambda x, y: lw.pure(a[1], [x, y]))
    do_sort(lw, p, s, c.t, pn, 'unstable' not in path); return UNIT
@bi('alloc::slice::sort_by_key', 'core::slice::sort_unstable_by_key', 'alloc::slice::sort_by_cached_key')
def _sort_key(lw, a, g, rty, path):
    p = mref(a[0]); s = lw.snap(val(lw, lw.read(p)), 'unsorted')
    def f(x, y):
        ka, p1 = lw.pure(a[1], [x]); kb, p2 = lw.pure(a[1], [y])
        return TV(ord_term(lw, ka.t, kb.t, ka.ty), ('ord',)), p1 + p2
    c, pn = sort_le(lw, s, f)
    do_sort(lw, p, s, c.t, pn, 'unstable' not in path); return UNIT
@bi('alloc::slice::sort', 'core::slice::sort_unstable')
def _sort(lw, a, g, rty, path):
    p = mref(a[0]); s = lw.snap(val(lw, lw.read(p)), 'unsorted')
    c, pn = sort_le(lw, s, lambda x, y: (TV(ord_term(lw, x.t, y.t, x.ty), ('ord',)), []))
    do_sort(lw, p, s, c.t, pn, 'unstable' not in path); return UNIT
def ord_term(lw, a, b, ty):
    if ty[0] == 'int': return app('icmp({}, {})', a, b)
    if ty[0] == 'tup':
        r = tk('Ord3::Equal')
        for i in reversed(range(len(ty[1]))):
            c = ord_term(lw, tfld(a, i), tfld(b, i), ty[1][i])
            r = app('ord_then({}, {})', c, r)
        return r
    raise Unsupported('Ord on %s' % (ty,))
def pord_term(lw, a, b, ty):
    """Option<Ord3>"""
    if ty[0] == 'F': return app('fpcmp({}, {})', a, b)
    if ty[0] == 'int': return T.some(app('icmp({}, {})', a, b))
    if ty[0] == 'tup':
        r = T.some(tk('Ord3::Equal'))
        for i in reversed(range(len(ty[1]))):
            r = app('pord_then({}, {})', pord_term(lw, tfld(a, i), tfld(b, i), ty[1][i]), r)
        return r
    raise Unsupported('PartialOrd on %s' % (ty,))
@bi('core::cmp::PartialOrd::partial_cmp')
def _pcmp(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); return TV(pord_term(lw, x.t, y.t, x.ty), ('Opt', ('ord',)))
@bi('core::cmp::Ord::cmp')
def _cmp(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); return TV(ord_term(lw, x.t, y.t, x.ty), ('ord',))
@bi('core::f64::total_cmp')
def _tcmp(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1])
    return TV(app('ftcmp({}, {})', x.t, y.t), ('ord',))
@bi('core::cmp::reverse')
def _orev(lw, a, g, rty, path): return TV(app('ord_rev({})', val(lw, a[0]).t), ('ord',))
@bi('core::cmp::then')
def _othen(lw, a, g, rty, path): return TV(app('ord_then({}, {})', val(lw, a[0]).t, val(lw, a[1]).t), ('ord',))
@bi('core::cmp::then_with')
def _othenw(lw, a, g, rty, path):
    o = val(lw, a[0]); r = val(lw, lw.call_clo(a[1], [])); return TV(app('ord_then({}, {})', o.t, r.t), ('ord',))
for _n, _c in (('lt', 'Lt'), ('le', 'Le'), ('gt', 'Gt'), ('ge', 'Ge')):
    def _f(lw, a, g, rty, path, _c=_c): return lw.binop(_c, val(lw, a[0]), val(lw, a[1]))
    BUILTIN['core::cmp::PartialOrd::' + _n] = _f
@bi('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def _eq(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1])
    t = x.ty
    if t[0] == 'adt':
        real = lw.prog.resolve(path, g, a, lw)
        if real in lw.prog.bodies and not lw.prog.derived(real): return lw.call_local(real, [], [x, y], rty)
    r = lw.eq(x.t, y.t, t); return B_(r if path.endswith('eq') else T.not_(r))
@bi('core::cmp::max', 'core::cmp::min', 'core::cmp::Ord::max', 'core::cmp::Ord::min')
def _minmax(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1])
    if x.ty[0] != 'int': raise Unsupported('min/max')
    return TV(app('i%s({}, {})' % path.split('::')[-1], x.t, y.t), x.ty)

# --- operators on references
for _n, _o in (('add::Add', 'Add'), ('Sub', 'Sub')): pass
def _mkop(op):
    def f(lw, a, g, rty, path):
        x, y = val(lw, a[0]), val(lw, a[1])
        if x.ty[0] == 'str': return TV(app('str_cat({}, {})', x.t, y.t), ('str',))
        return lw.binop(op, x, y)
    return f
def _mkopa(op):
    def f(lw, a, g, rty, path):
        p = mref(a[0]); x = val(lw, lw.read(p)); y = val(lw, a[1])
        lw.write(p, lw.binop(op, x, y)); return UNIT
    return f
for _op, _m in (('Add', 'add'), ('Sub', 'sub'), ('Mul', 'mul'), ('Div', 'div'), ('Rem', 'rem')):
    BUILTIN['core::ops::arith::%s::%s' % (_op, _m)] = _mkop(_op)
    BUILTIN['core::ops::arith::%sAssign::%s_assign' % (_op, _m)] = _mkopa(_op)
@bi('core::ops::arith::Neg::neg')
def _neg(lw, a, g, rty, path):
    x = val(lw, a[0])
    if x.ty[0] == 'F': return F_(app('fneg({})', x.t))
    return TV(app('(-{})', x.t), x.ty)

# --- f64
def f1(name):
    def f(lw, a, g, rty, path): return F_(app(name + '({})', val(lw, a[0]).t))
    return f
for _n in ('abs', 'exp', 'sqrt', 'ln', 'floor', 'ceil', 'round', 'recip', 'trunc', 'signum', 'tanh', 'log2', 'log10', 'exp2', 'exp_m1', 'ln_1p'):
    for _c in ('std::f64::', 'core::f64::', 'core::num::f64::', 'std::num::f64::'): BUILTIN[_c + _n] = f1('f' + _n)
@bi('std::f64::powf', 'core::f64::powf')
def _powf(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1])
    if y.t == ('app', 'F::Fin({})', (tk('2real'),)): return F_(app('fmul({}, {})', x.t, x.t))
    if y.t == ('app', 'F::Fin({})', (tk('1real'),)): return x
    return F_(app('fpowf({}, {})', x.t, y.t))
@bi('std::f64::powi', 'core::f64::powi')
def _powi(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1])
    if y.t == tk('2int'): return F_(app('fmul({}, {})', x.t, x.t))
    if y.t == tk('1int'): return x
    return F_(app('fpowi({}, {})', x.t, y.t))
@bi('std::f64::mul_add', 'core::f64::mul_add')
def _mul_add(lw, a, g, rty, path):
    x, y, z = [val(lw, q) for q in a]; return F_(app('fadd(fmul({}, {}), {})', x.t, y.t, z.t))
@bi('core::f64::max', 'core::f64::min')
def _fmaxmin(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); return F_(app('f%s({}, {})' % path.split('::')[-1], x.t, y.t))
@bi('core::f64::clamp')
def _fclamp(lw, a, g, rty, path):
    x, y, z = [val(lw, q) for q in a]; return F_(app('fclamp({}, {}, {})', x.t, y.t, z.t))
for _n in ('is_nan', 'is_finite', 'is_infinite', 'is_sign_negative', 'is_sign_positive'):
    def _f(lw, a, g, rty, path, _n=_n): return B_(app('f%s({})' % _n, val(lw, a[0]).t))
    BUILTIN['core::f64::' + _n] = _f

# --- integers
@bi('core::num::saturating_sub')
def _ssub(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); lo, hi = RANGE[x.ty[1]]
    return TV(app('imax({} - {}, %dint)' % lo, x.t, y.t), x.ty)
@bi('core::num::saturating_add')
def _sadd(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); lo, hi = RANGE[x.ty[1]]
    return TV(app('imin({} + {}, %dint)' % hi, x.t, y.t), x.ty)
@bi('core::num::checked_sub', 'core::num::checked_add')
def _chk(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); lo, hi = RANGE[x.ty[1]]; o = '-' if path.endswith('sub') else '+'
    r = app('({} %s {})' % o, x.t, y.t)
    return TV(ite(app('(%dint <= {} && {} <= %dint)' % (lo, hi), r, r), T.some(r), T.NONE), ('Opt', x.ty))
@bi('core::num::wrapping_sub', 'core::num::wrapping_add')
def _wrp(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); lo, hi = RANGE[x.ty[1]]; o = '-' if path.endswith('sub') else '+'
    return TV(app('wrap({} %s {}, %dint, %dint)' % (o, lo, hi), x.t, y.t), x.ty)
@bi('core::num::abs_diff')
def _absdiff(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); return TV(app('imax({} - {}, {} - {})', x.t, y.t, y.t, x.t), x.ty)
@bi('core::num::pow')
def _ipow(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1])
    if y.t == tk('2int'): return lw.binop('Mul', x, x)
    raise Unsupported('pow')

# --- Option / Result
def opt_parts(lw, V):
    if isinstance(V, PV): V = lw.read(V.place)
    if isinstance(V, OptV): return V.cond, V.val
    if isinstance(V, MutRef):
        c = lw.as_tv(lw.read(V.place)); return T.is_some(c.t), MutRef(V.place.add(('some',), c.ty[1]))
    V = lw.as_tv(V); return T.is_some(V.t), TV(T.unsome(V.t), V.ty[1])
@bi('core::option::unwrap', 'core::option::expect')
def _unwrap(lw, a, g, rty, path):
    c, x = opt_parts(lw, a[0]); lw.panic_assert(c, 'unwrap of Some'); return x
@bi('core::option::unwrap_unchecked')
def _unwrapu(lw, a, g, rty, path): raise Unsupported('unsafe unwrap')
@bi('core::result::unwrap', 'core::result::expect')
def _runwrap(lw, a, g, rty, path):
    V = val(lw, a[0]); lw.panic_assert(app('({} is ROk)', V.t), 'unwrap of Ok'); return TV(app('({})->ROk_0', V.t), V.ty[1])
@bi('core::option::is_some')
def _issome(lw, a, g, rty, path): return B_(opt_parts(lw, a[0])[0])
@bi('core::option::is_none')
def _isnone(lw, a, g, rty, path): return B_(T.not_(opt_parts(lw, a[0])[0]))
@bi('core::result::is_ok')
def _isok(lw, a, g, rty, path): return B_(app('({} is ROk)', val(lw, a[0]).t))
@bi('core::result::is_err')
def _iserr(lw, a, g, rty, path): return B_(app('(!({} is ROk))', val(lw, a[0]).t))
@bi('core::option::as_mut')
def _asmut(lw, a, g, rty, path):
    p = mref(a[0]); c = lw.as_tv(lw.read(p)); return OptV(T.is_some(c.t), MutRef(p.add(('some',), c.ty[1])))
@bi('core::option::unwrap_or')
def _unwrap_or(lw, a, g, rty, path):
    c, x = opt_parts(lw, a[0]); d = val(lw, a[1]); x = val(lw, x); return TV(ite(c, x.t, d.t), x.ty)
@bi('core::option::unwrap_or_default')
def _unwrap_ord(lw, a, g, rty, path):
    c, x = opt_parts(lw, a[0]); x = val(lw, x); d = _default(lw, [], [], x.ty, ''); return TV(ite(c, x.t, d.t), x.ty)
@bi('core::option::unwrap_or_else')
def _unwrap_orelse(lw, a, g, rty, path):
    c, x = opt_parts(lw, a[0]); x = val(lw, x)
    return lw.merge(c, lambda: x, lambda: lw.call_clo(a[1], []), x.ty)
@bi('core::option::map')
def _omap(lw, a, g, rty, path):
    c, x = opt_parts(lw, a[0])
    return lw.merge(c, lambda: (lambda r: TV(T.some(r.t), ('Opt', r.ty)))(val(lw, lw.call_clo(a[1], [x]))), lambda: TV(T.NONE, no_mut(rty)), no_mut(rty))
@bi('core::option::map_or')
def _omapor(lw, a, g, rty, path):
    c, x = opt_parts(lw, a[0])
    return lw.merge(c, lambda: lw.call_clo(a[2], [x]), lambda: a[1], no_mut(rty))
@bi('core::option::is_some_and')
def _issomeand(lw, a, g, rty, path):
    c, x = opt_parts(lw, a[0])
    return lw.merge(c, lambda: lw.call_clo(a[1], [x]), lambda: B_(T.FALSE), ('bool',))
@bi('core::option::and_then')
def _andthen(lw, a, g, rty, path):
    c, x = opt_parts(lw, a[0])
    return lw.merge(c, lambda: lw.call_clo(a[1], [x]), lambda: TV(T.NONE, no_mut(rty)), no_mut(rty))
@bi('core::option::take')
def _otake(lw, a, g, rty, path):
    p = mref(a[0]); cur = lw.snap(val(lw, lw.read(p)), 'taken'); lw.write(p, TV(T.NONE, cur.ty)); return cur

# --- iterators
@bi('core::slice::iter', 'rayon::iter::IntoParallelRefIterator::par_iter', 'core::array::iter', 'alloc::vec::iter')
def _iter(lw, a, g, rty, path):
    V = a[0]
    if isinstance(V, (PV, MutRef)): V = lw.read(V.place)
    return lw.as_iter(V)
@bi('core::iter::traits::collect::IntoIterator::into_iter', 'rayon::iter::IntoParallelIterator::into_par_iter', 'core::iter::traits::iterator::Iterator::by_ref',
    'core::iter::traits::iterator::Iterator::peekable_', 'core::iter::traits::iterator::Iterator::fuse')
def _into_iter(lw, a, g, rty, path): return lw.as_iter(a[0])
@bi('core::slice::iter_mut', 'rayon::iter::IntoParallelRefMutIterator::par_iter_mut')
def _iter_mut(lw, a, g, rty, path): return lw.as_iter(a[0])
@bi('core::slice::windows')
def _windows(lw, a, g, rty, path):
    s = val(lw, a[0]); return It('windows', s.t, s.ty[1], val(lw, a[1]).t)
@bi('core::slice::chunks')
def _chunks(lw, a, g, rty, path):
    s = val(lw, a[0]); return It('chunks', s.t, s.ty[1], val(lw, a[1]).t)
@bi('core::ops::range::new', 'core::ops::range::RangeInclusive::new')
def _rangei(lw, a, g, rty, path):
    x, y = val(lw, a[0]), val(lw, a[1]); return It('rangei', x.t, y.t, x.ty)
@bi('core::iter::sources::repeat::repeat')
def _repeat(lw, a, g, rty, path): return It('repeat', lw.snap(val(lw, a[0])))
@bi('core::iter::sources::repeat_n::repeat_n')
def _repeatn(lw, a, g, rty, path): return It('take', It('repeat', lw.snap(val(lw, a[0]))), val(lw, a[1]).t)
@bi('core::iter::sources::once::once')
def _once(lw, a, g, rty, path): return It('once', a[0])
@bi('core::iter::sources::empty::empty')
def _emptyit(lw, a, g, rty, path): return It('empty')
def ad(k, n=1):
    def f(lw, a, g, rty, path):
        it = lw.as_iter(a[0])
        if n == 1: return It(k, it)
        return It(k, it, a[1])
    return f
P = ('core::iter::traits::iterator::Iterator::', 'core::iter::traits::double_ended::DoubleEndedIterator::', 'core::iter::traits::exact_size::ExactSizeIterator::', 'rayon::iter::ParallelIterator::', 'rayon::iter::IndexedParallelIterator::')
def bp(*names):
    def d(f):
        for p in P:
            for n in names: BUILTIN[p + n] = f
        return f
    return d
bp('map')(ad('map', 2)); bp('filter')(ad('filter', 2)); bp('filter_map')(ad('filtermap', 2)); bp('enumerate')(ad('enum')); bp('rev')(ad('rev'))
bp('flat_map', 'flat_map_iter')(ad('flatmap', 2)); bp('flatten')(ad('flatten')); bp('cloned', 'copied')(ad('copied')); bp('inspect')(ad('inspect', 2))
bp('take_while')(ad('takewhile', 2)); bp('skip_while')(ad('skipwhile', 2))
@bp('with_min_len', 'with_max_len')
def _wml(lw, a, g, rty, path): return lw.as_iter(a[0])
@bp('zip')
def _zip(lw, a, g, rty, path): return It('zip', lw.as_iter(a[0]), lw.as_iter(a[1]))
@bp('chain')
def _chain(lw, a, g, rty, path): return It('chain', lw.as_iter(a[0]), lw.as_iter(a[1]))
@bp('skip', 'take', 'step_by')
def _skip(lw, a, g, rty, path):
    n = lw.snap(val(lw, a[1])); return It({'skip': 'skip', 'take': 'take', 'step_by': 'stepby'}[path.split('::')[-1]], lw.as_iter(a[0]), n.t)
@bp('for_each')
def _for_each(lw, a, g, rty, path):
    lw.drive(lw.as_iter(a[0]), lambda V, L: lw.call_clo(a[1], [V]), lw.cur_span); return UNIT
@bp('collect')
def _collect(lw, a, g, rty, path):
    t = no_mut(rty); it = lw.as_iter(a[0])
    if t[0] == 'Box' and t[1][0] == 'Seq':
        r = _collect(lw, a, g, t[1], path); return TV(T.box(r.t), t)
    if t[0] == 'Seq':
        o = lw.newmut('col', t, lw.empty(t))
        lw.drive(it, lambda V, L: lw.emit('set', o, app('{}.push({})', tv(o), val(lw, V).t)), lw.cur_span)
        return TV(lw.let('cd', tv(o), t), t)
    if t[0] == 'tup' and all(x[0] == 'Seq' for x in t[1]):
        return unzip(lw, it, t)
    raise Unsupported('collect into %s' % (t,))
def unzip(lw, it, t):
    os_ = [lw.newmut('col', x, lw.empty(x)) for x in t[1]]
    def sink(V, L):
        if isinstance(V, PV): V = lw.read(V.place)
        if isinstance(V, TV) and V.t[0] != 'tup': V = lw.snap(V, 'uz')
        for i, o in enumerate(os_):
            x = V.items[i] if isinstance(V, TupV) else TV(tfld(V.t, i), V.ty[1][i])
            lw.emit('set', o, app('{}.push({})', tv(o), val(lw, x).t))
    lw.drive(it, sink, lw.cur_span)
    return TV(T.tup([lw.let('cd', tv(o), x) for o, x in zip(os_, t[1])]), t)
@bp('unzip')
def _unzip(lw, a, g, rty, path): return unzip(lw, lw.as_iter(a[0]), no_mut(rty))
@bp('partition')
def _partition(lw, a, g, rty, path):
    t = no_mut(rty); o1 = lw.newmut('col', t[1][0], lw.empty(t[1][0])); o2 = lw.newmut('col', t[1][1], lw.empty(t[1][1]))
    def sink(V, L):
        V = lw.snap(V, 'pt'); c = val(lw, lw.call_clo(a[1], [V])); x = val(lw, V)
        lw.emit('if', c.t, [['set', o1, app('{}.push({})', tv(o1), x.t)]], [['set', o2, app('{}.push({})', tv(o2), x.t)]])
    lw.drive(lw.as_iter(a[0]), sink, lw.cur_span)
    return TV(T.tup([lw.let('cd', tv(o1), t[1][0]), lw.let('cd', tv(o2), t[1][1])]), t)
@bp('sum', 'product')
def _sum(lw, a, g, rty, path):
    t = no_mut(rty); pr = path.endswith('product')
    init = (tk('F::Fin(%dreal)' % pr) if t[0] == 'F' else tk('%dint' % pr))
    o = lw.newmut('acc', t, init)
    def sink(V, L):
        x = val(lw, V)
        r = lw.binop('Mul' if pr else 'Add', TV(tv(o), t), x)
        lw.emit('set', o, r.t)
    lw.drive(lw.as_iter(a[0]), sink, lw.cur_span)
    return TV(lw.let('sum', tv(o), t), t)
@bp('count')
def _count(lw, a, g, rty, path):
    it = lw.as_iter(a[0])
    if lw.is_ra(it) and not any(k in repr_it(it) for k in ('map', 'inspect')): return I(lw.let('cn', lw.it_len(it), ('int', 'usize')))
    o = lw.newmut('cnt', ('int', 'usize'), tk('0int'))
    lw.drive(it, lambda V, L: lw.emit('set', o, app('({} + 1)', tv(o))), lw.cur_span)
    return I(lw.let('cn', tv(o), ('int', 'usize')))
def repr_it(it):
    if isinstance(it, IterVar): return repr_it(it.it)
    return it.k + ''.join(repr_it(x) for x in it.a if isinstance(x, (It, IterVar)))
@bp('len')
def _itlen(lw, a, g, rty, path): return I(lw.it_len(lw.as_iter(a[0])))
@bp('fold')
def _fold(lw, a, g, rty, path):
    if path.startswith('rayon'): raise Unsupported('rayon fold')
    x = a[1]
    if isinstance(x, (TV, TupV, PV)):
        x = val(lw, x)
        o = lw.newmut('fold', x.ty, x.t)
        def sink(V, L):
            V = lw.snap(V, 'fi')
            cur = TV(lw.let('facc', tv(o), x.ty), x.ty)
            r = val(lw, lw.call_clo(a[2], [cur, V])); lw.emit('set', o, r.t)
        lw.drive(lw.as_iter(a[0]), sink, lw.cur_span)
        return TV(lw.let('fr', tv(o), x.ty), x.ty)
    raise Unsupported('fold accumulator')
@bp('reduce')
def _reduce(lw, a, g, rty, path):
    if path.startswith('rayon'): raise Unsupported('rayon reduce')
    it = lw.as_iter(a[0])
    t = no_mut(rty); o = lw.newmut('red', t, T.NONE)
    def sink(V, L):
        V = val(lw, lw.snap(V, 'ri'))
        def fa():
            r = val(lw, lw.call_clo(a[1], [TV(T.unsome(cur), t[1]), V])); lw.emit('set', o, T.some(r.t)); return UNIT
        def fb(): lw.emit('set', o, T.some(V.t)); return UNIT
        cur = lw.let('rc', tv(o), t)
        lw.merge(T.is_some(cur), fa, fb, ('unit',))
    lw.drive(it, sink, lw.cur_span)
    return TV(lw.let('rd', tv(o), t), t)
@bp('any', 'all')
def _anyall(lw, a, g, rty, path):
    an = path.endswith('any')
    o = lw.newmut('any' if an else 'all', ('bool',), T.FALSE if an else T.TRUE)
    def sink(V, L):
        c = val(lw, lw.call_clo(a[1], [V]))
        b = [['set', o, T.TRUE if an else T.FALSE]]
        if L is not None: b.append(['break', L.label])
        lw.emit('if', c.t if an else T.not_(c.t), b, [])
    it = lw.as_iter(a[0])
    if not (lw.is_ra(it) and not (isinstance(it, It) and it.k == 'chain')):
        s0 = sink
        def sink(V, L): s0(V, None)
    lw.drive(it, sink, lw.cur_span); return B_(lw.let('aa', tv(o), ('bool',)))
@bp('position', 'find', 'position_any_', 'find_map')
def _find(lw, a, g, rty, path):
    t = no_mut(rty); last = path.split('::')[-1]
    o = lw.newmut('found', t, T.NONE); it = lw.as_iter(a[0])
    if isinstance(it, IterVar): raise Unsupported('find on a resumed iterator')
    single = lw.is_ra(it) and it.k != 'chain'
    cnt = None
    if last == 'position': it2 = It('enum', it)
    else: it2 = it
    def sink(V, L):
        if last == 'position':
            i = TV(tfld(V.t, 0), ('int', 'usize')) if isinstance(V, TV) else V.items[0]
            x = TV(tfld(V.t, 1), V.ty[1][1]) if isinstance(V, TV) else V.items[1]
        else: x = lw.snap(V, 'fx')
        def body():
            R = lw.call_clo(a[1], [x])
            if last == 'find_map': R = lw.as_tv(R); R = lw.snap(R); c = T.is_some(R.t); res = R.t
            else: c = val(lw, R).t; res = T.some(i.t if last == 'position' else val(lw, x).t)
            b = [['set', o, res]]
            if single and L is not None: b.append(['break', L.label])
            lw.emit('if', c, b, [])
        if single: body()
        else:
            ob, _ = lw.sub(body); lw.emit('if', T.not_(T.is_some(tv(o))), ob, [])
    lw.drive(it2, sink, lw.cur_span); return TV(lw.let('fd', tv(o), t), t)
def _best(lw, a, keyf, keep_later):
    """keyf(cand V, best V) -> (term: candidate replaces best)"""
    it = lw.as_iter(a[0])
    st = {}
    o = None
    def sink(V, L):
        nonlocal o
        V = val(lw, lw.snap(V, 'bi'))
        if 'o' not in st: raise Unsupported('internal')
        o = st['o']
        cur = lw.let('bc', tv(o), ('Opt', V.ty))
        def fa():
            c = keyf(V, TV(T.unsome(cur), V.ty))
            lw.emit('if', c, [['set', o, T.some(V.t)]], []); return UNIT
        def fb(): lw.emit('set', o, T.some(V.t)); return UNIT
        lw.merge(T.is_some(cur), fa, fb, ('unit',))
    return it, st, sink
@bp('max_by', 'min_by', 'max_by_key', 'min_by_key', 'max', 'min')
def _maxby(lw, a, g, rty, path):
    last = path.split('::')[-1]; t = no_mut(rty); mx = last.startswith('max')
    o = lw.newmut('best', t, T.NONE); it = lw.as_iter(a[0])
    def keyf(V, Bst):
        if last in ('max_by', 'min_by'):
            # std: max keeps the later of equal elements, min the earlier
            c = val(lw, lw.call_clo(a[1], [Bst, V]))
        elif last in ('max_by_key', 'min_by_key'):
            k1 = val(lw, lw.call_clo(a[1], [Bst])); k2 = val(lw, lw.call_clo(a[1], [V])); c = TV(ord_term(lw, k1.t, k2.t, k1.ty), ('ord',))
        else: c = TV(ord_term(lw, Bst.t, V.t, V.ty), ('ord',))
        return app('(!({} is Greater))', c.t) if mx else app('({} is Greater)', c.t)
    def sink(V, L):
        V = val(lw, lw.snap(V, 'bi')); cur = lw.let('bc', tv(o), t)
        def fa():
            c = keyf(V, TV(T.unsome(cur), t[1])); lw.emit('if', c, [['set', o, T.some(V.t)]], []); return UNIT
        def fb(): lw.emit('set', o, T.some(V.t)); return UNIT
        lw.merge(T.is_some(cur), fa, fb, ('unit',))
    lw.drive(it, sink, lw.cur_span); return TV(lw.let('bs', tv(o), t), t)
@bp('last')
def _itlast(lw, a, g, rty, path):
    it = lw.as_iter(a[0])
    if not lw.is_ra(it): raise Unsupported('last')
    n = lw.let('n', lw.it_len(it), ('int', 'usize'))
    V = lw.as_tv(lw.it_get(it, app('({} - 1)', n)))
    return TV(ite(app('({} > 0)', n), T.some(V.t), T.NONE), ('Opt', V.ty))
@bp('nth')
def _nth(lw, a, g, rty, path):
    it = lw.as_iter(a[0])
    if not lw.is_ra(it) or isinstance(it, IterVar): raise Unsupported('nth')
    i = lw.snap(val(lw, a[1])); n = lw.let('n', lw.it_len(it), ('int', 'usize'))
    V = lw.as_tv(lw.it_get(it, i.t))
    return TV(ite(app('({} < {})', i.t, n), T.some(V.t), T.NONE), ('Opt', V.ty))
@bp('next')
def _next(lw, a, g, rty, path):
    V = a[0]
    if isinstance(V, (PV, MutRef)): V = lw.read(V.place)
    if isinstance(V, It):
        if not lw.is_ra(V): raise Unsupported('next on a filtered iterator')
        n = lw.it_len(V); x = lw.as_tv(lw.it_get(V, tk('0int')))
        return TV(ite(app('({} > 0)', n), T.some(x.t), T.NONE), ('Opt', x.ty))
    if not isinstance(V, IterVar) or not lw.is_ra(V.it): raise Unsupported('next')
    i = lw.let('nx', tv(V.pos), ('int', 'usize')); n = lw.it_len(V.it)
    c = lw.let('more', app('({} < {})', i, n), ('bool',))
    lw.emit('set', V.pos, ite(c, app('({} + 1)', i), i))
    return OptV(c, lw.it_get(V.it, i))
@bi('rayon_core::join::join', 'rayon::join')
def _join(lw, a, g, rty, path):
    x = lw.call_clo(a[0], []); x = lw.snap(x, 'ja'); y = lw.call_clo(a[1], []); y = lw.snap(y, 'jb')
    if isinstance(x, TV) and isinstance(y, TV): return TV(T.tup([x.t, y.t]), ('tup', (x.ty, y.ty)))
    return TupV([x, y])
@bi('core::slice::partition_point')
def _ppoint(lw, a, g, rty, path):
    s = lw.snap(val(lw, a[0]), 's'); pr, pn = lw.pure(a[1], [TV(tk('a_'), s.ty[1])])
    o = lw.newmut('pp', ('int', 'usize'), None)
    lw.emit('ppoint', o, s.t, app('|a_: %s| {}' % vty(s.ty[1], lw.adts), pr.t), lw.cur_span)
    return I(lw.let('pt', tv(o), ('int', 'usize')))

# --- strings, files: opaque
@bi('alloc::string::new', 'alloc::string::push_str', 'core::fmt::rt::new_display', 'core::fmt::rt::new_debug', 'core::fmt::new', 'alloc::fmt::format', 'core::str::len_')
def _str(lw, a, g, rty, path):
    t = no_mut(rty) if rty else ('unit',)
    if t[0] == 'unit': return UNIT
    return TV(tk('str_any()') if t[0] == 'str' else tk('arbitrary()'), t)
@bi('std::fs::open')
def _open(lw, a, g, rty, path):
    lw.ext.add('std::fs::File::open'); return TV(app('ext_open({})', val(lw, a[0]).t), ('Res', ('opq', 'File'), ('opq', 'err')))
@bi('csv::reader::from_reader')
def _csvr(lw, a, g, rty, path):
    lw.ext.add('csv::Reader::from_reader'); return TV(app('ext_reader({})', val(lw, a[0]).t), ('opq', 'Reader'))
@bi('csv::reader::deserialize', 'csv::reader::into_deserialize')
def _csvd(lw, a, g, rty, path):
    lw.ext.add('csv::Reader::deserialize')
    V = val(lw, a[0])
    return It('src', app('ext_rows({})', V.t), ('Res', ('Seq', ('F',)), ('opq', 'err')))
@bi('csv::reader::headers')
def _csvh(lw, a, g, rty, path):
    lw.ext.add('csv::Reader::headers')
    V = val(lw, a[0]); return TV(app('ext_headers({})', V.t), ('Res', ('Seq', ('str',)), ('opq', 'err')))
@bi('csv::string_record::len')
def _srl(lw, a, g, rty, path):
    V = val(lw, a[0]); return I(app('ext_hlen({})', V.t) if V.ty[0] != 'Seq' else T.length(V.t))
@bi('csv::string_record::get')
def _srg(lw, a, g, rty, path):
    V = val(lw, a[0]); i = val(lw, a[1])
    if V.ty[0] != 'Seq': return TV(app('ext_hget({}, {})', V.t, i.t), ('Opt', ('str',)))
    return TV(ite(app('({} < {})', i.t, T.length(V.t)), T.some(T.idx(V.t, i.t)), T.NONE), ('Opt', ('str',)))
