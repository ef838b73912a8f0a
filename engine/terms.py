"""Specification-level terms with a little simplification (field of struct literal, field of update)."""

def v(name): return ('v', name)
def k(text): return ('k', text)
def app(fmt, *a): return ('app', fmt, tuple(a))
def fld(t, f):
    if t[0] == 'struct':
        for n, x in t[3]:
            if n == f: return x
    if t[0] == 'supd':
        if t[3] == f: return t[4]
        return fld(t[1], f)
    if t[0] == 'ite': 
        a, b = fld(t[2], f), fld(t[3], f)
        return a if a == b else ('ite', t[1], a, b)
    return ('fld', t, f)
def tfld(t, i):
    if t[0] == 'tup': return t[1][i]
    if t[0] == 'ite':
        a, b = tfld(t[2], i), tfld(t[3], i)
        return a if a == b else ('ite', t[1], a, b)
    return ('tfld', t, i)
def supd(base, adt, f, val):
    if base[0] == 'struct': return ('struct', base[1], base[2], tuple((n, val if n == f else x) for n, x in base[3]))
    if base[0] == 'supd' and base[3] == f: base = base[1]
    return ('supd', base, adt, f, val)
def tup(xs):
    xs = tuple(xs)
    # (t.0, t.1, ..) == t
    if len(xs) > 1 and all(x[0] == 'tfld' and x[2] == i and x[1] == xs[0][1] for i, x in enumerate(xs)) : 
        return ('tup', xs)
    return ('tup', xs)
def ite(c, a, b):
    if a == b: return a
    if c == TRUE: return a
    if c == FALSE: return b
    return ('ite', c, a, b)
TRUE = ('k', 'true'); FALSE = ('k', 'false')
def and_(*xs):
    xs = [x for x in xs if x != TRUE]
    if any(x == FALSE for x in xs): return FALSE
    if not xs: return TRUE
    r = xs[0]
    for x in xs[1:]: r = app('({} && {})', r, x)
    return r
def or_(*xs):
    xs = [x for x in xs if x != FALSE]
    if any(x == TRUE for x in xs): return TRUE
    if not xs: return FALSE
    r = xs[0]
    for x in xs[1:]: r = app('({} || {})', r, x)
    return r
def not_(x):
    if x == TRUE: return FALSE
    if x == FALSE: return TRUE
    return app('(!{})', x)
def some(x): return app('Some({})', x)
def unsome(t):
    if t[0] == 'app' and t[1] == 'Some({})': return t[2][0]
    return app('({})->Some_0', t)
def is_some(t):
    if t[0] == 'app' and t[1] == 'Some({})': return TRUE
    if t == NONE: return FALSE
    return app('({} is Some)', t)
NONE = ('k', 'None')
def box(t): return app('Box::new({})', t)
def unbox(t):
    if t[0] == 'app' and t[1] == 'Box::new({})': return t[2][0]
    return app('(*{})', t)
def idx(s, i):
    # an element of a slice is an element of what it is a slice of (every read is preceded by its own range obligation)
    if s[0] == 'app' and s[1] == '{}.subrange({}, {})':
        a = s[2][1]
        return idx(s[2][0], i if a in (('k', '0'), ZERO) else app('({} + {})', a, i))
    return app('{}[{}]', s, i)
ZERO = ('k', '0int')
def length(s):
    if s[0] == 'app' and s[1] == '{}.subrange({}, {})':
        a, b = s[2][1:]
        return b if a in (('k', '0'), ZERO) else app('({} - {})', b, a)
    if s[0] == 'app' and s[1] == '{}.push({})': return app('({} + 1)', length(s[2][0]))
    if s[0] == 'app' and s[1] == '{}.update({}, {})': return length(s[2][0])
    if s[0] == 'app' and s[1].startswith('Seq::new(({}) as nat'):
        return app('({}.len() as int)', s)
    return app('({}.len() as int)', s)

def show(t):
    o = t[0]
    if o == 'v' or o == 'k': return t[1]
    if o == 'app': return t[1].format(*[show(x) for x in t[2]])
    if o == 'fld': return '%s.%s' % (show(t[1]), t[2])
    if o == 'tfld': return '%s.%d' % (show(t[1]), t[2])
    if o == 'struct': return '(%s { %s })' % (t[1], ', '.join('%s: %s' % (n, show(x)) for n, x in t[3]))
    if o == 'supd': return '(%s { %s: %s, ..%s })' % (t[2], t[3], show(t[4]), show(t[1]))
    if o == 'tup': return '(' + ', '.join(show(x) for x in t[1]) + (',)' if len(t[1]) == 1 else ')')
    if o == 'ite': return '(if %s { %s } else { %s })' % (show(t[1]), show(t[2]), show(t[3]))
    raise ValueError(o)

def subst(t, m):
    """m: name -> term"""
    o = t[0]
    if o == 'v': return m.get(t[1], t)
    if o == 'k': return t
    if o == 'app':
        a = tuple(subst(x, m) for x in t[2])
        if t[1] == '({})->Some_0': return unsome(a[0])
        if t[1] == '({} is Some)': return is_some(a[0])
        if t[1] == '(*{})': return unbox(a[0])
        if t[1] == '{}[{}]': return idx(a[0], a[1])
        return ('app', t[1], a)
    if o == 'fld': return fld(subst(t[1], m), t[2])
    if o == 'tfld': return tfld(subst(t[1], m), t[2])
    if o == 'struct': return ('struct', t[1], t[2], tuple((n, subst(x, m)) for n, x in t[3]))
    if o == 'supd': return supd(subst(t[1], m), t[2], t[3], subst(t[4], m))
    if o == 'tup': return ('tup', tuple(subst(x, m) for x in t[1]))
    if o == 'ite': return ite(subst(t[1], m), subst(t[2], m), subst(t[3], m))
    raise ValueError(o)

def given(t, c, val):
    """t where the condition c is known to be val"""
    o = t[0]
    g = lambda x: given(x, c, val)
    if t == c: return TRUE if val else FALSE
    if o == 'app': return ('app', t[1], tuple(g(x) for x in t[2]))
    if o == 'fld': return fld(g(t[1]), t[2])
    if o == 'tfld': return tfld(g(t[1]), t[2])
    if o == 'struct': return ('struct', t[1], t[2], tuple((n, g(x)) for n, x in t[3]))
    if o == 'supd': return supd(g(t[1]), t[2], t[3], g(t[4]))
    if o == 'tup': return ('tup', tuple(g(x) for x in t[1]))
    if o == 'ite': return ite(g(t[1]), g(t[2]), g(t[3]))
    return t

def vars_(t, acc=None):
    if acc is None: acc = set()
    o = t[0]
    if o == 'v': acc.add(t[1])
    elif o == 'app':
        for x in t[2]: vars_(x, acc)
    elif o in ('fld', 'tfld'): vars_(t[1], acc)
    elif o == 'struct':
        for _, x in t[3]: vars_(x, acc)
    elif o == 'supd': vars_(t[1], acc); vars_(t[4], acc)
    elif o == 'tup':
        for x in t[1]: vars_(x, acc)
    elif o == 'ite':
        for x in t[1:]: vars_(x, acc)
    return acc

def size(t):
    o = t[0]
    if o in 'vk': return 1
    if o == 'app': return 1 + sum(size(x) for x in t[2])
    if o in ('fld', 'tfld'): return 1 + size(t[1])
    if o == 'struct': return 1 + sum(size(x) for _, x in t[3])
    if o == 'supd': return 1 + size(t[1]) + size(t[4])
    if o == 'tup': return 1 + sum(size(x) for x in t[1])
    if o == 'ite': return 1 + sum(size(x) for x in t[1:])
