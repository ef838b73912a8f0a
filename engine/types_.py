"""Types of the lowered program.

('F',) f64/f32 · ('int',rust) · ('bool',) · ('unit',) · ('never',) · ('Seq',T) · ('tup',(..)) · ('Opt',T) · ('Box',T)
('Res',T,E) · ('adt',name,(args)) · ('str',) · ('fn',(args),ret) · ('param',name,idx) · ('clo',text) · ('ord',) · ('opq',text)
References, Arc/Rc, arrays and slices are values: &T = T, [T] = [T;N] = Vec<T> = Seq<T>.  &mut T is ('mut',T)."""
import re, threading

LOCK = threading.RLock()       # functions are verified by several threads

INTS = {'usize','isize','u8','u16','u32','u64','u128','i8','i16','i32','i64','i128'}
RANGE = {'u8':(0,2**8-1),'u16':(0,2**16-1),'u32':(0,2**32-1),'u64':(0,2**64-1),'usize':(0,2**64-1),'u128':(0,2**128-1),
         'i8':(-2**7,2**7-1),'i16':(-2**15,2**15-1),'i32':(-2**31,2**31-1),'i64':(-2**63,2**63-1),'isize':(-2**63,2**63-1),'i128':(-2**127,2**127-1)}

class ADTs:
    """struct and enum definitions of the workspace, read from its sources"""
    def __init__(self): self.t = {}; self._used = {}
    def used(self, name):
        """positions of the type parameters that the lowered fields mention"""
        with LOCK: return self.used_(name)
    def used_(self, name):
        if name in self._used: return self._used[name]
        self._used[name] = []
        kind, gens, fl = self.t[name]
        pm = {x: ('param', x) for x in gens}
        fs = [t for _, t in fl] if kind == 'struct' else [t for _, v in fl for _, t in v]
        seen = set()
        def walk(t):
            if t[0] == 'param': seen.add(t[1])
            elif t[0] in ('Seq', 'Opt', 'Box', 'mut', 'Res'): walk(t[1])
            elif t[0] == 'tup':
                for x in t[1]: walk(x)
            elif t[0] == 'adt' and t[1] in self.t:
                for i in self.used(t[1]):
                    if i < len(t[2]): walk(t[2][i])
        for t in fs: walk(parse_ty(t, pm))
        self._used[name] = [i for i, g in enumerate(gens) if g in seen]
        return self._used[name]
    def add_source(self, text):
        text = re.sub(r"//[^\n]*", "", text)
        text = re.sub(r"/\*.*?\*/", "", text, flags=re.S)
        for m in re.finditer(r"\b(struct|enum)\s+([A-Za-z_][A-Za-z_0-9]*)\s*(<[^{(;]*?>)?\s*(?:where[^{;]*)?([{(;])", text):
            kind, name, gen, op = m.groups()
            gens = []
            if gen:
                for g in split_top(gen[1:-1]):
                    g = g.strip().split(":")[0].strip()
                    if g and not g.startswith("'"): gens.append(g)
            if op == ';': body = ''
            else: body = balanced(text, m.end()-1)
            if kind == 'struct':
                if op == '{':
                    fl = []
                    for f in split_top(body):
                        f = re.sub(r"#\[[^\]]*\]", "", f).strip()
                        if not f: continue
                        f = re.sub(r"^pub(\s*\([^)]*\))?\s+", "", f)
                        n, t = f.split(":", 1); fl.append((n.strip(), t.strip()))
                elif op == '(':
                    fl = [("f%d" % i, re.sub(r"^\s*pub(\s*\([^)]*\))?\s+", "", t).strip()) for i, t in enumerate(x for x in split_top(body) if x.strip())]
                else: fl = []
                self.t[name] = ('struct', gens, fl)
            else:
                vs = []
                for v in split_top(body):
                    v = re.sub(r"#\[[^\]]*\]", "", v).strip()
                    if not v: continue
                    mm = re.match(r"([A-Za-z_0-9]+)\s*(?:=[^({]*)?([({])?", v)
                    fl = []
                    if mm.group(2) == '(':
                        fl = [("f%d" % i, t.strip()) for i, t in enumerate(x for x in split_top(balanced(v, v.index('('))) if x.strip())]
                    elif mm.group(2) == '{':
                        for f in split_top(balanced(v, v.index('{'))):
                            if f.strip():
                                n, t = f.split(":", 1); fl.append((n.strip(), t.strip()))
                    vs.append((mm.group(1), fl))
                self.t[name] = ('enum', gens, vs)
    def fields(self, name, args, variant=0):
        """[(field name, lowered type)]"""
        k, gens, fl = self.t[name]
        if k == 'enum': fl = fl[variant][1]
        sub = dict(zip(gens, args))
        return [(n, parse_ty(t, params=sub)) for n, t in fl]
    def variant(self, name, i): return self.t[name][2][i][0]

def balanced(s, i):
    o = s[i]; c = {'{':'}','(':')','[':']'}[o]; d = 0
    for j in range(i, len(s)):
        if s[j] == o: d += 1
        elif s[j] == c:
            d -= 1
            if d == 0: return s[i+1:j]
    raise ValueError("unbalanced")

def split_top(s, sep=','):
    out = []; d = 0; cur = ''
    i = 0
    while i < len(s):
        c = s[i]
        if c == '-' and s[i:i+2] == '->': cur += '->'; i += 2; continue
        if c in '<([{': d += 1
        elif c in '>)]}': d -= 1
        if c == sep and d == 0: out.append(cur); cur = ''
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur)
    return out

_life = re.compile(r"'\{erased\}|'\^\d+(?:\.Named\(DefId\([^()]*\)\))?|'[A-Za-z_][A-Za-z_0-9]*\b(?!')")

def parse_ty(s, params=None, adts=None):
    s = _life.sub("'_", s.strip())
    return _p(s, params or {})

def _p(s, pm):
    s = s.strip()
    if s == '()': return ('unit',)
    if s == '!': return ('never',)
    if s == "'_": return ('life',)
    if s.startswith('&'):
        s = s[1:].strip()
        if s.startswith("'_"): s = s[2:].strip()
        if s.startswith('mut '):
            t = _p(s[4:], pm); return t if t[0] == 'mut' else ('mut', t)
        return _p(s, pm)
    if s.startswith('mut '): return _p(s[4:], pm)
    if s.startswith('('):
        b = balanced(s, 0)
        if len(b) + 2 == len(s):
            parts = [x for x in split_top(b) if x.strip()]
            return ('tup', tuple(_p(x, pm) for x in parts))
    if s.startswith('['):
        b = balanced(s, 0); parts = split_top(b, ';')
        return ('Seq', _p(parts[0], pm))
    m = re.match(r"Binder \{ value: (.*), bound_vars: .*\}$", s, re.S)
    if m: return _p(m.group(1), pm)
    m = re.match(r"(?:for<[^>]*>\s*)?(?:unsafe )?(?:extern \"[^\"]*\" )?fn\s*\(", s)
    if m:
        i = m.end() - 1; b = balanced(s, i); rest = s[i + len(b) + 2:].strip()
        args = []
        for a in split_top(b):
            if not a.strip(): continue
            mm = re.match(r"\s*[a-z_][a-z_0-9]*\s*:\s*(?!:)(.*)$", a, re.S)
            args.append(_p(mm.group(1) if mm else a, pm))
        ret = _p(re.sub(r"\s*\{.*\}$", "", rest[2:], flags=re.S), pm) if rest.startswith('->') else ('unit',)
        return ('fn', tuple(args), ret)
    if s.startswith('Closure('): return ('clo', s)
    if s.startswith('dyn') or s.startswith('impl '): return ('opq', 'dyn')
    m = re.match(r"([A-Za-z_][A-Za-z_0-9]*)/#(\d+)$", s)
    if m: return pm.get(m.group(1)) or pm.get(int(m.group(2))) or ('param', m.group(1))
    if s in pm: return pm[s]
    m = re.match(r"([A-Za-z_0-9:]+)\s*(?:<(.*)>)?$", s, re.S)
    if not m: return ('opq', s)
    name = m.group(1).split('::')[-1]
    args = [a for a in ((_p(x, pm)) for x in (split_top(m.group(2)) if m.group(2) else [])) if a[0] != 'life' and a != ('adt','Global',())]
    if name in ('f64', 'f32'): return ('F',)
    if name in INTS: return ('int', name)
    if name == 'bool': return ('bool',)
    if name in ('str', 'String'): return ('str',)
    if name in ('Vec',): return ('Seq', args[0])
    if name in ('Arc', 'Rc', 'Cow', 'Ref'): return args[0] if args else ('opq', s)
    if name == 'Box': return ('Box', args[0])
    if name == 'Option': return ('Opt', args[0])
    if name == 'Result': return ('Res', args[0], args[1] if len(args) > 1 else ('opq', 'err'))
    if name == 'Ordering': return ('ord',)
    if name == 'RangeFull': return ('opq', s)
    return ('adt', name, tuple(args))

def vty(t, adts):
    k = t[0]
    if k == 'F': return 'F'
    if k == 'int': return 'int'
    if k == 'bool': return 'bool'
    if k in ('unit', 'never'): return '()'
    if k == 'Seq': return 'Seq<%s>' % vty(t[1], adts)
    if k == 'tup': return '(' + ', '.join(vty(x, adts) for x in t[1]) + (',)' if len(t[1]) == 1 else ')')
    if k == 'Opt': return 'Option<%s>' % vty(t[1], adts)
    if k == 'Box': return 'Box<%s>' % vty(t[1], adts)
    if k == 'Res': return 'Res<%s>' % vty(t[1], adts)
    if k == 'str': return 'Str'
    if k == 'fn': return 'FnPtr'
    if k == 'ord': return 'Ord3'
    if k == 'param': return t[1]
    if k == 'mut': return vty(t[1], adts)
    if k == 'adt':
        if t[1] not in adts.t: return 'Opq'
        a = [vty(t[2][i], adts) for i in adts.used(t[1]) if i < len(t[2])]
        return t[1] + ('<%s>' % ', '.join(a) if a else '')
    return 'Opq'

def no_mut(t): return t[1] if t[0] == 'mut' else t
