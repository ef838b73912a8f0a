"""Parse rustc's `-Zunpretty=thir-flat` dump (the typed, name-resolved tree of every function body)."""
import re

class N(dict):
    """struct-like or call-like node; .k is its head; call-like nodes keep their items in ['_']"""
    __slots__ = ("k",)
    def __init__(self, k): super().__init__(); self.k = k
    def __repr__(self): return f"{self.k}{dict.__repr__(self)}"

_name = re.compile(r"^([A-Za-z_][A-Za-z_0-9]*): (.*)$", re.S)

def parse_debug(lines, i):
    """parse one value starting at lines[i] (stripped). returns (value, next_i)"""
    stack = []           # containers
    root = None
    def put(name, v):
        nonlocal root
        if not stack: root = v; return
        c = stack[-1]
        if isinstance(c, list): c.append(v)
        elif name is not None: c[name] = v
        else: c.setdefault("_", []).append(v)
    while True:
        s = lines[i].strip(); i += 1
        if s in ("}", ")", "]", "},", "),", "],"):
            v = stack.pop()
            if not stack: return v, i
            continue
        # inside a struct-like container entries are named
        name = None; rest = s
        if stack and isinstance(stack[-1], N) and stack[-1].k.endswith("{"):
            m = _name.match(s)
            if m: name, rest = m.group(1), m.group(2)
        # multi-line type displays have no special treatment; they are single-line
        if rest.endswith(" {") or rest == "{":
            n = N(rest[:-1].strip() + "{"); put(name, n); stack.append(n); continue
        if rest.endswith("(") :
            n = N(rest[:-1].strip() + "("); put(name, n); stack.append(n); continue
        if rest.endswith("["):
            l = []; put(name, l); stack.append(l); continue
        v = rest[:-1] if rest.endswith(",") else rest
        put(name, v)
        if not stack: return root, i

def fix(n):
    if isinstance(n, N):
        n.k = n.k.rstrip("{(").strip()
        for a in list(n): n[a] = fix(n[a])
        return n
    if isinstance(n, list): return [fix(x) for x in n]
    if n == "[]": return []
    return n

_did = re.compile(r"DefId\(\d+:\d+ ~ ([A-Za-z0-9_]+)\[[0-9a-f]+\](?:::(.*))?\)$", re.S)
def defpath(s):
    """'DefId(0:10 ~ common[e774]::a::b)' -> 'common::a::b'"""
    s = s.strip()
    m = _did.match(s)
    if not m: raise ValueError("defid " + s)
    return m.group(1) + ("::" + m.group(2) if m.group(2) else "")

class Body:
    def __init__(self, path, thir):
        self.path = path
        self.raw = thir
        self.exprs = thir["exprs"]; self.blocks = thir["blocks"]; self.stmts = thir["stmts"]
        self.arms = thir["arms"]; self.params = thir["params"]
        bt = thir["body_type"]
        self.body_type = bt["_"][0] if isinstance(bt, N) and bt.get("_") else bt
        # the body's root expression is the one no other expression/arm/block/stmt uses: rustc builds it last
        self.root = len(self.exprs) - 1
    def e(self, ref):
        if isinstance(ref, str): ref = int(ref[1:])
        return self.exprs[ref]
    def b(self, ref): return self.blocks[int(ref[1:])]
    def s(self, ref): return self.stmts[int(ref[1:])]
    def a(self, ref): return self.arms[int(ref[1:])]

_span = re.compile(r"^(.*?):(\d+):(\d+): (\d+):(\d+) \(#(\d+)\)$")
def span(s):
    m = _span.match(s)
    return (m.group(1), int(m.group(2)), int(m.group(4)), int(m.group(6))) if m else (s, 0, 0, 0)

def parse_file(text):
    out = {}
    chunks = re.split(r"(?m)^(DefId\(.*\)):\n", text)
    it = iter(chunks[1:])
    for d, body in zip(it, it):
        path = defpath(d)
        lines = body.split("\n")
        if not lines[0].startswith("Thir {"):
            out[path] = None; continue
        v, _ = parse_debug(lines, 0)
        out[path] = Body(path, fix(v))
    return out

if __name__ == "__main__":
    import sys, time
    for f in sys.argv[1:]:
        t = time.time(); r = parse_file(open(f).read()); print(f, len(r), time.time() - t)
        for p, b in r.items():
            if b is None: print("  NO BODY", p)
