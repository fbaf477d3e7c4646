"""Rule framework: loads the dumps, caches analyses, records obligations."""
import sys, os, json, time, subprocess, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from interp import *
from terms import *
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Missing(Exception): pass
class HarnessBroken(Exception): pass

class Ctx:
    def __init__(self, dump):
        self.dump = dump
        self._p = {}; self._a = {}
        self.harness_error = None
    @property
    def brec(self): return self.prog("brec")
    @property
    def har(self): return self.prog("brec_harness")
    def prog(self, n):
        if n == "brec_harness" and self.harness_error: raise HarnessBroken(self.harness_error)
        if n not in self._p: self._p[n] = Prog(os.path.join(self.dump, n + ".json"))
        return self._p[n]
    def fns(self, prog, n): return prog.byname.get(n, [])
    def fn(self, prog, n, pred=None):
        c = [b for b in prog.byname.get(n, []) if pred is None or pred(b)]
        if not c: raise Missing(n)
        # prefer the generic (identity) instance
        def score(b): return sum(0 if prog.types[t]["k"] == "param" else 1 for t in b["targs"]), len(b["inst"])
        return min(c, key=score)
    def an(self, prog, b, args=None, opaque=(), init=None, key=None, tag=None):
        if isinstance(b, str): b = self.fn(prog, b)
        k = (prog.crate, b["id"], tuple(sorted((args or {}).items(), key=lambda x: x[0])) if args else (), tuple(opaque), key)
        if k not in self._a: self._a[k] = Analysis(prog, b, args=args, opaque=opaque, init=init, tag=tag)
        return self._a[k]

UNK = {"call", "havoc", "top", "loop", "un", "upd", "proj", "fcast", "any", "itm"}
def opaque_in(t): return [x for x in subterms(t) if isinstance(x, Term) and x.op in UNK]
def same(got, exp):
    """True: same value; None: the engine has no model for something in `got`; False: different"""
    if got is exp: return True
    if got is None: return None
    e = set(opaque_in(exp)) if exp is not None else set()
    if any(x not in e for x in opaque_in(got)): return None
    return False
class Rep:
    def __init__(self, pid):
        self.pid = pid; self.obs = []; self.viol = []; self.und = []; self.info = {}; self.fnset = {}; self.nodes = 0; self._seen = set()
    def cover(self, A):
        if A in self._seen: return
        self._seen.add(A)
        self.fnset[A.root["inst"]] = len(A.nodes)
        for f in A.frame_list: self.fnset.setdefault(f.body["inst"], 0)
        self.nodes += len(A.nodes)
    def ob(self, key, ok, where, msg, detail=None):
        """one proof obligation; key identifies it without line numbers.  ok None = undecided"""
        if ok is None:
            self.und.append({"key": key, "where": where, "msg": msg}); self.obs.append((key, None)); return None
        self.obs.append((key, bool(ok)))
        if not ok: self.viol.append({"key": key, "where": where, "msg": msg, "detail": detail})
        return bool(ok)
    def eq(self, key, got, exp, where, what):
        return self.ob(key, same(got, exp), where, f"{what}: found {show(got)[:400] if got is not None else '(nothing)'}, required {show(exp)[:400]}")

def where(b, line=None): return f"{b['file']}:{line if line else b['line']} {b['n']}"

# ------------------------------------------------------------------ exits
class Exit:
    def __init__(self, A, n, v, st): self.A = A; self.n = n; self.v = v; self.st = st; self.facts = st.facts
def exits(A): return [Exit(A, n, v, st) for n, (v, st) in A.exits.items()]
def okval(v):
    """payload of Ok / None"""
    return v.a[2][0] if is_agg(v, "Ok") else None
def classify(v):
    """('ok', x) | ('success', x) | ('short', n) | ('err', e) | ('io', e) | ('?', v)"""
    if v.op == "agg" and v.a[0] == "Result":
        x = v.a[2][0]
        if v.a[1] == "Ok":
            if x.op == "agg" and x.a[0] == "ReadStatus":
                return ("success" if x.a[1] == "Success" else "short", x.a[2][0])
            return ("ok", x)
        al = alts(x)
        if all(is_io_err(y) for y in al): return ("io", x)
        return ("err", x)
    return ("?", v)
def is_io_err(e):
    """an error value that originates in an I/O primitive's own failure"""
    while e.op == "conv": e = e.a[1]
    if e.op == "agg" and e.a[1] == "Io" and e.a[2]: return is_io_err(e.a[2][0])
    if e.op == "phi": return all(is_io_err(y) for y in alts(e))
    return e.op == "err" and e.a[0] in IOOPS
IOOPS = {"read_exact", "read", "read_to_end", "fill_buf", "stream_position", "seek", "write_all", "write", "flush"}
def truth(facts, c):
    neg = False
    while c.op == "not": c = c.a[0]; neg = not neg
    if c.op == "int": return bool(c.a[0]) != neg
    v = facts.get(c)
    if v is None: return None
    return bool(v) != neg

class Stream:
    """byte source: the stream behind a reference parameter"""
    def __init__(self, name): self.s = mk("ref", mk("P", name), ()); self.p0 = mk("pos", self.s)
    def at(self, o, n):
        o = o if isinstance(o, Term) else I(o); n = n if isinstance(n, Term) else I(n)
        return mk("rd", self.s, add(self.p0, o), n)
    def cur(self, st): return st.cur.get(self.s) or self.p0
    def moved(self, st): return sub(self.cur(st), self.p0)
class Slice:
    def __init__(self, name): self.b = mk("init", mk("P", name))
    def at(self, o, n):
        o = o if isinstance(o, Term) else I(o); n = n if isinstance(n, Term) else I(n)
        return slc(self.b, o, add(o, n))
    @property
    def len(self): return ln(self.b)

def argname(b, i):
    l = b["locals"][i]
    return l[1] if len(l) > 1 else f"arg{i}"
def streamarg(prog, b):
    """first parameter that is a reference to a generic reader/writer"""
    for i in range(1, b["argc"] + 1):
        t = prog.types[b["locals"][i][0]]
        if t["k"] == "ref" and t["mut"] and prog.types[t["to"]]["k"] in ("param",) and argname(b, i) != "self": return Stream(argname(b, i))
    for i in range(1, b["argc"] + 1):
        t = prog.types[b["locals"][i][0]]
        if t["k"] == "ref" and prog.types[t["to"]]["k"] == "slice": return Slice(argname(b, i))
    raise Missing("stream argument of " + b["n"])

def canon(t, memo=None):
    """bytes of a decoded boolean count as the byte it was decoded from (checksum contents)"""
    if t.op == "seq": return seq([canon(x) for x in t.a[0]])
    if t.op == "le" and t.a[0] == 1 and t.a[1].op == "eq":
        x, y = t.a[1].a
        if x is ONE: x, y = y, x
        if y is ONE and x.op in ("fromle", "at"): return seq([mk("le", 1, x)])
    return t
def crc_facts(facts):
    """[(stored, content)] for every equality 'stored == crc32(content)' known to hold"""
    out = []
    for a, v in facts.items():
        if a.op == "eq" and v is True:
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                y = strip_raw(y)
                if y.op == "le" and y.a[0] == 4: y = y.a[1]
                if y.op == "crc32":
                    out.append((x, canon(y.a[0])))
    return out


# ------------------------------------------------------------------ graph queries
def evs(A, kind, pred=None): return [e for l in A.events.values() for e in l if e.kind == kind and (pred is None or pred(e))]
def calls(A, *names): return evs(A, "call", lambda e: e.name in names or e.rn in names)
def reach(A, starts, avoid=()):
    """nodes reachable from `starts` without entering `avoid`"""
    avoid = set(avoid); seen = set(); st = [n for n in starts if n not in avoid]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        for (m, lab) in A.succ[n]:
            if m not in avoid and m not in seen: st.append(m)
    return seen
def back(A, n):
    seen = {n}; st = [n]
    while st:
        for m in A.pred[st.pop()]:
            if m not in seen: seen.add(m); st.append(m)
    return seen
def succ_when(A, n, val):
    return [m for (m, lab) in A.succ[n] if lab is not None and lab[1] == val]
class Iteration:
    """a `for`-style traversal: every evaluation of one `next()` call site"""
    def __init__(self, A, site):
        self.A = A; self.site = site; ev = evs(A, "next", lambda e: e.site == site)
        self.nodes = {e.node for e in ev}; self.srcs = {e.src for e in ev}
        self.some = [m for n in self.nodes for m in succ_when(A, n, "Some")]
    def body(self): return reach(self.A, self.some, self.nodes)
def iterations(A):
    seen = []
    for e in evs(A, "next"):
        if e.site not in seen: seen.append(e.site)
    return [Iteration(A, s) for s in seen]
def lab_(l):
    if l is None or not isinstance(l[0], Term): return None
    c, v = l
    while c.op == "not": c, v = c.a[0], not v
    return c, v
def walk(A, starts, avoid=(), cut=lambda lab: False):
    """nodes reachable without entering `avoid` and without taking an edge `cut` refuses"""
    seen = set(); st = [n for n in starts if n not in avoid]
    while st:
        n = st.pop()
        if n in seen: continue
        seen.add(n)
        for m, lab in A.succ[n]:
            if m not in avoid and m not in seen and not cut(lab): st.append(m)
    return seen
def implied(A, n, suf):
    """node n is reached only over edges on which `suf(condition, value)` holds"""
    def cut(lab):
        x = lab_(lab)
        return x is not None and suf(*x)
    return n not in walk(A, [0], cut=cut)
def ieval(t, env):
    """value of an integer term under an assignment of its unknowns; None if something else occurs"""
    if t in env: return env[t]
    if t.op == "int": return t.a[0]
    if t.op == "lin":
        s = t.a[0]
        for k, n in t.a[1]:
            x = ieval(k, env)
            if x is None: return None
            s += n * x
        return s
    if t.op in ("eq", "lt"):
        x, y = ieval(t.a[0], env), ieval(t.a[1], env)
        return None if x is None or y is None else int(x == y if t.op == "eq" else x < y)
    if t.op == "not":
        x = ieval(t.a[0], env); return None if x is None else 1 - x
    if t.op in ("min", "max", "satsub"):
        x, y = ieval(t.a[0], env), ieval(t.a[1], env)
        if x is None or y is None: return None
        return min(x, y) if t.op == "min" else max(x, y) if t.op == "max" else max(0, x - y)
    return None
def holds(f, v, env):
    if f.op == "not": return holds(f.a[0], not v, env)
    if f.op == "ovf": return True
    if f.op in ("lt", "eq"):
        x, y = ieval(f.a[0], env), ieval(f.a[1], env)
        if x is None or y is None: return None
        return ((x < y) if f.op == "lt" else (x == y)) == bool(v)
    return None
