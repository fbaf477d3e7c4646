"""Linear integer arithmetic over the unknowns of a path: bounds that follow from its facts, and sample points."""
from fractions import Fraction as F
from core import *
from bufr import lab_, ieval, holds
TOP64 = (1 << 64) - 1
def linear(t):
    """(constant, {atom: coefficient})"""
    if t.op == "int": return t.a[0], {}
    if t.op == "lin": return t.a[0], dict(t.a[1])
    return 0, {t: 1}
def ge0(t):
    c, m = linear(t); return (c, m)
class Bad(Exception): pass
NONINT = {"agg", "ref", "seq", "bytes", "rd", "slice", "star", "splice", "str", "tuple", "rep", "le", "raw", "with"}
def intlike(t): return t.op not in NONINT and not (t.op == "lin" and any(k.op in NONINT for k, _ in t.a[1]))
def facts2(facts):
    """constraints e >= 0 and equalities e == 0 the facts amount to"""
    ge = []; eq = []
    for f, v in facts.items():
        while f.op == "not": f, v = f.a[0], not v
        if f.op == "lt":
            a, b = f.a
            if not (intlike(a) and intlike(b)): continue
            ge.append(sub(sub(b, a), ONE) if v else sub(a, b))
        elif f.op == "eq" and v is True:
            a, b = f.a
            if intlike(a) and intlike(b): eq.append(sub(a, b))
        elif f.op == "eq" and v is False and ZERO in f.a:
            a = f.a[0] if f.a[1] is ZERO else f.a[1]
            if intlike(a) and a.op != "lin": ge.append(sub(a, ONE))     # unknowns are never negative
        elif f.op == "any" and v is True and f.a[1].op == "src":      # the position of an element found
            for x in subterms(f.a[0]):
                if x.op == "at" and x.a[0] is f.a[1].a[0] and x.a[1].op == "idx": ge.append(sub(sub(ln(x.a[0]), x.a[1]), ONE))
        elif f.op == "ovf" and v is False and f.a[0] == "Sub": ge.append(sub(f.a[1], f.a[2]))
    return ge, eq
def bounds(a, caps):
    """constraints known of an unknown by what it is"""
    r = [a]; 
    if a.op == "fromle": r.append(sub(I((1 << (8 * a.a[0])) - 1), a))
    elif a.op == "at": r.append(sub(I(255), a))
    elif a.op in ("min", "satsub"):
        x, y = a.a
        if a.op == "min": r += [sub(x, a), sub(y, a)]
        else: r += [sub(x, a), sub(a, sub(x, y))]
    elif a.op == "max": r += [sub(a, a.a[0]), sub(a, a.a[1])]
    elif a.op in ("nread", "nwritten", "nrest") and a.a[0] in caps: r.append(sub(caps[a.a[0]], a))
    elif a.op == "avail" and a.a[0].op == "ref" and a.a[0].a[1] and a.a[0].a[1][-1][0] == "s": r.append(sub(sub(a.a[0].a[1][-1][2], a.a[0].a[1][-1][1]), a))     # what a stretch of a buffer holds
    elif a.op == "len": r.append(sub(I((1 << 63) - 1), a))
    else: r.append(sub(I(TOP64), a))
    return r
def feasible(cs, limit=4000):
    """Fourier-Motzkin over the rationals: None if infeasible, otherwise the elimination trace"""
    cs = [(F(c), {k: F(v) for k, v in m.items() if v}) for c, m in cs]; tr = []
    while True:
        at = {}
        for c, m in cs:
            if not m:
                if c < 0: return None
                continue
            for k, v in m.items():
                p = at.setdefault(k, [0, 0]); p[v < 0] += 1
        cs = [x for x in cs if x[1]]
        if not at: return tr
        k = min(at, key=lambda k: (at[k][0] * at[k][1] - at[k][0] - at[k][1], k.id))
        lo = [x for x in cs if x[1].get(k, 0) > 0]; hi = [x for x in cs if x[1].get(k, 0) < 0]
        tr.append((k, lo, hi)); new = [x for x in cs if not x[1].get(k)]
        for c1, m1 in lo:
            for c2, m2 in hi:
                a, b = -m2[k], m1[k]; m = {q: m1.get(q, 0) * a + m2.get(q, 0) * b for q in set(m1) | set(m2) if q is not k}
                new.append((c1 * a + c2 * b, {q: v for q, v in m.items() if v}))
        u = {}
        for c, m in new:
            if not m: 
                if c < 0: return None
                continue
            g = max(abs(v) for v in m.values()); key = tuple(sorted(((q.id, v / g) for q, v in m.items())))
            if key not in u or u[key][0] > c / g: u[key] = (c / g, {q: v / g for q, v in m.items()})
        cs = list(u.values())
        if len(cs) > limit: raise Bad("too many constraints")
def point(tr):
    """an integer point along an elimination trace, if rounding finds one"""
    env = {}
    for k, lo, hi in reversed(tr):
        def at(c, m): return (c + sum(v * env[q] for q, v in m.items() if q is not k))
        L = max([-at(c, m) / m[k] for c, m in lo], default=None); H = min([-at(c, m) / m[k] for c, m in hi], default=None)
        x = -(-L.numerator // L.denominator) if L is not None else (H.numerator // H.denominator if H is not None else 0)
        if H is not None and x > H: return None
        env[k] = x
    return env
def atoms(ts):
    out = set(); st = list(ts)
    while st:
        for k in linear(st.pop())[1]:
            if k in out: continue
            out.add(k)
            if k.op in ("min", "max", "satsub"): st += list(k.a)
    return out
def system(facts, extra, caps):
    """the constraints connected with those in `extra`"""
    ge, eq = facts2(facts); cs = list(extra); seen = set(); pool = ge + eq + [scale(e, -1) for e in eq]
    todo = atoms(cs); done = set()
    while todo:
        k = todo.pop()
        if k in done: continue
        done.add(k)
        for b in bounds(k, caps):
            cs.append(b); todo |= atoms([b]) - done
        for i, c in enumerate(pool):
            if i not in seen and k in linear(c)[1]:
                seen.add(i); cs.append(c); todo |= atoms([c]) - done
    return [linear(c) for c in cs], done
def phis(ts):
    for t in ts:
        for k in atoms([t]):
            if k.op == "phi": return k
            for y in subterms(k):
                if isinstance(y, Term) and y.op == "phi" and k.op in ("len",): return None
    return None
def entails(facts, goal, caps={}):
    """True: goal >= 0 follows; ('point', env, goal): a point of the known constraints where it does not; None: not known"""
    d = 0; work = [(facts, goal)]
    while work:
        fs, g = work.pop(); d += 1
        if d > 64: return None
        try: tr = feasible(system(fs, [sub(scale(g, -1), ONE)], caps)[0])
        except Bad: return None
        if tr is None: continue
        ph = phis([g])
        if ph is not None:
            for y in alts(ph): work.append(({subf(f, ph, y): v for f, v in fs.items()}, subst(g, ph, y)))
            continue
        env = point(tr)
        return ("point", env, g) if env is not None else None
    return True
def subf(f, x, y):
    if f.op == "not": return NOT(subf(f.a[0], x, y))
    if f.op == "lt": return LT(subst(f.a[0], x, y), subst(f.a[1], x, y))
    if f.op == "eq": return EQ(subst(f.a[0], x, y), subst(f.a[1], x, y))
    return f
def subst(t, x, y):
    c, m = linear(t)
    if x not in m: return t
    n = m.pop(x); return add(_mk(c, m), scale(y, n))
def _mk(c, m):
    r = I(c)
    for k, v in m.items(): r = add(r, scale(k, v))
    return r
def differ(facts):
    """expressions known not to be zero"""
    r = []
    for f, v in facts.items():
        while f.op == "not": f, v = f.a[0], not v
        if f.op == "eq" and v is False and intlike(f.a[0]) and intlike(f.a[1]): r.append(sub(f.a[0], f.a[1]))
    return r
def contradictory(facts, caps={}):
    """True: the facts exclude each other; ('point', env): a point where the arithmetic ones hold; None: not known"""
    ge, eq = facts2(facts); base = ge + eq + [scale(e, -1) for e in eq]; ne = [e for e in differ(facts) if atoms([e])][:5]; wit = None
    for n in range(1 << len(ne)):
        ex = base + [sub(e, ONE) if n >> i & 1 else sub(scale(e, -1), ONE) for i, e in enumerate(ne)]
        cs = list(ex); seen = set(); todo = atoms(cs)
        while todo:
            k = todo.pop()
            if k in seen: continue
            seen.add(k)
            for b in bounds(k, caps): cs.append(b); todo |= atoms([b]) - seen
        try: tr = feasible([linear(c) for c in cs])
        except Bad: return None
        if tr is None: continue
        env = point(tr)
        if env is None: return None
        wit = ("point", env)
    return wit or True
def split(facts, ts, out=None, fuel=4):
    """the ways min / max / satsub in `ts` and in the facts about them can turn out: list of (facts, rewritten ts)"""
    m = next((y for t in ts for y in subterms(t) if isinstance(y, Term) and y.op in ("min", "max", "satsub") and len(y.a) == 2), None)
    if m is None or fuel == 0: return [(facts, ts)]
    x, y = m.a; r = []
    first, second = {"min": (x, y), "max": (y, x), "satsub": (ZERO, sub(x, y))}[m.op]      # if x < y / otherwise
    for less, val in ((True, first), (False, second)):
        f = lambda q: val if q is m else q
        fs = {}; bad = False
        for a, v in list(facts.items()) + [(LT(x, y), less)]:
            a = tmap(a, f) if contains(a, lambda q: q is m) else a
            while a.op == "not": a, v = a.a[0], not v
            if a.op in ("lt", "eq") and v in (True, False): a = (LT if a.op == "lt" else EQ)(*a.a)
            while a.op == "not": a, v = a.a[0], not v
            if a.op == "int":
                if v in (True, False) and bool(a.a[0]) != v: bad = True
                continue
            if a in fs and fs[a] != v: bad = True
            fs[a] = v
        if bad or contradictory(fs) is True: continue
        r += split(fs, [tmap(t, f) for t in ts], None, fuel - 1)
    return r
def same0(facts, t):
    """does t == 0 follow from the facts? True / False (a point where it is not) / None"""
    if t is ZERO: return True
    if t.op == "int": return False
    r = True
    for fs, (g,) in split(facts, [t]):
        if g is ZERO: continue
        if not all(intlike(k) for k in linear(g)[1]): r = None; continue
        a, b = entails(fs, g), entails(fs, scale(g, -1))
        if a is True and b is True: continue
        if (isinstance(a, tuple) or isinstance(b, tuple)) and not opaque_in(g): return False
        r = None
    return r
