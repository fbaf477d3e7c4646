"""Hash-consed abstract values (value numbers) used by the dataflow engine."""
_T = {}
class Term:
    __slots__ = ("op", "a", "id", "_s", "_d")
    def __repr__(self):
        return show(self)
def mk(op, *a):
    k = (op, a)
    t = _T.get(k)
    if t is None:
        t = Term(); t.op = op; t.a = a; t.id = len(_T); t._s = None; t._d = None
        _T[k] = t
    return t
def reset():
    pass
def I(n): return mk("int", int(n))
ZERO = I(0); ONE = I(1)
def is_int(t): return t.op == "int"

# ---------------------------------------------------------------- linear arithmetic
def _lin(t):
    if t.op == "int": return t.a[0], {}
    if t.op == "lin": return t.a[0], dict(t.a[1])
    return 0, {t: 1}
def _unlin(c, m):
    m = {k: v for k, v in m.items() if v != 0}
    if len(m) > 1:
        for k, v in list(m.items()):        # x - n*(x / n) is the rest of the division
            if k.op == "div" and is_int(k.a[1]) and k.a[0] in m and m[k.a[0]] * k.a[1].a[0] == -v:
                x = m.pop(k.a[0]); m.pop(k); r = mk("rem", k.a[0], k.a[1]); m[r] = m.get(r, 0) + x; return _unlin(c, m)
    if not m: return I(c)
    if c == 0 and len(m) == 1:
        (k, v), = m.items()
        if v == 1: return k
    return mk("lin", c, tuple(sorted(m.items(), key=lambda x: x[0].id)))
def add(a, b):
    ca, ma = _lin(a); cb, mb = _lin(b)
    for k, v in mb.items(): ma[k] = ma.get(k, 0) + v
    return _unlin(ca + cb, ma)
def scale(a, n):
    c, m = _lin(a)
    return _unlin(c * n, {k: v * n for k, v in m.items()})
def sub(a, b): return add(a, scale(b, -1))
def mul(a, b):
    if a.op == "int": return scale(b, a.a[0])
    if b.op == "int": return scale(a, b.a[0])
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("mul", x, y)

# ---------------------------------------------------------------- byte sequences
def ln(t):
    o = t.op
    if o in ("bytes", "str"): return I(len(t.a[0]) if o == "bytes" else len(t.a[0].encode()))
    if o == "le": return I(t.a[0])
    if o == "rd": return t.a[2]
    if o == "rep": return t.a[1]
    if o == "el": return ONE
    if o == "raw": return t.a[1]
    if o == "slice": return sub(t.a[2], t.a[1])
    if o == "splice": return ln(t.a[0])
    if o == "upd": return ln(t.a[0])
    if o == "seq":
        s = ZERO
        for x in t.a[0]: s = add(s, ln(x))
        return s
    if o == "star": return mk("len", t)
    if o == "crc": return I(4)
    return mk("len", t)
def segs(t):
    return list(t.a[0]) if t.op == "seq" else [t]
EMPTY = mk("seq", ())
def seq(parts):
    out = []
    for p in parts:
        if p.op == "seq": out += list(p.a[0])
        elif p.op in ("bytes",) and len(p.a[0]) == 0: continue
        elif p.op == "rep" and p.a[1] is ZERO: continue
        elif p.op == "rd" and p.a[2] is ZERO: continue
        else: out.append(p)
    r = []
    for p in out:
        if p.op == "el" and p.a[0].op == "int" and 0 <= p.a[0].a[0] < 256: p = mk("bytes", bytes([p.a[0].a[0]]))
        elif p.op == "el": p = mk("le", 1, p.a[0]) if True else p
        if p.op == "le" and p.a[1].op == "int": p = mk("bytes", (p.a[1].a[0] % (1 << (8 * p.a[0]))).to_bytes(p.a[0], "little"))
        if p.op == "le" and p.a[1].op == "fromle" and p.a[1].a[0] == p.a[0]: p = p.a[1].a[1]
        if p.op == "le" and p.a[0] == 1 and p.a[1].op == "at": p = mk("slice", p.a[1].a[0], p.a[1].a[1], add(p.a[1].a[1], ONE))
        if r:
            q = r[-1]
            if q.op == "bytes" and p.op == "bytes":
                r[-1] = mk("bytes", q.a[0] + p.a[0]); continue
            if q.op == "rd" and p.op == "rd" and q.a[0] is p.a[0] and add(q.a[1], q.a[2]) is p.a[1]:
                r[-1] = mk("rd", q.a[0], q.a[1], add(q.a[2], p.a[2])); continue
            if q.op == "slice" and p.op == "slice" and q.a[0] is p.a[0] and q.a[2] is p.a[1]:
                r[-1] = slc(q.a[0], q.a[1], p.a[2]); continue
            if q.op == "rep" and p.op == "rep" and q.a[0] is p.a[0]:
                r[-1] = mk("rep", q.a[0], add(q.a[1], p.a[1])); continue
        r.append(p)
    if len(r) == 1: return r[0]
    return mk("seq", tuple(r))
def slc(t, a, b):
    """t[a..b] (b may be None = to the end)"""
    L = ln(t)
    if b is None: b = L
    if a is ZERO and (b is L): return t
    if a is b: return EMPTY
    o = t.op
    if o == "bytes" and a.op == "int" and b.op == "int": return mk("bytes", t.a[0][a.a[0]:b.a[0]])
    if o == "rd": return mk("rd", t.a[0], add(t.a[1], a), sub(b, a))
    if o == "rep": return mk("rep", t.a[0], sub(b, a))
    if o == "slice": return slc(t.a[0], add(t.a[1], a), add(t.a[1], b))
    if o == "raw": return mk("slice", t, a, b)
    if o == "splice":
        base, x, y, v = t.a
        if a is x and b is y: return v
        if a.op == b.op == x.op == y.op == "int":
            if b.a[0] <= x.a[0] or a.a[0] >= y.a[0]: return slc(base, a, b)
            if a.a[0] >= x.a[0] and b.a[0] <= y.a[0]: return slc(v, sub(a, x), sub(b, x))
    if o == "seq":
        pos = ZERO; out = []; started = False; done = False
        for s in t.a[0]:
            l = ln(s); nxt = add(pos, l)
            def cmpi(x, y):
                d = sub(x, y)
                return d.a[0] if d.op == "int" else None
            ca = cmpi(a, pos); cb = cmpi(b, nxt); an = cmpi(a, nxt); bp = cmpi(b, pos)
            if not started:
                if an is not None and an >= 0: pos = nxt; continue
                if ca is None or ca < 0: return mk("slice", t, a, b)
                started = True
                lo = sub(a, pos)
            else: lo = ZERO
            if bp is not None and bp <= 0: done = True; break
            if cb is not None and cb <= 0:
                out.append(slc(s, lo, sub(b, pos))); done = True; break
            if cb is None and sub(b, nxt) is not ZERO:
                # cannot order b against the end of this segment
                return mk("slice", t, a, b)
            out.append(slc(s, lo, l)); pos = nxt
        if started and done: return seq(out)
        return mk("slice", t, a, b)
    return mk("slice", t, a, b)
def splice(t, a, b, v):
    """t with t[a..b] replaced by v (same length)"""
    L = ln(t)
    if b is None: b = L
    if sub(b, a) is not ln(v) and ln(v).op == "len":
        v = mk("raw", v, sub(b, a))
    if a is ZERO and b is L: return v
    if t.op in ("seq", "rep", "bytes", "rd", "le", "raw"):
        pre = slc(t, ZERO, a); post = slc(t, b, L)
        if not (pre.op == "slice" and pre.a[0] is t) and not (post.op == "slice" and post.a[0] is t):
            return seq([pre, v, post])
    return mk("splice", t, a, b, v)
def fromle(w, t):
    if t.op == "raw": t = t.a[0] if False else t
    if t.op == "le" and t.a[0] == w: return t.a[1]
    if t.op == "bytes" and len(t.a[0]) == w: return I(int.from_bytes(t.a[0], "little"))
    if t.op == "phi": return phi([fromle(w, x) for x in t.a[0]])
    if t.op == "rep" and t.a[0].op == "int" and t.a[1] is I(w): return I(int.from_bytes(bytes([t.a[0].a[0]]) * w, "little"))
    if w == 1 and t.op == "slice" and sub(t.a[2], t.a[1]) is ONE: return mk("at", t.a[0], t.a[1])
    return mk("fromle", w, t)
def at(t, i):
    if t.op == "upd" and t.a[1] is i: return t.a[2]
    if i.op == "rng" and i.a[0] is ZERO and t.op not in ("upd", "agg") and i.a[1] is ln(t): i = mk("idx", i.a[2])   # for i in 0..t.len()
    if t.op == "el": return t.a[0]
    if t.op == "rep": return t.a[0]
    if t.op in ("rd", "bytes", "seq", "le", "slice"):
        s = slc(t, i, add(i, ONE))
        if s.op == "bytes": return I(s.a[0][0]) if s.a[0] else mk("at", t, i)
        if s.op == "rd": return fromle(1, s)
        if s.op == "el": return s.a[0]
        if s.op == "le": return s.a[1]
        if t.op == "slice" and i.op != "idx" and s.op == "slice" and s.a[0] is t.a[0]: return at(s.a[0], s.a[1])
    return mk("at", t, i)

# ---------------------------------------------------------------- phi / structure
def phi(ts):
    s = {}
    for t in ts:
        if t.op == "phi":
            for x in t.a[0]: s[x] = 1
        elif t.op == "bot": continue
        else: s[t] = 1
    if not s: return BOT
    if len(s) == 1: return next(iter(s))
    if len(s) == 2 and ZERO in s:       # what is left up to the end, nothing if already behind it
        d = next(x for x in s if x is not ZERO)
        if d.op == "lin" and d.a[0] == 0 and len(d.a[1]) == 2 and sorted(c for _, c in d.a[1]) == [-1, 1] and any(c == 1 and k.op == "end" for k, c in d.a[1]) and any(c == -1 and k.op == "pos" for k, c in d.a[1]): return d
    return mk("phi", frozenset(s))
BOT = mk("bot")
def alts(t): return list(t.a[0]) if t.op == "phi" else [t]
def agg(name, variant, fields): return mk("agg", name, variant, tuple(fields))
UNIT = agg("tuple", "", ())
def tup(*f): return agg("tuple", "", f)
def Ok(x): return agg("Result", "Ok", (x,))
def Err(x): return agg("Result", "Err", (x,))
def Some(x): return agg("Option", "Some", (x,))
NONE = agg("Option", "None", ())
def is_agg(t, v=None): return t.op == "agg" and (v is None or t.a[1] == v)

def getf(t, v, i):
    if t.op == "agg":
        if v is not None and t.a[1] != v: return BOT
        f = t.a[2]
        return f[i] if i < len(f) else BOT
    if t.op == "phi": return phi([getf(x, v, i) for x in t.a[0]])
    if t.op == "with":
        b, k, nv = t.a
        if k == (v, i): return nv
        return getf(b, v, i)
    if t.op == "bot": return t
    return mk("fld", t, v, i)
def setf(t, v, i, nv):
    if t.op == "agg" and (v is None or t.a[1] == v):
        f = list(t.a[2])
        while len(f) <= i: f.append(BOT)
        f[i] = nv
        return agg(t.a[0], t.a[1], f)
    if t.op == "with" and t.a[1] == (v, i): return setf(t.a[0], v, i, nv)
    # keep a canonical order of overridden fields
    if t.op == "with" and repr(t.a[1]) > repr((v, i)):
        return mk("with", setf(t.a[0], v, i, nv), t.a[1], t.a[2])
    if getf(t, v, i) is nv and t.op != "with": return t
    return mk("with", t, (v, i), nv)
def get(t, e):
    k = e[0]
    if k == "f": return getf(t, e[1], e[2])
    if k == "i": return at(t, e[1])
    if k == "s": return slc(t, e[1], e[2])
    return mk("proj", t, e)
def put(t, path, v):
    if not path: return v
    e = path[0]; k = e[0]
    if k == "f": return setf(t, e[1], e[2], put(getf(t, e[1], e[2]), path[1:], v))
    if k == "i":
        nv = put(at(t, e[1]), path[1:], v)
        if e[1].op == "int" and t.op in ("seq", "rep", "bytes", "rd"):
            return splice(t, e[1], add(e[1], ONE), mk("el", nv))
        return mk("upd", t, e[1], nv)
    if k == "s":
        b = e[2] if e[2] is not None else ln(t)
        return splice(t, e[1], b, put(slc(t, e[1], e[2]), path[1:], v))
    return mk("havoc", t, e, v)

def NOT(t):
    if t.op == "int": return I(0 if t.a[0] else 1)
    if t.op == "not": return t.a[0]
    return mk("not", t)
def strip_raw(t):
    while t.op == "raw": t = t.a[0]
    return t
def EQ(a, b):
    a = strip_raw(a); b = strip_raw(b)
    if a is b: return ONE
    if b.op == "le" and a.op != "le" and a.op != "int": a, b = b, a
    if a.op == "le" and b.op not in ("int", "lin"):
        a, b = a.a[1], fromle(a.a[0], b)
        if a is b: return ONE
    if a.op == "int" and b.op == "int": return ZERO
    if b is ZERO: a, b = b, a
    if a is ZERO:
        if b.op == "satsub": return NOT(LT(b.a[1], b.a[0]))
        if b.op == "lin" and any(c < 0 for _, c in b.a[1]):
            a, b = sides(b); return EQ(a, b)
    if a.op == "bytes" and b.op == "bytes": return ZERO
    if a.op == "agg" and b.op == "agg" and a.a[1] != b.a[1]: return ZERO
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0] and len(a.a[2]) == len(b.a[2]) == 1: return EQ(a.a[2][0], b.a[2][0])
    x, y = sorted((a, b), key=lambda t: t.id)
    return mk("eq", x, y)
def sides(t):
    """a difference as (what is added, what is taken away)"""
    p = n = ZERO
    for k, c in t.a[1]:
        if c > 0: p = add(p, scale(k, c))
        else: n = add(n, scale(k, -c))
    return (add(p, I(t.a[0])), n) if t.a[0] >= 0 else (p, add(n, I(-t.a[0])))
def LT(a, b):
    if a is b: return ZERO
    d = sub(a, b)
    if d.op == "int": return I(1 if d.a[0] < 0 else 0)
    # a difference compared with zero: which side is larger
    if a is ZERO:
        if b.op == "satsub": return LT(b.a[1], b.a[0])
        if b.op == "lin" and any(c < 0 for _, c in b.a[1]): p, n = sides(b); return LT(n, p)
    if b is ONE:
        if a.op == "satsub": return NOT(LT(a.a[1], a.a[0]))
        if a.op == "lin" and any(c < 0 for _, c in a.a[1]): return EQ(a, ZERO)
    return mk("lt", a, b)

# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    """all terms reachable inside t (including t)"""
    if seen is None: seen = {}
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, Term):
            if x in seen: continue
            seen[x] = 1
            st.extend(x.a)
        elif isinstance(x, (tuple, frozenset, list)):
            st.extend(x)
    return seen
def contains(t, pred):
    return any(pred(x) for x in subterms(t))
def subst(t, m, memo=None):
    """replace whole sub-terms according to dict m (structural positions of agg/with/phi only)"""
    if t in m: return m[t]
    if t.op == "agg": return agg(t.a[0], t.a[1], [subst(x, m) for x in t.a[2]])
    if t.op == "with": return setf(subst(t.a[0], m), t.a[1][0], t.a[1][1], subst(t.a[2], m))
    return t
def show(t, d=0):
    if not isinstance(t, Term):
        if isinstance(t, tuple): return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        if isinstance(t, frozenset): return "{" + "|".join(sorted(show(x, d + 1) for x in t)) + "}"
        if isinstance(t, bytes): return t.hex() if len(t) <= 16 else t[:16].hex() + "..(%d)" % len(t)
        return str(t)
    if d > 14: return "…"
    o, a = t.op, t.a
    s = lambda x: show(x, d + 1)
    if o == "int": return str(a[0])
    if o == "bytes": return "b'" + show(a[0]) + "'"
    if o == "str": return repr(a[0])
    if o == "lin":
        return "(" + "+".join((s(k) if c == 1 else f"{c}*{s(k)}") for k, c in a[1]) + (f"{a[0]:+d}" if a[0] else "") + ")"
    if o == "agg":
        n = a[0] if not a[1] else a[1]
        return n + ("(" + ",".join(s(x) for x in a[2]) + ")" if a[2] else "")
    if o == "fld": return f"{s(a[0])}.{(a[1]+':') if a[1] else ''}{a[2]}"
    if o == "seq": return "[" + " ".join(s(x) for x in a[0]) + "]"
    if o == "rd": return f"{s(a[0])}@[{s(a[1])};{s(a[2])}]"
    if o == "init": return f"*{s(a[0])}"
    if o == "P": return f"{a[0]}"
    if o == "L": return f"L{a[0]}.{a[1]}"
    if o == "ref": return f"&{s(a[0])}" + "".join(s(x) for x in a[1])
    return f"{o}(" + ",".join(s(x) for x in a) + ")"

def tmap(t, f, memo=None):
    """bottom-up rewrite of terms; f gets a rebuilt term"""
    if memo is None: memo = {}
    def go(x):
        if isinstance(x, Term):
            r = memo.get(x)
            if r is None:
                memo[x] = x
                a = tuple(go(y) for y in x.a)
                if all(p is q for p, q in zip(a, x.a)): y = x
                elif x.op == "seq": y = seq(list(a[0]))
                elif x.op == "lin":
                    y = I(a[0])
                    for k, c in a[1]: y = add(y, scale(k, c))
                elif x.op == "phi": y = phi(list(a[0]))
                elif x.op == "eq": y = EQ(*a)
                elif x.op == "lt": y = LT(*a)
                elif x.op == "slice": y = slc(*a)
                elif x.op == "len": y = ln(*a)
                elif x.op == "fld": y = getf(*a)
                elif x.op == "at": y = at(*a)
                else: y = mk(x.op, *a)
                r = memo[x] = f(y)
            return r
        if isinstance(x, tuple): 
            r = tuple(go(y) for y in x)
            return x if all(p is q for p, q in zip(r, x)) else r
        if isinstance(x, frozenset):
            r = frozenset(go(y) for y in x)
            return x if r == x else r
        return x
    return go(t)
def _ns(x):
    if x.op == "call" and x.a[2] is not None: return mk("call", x.a[0], x.a[1], None)
    if x.op == "idx": return mk("idx", None)
    return x
def nosite(t):
    """forget at which call site a value was computed"""
    return tmap(t, _ns)
