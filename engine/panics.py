"""Malformed input is refused, never answered by a panic."""
from core import *
import lin
def site_caps(A):
    c = {}
    for e in evs(A, "io", lambda e: e.op == "read"):
        if e.site in c and c[e.site] is not e.cap: c[e.site] = None
        else: c[e.site] = e.cap
    return {k: v for k, v in c.items() if v is not None}
def free(t, dec=True):
    """an unknown that the outside world chooses"""
    if t.op in ("fromle", "at"): return all(inputbytes(y, dec) for y in [t.a[1] if t.op == "fromle" else t.a[0]])
    if t.op in ("end", "avail", "pos"): return outside(t.a[0])
    if t.op == "len": return inputbytes(t.a[0], dec)
    if t.op in ("min", "max", "satsub"): return all(free(k, dec) for y in t.a for k in lin.atoms([y]))
    return False
def outside(s):
    """a source handed in by the caller (one over a value made here is bounded by what it was made from)"""
    return not (s.op == "ref" and s.a[0].op == "L")
def inputbytes(t, dec=True):
    if t.op == "rd": return outside(t.a[0])
    if t.op in ("slice", "star", "raw"): return inputbytes(t.a[0], dec)
    if t.op == "init": return dec and t.a[0].op == "P"
    return False
def obligations(A):
    """(kind, what must be >= 0, facts, line, text)"""
    for e in evs(A, "assert"):
        if e.msg == "overflow:Sub" and len(e.args) == 2:
            # differences the code takes with saturating_sub are written a - b here; a plain a - b is not given that credit
            known = lin.atoms(list(e.args) + [x for f in e.facts for x in (f.a if f.op in ("lt", "eq") else ()) if lin.intlike(x)])
            fs = {**e.facts, **{LT(x, y): False for x, y in A.satends if LT(x, y).op == "lt" and (x, y) != tuple(e.args) and lin.atoms([x, y]) <= known}}
            yield "underflow", sub(e.args[0], e.args[1]), fs, e.line, f"{show(e.args[0])[:120]} - {show(e.args[1])[:120]}", e.node
        elif e.msg == "bounds" and len(e.args) == 2: yield "bounds", sub(sub(e.args[0], e.args[1]), ONE), e.facts, e.line, f"index {show(e.args[1])[:100]} of {show(e.args[0])[:100]}", e.node
    for e in evs(A, "index"):
        L = e.len
        if e.b is None: yield "bounds", sub(sub(L, e.a), ONE), e.st.facts, e.get("line"), f"index {show(e.a)[:100]} of {show(L)[:100]}", e.node; continue
        if e.a is not ZERO: yield "slice", sub(e.b, e.a), e.st.facts, e.get("line"), f"slice from {show(e.a)[:100]} to {show(e.b)[:100]}", e.node
        if e.b is not L: yield "slice", sub(L, e.b), e.st.facts, e.get("line"), f"slice to {show(e.b)[:100]} of {show(L)[:100]}", e.node

def spans(t):
    """the stretches of input a value is read from: (source, start, length)"""
    for x in subterms(t):
        if x.op == "rd": yield x.a[0], x.a[1], x.a[2]
        elif x.op == "slice" and x.a[0].op == "init": yield x.a[0], x.a[1], sub(x.a[2], x.a[1])
def apart(t, env):
    """the bytes `t` is about are none of those the unknowns in `env` are decoded from"""
    own = [q for a in env for q in ([next(spans(a), None)] if a.op in ("fromle", "at") else [])]
    for s, o, n in spans(t):
        for q in own:
            if q is None: return False
            if q[0] is not s: continue
            d = sub(q[1], o)
            if d.op != "int" or n.op != "int" or q[2].op != "int": return False
            if -q[2].a[0] < d.a[0] < n.a[0]: return False
    return True
def cond(a, v, env):
    """does the condition hold: True | False | None (mixes the unknowns with something else)"""
    while a.op == "not": a, v = a.a[0], not v
    if isinstance(v, bool):
        h = lin.holds(a, v, env)
        if h is not None: return h
        if a.op == "call" and a.a[0].endswith("::contains") and a.a[1][0].op == "bytes" and a.a[1][1] in env: return (env[a.a[1][1]] in a.a[1][0].a[0]) == v
        if a.op == "eq" and any(x.op == "bytes" for x in a.a) and not any(y in env for y in subterms(a) if y.op in ("fromle", "at", "len")): return True if apart(a, env) else None
        if a.op == "eq" and any(y.op == "crc32" for y in subterms(a)):
            # a checksum can always be made to fit, as long as it is not what the unknowns are read from
            for x, y in (a.a, a.a[::-1]):
                if any(z.op == "crc32" for z in subterms(y)) and not any(z.op == "crc32" for z in subterms(x)) and not any(z in env for z in subterms(x) if z.op in ("fromle", "at")): return True if apart(x, env) else None
    elif isinstance(v, int):
        x = lin.ieval(a, env)
        if x is not None: return x == v
    if a.op in ("eq", "lt") and all(lin.intlike(x) for x in a.a):
        ats = lin.atoms(list(a.a))
        if ats and not any(x in env for x in ats) and all(x.op in ("fromle", "at") for x in ats) and all(apart(x, env) for x in ats): return True      # about other bytes of the input
    return None if contains(a, lambda t: t in env) else True
def against(lab, facts):
    a, v = lab
    while a.op == "not": a, v = a.a[0], not v
    f = facts.get(a)
    return f is not None and isinstance(f, bool) and isinstance(v, bool) and f != v
def reaches(A, n, env, facts):
    """is there a way to node n on which every condition over the unknowns in `env` holds (conditions mixing them with others count as not holding)"""
    import rul
    return n in rul.walk(A, [0], (), lambda lab: lab is not None and isinstance(lab[0], Term) and (cond(lab[0], lab[1], env) is not True or against(lab, facts)))
def candidates(A, atoms_):
    """values the conditions of the function compare an unknown with"""
    c = {}
    for u in range(len(A.nodes)):
        for m, lab in A.succ[u]:
            if not lab or not isinstance(lab[0], Term): continue
            a = lab[0]
            while a.op == "not": a = a.a[0]
            if a.op == "call" and a.a[0].endswith("::contains") and a.a[1][0].op == "bytes" and a.a[1][1] in atoms_: c.setdefault(a.a[1][1], set()).update(a.a[1][0].a[0][:3])
            elif a.op == "eq":
                for x, y in (a.a, a.a[::-1]):
                    if x in atoms_ and y.op == "int": c.setdefault(x, set()).add(y.a[0])
    return c
def witness(A, node, facts, bad, caps, dec):
    """an assignment of input-determined unknowns under which the node is reached and `bad` >= 0 (None: only reached)"""
    import itertools
    ge, eq = lin.facts2(facts); want = [bad] if bad is not None else ge + eq + [scale(x, -1) for x in eq]
    try: cs, at = lin.system(facts, want, caps)
    except lin.Bad: return None
    first = []
    for a in at:
        if free(a, dec): continue
        li = A.loopinfo.get(a) if a.op == "loop" else None
        if li is None or len(li["init"]) != 1: return None
        d = sub(a, next(iter(li["init"]))); first += [d, scale(d, -1)]        # the first time round
    c = candidates(A, at); keys = sorted(c, key=lambda t: t.id)[:4]; ne = [e for e in lin.differ(facts) if lin.atoms([e]) & at][:3]
    for vals in itertools.islice(itertools.product(*[[None] + sorted(c[k]) for k in keys]), 64):
        fix = [x for k, v in zip(keys, vals) if v is not None for x in (sub(k, I(v)), sub(I(v), k))]
        for n in range(1 << len(ne)):
            try:
                cs, at2 = lin.system(facts, want + first + fix + [sub(e, ONE) if n >> i & 1 else sub(scale(e, -1), ONE) for i, e in enumerate(ne)], caps)
                tr = lin.feasible(cs)
            except lin.Bad: return None
            if tr is None: continue
            env = lin.point(tr)
            if env is None or not all(free(a, dec) or a.op == "loop" for a in env): continue
            if reaches(A, node, env, facts): return env
    return None
DEC = ("ReadFrom", "ReadBlockFrom", "ReadBlockFromSlice", "TryReadFrom", "TryReadFromBuffered", "ReadPayloadFrom", "TryReadPayloadFrom", "TryReadPayloadFromBuffered",
       "ExtractPayloadFrom", "TryExtractPayloadFrom", "TryExtractPayloadFromBuffered", "PayloadDecode", "PacketReadable", "TryFrom", "ByteBlock")
PUB = ("PacketHeader::get_pos", "PacketHeader::ssize_in")
def decoder(n): return n in PUB or " as " in n and n.split(" as ")[1].split(">")[0] in DEC
def outsideonly(facts):
    """what is known on the way speaks of the input only"""
    return all(f.op in ("eq", "lt") and all(lin.intlike(x) and all(free(y) for y in lin.atoms([x])) or inputbytes(x) or x.op == "bytes" or any(z.op == "crc32" for z in subterms(x)) for x in f.a)
               or f.op == "call" and f.a[0].endswith("::contains") and f.a[1][0].op == "bytes" and free(f.a[1][1]) or f.op in ("io", "ovf") for f in (g.a[0] if g.op == "not" else g for g in facts))
def memory(A, site):
    """the failing source is a buffer in memory, which does not fail"""
    for e in evs(A, "io", lambda e: e.site is site):
        ta = e.fn.get("targs") or []
        t = A.p.types[ta[0]] if ta else None
        while t and t["k"] == "ref": t = A.p.types[t["to"]]
        if t and (t["k"] == "slice" or t.get("n") == "Cursor"): return True
    return False
def tell(env): return " (e.g. " + ", ".join(f"{show(a)[:80]} = {x}" for a, x in list(env.items())[:4]) + ")" if env else ""
def judge(ctx, rep, p, b, A, k, dec):
    rep.cover(A); caps = site_caps(A); out = {}; n = 0
    for kind, g, facts, line, txt, node in obligations(A):
        n += 1; r = lin.entails(facts, g, caps); v = True if r is True else None
        if isinstance(r, tuple):
            w = witness(A, node, facts, sub(scale(g, -1), ONE), caps, dec)
            if w is not None: v = False; txt += tell(w)
        out.setdefault((kind, v), []).append((line, txt))
    for e in evs(A, "panic"):
        n += 1; x = e.val; v = None; txt = "panics"; io = [t for t in subterms(x) if t.op == "err"] if x is not None else []
        if lin.contradictory(e.st.facts, caps) is True: v = True
        elif io and all(t.a[0] in IOOPS and memory(A, t.a[1]) for t in io): v = True
        elif x is None or x.op != "agg" and opaque_in(x) and not io: v = None
        else:
            w = witness(A, e.node, e.st.facts, None, caps, dec) if outsideonly(e.st.facts) else None
            if w is not None: v = False; txt = f"{e.what} of {show(x)[:120]}{tell(w)}"
        out.setdefault(("panic", v), []).append((e.line, txt))
    for (kind, v), l in out.items():
        if v is True: rep.ob(f"{k}.{kind}", True, where(b), "")
        elif v is False:
            for line, txt in l: rep.ob(f"{k}.{kind}", False, where(b, line), f"some input makes this fail: {txt}")
    rep.info["proven"] = rep.info.get("proven", 0) + sum(len(l) for (q, v), l in out.items() if v is True)
    rep.info["open"] = rep.info.get("open", 0) + sum(len(l) for (q, v), l in out.items() if v is None)
    return n
def variants(ctx, p, b):
    """the function, one analysis for each value of its flags"""
    import itertools
    bs = [i for i in range(1, b["argc"] + 1) if p.types[b["locals"][i][0]].get("n") == "bool"][:2]
    for v in itertools.product((0, 1), repeat=len(bs)):
        try: yield ctx.an(p, b, args=dict(zip(bs, map(I, v))) or None)
        except Incomplete: pass
def library(ctx, rep):
    p = ctx.brec; n = 0
    for q in sorted(p.byname):
        if "closure" in q or q.startswith("build::"): continue
        b = ctx.fn(p, q)
        for A in variants(ctx, p, b): n += judge(ctx, rep, p, b, A, "panic." + q, decoder(q))
    rep.ob("panic.library.some", n > 300 or None, "brec", f"only {n} operations found that could fail")
def generated(ctx, rep):
    p = ctx.har; n = 0
    for q in sorted(p.byname):
        if "closure" in q or not decoder(q): continue
        b = ctx.fn(p, q)
        for A in variants(ctx, p, b): n += judge(ctx, rep, p, b, A, "panic." + q, True)
    rep.ob("panic.generated.some", n > 300 or None, "brec_harness", f"only {n} operations found that could fail")
