"""PacketBufReader: every byte taken from the source is handed to the `ignored` rules, part of a packet, or retained."""
from core import *
import spec, fmt, models
from fmt import adt, fld
from pay import dtag, me, maybe
import pkt, lin
IGN = "RulesDef::ignore"
GH = mk("G", IGN)
def loc(p, A, e, b, field):
    """value of self.<field> at an exit"""
    d = adt(p, "PacketBufReaderDef"); i = [f[0] if isinstance(f, (list, tuple)) else f for f in d["variants"][0]["f"]].index(field)
    return A.deep(e.st, mk("ref", mk("P", argname(b, 1)), (("f", None, i),)))
def analysis(ctx):
    p = ctx.brec; b = ctx.fn(p, "PacketBufReaderDef::read")
    d = adt(p, "PacketBufReaderDef"); names = [f[0] if isinstance(f, (list, tuple)) else f for f in d["variants"][0]["f"]]
    ix = {n: i for i, n in enumerate(names)}
    def tag(st):
        own = frozenset((k, v) for k, v in list(st.mem.items()) + list(st.cur.items()) if k.op in ("G", "P") or k.op == "ref")
        return dtag(st), own
    A = ctx.an(p, b, tag=tag, key="led", opaque=pkt.RULES + ("+" + IGN,))
    return p, b, A, ix
def nulls(facts):
    """terms known to be zero on this path"""
    z = {}
    for a, v in facts.items():
        if a.op == "lt" and a.a[0] is ZERO and v is False: z[a.a[1]] = ZERO
        elif a.op == "lt" and a.a[1] is ONE and v is True: z[a.a[0]] = ZERO
        elif a.op == "eq" and v is True and ZERO in a.a: z[next(y for y in a.a if y is not ZERO)] = ZERO
    return {k: v for k, v in z.items() if k.op not in ("lin", "int")}
def ledger(ctx, rep):
    p, b, A, ix = analysis(ctx); rep.cover(A)
    me_ = mk("P", argname(b, 1)); s = mk("ref", me_, (("f", None, ix["inner"]),)); p0 = mk("pos", s)
    init = mk("init", me_)
    rec0 = getf(init, None, ix["recent"]); buf0 = getf(init, None, ix["buffered"])
    seen = {}
    for e in exits(A):
        c, x = classify(e.v)
        if c == "err" and any(t.op == "call" and t.a[0] == IGN for t in alts(x) for t in subterms(t)): continue   # `ignore` never fails
        rv = x.a[1] if c == "ok" and x.op == "agg" and x.a[0] == "NextPacket" else c
        z = nulls(e.facts)
        def v(t): return tmap(t, lambda y: z.get(y, y)) if z and t is not None else t
        own = e.st.mem.get(me_, init)
        d0 = dval(e.facts, rec0); cur = v(e.st.cur.get(s) or p0); ign = v(e.st.mem.get(GH, EMPTY))
        rec1 = v(getf(own, None, ix["recent"])); buf1 = v(getf(own, None, ix["buffered"]))
        moved = sub(cur, p0)
        if d0 == "Ready":
            h0 = getf(getf(rec0, "Ready", 0), "Some", 0); R0 = buf0; H0 = I(29); sz0 = fld(p, h0, "PacketHeader", "size")
            if dval(e.facts, getf(rec0, "Ready", 0)) == "None": continue
        elif d0 == "Refill":
            if dval(e.facts, getf(rec0, "Refill", 0)) == "None": continue
            R0 = getf(getf(getf(rec0, "Refill", 0), "Some", 0), None, 0); H0 = ZERO; sz0 = None
        elif d0 == "Empty": R0 = EMPTY; H0 = ZERO; sz0 = None
        else: rep.ob("reader.bytes.state", None, where(b), "state at the start of a call not recognised"); continue
        if rec1 is rec0: rec1 = None
        if rec1 is None or rec1.op != "agg": rep.ob("reader.bytes.state", None, where(b), "state left behind not recognised"); continue
        H1 = ZERO; R1 = EMPTY; h1 = None
        inner = rec1.a[2][0] if rec1.a[2] else None
        if rec1.a[1] == "Ready":
            if inner.op != "agg" or inner.a[1] != "Some": rep.ob("reader.bytes.state", inner.op != "agg" and None, where(b), "waits for a packet without its header"); continue
            h1 = inner.a[2][0]; H1 = I(29); R1 = buf1
            if d0 in ("Refill", "Empty") and buf1 is buf0: R1 = EMPTY if d0 == "Refill" else None
        elif rec1.a[1] == "Refill":
            if inner.op != "agg" or inner.a[1] != "Some": rep.ob("reader.bytes.state", inner.op != "agg" and None, where(b), "waits for a header without the bytes retained"); continue
            R1 = getf(inner.a[2][0], None, 0)
        if R1 is None: rep.ob("reader.bytes.state", None, where(b), "retained bytes not recognised"); continue
        k = f"reader.bytes.{d0}.{rv}"
        D = sub(sub(add(add(ln(v(R0)), H0), moved), add(ln(ign), add(ln(R1), H1))), ZERO)
        D = v(D)
        if d0 == "Ready" and ltv(e.facts, sz0, ln(buf0)): continue      # more bytes retained than the packet has: no call leaves this state behind
        if rv in ("Found", "Skipped"):
            if sz0 is not None: r = lin.same0(e.facts, sub(D, add(I(29), sz0)))
            else: r = is_hsize(sub(D, I(29)))
            what = "the packet"
        elif rv in ("NoData", "NotFound", "NotEnoughData"): r = lin.same0(e.facts, D); what = "nothing"
        elif rv in ("err", "io"):
            r = lin.same0(e.facts, D)
            if r is not True: r = lin.same0(e.facts, sub(D, add(I(29), sz0))) if sz0 is not None else is_hsize(sub(D, I(29)))
            what = "nothing or the broken packet"
        else: rep.ob("reader.bytes.result", None, where(b), f"result not recognised: {show(e.v)[:120]}"); continue
        if r is not True and contains(D, lambda t: t.op in ("phi", "havoc", "top")): r = None
        rep.ob(k + ".count", r, where(b), f"bytes held before plus bytes taken from the source, less bytes ignored and bytes held after, come to {show(D)[:240]}; expected {what}")
        # order and content
        comb = seq([v(R0), mk("rd", s, p0, moved)]) if moved is not ZERO else v(R0)
        out = None
        Z = r is True and (D is ZERO or lin.same0(e.facts, D) is True)
        if Z and rec1.a[1] != "Ready" and d0 != "Ready": out = seq([ign, R1])
        elif r is True and d0 == "Ready" and rec1.a[1] == "Ready": out = seq([ign, R1]); rep.ob(k + ".header", h1 is h0, where(b), "the header waited for changes while its packet is incomplete")
        if out is not None:
            qs = []
            for fs, (o_, c_, r_, m_) in lin.split(e.facts, [out, comb, v(R0), moved]):
                z_ = nulls(fs); o_, c_, r_, m_ = (tmap(t, lambda y: z_.get(y, y)) for t in (o_, c_, r_, m_))
                q = True if o_ is c_ or joins(o_, c_, r_, s, p0, m_) else None
                if q is None and o_.op == c_.op == "rd" and o_.a[0] is c_.a[0]:
                    x = [lin.same0(fs, sub(o_.a[i], c_.a[i])) for i in (1, 2)]
                    q = False if False in x else True if x == [True, True] else None
                elif q is None and not opaque_in(o_) and not contains(o_, lambda t: t.op in ("slice", "min", "max", "satsub")): q = False
                qs.append(q)
            q = False if False in qs else None if None in qs else True
            rep.ob(k + ".content", q, where(b), f"bytes ignored and retained are {show(out)[:200]}, not {show(comb)[:200]} in this order")
        if rec1.a[1] == "Ready" and d0 != "Ready":
            o = ln(ign); hb = unq(h1, p); at = start_of(v(hb), v(R0), s, p0) if hb is not None else None
            off = sub(at, add(o, I(8))) if at is not None else None
            rep.ob(k + ".found", None if off is None else True if off is ZERO else False if off.op == "int" else None, where(b), f"header taken at {show(hb)[:160] if hb is not None else '?'}, expected behind the {show(o)[:80]} ignored bytes")
        if rec1.a[1] != "Ready" and d0 != "Ready": rep.ob(k + ".clean", buf1 is EMPTY or buf1 is buf0, where(b), "bytes of a packet are left over although no packet is under way")
        elif rec1.a[1] != "Ready" and d0 == "Ready": rep.ob(k + ".clean", buf1 is EMPTY or None, where(b), "bytes of the packet are left over after it was dealt with")
def is_hsize(t):
    return t.op == "fromle" and t.a[0] == 8 and (True if t.a[1].op in ("rd", "slice", "seq") else None)
def unq(h, p):
    t = fld(p, h, "PacketHeader", "size")
    return t.a[1] if t.op == "fromle" else None
def start_of(hb, R0, s, p0):
    """offset of a field's bytes in the retained bytes followed by the source's"""
    if hb.op == "rd" and hb.a[0] is s: return add(ln(R0), sub(hb.a[1], p0))
    if hb.op == "slice":
        b = hb.a[0]
        if b is R0 or (R0 is not EMPTY and b.op == "seq" and b.a[0][0] is R0): return hb.a[1]
    return None
def joins(out, comb, R0, s, p0, moved):
    """prefix of (retained ++ read) up to k, then the rest of the retained from k: together what was there"""
    xs = list(out.a[0]) if out.op == "seq" else [out]
    f = xs[0]
    if f.op != "slice" or f.a[1] is not ZERO or start_of(f, R0, s, p0) is None: return False
    k = f.a[2]
    if len(xs) == 1: return moved is sub(k, ln(R0)) and f.a[0].op == "seq" and len(f.a[0].a[0]) == 2 and f.a[0].a[0][1].op == "rd" and f.a[0].a[0][1].a[1] is p0
    return len(xs) == 2 and moved is ZERO and xs[1].op == "slice" and xs[1].a == (R0, k, ln(R0))
from pkt import dval
def ltv(facts, a, b):
    return any(f.op == "lt" and v is True and f.a == (a, b) for f, v in facts.items())
