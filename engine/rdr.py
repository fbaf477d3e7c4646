"""Storage reader: which bytes a packet index leads to, and how the iterators walk them."""
import itertools
from core import *
import fmt, pkt, slot
from fmt import adt, fld
from pay import dtag, ctag, me, maybe
from rul import walk
from stor import anchors, ssz, widths, selftag
W, OFF, GSO, FREE, COUNT = "Slot::width", "Slot::offset_of", "Slot::get_slot_offset", "Slot::get_free_slot_index", "Slot::count"
TRY, FILT, READ = "<PacketDef as TryReadFrom>::try_read", "PacketDef::filtered", "<PacketDef as ReadFrom>::read"
NEXT, FROM = "<PacketsLocatorIterator as Iterator>::next", "PacketsLocatorIterator::from"
TRYSLOT, FOFF, SETUP = "<Slot as TryReadFrom>::try_read", "Slot::get_free_slot_offset", "FreeSlotLocator::setup"
PURE = {W, OFF, GSO, FREE, COUNT}
CAP = I(500)
IDX = mk("idx", None)
def vtag(st): return frozenset((a, v) for a, v in st.facts.items() if a.op == "lt" or (a.op == "discr" and a.a[0].op == "call") or (a.op == "eq" and ZERO in a.a) or (a.op == "call"))
def shape(t): return tuple(sorted({y.a[0] for y in subterms(t) if y.op == "call"}))
def ftag(st):
    """facts by kind only, so that the values of a loop do not split it for ever"""
    return frozenset((a.op, shape(a), v) for a, v in st.facts.items() if a.op == "lt" or (a.op == "discr" and contains(a.a[0], lambda t: t.op == "call")) or (a.op == "eq" and ZERO in a.a))
def roots(t): return {y for y in subterms(t) if y.op in ("elem", "param", "init", "rd", "itm") or y.op == "loop"}
def dif(got, exp):
    """True the same, None something not modelled is in the difference, else False"""
    got = nosite(got); exp = nosite(exp)
    if got is exp: return True
    if got.op == "trunc" and got.a[0] in ("u8", "u16", "u32", "i32") and got.a[1] is exp: return False
    for y in subterms(got):        # a saturated or capped form of something else is not the value either
        if y.op in ("havoc", "top", "phi", "proj", "fcast"): return None
    known = {y for y in subterms(exp) if y.op in ("loop", "elem", "itm")}
    z = lambda y: ZERO if y.op == "call" and (y.a[0] in PURE or y.a[0] in (TRYSLOT,)) or y.op == "sum" or y in known else y
    try: d = tmap(sub(got, exp), z)
    except Exception: d = tmap(got, z)
    return None if opaque_in(d) or contains(d, lambda y: y.op == "phi") else False
def wsum(p, A, t):
    """loops that add up something over a list, as sums"""
    def f(y):
        if y.op != "loop": return y
        li = A.loopinfo.get(y, {"init": {}, "next": {}}); S = slot.traversal(A, y)
        if S is None or len(li["init"]) != 1 or len(li["next"]) != 1: return y
        d = nosite(sub(next(iter(li["next"])), y))
        if contains(d, lambda t: t.op == "loop"): return y
        return add(next(iter(li["init"])), mk("sum", d, mk("src", S)))
    return tmap(t, f)
def takes(t):
    """the first n elements of a list, written as a part of it or as the first n of a walk over it, in one form"""
    first = lambda y: y.op == "slice" and y.a[1] is ZERO
    def f(y):
        if y.op == "at" and y.a[1] is IDX and first(y.a[0]): return mk("at", y.a[0].a[0], IDX)
        if y.op == "src" and first(y.a[0]): return mk("src", mk("itsrc", "take", y.a[0].a[0], y.a[0].a[2]))
        return y
    return tmap(t, f)
def inner(p, a): return fld(p, a, "AnchoredSlot", "inner")
def place(p, slots, i, j):
    """acceptable positions of packet j of slot i"""
    a = mk("at", slots, i); sl = inner(p, a); cut = slc(slots, ZERO, i); x = inner(p, mk("at", cut, IDX))
    bases = [mk("sum", add(mk("call", W, (x,), None), ssz(p, x)), mk("src", cut)), fld(p, a, "AnchoredSlot", "offset")]
    offs = [getf(mk("call", GSO, (sl, j), None), "Some", 0), add(getf(mk("call", OFF, (sl, j), None), "Some", 0), ssz(p, sl))]
    return [add(b, o) for b in bases for o in offs]
def used(p, e, sl, j):
    """does place j of slot sl hold a packet: True/False/None"""
    L = fld(p, sl, "Slot", "lenghts"); x = mk("at", L, j)
    for a, v in e.facts.items():
        if a.op == "eq" and ZERO in a.a and x in a.a: return v is False
        if a.op == "lt" and a.a == (ZERO, x): return v is True
        if a.op == "lt" and a.a == (x, ONE): return v is False
    return None
def bound(e, i, L):
    for a, v in e.facts.items():
        if a.op == "lt" and a.a[0] is i and nosite(a.a[1]) is nosite(ln(L)): return v is True
        if a.op == "le" and nosite(a.a[0]) is nosite(ln(L)) and a.a[1] is i: return v is False
    return None
def nth(ctx, rep):
    p = ctx.brec; anchors(ctx, W, GSO, TRY, FILT)
    for m in ("nth", "nth_filtered"):
        b = ctx.fn(p, "ReaderDef::" + m); k = "reader." + m
        A = ctx.an(p, b, opaque=(W, GSO, OFF, TRY, FILT), tag=vtag, key="rdr"); rep.cover(A)
        s = me(b); slots = fld(p, s, "ReaderDef", "slots"); n = mk("param", argname(b, 2)); i, j = mk("div", n, CAP), mk("rem", n, CAP)
        sl = inner(p, mk("at", slots, i)); rd = calls(A, TRY, FILT)
        want = [nosite(x) for x in place(p, slots, i, j)]
        rep.ob(k + ".read", bool(rd) or None, where(b), "no packet is read")
        for c in rd:
            st = c.args[0] if c.args else None; pos = c.st.cur.get(st) if st is not None else None
            if pos is None: rep.ob(k + ".at", None, where(b, c.line), "position the packet is read at not known"); continue
            g = takes(wsum(p, A, nosite(wsum(p, A, pos))))
            rs = [dif(g, takes(x)) for x in want]
            rep.ob(k + ".at", True if True in rs else None if None in rs else False, where(b, c.line), f"packet is read at {show(g)[:300]}")
            rep.ob(k + ".used", {True: True, False: False, None: None}[used(p, c.st, sl, j)], where(b, c.line), "a packet is read where none is stored")
            if c.rn == FILT or c.name == FILT:
                R = fld(p, s, "ReaderDef", "rules")
                rep.ob(k + ".rules", (c.vals[1] is R) or (None if opaque_in(c.vals[1]) else False), where(b, c.line), "packet judged by other rules than the reader's")
        for e in exits(A):
            c, x = classify(e.v)
            if c == "ok" and is_agg(x, "None"):
                u, bd = used(p, e, sl, j), bound(e, i, slots)
                gs = [v for a, v in e.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0] in (GSO, OFF)]
                rep.ob(k + ".none", True if bd is False or u is False or gs == ["None"] else (False if bd and u else None), where(b), "reports no packet where one is stored")
            elif c == "ok":
                r = [t for t in subterms(x) if t.op == "call" and t.a[0] in (TRY, FILT)]
                rep.ob(k + ".value", (is_agg(x, "Some") and bool(r)) or None, where(b), "what is returned is not the packet read")
                if m == "nth_filtered":
                    for a, v in e.facts.items():
                        if a.op == "discr" and r and a.a[0] is getf(r[0], "Ok", 0):
                            got = x.a[2][0].a[1] if is_agg(x, "Some") and x.a[2][0].op == "agg" else None
                            rep.ob(k + ".status", None if got is None else got == v, where(b), f"packet that is {v} is reported as {got}")
def count(ctx, rep):
    p = ctx.brec; anchors(ctx, FREE)
    b = ctx.fn(p, "ReaderDef::count"); A = ctx.an(p, b, opaque=(FREE,), tag=vtag, key="rdr"); rep.cover(A)
    s = me(b); slots = fld(p, s, "ReaderDef", "slots"); i = fld(p, fld(p, s, "ReaderDef", "locator"), "FreeSlotLocator", "next"); sl = inner(p, mk("at", slots, i))
    fr = mk("call", FREE, (sl,), None); allc = mul(ln(slots), CAP); part = add(mul(i, CAP), getf(fr, "Some", 0))
    for e in exits(A):
        d = [v for a, v in e.facts.items() if a.op == "discr" and nosite(a.a[0]) is fr]; bd = bound(e, i, slots)
        exp = part if d == ["Some"] else allc if (d == ["None"] or bd is False) else None
        if exp is None: rep.ob("reader.count", None, where(b), f"count not recognised: {show(e.v)[:160]}"); continue
        rep.ob("reader.count", dif(e.v, exp), where(b), f"count is {show(e.v)[:160]}, required {show(exp)[:160]}")
def locate(ctx, rep):
    p = ctx.brec; anchors(ctx, W, OFF, COUNT)
    o = lambda own: fld(p, own, "PacketsLocatorIterator", "offset")
    b = ctx.fn(p, NEXT); A = ctx.an(p, b, opaque=(W,), tag=lambda st: vtag(st) | selftag(st), key="rdr"); rep.cover(A)
    P = mk("P", argname(b, 1)); init = mk("init", P); o0 = o(init); some = 0
    def rng(v): return v.a[2][:2] if v.op == "agg" and len(v.a[2]) >= 2 and v.a[0].startswith("Range") else None
    for e in exits(A):
        own = e.st.mem.get(P, init)
        if is_agg(e.v, "Some"):
            some += 1; r = rng(e.v.a[2][0]); ws = {nosite(t) for t in subterms(e.v) if t.op == "call" and t.a[0] == W}
            if r is None or len(ws) != 1: rep.ob("locate.next", None, where(b), "range not recognised"); continue
            w = next(iter(ws)); sl = w.a[1][0]; a0 = add(o0, ssz(p, sl))
            rep.ob("locate.next.slot", contains(sl, lambda t: t.op in ("call", "elem", "itm") and "next" in str(t.a[0]) or t.op == "elem") or None, where(b), "slot not recognised")
            rep.ob("locate.next.start", dif(r[0], a0), where(b), f"packets of a slot start at {show(r[0])[:160]}"); rep.ob("locate.next.end", dif(r[1], add(a0, w)), where(b), f"packets of a slot end at {show(r[1])[:160]}")
            rep.ob("locate.next.advance", dif(o(own), add(a0, w)), where(b), f"next slot is taken to be at {show(o(own))[:160]}")
        elif is_agg(e.v, "None"):
            d = [v for a, v in e.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0].endswith("::next")]
            z = [v for a, v in e.facts.items() if a.op == "eq" and ZERO in a.a and contains(a, lambda t: t.op == "call" and t.a[0] == W)]
            z += [not v for a, v in e.facts.items() if a.op == "lt" and a.a[0] is ZERO and a.a[1].op == "call" and a.a[1].a[0] == W]
            rep.ob("locate.next.none", True if d == ["None"] or z == [True] else (False if d == ["Some"] and z == [False] else None), where(b), "ends before the slots do")
    rep.ob("locate.next.some", some > 0 or None, where(b), "no range is ever given")
    b = ctx.fn(p, FROM); A = ctx.an(p, b, opaque=(W, OFF, COUNT), tag=ftag, key="rdr"); rep.cover(A)
    P = mk("P", argname(b, 1)); init = mk("init", P); o0 = o(init); T = mk("param", argname(b, 2)); some = 0
    for e in exits(A):
        c, x = classify(e.v)
        if c != "ok": continue
        own = e.st.mem.get(P, init); r = rng(x); some += 1
        oc = {nosite(t) for t in subterms(x) if t.op == "call" and t.a[0] == OFF}
        if r is None or len(oc) != 1: rep.ob("locate.from", None, where(b), "range not recognised"); continue
        oc = next(iter(oc)); sl, t = oc.a[1]; w = mk("call", W, (sl,), None)
        lo = [y for y in subterms(x) if y.op == "loop"]; base = [y for y in lo if y is not t and A.loopinfo.get(y)]
        base = [y for y in set(base) if set(A.loopinfo[y]["init"]) <= {o0, ZERO}]
        base = [y for y in base if contains(r[0], lambda q: q is y)]
        li = A.loopinfo.get(t)
        if len(base) != 1 or not li: rep.ob("locate.from", None, where(b), "walk over the slots not recognised"); continue
        B = base[0]; bi = A.loopinfo[B]; a0 = add(B, ssz(p, sl))
        rep.ob("locate.from.start", dif(r[0], add(a0, getf(oc, "Some", 0))), where(b), f"starts at {show(r[0])[:200]}"); rep.ob("locate.from.end", dif(r[1], add(a0, w)), where(b), f"ends at {show(r[1])[:200]}")
        rep.ob("locate.from.advance", dif(o(own), add(a0, w)), where(b), f"next slot is taken to be at {show(o(own))[:200]}")
        rep.ob("locate.from.base", set(bi["init"]) == {o0} or (None if any(opaque_in(y) for y in bi["init"]) else False), where(b), "the first slot is not taken to be where the walk stands")
        for y in bi["next"]: rep.ob("locate.from.base.step", dif(y, add(a0, w)), where(b), f"a slot is passed over by {show(sub(y, B))[:160]}")
        cn = mk("call", COUNT, (sl,), None)
        rep.ob("locate.from.target", set(li["init"]) == {T} or (None if any(opaque_in(y) for y in li["init"]) else False), where(b), "the walk does not start with the index asked for")
        for y in li["next"]: rep.ob("locate.from.target.step", dif(y, sub(t, cn)), where(b), f"passing over a slot turns the index into {show(y)[:160]}")
        f = [v for a, v in e.facts.items() if a.op == "lt" and a.a[0] is t and nosite(a.a[1]) is cn]
        g = [v for a, v in e.facts.items() if a.op == "lt" and a.a[1] is t and nosite(a.a[0]) is cn]
        rep.ob("locate.from.inside", True if f and f[0] is True else False if not f and g == [False] else None, where(b), "the packet is looked for in a slot that does not reach to it")
    rep.ob("locate.from.some", some > 0 or None, where(b), "no range is ever given")
    # a slot is passed over only if all of its packets lie before the one looked for
    nx = {c.node for c in evs(A, "next")}
    if nx:
        def over(lab):
            if lab is None or not isinstance(lab[0], Term) or lab[1] not in (True, False): return False
            c, v = lab
            while c.op == "not": c, v = c.a[0], not v
            return c.op == "lt" and c.a[0].op == "loop" and contains(c.a[1], lambda t: t.op == "call" and t.a[0] == COUNT) and v is False
        st = [m for c in nx for m, lab in A.succ[c] if lab and lab[1] == "Some"]
        free_ = walk(A, st, nx, over); again = any(m in nx for q in free_ for m, lab in A.succ[q] if not over(lab))
        known = any(over(lab) for q in range(len(A.nodes)) for m, lab in A.succ[q])
        rep.ob("locate.from.skip", (not again) if known else None, where(b), "a slot is passed over although it holds the packet")
def bufsrc(x):
    """(stream, from, length) of a buffer filled from the source"""
    while x.op == "agg" and x.a[0] == "Cursor": x = x.a[2][0]
    return x
def iterate(ctx, rep):
    p = ctx.brec; anchors(ctx, NEXT, FROM, READ, FILT)
    for T, m, loc in (("ReaderIterator", "<ReaderIterator as Iterator>::next", NEXT), ("ReaderIterator", "ReaderIterator::seek", FROM), ("ReaderFilteredIterator", "<ReaderFilteredIterator as Iterator>::next", NEXT)):
        b = ctx.fn(p, m); k = "iterate." + m.strip("<").split(" ")[0] + (".seek" if loc == FROM else ""); k = k.replace("ReaderIterator::seek.seek", "ReaderIterator.seek")
        A = ctx.an(p, b, opaque=(NEXT, FROM, READ, FILT), tag=ftag, key="rdr"); rep.cover(A)
        lc = calls(A, NEXT, FROM); rd = calls(A, READ, FILT)
        rep.ob(k + ".locate", bool(lc) or None, where(b), "places are not asked for")
        for c in lc: rep.ob(k + ".locate.way", (c.rn == loc or c.name == loc) or None, where(b, c.line), "place asked for in another way")
        v = "Ok" if loc == FROM else "Some"
        ios = [e for e in evs(A, "io", lambda e: e.op in ("read_exact", "read", "read_to_end"))]
        for e in ios:
            r = [t for t in subterms(e.off) if t.op == "call" and t.a[0] == loc]
            if not r: rep.ob(k + ".from", None if opaque_in(e.off) else False, where(b, e.line), f"packets are read at {show(e.off)[:120]}"); continue
            q = getf(r[0], v, 0); a0, a1 = getf(q, None, 0), getf(q, None, 1)
            rep.ob(k + ".from", dif(tmap(e.off, lambda y: y), a0), where(b, e.line), f"packets are read at {show(e.off)[:120]}, not at the start of the range")
            rep.ob(k + ".exact", e.op == "read_exact" or None, where(b, e.line), "the range is not read in full")
            if e.op == "read_exact": rep.ob(k + ".length", dif(e.len, sub(a1, a0)), where(b, e.line), f"{show(e.len)[:160]} bytes are read, not the range")
        rep.ob(k + ".io", bool(ios) or None, where(b), "nothing is read")
        if loc == FROM:
            for e in exits(A):
                c, x = classify(e.v)
                if c != "ok": continue
                r = [t for t in subterms(x) if t.op == "rd"]
                rep.ob(k + ".buffer", bool(r) or (None if opaque_in(x) else False), where(b), "the bytes read are not kept")
                L = fld(p, x, T, "locator"); rep.ob(k + ".goes.on", contains(L, lambda t: t.op == "havoc") or (None if opaque_in(L) else False), where(b), "the iteration does not go on behind the range")
            continue
        # refilled only when everything before was given out
        fill = {e.node for e in evs(A, "io", lambda e: e.op == "fill_buf")}
        for c in lc:
            em = [vv for a, vv in c.st.facts.items() if a.op == "eq" and (ZERO in a.a or not any(y.op == "int" for y in a.a) and any(y.op in ("len", "end") for y in a.a)) and contains(a, lambda t: t.op in ("avail", "len", "end"))]
            em += [not vv for a, vv in c.st.facts.items() if a.op == "lt" and a.a[1].op in ("len", "end") and a.a[0].op not in ("int", "len", "end") and not vv]
            for a, vv in c.st.facts.items():
                if a.op == "lt" and ((a.a[0].op == "int" and vv is False and contains(a.a[1], lambda t: t.op in ("avail", "len"))) or (a.a[1].op == "int" and vv is True and contains(a.a[0], lambda t: t.op in ("avail", "len")))):
                    em.append(a.a[0] is ZERO or a.a[1] is ONE)
            rep.ob(k + ".refill", True if em == [True] else False if em == [False] else None, where(b, c.line), "the next slot is taken while packets of this one are left")
        # nothing but a failure, a packet or the end of the slots ends the turn
        for e in exits(A):
            if is_agg(e.v, "None"):
                d = [vv for a, vv in e.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0] == NEXT]
                rep.ob(k + ".end", True if d == ["None"] else False if d == ["Some"] or not d else None, where(b), "ends before the slots do")
            elif is_agg(e.v, "Some") and is_agg(e.v.a[2][0], "Ok"):
                x = e.v.a[2][0].a[2][0]; r = [t for t in subterms(x) if t.op == "call" and t.a[0] in (READ, FILT)]
                rep.ob(k + ".value", bool(r) or (None if opaque_in(x) else False), where(b), "what is given out is not the packet read")
                if r and r[0].a[0] == FILT:
                    st = [vv for a, vv in e.facts.items() if a.op == "discr" and contains(a.a[0], lambda t: t.op == "call" and t.a[0] == FILT)]
                    rep.ob(k + ".accepted", contains(x, lambda t: t.op in ("fld", "proj") and "Accepted" in str(t.a[1])) or None, where(b), "a packet that was not accepted is given out")
        for c in rd:
            if (c.rn if c.rn in (READ, FILT) else c.name) == FILT and len(c.vals) > 1:
                R = c.vals[1]; me_ = me(b)
                rep.ob(k + ".rules", True if R is deref_of(fld(p, me_, T, "rules")) or contains(R, lambda t: t is fld(p, me_, T, "rules")) else (None if opaque_in(R) else False), where(b, c.line), "packets judged by other rules than the reader's")
        if T == "ReaderFilteredIterator": skips(A, rep, k, b, FILT, {c.node for c in rd} )
def deref_of(t): return t
def skips(A, rep, k, b, fn, nodes):
    """only a denied packet is passed over without a word"""
    def den(lab): return lab is not None and isinstance(lab[0], Term) and lab[0].op == "discr" and contains(lab[0], lambda t: t.op == "call" and t.a[0] == fn) and lab[1] == "Denied"
    st = [m for n in nodes for m, lab in A.succ[n] if not den(lab)]
    free_ = walk(A, st, nodes, den); again = any(m in nodes for q in free_ for m, lab in A.succ[q] if not den(lab))
    rep.ob(k + ".skip", not again, where(b), "a packet that was not denied is passed over")
def zeros(facts, t):
    """what the facts say about a quantity with t in it being zero, however it was compared"""
    has = lambda a: contains(a, lambda y: y is t)
    r = [v for a, v in facts.items() if a.op == "eq" and ZERO in a.a and has(a)]
    r += [not v for a, v in facts.items() if a.op == "lt" and a.a[0] is ZERO and has(a.a[1])]
    return r + [v for a, v in facts.items() if a.op == "lt" and a.a[1] is ONE and has(a.a[0])]
def left_after(A, l0, l1):
    """one less than at the start, nothing taken off for packets passed over"""
    for y in subterms(l1):
        li = A.loopinfo.get(y)
        if y.op == "loop" and li and set(li["init"]) == {l0}:
            d = sub(l1, y); st = [sub(x, y) for x in li["next"]]
            if d.op != "int" or any(x.op != "int" for x in st): return None
            return d is I(-1) and all(x is ZERO for x in st)
    return dif(l1, sub(l0, ONE))
def ranges(ctx, rep):
    p = ctx.brec; N = {"ReaderRangeIterator": "ReaderDef::nth", "ReaderRangeFilteredIterator": "ReaderDef::nth_filtered"}; anchors(ctx, *N.values())
    for T, fn in N.items():
        m = f"<{T} as Iterator>::next"; b = ctx.fn(p, m); k = "range." + T
        A = ctx.an(p, b, opaque=tuple(N.values()), tag=ftag, key="rdr"); rep.cover(A)
        P = mk("P", argname(b, 1)); init = mk("init", P); F = lambda own, n: fld(p, own, T, n)
        cs = calls(A, fn); f0, l0 = F(init, "from"), F(init, "len")
        rep.ob(k + ".call", bool(cs) or None, where(b), "packets are not asked for by index")
        filt = T.endswith("FilteredIterator")
        for c in cs:
            x = c.vals[1]; li = A.loopinfo.get(x)
            if li:
                rep.ob(k + ".from", set(li["init"]) == {f0} or (None if any(opaque_in(y) for y in li["init"]) else False), where(b, c.line), "does not begin with the packet that is due")
                for y in li["next"]: rep.ob(k + ".step", dif(y, add(x, ONE)), where(b, c.line), f"index goes on to {show(y)[:100]}")
            else: rep.ob(k + ".from", dif(x, f0), where(b, c.line), f"packet {show(x)[:100]} is asked for, not the one that is due")
            left = zeros(c.st.facts, l0); other = any(contains(a, lambda t: t is l0) for a in c.st.facts)
            rep.ob(k + ".left", True if left and not any(left) else (None if left or li or other else False), where(b, c.line), "goes on after as many packets as were asked for")
        for e in exits(A):
            own = e.st.mem.get(P, init); f1, l1 = F(own, "from"), F(own, "len")
            call = [t for t in subterms(e.v) if t.op == "call" and t.a[0] == fn]
            if is_agg(e.v, "Some"):
                g = [c for c in cs if call and any(c.site is t.a[2] or str(c.site) == str(t.a[2]) for t in call)]
                got = {c.vals[1] for c in (g or cs)}
                if len(got) == 1: rep.ob(k + ".advance", dif(f1, add(next(iter(got)), ONE)), where(b), f"next packet will be {show(f1)[:100]}")
                if is_agg(e.v.a[2][0], "Ok"):
                    rep.ob(k + ".value", bool(call) or (None if opaque_in(e.v) else False), where(b), "what is given out is not the packet read")
                    rep.ob(k + ".count", left_after(A, l0, l1), where(b), f"{show(l1)[:100]} packets are left after one was given out")
                    if filt: rep.ob(k + ".accepted", contains(e.v, lambda t: t.op in ("fld", "proj") and "Accepted" in str(t.a[1])) or None, where(b), "a packet that was not accepted is given out")
            elif is_agg(e.v, "None"):
                d = [v for a, v in e.facts.items() if a.op == "discr" and a.a[0].op == "fld" and contains(a.a[0], lambda t: t.op == "call" and t.a[0] == fn)]
                z = zeros(e.facts, l0)
                rep.ob(k + ".end", True if "None" in d or True in z else None if not d and not z else False, where(b), "ends although packets are left")
        if filt: skips(A, rep, k, b, fn, {c.node for c in cs})
def consumed(ctx, rep):
    """a packet that was read, accepted or denied is left behind as a whole: the next one is read where it begins"""
    for n in ("PacketDef::filtered", "<PacketDef as ReadFrom>::read"):
        p, b, S, A = pkt.reader(ctx, n); rep.cover(A); k = "consumed." + n.strip("<").replace("PacketDef as ", "").replace(">", ""); any_ = 0
        size = mk("fromle", 8, mk("rd", S.s, add(S.p0, I(8)), I(8)))
        for e in exits(A):
            c, x = classify(e.v)
            if c in ("ok", "success"): any_ += 1; rep.eq(k, S.moved(e.st), add(size, I(29)), where(b), "bytes taken from the source for one packet")
        rep.ob(k + ".some", any_ > 0 or None, where(b), "no packet is ever read")
def desat(t): return tmap(t, lambda y: sub(y.a[0], y.a[1]) if y.op == "satsub" else y)
def expand(t, lim=64):
    """alternatives of a sum with joined parts"""
    out = [t]
    while True:
        new = []
        for x in out:
            ph = next((y for y in subterms(x) if y.op == "phi"), None)
            if ph is None: new.append(x)
            else: new += [tmap(x, lambda y: q if y is ph else y) for q in alts(ph)]
        if new == out or len(new) > lim: return list(dict.fromkeys(new))
        out = new
def reload(ctx, rep):
    """Reading on: the last known slot is read again where it lies, new slots behind it, and what was added is counted."""
    p = ctx.brec; anchors(ctx, W, FREE, TRYSLOT, SETUP); k = "reload"
    b = ctx.fn(p, "ReaderDef::reload"); P = mk("P", argname(b, 1)); init = mk("init", P)
    S = lambda own: fld(p, own, "ReaderDef", "slots"); s0 = S(init); n0 = ln(s0)
    def tag(st):
        return frozenset([("changed", S(st.mem.get(P, init)) is not s0)]) | frozenset((shape(a), v) for a, v in st.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0] == FREE)
    A = ctx.an(p, b, opaque=(W, FREE, FOFF, TRYSLOT, SETUP), tag=tag, key="rdr"); rep.cover(A)
    last0 = mk("at", s0, sub(n0, ONE)); lsl = inner(p, last0); lo = fld(p, last0, "AnchoredSlot", "offset"); lend = add(lo, add(ssz(p, lsl), mk("call", W, (lsl,), None)))
    rd = evs(A, "call", lambda c: c.rn == TRYSLOT); rep.ob(k + ".read", bool(rd) or None, where(b), "slots are not read")
    ok = [e for e in exits(A) if classify(e.v)[0] == "ok"]
    isread = lambda t: t.op == "fld" and pkt.blkres(t).op == "call" and pkt.blkres(t).a[0] == TRYSLOT
    pos = None
    for c in rd:
        pos = c.st.cur.get(c.args[0]); li = A.loopinfo.get(pos) if pos is not None else None
        if not li: rep.ob(k + ".at", None, where(b, c.line), "position a slot is read at not recognised"); continue
        for y in li["init"]:
            for q in expand(y):
                r = True if nosite(q) in (nosite(lo), nosite(lend), ZERO) else dif(q, lo) if not contains(q, lambda t: t.op == "call") else dif(q, lend)
                rep.ob(k + ".start", r, where(b, c.line), f"reading begins at {show(q)[:160]}")
        for y in li["next"]:
            for q in expand(nosite(y)):
                d = sub(q, pos); ws = {t.a[1][0] for t in subterms(d) if t.op == "call" and t.a[0] == W}
                if len(ws) != 1: rep.ob(k + ".step", None if opaque_in(d) or d.op != "lin" and d.op != "int" else False, where(b, c.line), f"goes on by {show(d)[:160]}"); continue
                sl = next(iter(ws)); rep.ob(k + ".step", (True if isread(sl) else None) if dif(d, add(ssz(p, sl), mk("call", W, (sl,), None))) is True else dif(d, add(ssz(p, sl), mk("call", W, (sl,), None))), where(b, c.line), f"goes on by {show(d)[:160]}, not by size and width of the slot read")
        # slots kept
        for e in ok:
            L = S(e.st.mem.get(P, init))
            for x in {y for y in subterms(L) if y.op == "loop"} | ({L} if L.op == "loop" else set()):
                si = A.loopinfo.get(x)
                if not si or s0 not in si["init"]: continue
                for y in si["next"]:
                    for q in alts(y):
                        if q.op == "seq" and len(q.a[0]) == 2 and q.a[0][1].op == "le":
                            el = q.a[0][1].a[1]; rep.ob(k + ".new.behind", q.a[0][0] is x or None, where(b), "new slots are not put behind the others")
                            if el.op == "agg": rep.ob(k + ".new", (isread(fld(p, el, "AnchoredSlot", "inner")) and (fld(p, el, "AnchoredSlot", "offset") is pos)) or dif(fld(p, el, "AnchoredSlot", "offset"), pos), where(b), f"a new slot is kept as lying at {show(fld(p, el, 'AnchoredSlot', 'offset'))[:120]}")
                            else: rep.ob(k + ".new", None, where(b), "new slot not recognised")
                        elif q.op == "upd":
                            rep.ob(k + ".again.which", True if desat(q.a[1]) is sub(n0, ONE) else (None if opaque_in(desat(q.a[1])) else False), where(b), f"slot {show(q.a[1])[:80]} is replaced, not the last one known")
                            v = q.a[2]; iv = fld(p, v, "AnchoredSlot", "inner")
                            rep.ob(k + ".again", isread(iv) or (None if opaque_in(iv) else False), where(b), "the last slot is not replaced by what was read"); 
                            of = fld(p, v, "AnchoredSlot", "offset"); rep.ob(k + ".again.offset", of is fld(p, mk("at", x, q.a[1]), "AnchoredSlot", "offset") or of is pos or of is lo or None, where(b), "the last slot is moved")
                        elif q is not x: rep.ob(k + ".slots", None, where(b), f"slots not recognised: {show(q)[:100]}")
    # the place for the next packet is looked for again whenever slots changed
    su = {c.node for c in calls(A, SETUP)}; okn = {e.n for e in ok}
    def news(lab):
        if lab is None or not isinstance(lab[0], Term): return False
        c, v = lab
        while c.op == "not": c, v = c.a[0], not v
        return c.op == "eq" and v is False and any(isinstance(t, Term) and isread_any(t) for t in c.a)
    isread_any = lambda t: contains(t, lambda y: y.op == "call" and y.a[0] == TRYSLOT)
    def samelen(lab):
        if lab is None or not isinstance(lab[0], Term): return False
        c, v = lab
        while c.op == "not": c, v = c.a[0], not v
        return c.op == "eq" and v is True and n0 in c.a
    pu = {e.node for e in evs(A, "push", lambda e: e.base is P)}; up = {m for n in range(len(A.nodes)) for m, lab in A.succ[n] if news(lab)}
    bad = (walk(A, pu, su, samelen) | reach(A, up, su | {c.node for c in rd})) & okn
    known = any(samelen(lab) for n in range(len(A.nodes)) for m, lab in A.succ[n])
    rep.ob(k + ".setup", (not bad or (None if not known and not reach(A, up, su | {c.node for c in rd}) & okn else False)) if pu and up else None, where(b), "slots changed but the count still follows the old ones")
    for e in ok:
        # what was added
        x = classify(e.v)[1]; L = S(e.st.mem.get(P, init))
        lst = inner(p, mk("at", L, sub(ln(L), ONE))); C = lambda s: getf(mk("call", FREE, (s,), None), "Some", 0)
        new = sub(sub(ln(L), n0), ONE); i = C(lsl)
        for q in expand(nosite(x)):
            q = desat(q); fs = {t for t in subterms(q) if t.op == "call" and t.a[0] == FREE}; f = [t for t in fs if t.a[1][0] is not nosite(lsl)]
            F = getf(f[0], "Some", 0) if len(f) == 1 else None
            if F is not None:
                y = f[0].a[1][0]; z = [t for t in subterms(y) if t.op == "at" and t.a[1].op == "lin"]
                rep.ob(k + ".count.slot", (y is nosite(lst) or any(t.a[1] is sub(ln(t.a[0]), ONE) for t in z)) or None, where(b), "free place of another slot is counted")
            acc = [ZERO]; full = CAP
            for old in (None, i):
                for nw in ([F] if F is not None else []) + [full]:
                    if old is not None: acc += [sub(nw, old), add(sub(full, old), add(nw, mul(CAP, new)))]
                    else: acc.append(add(nw, mul(CAP, new)))
            acc = [nosite(y) for y in acc]; ds = [tmap(sub(q, y), lambda t: ZERO if t.op == "loop" and False else t) for y in acc]
            rel = [d for y, d in zip(acc, ds) if d.op == "int" and d is not ZERO and y.op != "int"]
            r = True if any(d is ZERO for d in ds) else (False if rel else None)
            if r is None:
                # is there a number of old and new slots, allowed by the facts of the path, for which the count is none of the accepted ones?
                ats = [nosite(ln(L)), nosite(n0)] + [nosite(t) for t in (F, i) if t is not None]
                fx = [(nosite(tmap(f, desat)), v) for f, v in e.facts.items() if isinstance(v, bool)]
                fx = [(f, v) for f, v in fx if any(contains(f, lambda t: t is y) for y in ats)]
                for l0, n_, f_, i_ in itertools.product((0, 1, 2, 3), (0, 1, 2, 3), (3, 7), (1, 5)):
                    env = dict(zip(ats, (l0 + n_, l0))); env.update({nosite(t): z for t, z in ((F, f_), (i, i_)) if t is not None})
                    hs = [holds(f, v, env) for f, v in fx]
                    if n_ == 0 or any(h is not True for h in hs): continue
                    got = ieval(nosite(q), env); exp = [ieval(y, env) for y in acc]
                    if got is not None and None not in exp and got not in exp: r = False; break
            rep.ob(k + ".count", r, where(b), f"packets added are counted as {show(q)[:240]}")
    # slots that did not change are not counted again
    for e in ok:
        for a, v in e.facts.items():
            if a.op == "eq" and v is True and any(isinstance(t, Term) and contains(t, lambda y: y.op == "call" and y.a[0] == TRYSLOT) for t in a.a): rep.ob(k + ".same", classify(e.v)[1] is ZERO, where(b), "an unchanged slot counts as news")
