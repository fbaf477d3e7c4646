"""Storage slots: format on disk, checksum, and the offsets derived from the lengths."""
from core import *
import spec, fmt, lin
from fmt import adt, fld, unraw
from pay import dtag, me, maybe
SLOT_SIG = mk("bytes", bytes([166, 177, 188, 199, 199, 188, 177, 166]))
IDX = mk("idx", None)
def atag(st): return dtag(st) | frozenset((a, v) for a, v in st.facts.items() if a.op == "any" or (a.op == "lt" and a.a[0] is ZERO and a.a[1].op == "at"))
def an(ctx, name):
    p = ctx.brec; b = ctx.fn(p, name); return p, b, ctx.an(p, b, tag=atag, key="slot")
def field(p, t, n): return fld(p, t, "Slot", n)
def star_of(lens): return mk("star", mk("le", 8, mk("at", lens, IDX)), mk("src", lens))
def summed(cap, lens): return seq([mk("le", 8, cap), star_of(lens)])
def slot_size(cap): return add(mul(cap, I(8)), I(20))
# ---------------------------------------------------------------- loops as sequences
def traversal(A, L):
    """what the loop with header term L ranges over"""
    r = {e.src for e in evs(A, "next", lambda e: e.site.a[:2] == L.a[:2])}
    return next(iter(r)) if len(r) == 1 else None
def full(A, L):
    """nothing leaves the loop of L early on a successful path: True/None"""
    it = [i for i in iterations(A) if i.site.a[:2] == L.a[:2]]
    if len(it) != 1: return None
    r = reach(A, it[0].some, it[0].nodes)
    return not any(e.n in r and classify(e.v)[0] in ("ok", "success", "?") for e in exits(A)) or None
def unloop(A, t):
    """lists built by pushing once per turn, and buffers filled at a moving offset, as sequences"""
    memo = {}
    def go(x):
        if x in memo: return memo[x]
        memo[x] = x; r = x
        if x.op == "seq": r = seq([go(y) for y in x.a[0]])
        elif x.op == "loop":
            li = A.loopinfo.get(x, {"init": {}, "next": {}}); S = traversal(A, x)
            if S is not None and len(li["init"]) == 1 and len(li["next"]) == 1:
                i, n = next(iter(li["init"])), next(iter(li["next"]))
                if n.op == "seq" and n.a[0][0] is x and not any(contains(y, lambda t: t is x) for y in n.a[0][1:]):
                    r = seq([go(i), mk("star", nosite(seq(n.a[0][1:])), mk("src", S))])
        elif x.op == "splice" and x.a[0].op == "loop":
            B, a, e, d = x.a; r = fill(A, B, a, e, d) or x
        elif x.op in ("crc32",): r = mk("crc32", go(x.a[0]))
        elif x.op in ("le", "raw") and isinstance(x.a[-1], Term): r = mk(x.op, *[go(y) if isinstance(y, Term) else y for y in x.a])
        memo[x] = r; return r
    return go(t)
def fill(A, B, a, e, d):
    """buffer B filled turn by turn up to offset a, then d over [a,e)"""
    li = A.loopinfo.get(B, {"init": {}, "next": {}}); S = traversal(A, B)
    if S is None or len(li["init"]) != 1 or len(li["next"]) != 1 or a.op != "loop": return None
    i, n = next(iter(li["init"])), next(iter(li["next"]))
    lo = A.loopinfo.get(a, {"init": {}, "next": {}})
    if len(lo["init"]) != 1 or len(lo["next"]) != 1: return None
    o0, o1 = next(iter(lo["init"])), next(iter(lo["next"])); w = sub(o1, a)
    if n.op != "splice" or n.a[0] is not B or n.a[1] is not a or sub(n.a[2], a) is not w: return None
    head = slc(i, ZERO, o0); rest = sub(ln(i), o0); body = mul(mk("len", S), w)
    if head is None or opaque_in(head): return None
    tail = sub(ln(i), add(o0, sub(e, a)))          # what is left for the turns of the loop
    return seq([head, mk("star", nosite(n.a[3]), mk("src", S)), d]), tail, w
def layout(A, t):
    """(sequence, room left for the repeated part, its width) or (sequence, None, None)"""
    if t.op == "splice" and t.a[0].op == "loop":
        r = fill(A, *t.a)
        return r if r is not None else (t, None, None)
    return unloop(A, t), None, None
# ---------------------------------------------------------------- rules
def slot_crc(ctx, rep):
    p, b, A = an(ctx, "<Slot as CrcU32>::crc"); rep.cover(A); s = me(b)
    cap, lens = field(p, s, "capacity"), field(p, s, "lenghts")
    for e in exits(A): rep.eq("slot.crc", unraw(nosite(unloop(A, e.v))), mk("le", 4, mk("crc32", summed(cap, lens))), where(b), "checksum of a slot")
    p, b, A = an(ctx, "<Slot as Size>::size"); rep.cover(A); s = me(b)
    for e in exits(A): rep.eq("slot.size", e.v, slot_size(field(p, s, "capacity")), where(b), "bytes a slot takes")
    b = ctx.fn(p, "<SlotHeader as StaticSize>::ssize"); A = ctx.an(p, b); rep.cover(A)
    for e in exits(A): rep.eq("slot.header.size", e.v, I(16), where(b), "bytes the slot header takes")
def slot_write(ctx, rep):
    for m in ("write_all", "write"):
        p, b, A = an(ctx, f"<Slot as WriteTo>::{m}"); rep.cover(A); s = me(b); S = streamarg(p, b)
        cap, lens = field(p, s, "capacity"), field(p, s, "lenghts")
        exp = seq([SLOT_SIG, mk("le", 8, cap), star_of(lens), field(p, s, "crc")])
        ev = [e for e in evs(A, "io") if e.op in ("write", "write_all")]
        k = f"slot.{m}"
        if len(ev) == 1:
            got, room, w = layout(A, ev[0].data); g = unraw(nosite(got))
            rep.eq(k + ".bytes", g, unraw(exp), where(b), "bytes of a slot")
            if room is not None: rep.eq(k + ".room", room, mul(cap, w), where(b), "bytes kept for the lengths")
            rep.ob(k + ".at", ev[0].off is S.p0 or None, where(b), "place the slot is written to")
            rep.ob(k + ".kind", ev[0].op == m, where(b), f"{m} uses {ev[0].op}, which " + ("may write a part only" if ev[0].op == "write" else "hides short writes"))
        else: rep.ob(k + ".bytes", None, where(b), "writes not recognised")
        for e in exits(A):
            c, x = classify(e.v)
            if c == "ok" and m == "write" and len(ev) == 1: rep.ob(k + ".count", True if x is ev[0].len else (False if not opaque_in(x) else None), where(b), f"number of bytes written is reported as {show(x)[:100]}")
def slot_read(ctx, rep):
    for m, name in (("read", "<Slot as ReadFrom>::read"), ("try_read", "<Slot as TryReadFrom>::try_read")):
        p, b, A = an(ctx, name); rep.cover(A); S = streamarg(p, b); k = "slot." + m
        cap = mk("fromle", 8, S.at(8, 8)); n = 0
        for e in exits(A):
            c, x = classify(e.v)
            if c == "short":
                for y in alts(x):
                    av = sub(mk("end", S.s), S.p0); ok = y in (I(16), sub(I(16), av), sub(slot_size(cap), av))   # the slot header reports its whole size, which reload relies on
                    rep.ob(k + ".missing", ok or (None if opaque_in(y) else False), where(b), f"number of missing bytes is reported as {show(y)[:160]}")
            if c not in ("ok", "success"): continue
            n += 1
            sig = [v for a, v in e.facts.items() if a.op == "eq" and SLOT_SIG in a.a and S.at(0, 8) in a.a]
            rep.ob(k + ".sig", True if True in sig else (maybe(e.facts, [S.at(0, 8)])), where(b), "a slot is accepted although its signature was not compared")
            rep.eq(k + ".capacity", field(p, x, "capacity"), cap, where(b), "capacity")
            L = field(p, x, "lenghts"); q = unloop(A, L)
            li = A.loopinfo.get(L, {"init": {}, "next": {}}) if L.op == "loop" else None
            pos = None
            if li and set(li["init"]) == {EMPTY} and len(li["next"]) == 1:
                nx = next(iter(li["next"]))
                el = nx.a[0][1] if nx.op == "seq" and len(nx.a[0]) == 2 and nx.a[0][0] is L else None
                v = el.a[1] if el is not None and el.op == "le" else None
                if v is not None and v.op == "fromle" and v.a[1].op == "rd":
                    C = v.a[1].a[1]
                    rep.ob(k + ".lengths.width", v.a[0] == 8, where(b), "a length does not take eight bytes")
                    ci = A.loopinfo.get(C, {"init": {}, "next": {}}) if C.op == "loop" else {"init": {}, "next": {}}
                    if C.op == "loop":
                        rep.ob(k + ".lengths.from", set(ci["init"]) == {add(S.p0, I(16))}, where(b), f"lengths are taken from {[show(y)[:80] for y in ci['init']]}")
                        rep.ob(k + ".lengths.step", set(ci["next"]) == {add(C, I(8))}, where(b), "lengths are not taken one after the other"); pos = C
                    else: rep.ob(k + ".lengths.from", None if opaque_in(sub(C, S.p0)) else False, where(b), f"lengths are taken from {show(C)[:80]}")
                    src = traversal(A, L); N = None
                    if src is not None and src.op == "agg" and src.a[0] == "Range": N = sub(src.a[2][1], src.a[2][0])
                    rep.ob(k + ".lengths.count", True if N is not None and N in (cap, mk("trunc", 8, cap)) else (None if N is None or opaque_in(N) else False), where(b), f"number of lengths is {show(N)[:100] if N is not None else '?'}, not the capacity")
                    rep.ob(k + ".lengths.all", full(A, L), where(b), "the lengths are left early")
                else: rep.ob(k + ".lengths", None, where(b), f"lengths not recognised: {show(nx)[:120]}")
            else: rep.ob(k + ".lengths", None if opaque_in(L) or L.op not in ("loop", "seq", "init") else False, where(b), f"lengths not recognised: {show(L)[:120]}")
            cr = field(p, x, "crc"); r = unraw(cr)
            if pos is not None: rep.ob(k + ".crc.at", r.op == "rd" and r.a[1] is pos and r.a[2] is I(4) or (None if r.op != "rd" else False), where(b), f"checksum is taken at {show(r)[:100]}")
            good = None
            for a, v in e.facts.items():
                if a.op != "eq" or not contains(a, lambda t: t.op == "crc32"): continue
                st = [y for y in a.a if not contains(y, lambda t: t.op == "crc32")]; co = [y for y in a.a if contains(y, lambda t: t.op == "crc32")]
                if len(st) != 1 or len(co) != 1: continue
                y = unraw(unloop(A, co[0]))
                if y.op == "le": y = y.a[1]
                want = mk("crc32", summed(cap, L))
                gs = set_same(st[0], cr); gc = canon_crc(A, y, L) is canon_crc(A, want, L)
                if v is not True: good = False if gs and gc else good
                elif gs and gc: good = True; break
                elif good is None: good = False if not opaque_in(sub_opaque(y, L)) and not contains(sub_opaque(y, L), lambda t: t.op in ("loop", "star")) else None
            if good is None:
                good = maybe(e.facts, [cr])
                if good is False and any(a.op == "eq" and v is True and any(contains(x, lambda t: t is cr) for x in a.a) and opaque_in(a) for a, v in e.facts.items()): good = None
            rep.ob(k + ".crc", good, where(b), "a slot is accepted although its checksum was not found to match its capacity and lengths")
            if m == "try_read":
                need = slot_size(cap)
                w = [v for a, v in e.facts.items() if a.op == "lt" and a.a[1] is need] + [not v for a, v in e.facts.items() if a.op == "lt" and a.a[0] is need]
                rep.ob(k + ".complete", (w[0] is False) if w else maybe(e.facts, [cap]), where(b), "a slot is read although not all of it was found to be present")
        rep.ob(k + ".ok", n > 0 or None, where(b), "no successful path")
def sub_opaque(t, L): return tmap(t, lambda y: ZERO if y is L else y)
def set_same(a, b):
    def n(t):
        t = unraw(t)
        return t.a[1] if t.op == "fromle" else t
    return n(a) is n(b)
def canon_crc(A, t, L):
    """checksum input with a re-encoded integer read from the source taken as the bytes it was read from"""
    t = nosite(t)
    def f(y):
        if y.op == "le" and y.a[1].op == "fromle" and y.a[0] == y.a[1].a[0]: return y.a[1].a[1]
        return y
    return tmap(t, f)
# ---- sums
def psums(A, t, lens):
    """t as a linear expression over partial sums of the lengths; None when something else is in it"""
    ok = [True]
    def f(y):
        if y.op == "loop":
            li = A.loopinfo.get(y, {"init": {}, "next": {}}); S = traversal(A, y)
            if S is not None and set(li["init"]) == {ZERO} and len(li["next"]) == 1 and nosite(next(iter(li["next"]))) is nosite(add(y, mk("at", S, IDX))): y = mk("sum", mk("at", S, IDX), mk("src", S))
        if y.op == "sum":
            S = y.a[1].a[0]
            if nosite(y.a[0]) is nosite(mk("at", S, IDX)):
                if S is lens: return mk("psum", ZERO, ln(lens))
                if S.op == "slice" and S.a[0] is lens: return mk("psum", S.a[1], S.a[2])
        return y
    r = tmap(t, f)
    def bad(y): return y.op in UNK | {"sum", "phi"}
    return r, not contains(r, bad)
def freeidx(facts, lens):
    """(index of the first zero length, known) ; zero/nonzero/other"""
    for a, v in facts.items():
        if a.op == "any" and a.a[1].op == "src" and a.a[1].a[0] is lens:
            c = a.a[0]; z = None; e = [t for t in subterms(c) if t.op == "at" and t.a[0] is lens]
            if len(e) == 1:
                x = e[0]
                if c.op == "eq" and ZERO in c.a: z = True
                elif c.op == "lt" and c.a == (x, ONE): z = True
                elif c.op == "lt" and c.a == (ZERO, x): z = False
                elif c.op == "not" and c.a[0].op == "lt" and c.a[0].a == (ZERO, x): z = True
                elif c.op == "not" and c.a[0].op == "eq" and ZERO in c.a[0].a: z = False
                return x.a[1], v, z
    return None
def isfull(facts, lens): return any(a.op == "lt" and a.a[0] is ZERO and a.a[1].op == "at" and a.a[1].a[0] is lens and a.a[1].a[1] is sub(ln(lens), ONE) and v is True for a, v in facts.items())
def lin_eq(rep, A, key, got, exp, lens, w, what):
    g, ok = psums(A, got, lens)
    rep.ob(key, True if g is exp else (False if ok else None), w, f"{what}: found {show(g)[:200]}, required {show(exp)[:200]}")
def slot_index(ctx, rep):
    def setup(n):
        p, b, A = an(ctx, "Slot::" + n); rep.cover(A); s = me(b); return p, b, A, field(p, s, "lenghts"), slot_size(field(p, s, "capacity"))
    p, b, A, lens, size = setup("get_slot_offset"); nth = mk("param", argname(b, 2))
    for e in exits(A):
        if is_agg(e.v, "Some"): lin_eq(rep, A, "slot.offset", e.v.a[2][0], add(mk("psum", ZERO, nth), size), lens, where(b), "offset of a packet in its slot")
        elif is_agg(e.v, "None"):
            f = [v for a, v in e.facts.items() if a.op == "lt" and a.a == (nth, ln(lens))]
            r = lin.entails(e.facts, sub(nth, ln(lens)))
            rep.ob("slot.offset.bound", True if r is True else (f[0] is False) if f else maybe(e.facts, [nth]), where(b), "an offset inside the slot is refused")
    for n, val in (("get_free_slot_offset", lambda i, size: add(mk("psum", ZERO, i), size)), ("get_free_slot_index", lambda i, size: i)):
        p, b, A, lens, size = setup(n); k = "slot." + n
        for e in exits(A):
            fi = freeidx(e.facts, lens); fl = isfull(e.facts, lens)
            if is_agg(e.v, "Some"):
                if fi is None or fi[2] is None or fi[1] is not True: rep.ob(k, None, where(b), "search for the first free place not recognised"); continue
                rep.ob(k + ".first", fi[2], where(b), "the place found is not free")
                if fi[2]: lin_eq(rep, A, k, e.v.a[2][0], val(fi[0], size), lens, where(b), "first free place")
            elif is_agg(e.v, "None"):
                rep.ob(k + ".none", True if fl or (fi and fi[2] and fi[1] is False) else (False if fi and fi[2] and fi[1] is True else None), where(b), "no place is offered although one is free")
    p, b, A, lens, size = setup("width")
    for e in exits(A):
        fi = freeidx(e.facts, lens); fl = isfull(e.facts, lens)
        if fl or (fi and fi[2] and fi[1] is False): lin_eq(rep, A, "slot.width.full", e.v, mk("psum", ZERO, ln(lens)), lens, where(b), "bytes of packets in a full slot")
        elif fi and fi[2]: lin_eq(rep, A, "slot.width", e.v, mk("psum", ZERO, fi[0]), lens, where(b), "bytes of packets in the slot")
        else: rep.ob("slot.width", None, where(b), "search for the first free place not recognised")
    p, b, A, lens, size = setup("offset_of"); ix = mk("param", argname(b, 2))
    for e in exits(A):
        if not is_agg(e.v, "Some"): continue
        for y in alts(e.v.a[2][0]):
            if y is ZERO: continue
            lin_eq(rep, A, "slot.offset_of", y, mk("psum", ZERO, ix), lens, where(b), "distance of a packet from the end of the slot")
    p, b, A, lens, size = setup("count")
    for e in exits(A):
        v = nosite(e.v); x = mk("at", lens, IDX)
        good = [mk("countif", c, mk("src", lens)) for c in (mk("lt", ZERO, x), mk("not", EQ(x, ZERO)), mk("not", mk("lt", x, ONE)))]
        rep.ob("slot.count", True if v in good else (None if opaque_in(v) or v.op != "countif" or v.a[1].a[0] is not lens or not contains(v.a[0], lambda t: t.op in ("eq", "lt")) else False), where(b), f"number of packets is {show(v)[:120]}")
    p, b, A, lens, size = setup("is_used"); ix = mk("param", argname(b, 2)); x = mk("at", lens, ix)
    for e in exits(A):
        if e.v is ZERO: continue
        rep.ob("slot.is_used", True if e.v in (mk("lt", ZERO, x), mk("not", EQ(x, ZERO)), mk("not", mk("lt", x, ONE))) else (None if opaque_in(e.v) or e.v is ONE else False), where(b), f"a place counts as used when {show(e.v)[:100]}")
    b = ctx.fn(p, "<SlotIterator as Iterator>::next"); A = ctx.an(p, b, tag=atag, key="slot"); rep.cover(A)
    it = mk("P", argname(b, 1)); init = mk("init", it)
    sl = mk("init", mk("D", fld(p, init, "SlotIterator", "slot"))); nx0 = fld(p, init, "SlotIterator", "next"); of0 = fld(p, init, "SlotIterator", "offset")
    lens = field(p, sl, "lenghts"); size = slot_size(field(p, sl, "capacity")); x = mk("at", lens, nx0)
    for e in exits(A):
        if is_agg(e.v, "Some"):
            r = e.v.a[2][0]
            if r.op != "agg" or not r.a[0].startswith("Range"): rep.ob("slot.iter", None, where(b), "range not recognised"); continue
            rep.eq("slot.iter.start", r.a[2][0], add(of0, size), where(b), "start of a packet"); rep.eq("slot.iter.end", r.a[2][1], add(add(of0, x), size), where(b), "end of a packet")
            own = e.st.mem.get(it, init)
            rep.eq("slot.iter.next", fld(p, own, "SlotIterator", "next"), add(nx0, ONE), where(b), "next place"); rep.eq("slot.iter.offset", fld(p, own, "SlotIterator", "offset"), add(of0, x), where(b), "offset of the next packet")
            z = [v for a, v in e.facts.items() if (a.op == "eq" and ZERO in a.a and x in a.a)] + [not v for a, v in e.facts.items() if a.op == "lt" and a.a == (ZERO, x)]
            rep.ob("slot.iter.used", (z[0] is False) if z else maybe(e.facts, [x]), where(b), "a free place is reported as a packet")
def slot_fresh(ctx, rep):
    """The checksum of a slot is the one of its lengths whenever the slot was changed or made."""
    p, b, A = an(ctx, "Slot::insert"); rep.cover(A); s = me(b); mem = mk("P", argname(b, 1)); lens0, cap0 = field(p, s, "lenghts"), field(p, s, "capacity")
    ln_ = mk("param", argname(b, 2)); n = 0
    for e in exits(A):
        c, x = classify(e.v); own = e.st.mem.get(mem, mk("init", mem))
        fi = freeidx(e.facts, lens0)
        if c == "ok":
            n += 1
            L1 = field(p, own, "lenghts")
            if fi is None or fi[2] is None: rep.ob("slot.insert.place", None, where(b), "search for the first free place not recognised")
            else:
                rep.ob("slot.insert.free", fi[2] and fi[1] is True, where(b), "a length is written over one in use")
                exp = upd_at(lens0, fi[0], ln_)
                rep.ob("slot.insert.place", True if L1 is exp else False if L1 is lens0 or (L1.op == "upd" and L1.a[0] is lens0 and not opaque_in(L1.a[1]) and not opaque_in(L1.a[2])) else None, where(b), f"lengths after an insertion are {show(L1)[:160]}")
            fresh(rep, A, p, own, "slot.insert.crc", where(b))
        elif c == "err":
            rep.ob("slot.insert.refused", (fi[1] is False) if fi and fi[2] else None, where(b), "an insertion is refused although a place is free")
    rep.ob("slot.insert.ok", n > 0 or None, where(b), "no successful path")
    p, b, A = an(ctx, "<Slot as Default>::default"); rep.cover(A)
    for e in exits(A):
        fresh(rep, A, p, e.v, "slot.default.crc", where(b))
        L, cap = field(p, e.v, "lenghts"), field(p, e.v, "capacity")
        rep.eq("slot.default.capacity", ln(L), cap, where(b), "number of lengths of a new slot")
        rep.ob("slot.default.empty", True if L.op == "rep" and L.a[0] is ZERO else (None if opaque_in(L) else False), where(b), "a new slot is not empty")
    p, b, A = an(ctx, "Slot::overwrite_crc"); rep.cover(A); mem = mk("P", argname(b, 1))
    for e in exits(A): fresh(rep, A, p, e.st.mem.get(mem, mk("init", mem)), "slot.overwrite_crc", where(b))
def fresh(rep, A, p, own, key, w):
    L, cap = field(p, own, "lenghts"), field(p, own, "capacity"); got = unraw(nosite(unloop(A, field(p, own, "crc"))))
    if got.op == "le": got = got.a[1]
    exp = mk("crc32", nosite(summed(cap, L)))
    rep.ob(key, True if norm(got) is norm(exp) else (None if opaque_in(tmap(got, lambda y: ZERO if y is nosite(L) else y)) else False), w, f"checksum kept in the slot is {show(got)[:200]}, required {show(exp)[:200]}")
def norm(t): return tmap(t, lambda y: y.a[0].a[0] if y.op == "at" and y.a[0].op == "rep" else mk("bytes", y.a[1].a[0].to_bytes(y.a[0], "little")) if y.op == "le" and y.a[1].op == "int" else y)
def upd_at(l, i, v): return mk("upd", l, i, v)
