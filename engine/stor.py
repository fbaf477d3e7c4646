"""Storage writer and loading: where slots and packets are placed."""
from core import *
import fmt, pkt, slot
from fmt import adt, fld
from pay import dtag, ctag, me, maybe
from rul import walk
LOC = ("FreeSlotLocator::next", "FreeSlotLocator::insert", "FreeSlotLocator::current", "FreeSlotLocator::setup")
SLOTS = ("Slot::width", "Slot::get_free_slot_offset", "Slot::get_free_slot_index", "Slot::insert", "Slot::get_slot_offset")
READSLOT = "<Slot as TryReadFrom>::try_read"
WRITESLOT = "<Slot as WriteTo>::write_all"
WRITEPKT = "<PacketDef as WriteMutTo>::write_all"
MK = "<Slot as Default>::default"
def selftag(st): return frozenset((k, v) for k, v in st.mem.items() if k.op == "P")
def anchors(ctx, *names):
    for n in names: ctx.fn(ctx.brec, n)
def ssz(p, s): return slot.slot_size(slot.field(p, s, "capacity"))
def widths(t, s):
    """t without the width of s: the call `width` on s taken once"""
    ws = [y for y in subterms(t) if y.op == "call" and y.a[0] == "Slot::width" and y.a[1][0] is s]
    return sub(t, ws[0]) if len(set(ws)) == 1 else None
def uncall(t):
    """calls without their site, to compare values of pure getters"""
    return nosite(t)
def locator(ctx, rep):
    p = ctx.brec; anchors(ctx, *SLOTS)
    F = lambda own, n: fld(p, own, "FreeSlotLocator", n)
    b = ctx.fn(p, "FreeSlotLocator::next"); A = ctx.an(p, b, opaque=SLOTS, tag=lambda st: selftag(st) | ctag(st), key="loc"); rep.cover(A)
    mem = mk("P", argname(b, 1)); init = mk("init", mem); slots = me(b, 2); i0, o0 = F(init, "next"), F(init, "slot_offset")
    def free(sl): return nosite(mk("call", "Slot::get_free_slot_offset", (sl,), None))
    n = 0
    for e in exits(A):
        own = e.st.mem.get(mem, init); i1, o1 = F(own, "next"), F(own, "slot_offset"); k = sub(i1, i0)
        if k.op != "int" or not 0 <= k.a[0] <= 4: rep.ob("locator.next.advance", None, where(b), f"slot index becomes {show(i1)[:80]}"); continue
        exp = o0
        for j in range(k.a[0]):
            sl = mk("at", slots, add(i0, I(j)))
            exp = add(exp, add(ssz(p, sl), nosite(mk("call", "Slot::width", (sl,), None))))
            fs = [v for a, v in e.facts.items() if a.op == "discr" and nosite(a.a[0]) is free(sl)]
            rep.ob("locator.next.full", (fs[0] == "None") if fs else None, where(b), "a slot with a free place is passed over")
        got = nosite(o1)
        rep.ob("locator.next.offset", True if got is exp else (None if opaque_in(tmap(got, lambda y: ZERO if y.op == "call" and y.a[0] in SLOTS else y)) else False), where(b), f"offset of the slot looked at becomes {show(got)[:200]}, required {show(exp)[:200]}")
        if is_agg(e.v, "Some"):
            n += 1; sl = mk("at", slots, i1)
            v = nosite(e.v.a[2][0]); w = add(got, getf(free(sl), "Some", 0))
            rep.ob("locator.next.place", True if v is w else (None if opaque_in(tmap(v, lambda y: ZERO if y.op == "call" and y.a[0] in SLOTS else y)) else False), where(b), f"place for the next packet is {show(v)[:200]}, required {show(w)[:200]}")
    rep.ob("locator.next.some", n > 0 or None, where(b), "no place is ever found")
    b = ctx.fn(p, "FreeSlotLocator::setup"); A = ctx.an(p, b, opaque=SLOTS, key="loc"); rep.cover(A)
    mem = mk("P", argname(b, 1)); init = mk("init", mem); o0 = F(init, "slot_offset")
    for e in exits(A):
        own = e.st.mem.get(mem, init); i1, o1 = F(own, "next"), F(own, "slot_offset")
        li, lo = A.loopinfo.get(i1), A.loopinfo.get(o1)
        if not li or not lo or i1.a[:2] != o1.a[:2]: rep.ob("locator.setup.loop", None, where(b), "traversal of the slots not recognised"); continue
        rep.ob("locator.setup.start", set(li["init"]) == {ZERO}, where(b), "the first slot is left out")
        rep.ob("locator.setup.from", set(lo["init"]) <= {ZERO, o0}, where(b), "offset of the first slot is wrong")
        rep.ob("locator.setup.step", set(li["next"]) == {add(i1, ONE)} or (None if any(opaque_in(sub(y, i1)) for y in li["next"]) else False), where(b), "slot index does not follow the slots")
        for y in lo["next"]:
            d = sub(y, o1); ws = {t.a[1][0] for t in subterms(d) if t.op == "call" and t.a[0] == "Slot::width"}
            if len(ws) != 1: rep.ob("locator.setup.width", None if opaque_in(d) else False, where(b), f"offset of the next slot grows by {show(d)[:160]}"); continue
            sl = next(iter(ws)); r = widths(d, sl)
            rep.ob("locator.setup.width", None if r is None else True if r is ssz(p, sl) else False, where(b), f"offset of the next slot grows by {show(d)[:160]}, not by size and width of the slot")
        # only a full slot is passed over
        def none(lab): return lab is not None and isinstance(lab[0], Term) and lab[0].op == "discr" and lab[0].a[0].op == "call" and lab[0].a[0].a[0] in ("Slot::get_free_slot_offset", "Slot::get_free_slot_index") and lab[1] == "None"
        nx = {c.node for c in evs(A, "call", lambda c: c.name.endswith("::next"))} | {c.node for c in evs(A, "next")}
        fr = {c.node for c in calls(A, "Slot::get_free_slot_offset", "Slot::get_free_slot_index")}
        if fr and nx:
            free_ = walk(A, [m for c in nx for m, lab in A.succ[c] if lab and lab[1] == "Some"], nx, none)
            again = any(m in nx for q in free_ for m, lab in A.succ[q] if not none(lab))
            rep.ob("locator.setup.full", not again, where(b), "a slot with a free place is passed over")
        else: rep.ob("locator.setup.full", None, where(b), "test for a free place not recognised")
    b = ctx.fn(p, "FreeSlotLocator::current"); A = ctx.an(p, b); rep.cover(A); s = me(b)
    for e in exits(A):
        if e.v.op == "agg" and len(e.v.a[2]) == 2:
            rep.eq("locator.current.index", e.v.a[2][0], F(s, "next"), where(b), "index of the current slot"); rep.eq("locator.current.offset", e.v.a[2][1], F(s, "slot_offset"), where(b), "offset of the current slot")
    b = ctx.fn(p, "FreeSlotLocator::insert"); A = ctx.an(p, b, opaque=SLOTS, key="loc"); rep.cover(A); s = me(b); slots = me(b, 2)
    c = calls(A, "Slot::insert")
    rep.ob("locator.insert.call", bool(c) or None, where(b), "the length is not entered into a slot")
    for x in c:
        rep.eq("locator.insert.slot", x.vals[0], mk("at", slots, F(s, "next")), where(b), "slot the length is entered into"); rep.eq("locator.insert.length", x.vals[1], mk("param", argname(b, 3)), where(b), "length entered")
    free_ = reach(A, [0], {x.node for x in c})
    for e in exits(A):
        k, x = classify(e.v)
        if k == "ok":
            rep.ob("locator.insert.done", e.n not in free_, where(b), "reports success without entering the length")
            bad = [v for a, v in e.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0] == "Slot::insert"]
            rep.ob("locator.insert.result", bad[0] == "Ok" if bad else None, where(b), "reports success although the slot refused the length")
def load(ctx, rep):
    """Slots are read one behind the other, each slot followed by its packets."""
    p = ctx.brec; anchors(ctx, READSLOT, "Slot::width", "FreeSlotLocator::setup")
    for T in ("WriterDef", "ReaderDef"):
        b = ctx.fn(p, T + "::new"); A = ctx.an(p, b, opaque=("Slot::width", READSLOT, "FreeSlotLocator::setup"), tag=lambda st: frozenset((a, v) for a, v in st.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0] == READSLOT), key="load"); rep.cover(A); k = f"load.{T}"
        rd = evs(A, "call", lambda c: c.rn == READSLOT)
        if not rd: rep.ob(k, None, where(b), "reading of slots not found"); continue
        rn = {c.node for c in rd}
        for e in exits(A):
            c, x = classify(e.v)
            if c != "ok": continue
            own = x; L = fld(p, own, T, "slots"); li = A.loopinfo.get(L)
            if not li or len(li["next"]) != 1: rep.ob(k + ".slots", None, where(b), f"slots not recognised: {show(L)[:100]}"); continue
            rep.ob(k + ".slots.start", set(li["init"]) == {EMPTY}, where(b), "slots are there before any is read")
            nx = next(iter(li["next"]))
            if not (nx.op == "seq" and len(nx.a[0]) == 2 and nx.a[0][0] is L and nx.a[0][1].op == "le"): rep.ob(k + ".slots", None, where(b), f"slots not recognised: {show(nx)[:100]}"); continue
            el = nx.a[0][1].a[1]; sl = el; at_ = None
            if is_agg(el) and el.a[0] == "AnchoredSlot": sl = fld(p, el, "AnchoredSlot", "inner"); at_ = fld(p, el, "AnchoredSlot", "offset")
            rep.ob(k + ".slots.read", pkt.blkres(sl).op == "call" and pkt.blkres(sl).a[0] == READSLOT or None, where(b), "what is kept is not the slot read")
            # position of every slot
            for c in rd:
                s = stream_of(c)
                pos = c.st.cur.get(s) if s is not None else None
                lo = A.loopinfo.get(pos) if pos is not None else None
                if not lo: rep.ob(k + ".position", None, where(b, c.line), f"position a slot is read at not recognised: {show(pos)[:80] if pos is not None else '?'}"); continue
                rep.ob(k + ".position.start", set(lo["init"]) == {ZERO} or (None if any(opaque_in(y) or y.op == "pos" for y in lo["init"]) else False), where(b, c.line), "the first slot is not read from the start")
                for y in lo["next"]:
                    d = sub(y, pos); r = widths(d, sl)
                    rep.ob(k + ".position.next", True if r is not None and r is ssz(p, sl) else (None if opaque_in(tmap(d, lambda t: ZERO if t.op == "call" and t.a[0] in ("Slot::width", READSLOT) else t)) else False), where(b, c.line), f"the next slot is looked for {show(d)[:160]} further, not behind the slot and its packets")
                if at_ is not None: rep.ob(k + ".offset", True if at_ is pos else (None if opaque_in(sub(at_, pos)) and at_.op != "loop" else False), where(b), "the offset kept for a slot is not where it was read")
            def short(lab): return lab is not None and isinstance(lab[0], Term) and ((lab[0].op == "discr" and contains(lab[0], lambda t: t.op == "call" and t.a[0] == READSLOT) and lab[1] in ("NotEnoughData", "n")))
            starts = [m for n in rn for m, lab in A.succ[n] if not short(lab)]
            free_ = walk(A, starts, rn, short)
            rep.ob(k + ".end", e.n not in free_, where(b), "loading ends with success although a slot could be read or was refused")
        st = calls(A, "FreeSlotLocator::setup")
        okn = {e.n for e in exits(A) if classify(e.v)[0] == "ok"}
        rep.ob(k + ".setup", not (reach(A, [0], {c.node for c in st}) & okn), where(b), "the place for the next packet is not looked for")
        for c in st:
            L2 = c.vals[1]
            rep.ob(k + ".setup.all", True if L2.op == "agg" and L2.a[0] == "It" else None, where(b), "slots handed to the locator not recognised")
def stream_of(c): return c.args[0] if c.args else None
def insert(ctx, rep):
    p = ctx.brec; anchors(ctx, *LOC[:3], WRITESLOT, WRITEPKT)
    NX = LOC[0]
    b = ctx.fn(p, "WriterDef::insert")
    A = ctx.an(p, b, opaque=LOC + (WRITESLOT, WRITEPKT, MK), tag=lambda st: frozenset((a, v) for a, v in st.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0] == NX), key="ins"); rep.cover(A)
    mem = mk("P", argname(b, 1)); init = mk("init", mem); pk = mk("param", argname(b, 2))
    ix = [f[0] if isinstance(f, (list, tuple)) else f for f in adt(p, "WriterDef")["variants"][0]["f"]].index("inner")
    S = mk("ref", mem, (("f", None, ix),)); slots0 = fld(p, init, "WriterDef", "slots")
    ok = [e for e in exits(A) if classify(e.v)[0] == "ok"]; okn = {e.n for e in ok}
    rep.ob("insert.ok", bool(ok) or None, where(b), "no successful path")
    ser = evs(A, "call", lambda c: c.rn == WRITEPKT); ins = calls(A, LOC[1]); cur = calls(A, LOC[2]); nxt = calls(A, NX); wsl = evs(A, "call", lambda c: c.rn == WRITESLOT)
    if not (ser and ins and cur and nxt and wsl): rep.ob("insert.steps", None, where(b), f"steps not recognised: {[len(x) for x in (ser, ins, cur, nxt, wsl)]}"); return
    bufs = {}   # contents after serialising
    for c in ser:
        rep.ob("insert.packet", contains(c.vals[0], lambda t: t is pk) or None, where(b, c.line), "what is written is not the packet")
        rep.ob("insert.buffer", c.vals[1] is EMPTY or (None if opaque_in(c.vals[1]) else False), where(b, c.line), "the packet is not written to an empty buffer")
    def isbuf(t): return t.op == "havoc" and t.a[0].endswith("::write_all") and any(str(t.a[1]) == str(c.site) for c in ser)
    for c in ins:
        l = c.vals[2]
        rep.ob("insert.length", True if l.op == "len" and isbuf(l.a[0]) else (None if opaque_in(l) else False), where(b, c.line), f"length entered is {show(l)[:120]}, not that of the bytes of the packet")
        rep.ob("insert.slots", contains(c.vals[1], lambda t: t is slots0) or None, where(b, c.line), "slots handed to the locator not recognised")
    rep.ob("insert.serialised.first", not (reach(A, [0], {c.node for c in ser}) & {c.node for c in ins}), where(b), "the slot is changed before the packet is known to be writable")
    pw = [e for e in evs(A, "io", lambda e: e.op in ("write", "write_all") and e.stream is S)]
    pwn = [e for e in pw if isbuf(e.data) ]
    rep.ob("insert.short", all(e.op == "write_all" for e in pw), where(b), "a short write goes unnoticed")
    # both parts are written, each at its place
    slotn = {c.node for c in wsl}; packn = {e.node for e in pwn}
    rep.ob("insert.slot.written", not (reach(A, [0], slotn) & okn), where(b), "reports success although the slot was not written")
    rep.ob("insert.packet.written", (not (reach(A, [0], packn) & okn)) if packn else None, where(b), "reports success although the packet was not written")
    curr = [mk("call", LOC[2], tuple(c.vals), None) for c in cur]
    for c in wsl:
        at_ = c.st.cur.get(S); v = c.vals[0]
        cc = [t for t in subterms(at_) if t.op == "call" and t.a[0] == LOC[2]] if at_ is not None else []
        good = None
        if at_ is not None and at_.op == "fld" and at_.a[0].op == "call" and at_.a[0].a[0] == LOC[2]:
            good = at_.a[2] == 1
            rep.ob("insert.slot.which", True if v.op == "at" and v.a[1] is getf(at_.a[0], None, 0) else (None if v.op != "at" else False if not opaque_in(tmap(v.a[1], lambda t: ZERO if t.op == "call" and t.a[0] == LOC[2] else t)) else None), where(b, c.line), "the slot written is not the current one")
            fresh = contains(at_.a[0], lambda t: t.op == "havoc" and t.a[0] == LOC[1])
            rep.ob("insert.slot.fresh", contains(v, lambda t: t.op == "havoc" and t.a[0] == LOC[1]), where(b, c.line), "the slot is written without the length just entered")
        elif at_ is not None and not opaque_in(sub(at_, mk("pos", S))): good = False
        rep.ob("insert.slot.at", good, where(b, c.line), f"the slot is written at {show(at_)[:120] if at_ is not None else '?'}, not at its offset")
    for e in pwn:
        f = [(a.a[0], v) for a, v in e.st.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0] == NX] if e.st else []
        some = [t for t, v in f if v == "Some"]
        if len(some) != 1: rep.ob("insert.packet.at", None, where(b, e.line), "place of the packet not known"); continue
        w = getf(some[0], "Some", 0)
        rep.ob("insert.packet.at", True if e.off is w else (None if e.off.op == "phi" or opaque_in(tmap(sub(e.off, w), lambda t: ZERO if t.op == "call" and t.a[0] in LOC else t)) else False), where(b, e.line), f"the packet is written at {show(e.off)[:120]}, not at the free place found")
    rep.ob("insert.place.first", not (reach(A, [c.node for c in ins]) & {c.node for c in nxt}), where(b), "the place is looked for after the length was entered")
    # nothing else is written to the storage
    other = [e for e in pw if e not in pwn]
    rep.ob("insert.nothing.else", (None if any(opaque_in(e.data) for e in other) else False) if other else True, where(b), f"something else is written to the storage: {[show(e.data)[:80] for e in other]}")
    fl = {e.node for e in evs(A, "io", lambda e: e.op == "flush" and e.stream is S)} | {e.node for e in evs(A, "flush")}
    last = slotn | packn
    rep.ob("insert.flush", not (reach(A, [m for n in last for m, _ in A.succ[n]], fl) & okn), where(b), "reports success without flushing what was written")
    # a new slot is an empty default slot, added when there is no place
    for e in ok:
        f = [(a.a[0], v) for a, v in e.facts.items() if a.op == "discr" and a.a[0].op == "call" and a.a[0].a[0] == NX]
        none = [t for t, v in f if v == "None"]; some = [t for t, v in f if v == "Some"]
        if some: 
            arg = some[0].a[1][1]
            if none: rep.ob("insert.grow", True if arg.op == "seq" and len(arg.a[0]) == 2 and arg.a[0][0] is slots0 and contains(arg.a[0][1], lambda t: t.op == "call" and t.a[0] == MK) else None, where(b), "storage grows by something else than one new slot")
            else: rep.ob("insert.grow", arg is slots0 or None, where(b), "storage grows although there is a free place")
        bad = [t for t, v in f if v == "None" and not some]
        rep.ob("insert.found", not bad, where(b), "goes on without a place for the packet")
