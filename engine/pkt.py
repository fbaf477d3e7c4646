"""Packet rules: writing, reading a packet from its source, filtering."""
from core import *
import spec, fmt, models
from fmt import adt, fld, unraw, ioslices
from pay import dtag, call_, Okf, phbytes, psig, pcrc, psize, me, bb, maybe

def header_terms(blocks, payload):
    """(size, blocks_len, flag, crc) the header of a packet must carry; payload is a term or None"""
    bl = mk("sum", call_("Size::size", mk("at", blocks, mk("idx", None))), mk("src", blocks))
    sz = bl if payload is None else add(add(bl, ln(phbytes(psig(payload), pcrc(payload), I(0)))), psize(payload))
    fl = ZERO if payload is None else ONE
    return sz, bl, fl, mk("crc32", seq([mk("le", 8, sz), mk("le", 8, bl), mk("bytes", bytes([fl.a[0]]))]))
def header_bytes(blocks, payload):
    sz, bl, fl, crc = header_terms(blocks, payload)
    return seq([spec.PACKET_SIG, mk("le", 8, sz), mk("le", 8, bl), mk("bytes", bytes([fl.a[0]])), mk("le", 4, crc)])
def dval(facts, t):
    for a, v in facts.items():
        if a.op == "discr" and a.a[0] is t: return v
    return None
def header_new(ctx, rep):
    p = ctx.brec; b = ctx.fn(p, "PacketHeader::new"); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A)
    blocks = me(b, 1); pl = mk("param", argname(b, 2))
    ok = [(e, x) for e in exits(A) for c, x in [classify(e.v)] if c == "ok"]
    rep.ob("packet.header.new.ok", len(ok) >= 2 or None, where(b), "cannot tell packets with and without payload apart")
    for e, v in ok:
        d = dval(e.facts, pl)
        if d is None: rep.ob("packet.header.new", None, where(b), "cannot tell packets with and without payload apart"); continue
        x = mk("init", mk("D", getf(pl, "Some", 0))) if d == "Some" else None
        sz, bl, fl, crc = header_terms(blocks, x); v = nosite(v)
        for n, t, msg in (("size", sz, "announced packet size"), ("blocks_len", bl, "announced length of the blocks"), ("payload", fl, "payload flag"), ("crc", crc, "header checksum")):
            rep.eq(f"packet.header.new.{d}.{n}", fld(p, v, "PacketHeader", n), t, where(b), msg)

def traversed(i, X):
    """does this loop visit every element of X once, in order"""
    if all(s is X or (s.op == "agg" and s.a[0] == "Range" and s.a[2][0] is ZERO and s.a[2][1] is ln(X)) for s in i.srcs): return True
    return None if any(opaque_in(s) for s in i.srcs) else False
def runs(A, ex, S):
    """bytes written contiguously from S.p0 on, up to the first gap: (data, position reached)"""
    ev = fmt.writes(A, ex, S.s); pos = S.p0; parts = []; used = set()
    while True:
        nxt = {(e.data, e.len) for e in ev if e.off is pos}
        if len(nxt) != 1 or pos in used: return seq(parts), pos, len(nxt) == 0
        used.add(pos); (d, l), = nxt
        parts.append(d); pos = add(pos, l)
def packet_write(ctx, rep):
    p = ctx.brec
    for m in ("write_all", "write"):
        b = ctx.fn(p, f"<PacketDef as WriteMutTo>::{m}"); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A); S = streamarg(p, b); s = me(b)
        blocks = fld(p, s, "PacketDef", "blocks"); pl = fld(p, s, "PacketDef", "payload"); plv = getf(pl, "Some", 0)
        bw = [e for e in calls(A, f"WriteTo::{m}") if any(contains(v, lambda t: t is blocks) for v in e.vals[:1])]
        pw = [e for e in calls(A, f"WriteMutTo::{m}") if e.vals[0] is plv]
        k = f"packet.{m}"
        it = [i for i in iterations(A) if i.nodes and any(e.node in i.body() for e in bw)]
        if not bw: rep.ob(k + ".blocks", None, where(b), "block writes not found"); continue
        rep.ob(k + ".blocks.each", all(e.vals[0].op == "at" and e.vals[0].a[0] is blocks for e in bw) or None, where(b), "what is written is not the blocks of the packet")
        if len(it) == 1:
            i = it[0]; bwn = {e.node for e in bw}
            rep.ob(k + ".blocks.all", traversed(i, blocks), where(b), f"the blocks are traversed as {[show(x) for x in i.srcs]}, not once each in order")
            skip = reach(A, i.some, bwn) & i.nodes
            rep.ob(k + ".blocks.noskip", not skip, where(b), "a block can be passed over without being written")
        else: rep.ob(k + ".blocks.all", None, where(b), "traversal of the blocks not recognised")
        oks = [(e, x) for e in exits(A) for c, x in [classify(e.v)] if c == "ok"]
        rep.ob(k + ".ok", oks, where(b), "no successful path")
        if len(it) == 1 and m == "write_all":
            early = [e for e, x in oks if e.n in reach(A, it[0].some, it[0].nodes)]
            rep.ob(k + ".blocks.complete", not early, where(b), "reports success before all blocks are written")
        for e, x in oks:
            d = dval(e.facts, pl)
            if d is None: rep.ob(k + ".payload", None, where(b), "cannot tell packets with and without payload apart"); continue
            hb = header_bytes(blocks, plv if d == "Some" else None)
            got, pos, gap = runs(A, e, S)
            if m == "write_all":
                rep.eq(f"{k}.{d}.header", nosite(unraw(got)) if gap else None, unraw(hb), where(b), "bytes written ahead of the blocks")
            cur = S.cur(e.st)
            for c in alts(cur):
                q = c; shape = []
                while q is not None:
                    if q.op == "pos_after":
                        site = q.a[0]; shape.append("payload" if any(str(w.site) == str(site) for w in pw) else "block" if any(str(w.site) == str(site) for w in bw) else "?"); q = q.a[1]
                    elif q.op == "loop":
                        li = A.loopinfo.get(q, {"init": {}, "next": {}})
                        nx = list(li["next"]); good = all(y.op == "pos_after" and y.a[1] is q and any(str(w.site) == str(y.a[0]) for w in bw) for y in nx)
                        shape.append("blocks" if good else "?"); ini = list(li["init"])
                        q = ini[0] if len(ini) == 1 else None
                        if q is None: shape.append("?")
                    else:
                        if q is not pos: shape.append("?")
                        else: shape.append("header")
                        q = None
                shape = list(reversed(shape))
                exp = ["header", "blocks"] + (["payload"] if d == "Some" else [])
                if m == "write":   # may stop early after a short write
                    if "?" in shape: r = None
                    else:
                        r = shape == exp or (shape in (["header"], ["header", "blocks", "block"], ["header", "blocks", "payload"]))
                else: r = None if "?" in shape else shape == exp
                if len(it) != 1 and "block" in shape: r = None      # traversal not recognised
                rep.ob(f"{k}.{d}.order", r, where(b), f"a packet is written as {' '.join(shape)}, the format says {' '.join(exp)}")
    b = ctx.fn(p, "<PacketDef as WriteVectoredMutTo>::slices"); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A); s = me(b)
    blocks = fld(p, s, "PacketDef", "blocks"); pl = fld(p, s, "PacketDef", "payload"); plv = getf(pl, "Some", 0)
    blk = getf(nosite(Okf(mk("call", "WriteVectoredTo::slices", (mk("at", blocks, mk("idx", None)),), None))), None, 0)
    pls = getf(Okf(call_("WriteVectoredMutTo::slices", plv)), None, 0)
    for e in exits(A):
        c, x = classify(e.v)
        if c != "ok": continue
        d = dval(e.facts, pl)
        if d is None or not (x.op == "agg" and x.a[0] == "IoSlices"): rep.ob("packet.slices", None, where(b), "cannot follow the slices"); continue
        for y in alts(x.a[2][0]):
            shape = []
            def walk(t):
                for q in segs(t):
                    if q.op == "loop":
                        li = A.loopinfo.get(q, {"init": {}, "next": {}}); ini = list(li["init"])
                        hs = [unraw(header_bytes(blocks, plv if z == "Some" else None)) for z in (d, "None" if d == "Some" else "Some")]
                        hb = [nosite(unraw(z.a[1].a[2][0])) if z.op == "le" and is_agg(z.a[1], "Buf") else None for z in ini]
                        if len(ini) == 1: walk(ini[0])
                        elif hs[0] in hb and set(hb) <= set(hs): shape.append("header")
                        else: shape.append("?header" if hb and all(z is not None and not opaque_in(z) for z in hb) else "?")
                        good = all(z.op == "seq" and len(z.a[0]) == 2 and z.a[0][0] is q and nosite(z.a[0][1]) is blk for z in li["next"]) and li["next"]
                        shape.append("blocks" if good else "?")
                    elif nosite(q) is pls: shape.append("payload")
                    elif q.op == "le" and q.a[0] == 1 and q.a[1].op == "agg" and q.a[1].a[1] == "Buf":
                        h = nosite(unraw(q.a[1].a[2][0]))
                        shape.append("header" if h is unraw(header_bytes(blocks, plv if d == "Some" else None)) else "?header" if not opaque_in(h) else "?")
                    else: shape.append("?")
            walk(y)
            exp = ["header", "blocks"] + (["payload"] if d == "Some" else [])
            rep.ob(f"packet.slices.{d}.order", None if "?" in shape else shape == exp, where(b), f"the vectored form of a packet is {' '.join(shape)}, the format says {' '.join(exp)}")
    it = iterations(A)
    if len(it) == 1:
        sl = {e.node for e in calls(A, "WriteVectoredTo::slices")}
        rep.ob("packet.slices.blocks.all", traversed(it[0], blocks), where(b), f"the blocks are traversed as {[show(x) for x in it[0].srcs]}, not once each in order")
        rep.ob("packet.slices.blocks.noskip", not (reach(A, it[0].some, sl) & it[0].nodes), where(b), "a block can be left out of the vectored form")
        early = [e for e in exits(A) if classify(e.v)[0] == "ok" and e.n in reach(A, it[0].some, it[0].nodes)]
        rep.ob("packet.slices.blocks.complete", not early, where(b), "reports success before all blocks are included")
def short_writes(ctx, rep):
    """A partial write must not be followed by the next part unless the part was accepted whole."""
    p = ctx.brec; b = ctx.fn(p, "<PacketDef as WriteMutTo>::write"); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A); s = me(b)
    blocks = fld(p, s, "PacketDef", "blocks")
    parts = [(e, "block") for e in calls(A, "WriteTo::write") if contains(e.vals[0], lambda t: t is blocks)] + [(e, "payload") for e in calls(A, "WriteMutTo::write")]
    parts += [(e, "header") for e in evs(A, "io", lambda e: e.op == "write")]
    if not any(w == "block" for _, w in parts): rep.ob("packet.write.short", None, where(b), "block writes not found"); return
    wn = {e.node for e, _ in parts}
    for e, w in parts:
        if w == "payload": continue
        def res(t): return (t.op == "call" and t.a[0] == "WriteTo::write" and str(t.a[2]) == str(e.site)) or (t.op == "nwritten" and str(t.a[0]) == str(e.site))
        full = 29 if w == "header" else None     # a constant bound completes only a part of constant size
        def whole(t): return not is_int(t) or (full is not None and t.a[0] == full)
        odd = []; seen = set(); st = [m for m, _ in A.succ[e.node]]; hit = set()
        while st:
            n = st.pop()
            if n in seen: continue
            seen.add(n)
            if n in wn: hit.add(n); continue
            for m, lab in A.succ[n]:
                if isinstance(lab, tuple) and len(lab) == 2 and isinstance(lab[0], Term) and contains(lab[0], res):
                    c, v = lab
                    if c.op == "lt" and contains(c.a[0], res) and not contains(c.a[1], res):
                        if v is False and whole(c.a[1]): continue
                    elif c.op == "lt" and contains(c.a[1], res) and not contains(c.a[0], res): pass
                    elif c.op == "eq":
                        o = c.a[0] if contains(c.a[1], res) else c.a[1]
                        if v is True and whole(o): continue
                    elif c.op not in ("eq", "lt"): 
                        if c.op not in ("discr", "isok"): odd.append(c)
                st.append(m)
        rep.ob(f"packet.write.{w}.short", None if hit and odd else not hit, where(b, e.line), f"after a short write of the {w} the next part is written as well, leaving a hole in the packet")

# ---------------------------------------------------------------- reading
READS = {"TryReadFrom::try_read", "TryReadFromBuffered::try_read", "ReadBlockFromSlice::read_from_slice", "ReadBlockFrom::read", "ReadFrom::read"}
EXTRACT = {"ExtractPayloadFrom::read", "TryExtractPayloadFrom::try_read", "TryExtractPayloadFromBuffered::try_read"}
RULES = ("RulesDef::filter_by_blocks", "RulesDef::filter_by_payload", "RulesDef::filter")
READERS = [("stream", "<PacketDef as ReadFrom>::read"), ("try", "<PacketDef as TryReadFrom>::try_read"),
           ("buffered", "<PacketDef as TryReadFromBuffered>::try_read"), ("filtered", "PacketDef::filtered")]
def uncast(t):
    while t.op in ("trunc", "cast", "zext"): t = t.a[-1]
    return t
def rtag(blen):
    def f(st): return dtag(st) | frozenset((a, v) for a, v in st.facts.items() if ((a.op == "eq" and (v is True or any(is_int(y) for y in a.a))) or (a.op == "lt" and is_int(a.a[0]) and a.a[0].a[0] < 2)) and blen in a.a)
    return f
def reader(ctx, name):
    p = ctx.brec; b = ctx.fn(p, name); S = streamarg(p, b)
    A = ctx.an(p, b, tag=rtag(mk("fromle", 8, S.at(16, 8))), key="rd", opaque=RULES)
    return p, b, S, A
def okv(t): return t
def blkres(t):
    """call term behind a successfully read block"""
    while t.op == "fld" and t.a[1] in ("Ok", "Success"): t = t.a[0]
    return t
def listed(A, v):
    """(element, ok) of a list term built by pushing one element per turn of a loop; ok tri-state"""
    while v.op in ("star",): 
        m = v.a[0]
        while m.op == "conv": m = m.a[1]
        if m.op != "at" or not (v.a[1].op == "src" and v.a[1].a[0] is m.a[0]): return None, None
        v = m.a[0]
    if v is EMPTY: return EMPTY, True
    ss = segs(v)
    if len(ss) != 2 or ss[0].op != "loop" or ss[1].op != "le": return None, None
    li = A.loopinfo.get(ss[0], {"init": {}, "next": {}})
    return ss[1].a[1], (set(li["init"]) == {EMPTY} and set(li["next"]) == {v})
def packet_read(ctx, rep):
    for k, name in READERS:
        k = "packet.read." + k
        p, b, S, A = reader(ctx, name); rep.cover(A)
        size = mk("fromle", 8, S.at(8, 8)); blen = mk("fromle", 8, S.at(16, 8)); flag = mk("fromle", 1, S.at(24, 1))
        good = []
        for e in exits(A):
            c, x = classify(e.v)
            if c == "?": rep.ob(k + ".result", None, where(b), f"result not recognised: {show(e.v)[:120]}"); continue
            if c == "short":
                for y in alts(x):
                    n = nosite(y)
                    if contains(n, lambda t: t.op == "call"): continue
                    av = [sub(add(I(29), z), w) for z in (ZERO, size) for w in ((sub(mk("end", S.s), S.p0)), mk("avail", S.s, S.p0))]
                    rep.ob(k + ".missing", True if y in av else (None if opaque_in(y) else False), where(b), f"number of missing bytes is reported as {show(y)[:160]}, expected what the header or the packet lacks")
            if c not in ("ok", "success"): continue
            st = None
            if is_agg(x, None) and x.a[0] == "LookInStatus":
                st = x.a[1]
                rep.eq(f"{k}.{st}.size", uncast(x.a[2][0]) if x.a[2] else None, size, where(b), "size reported for the packet looked at")
                if st != "Accepted": 
                    continue
                x = x.a[2][1]
            if not (x.op == "agg" and x.a[0] == "PacketDef"): rep.ob(k + ".value", None, where(b), f"packet value not recognised: {show(x)[:120]}"); continue
            good.append((e, x))
        rep.ob(k + ".success", len(good) > 0 or None, where(b), "no successful path found")
        for e, x in good:
            V = fld(p, x, "PacketDef", "blocks"); P = fld(p, x, "PacketDef", "payload")
            ends = [(a, v) for a, v in e.facts.items() if blen in a.a and a.op in ("eq", "lt")]
            none = any((a.op == "lt" and is_int(a.a[0]) and a.a[0].a[0] == 0 and a.a[1] is blen and v is False) or (a.op == "lt" and a.a[0] is blen and a.a[1] is ONE and v is True) or (a.op == "eq" and ZERO in a.a and v is True) for a, v in ends)
            odd = [a for a in e.facts if any(t.op == "loop" and any(contains(y, lambda u: u is blen) for y in A.loopinfo.get(t, {"init": ()})["init"]) for t in subterms(a))]
            odd += [a for a in e.facts if contains(a, lambda t: t is blen) and a.op not in ("eq", "lt", "ovf", "not") and opaque_in(a)]
            el, lok = listed(A, V); csite = None; L2 = None
            if none:
                rep.ob(k + ".noblocks.empty", None if el is None else el is EMPTY, where(b), f"a packet whose header announces no blocks is given blocks {show(V)[:160]}")
                end = add(S.p0, I(29))
            else:
                xs = [next(y for y in a.a if y is not blen) for a, v in ends if a.op == "eq" and v is True]
                rep.ob(k + ".blocks.until", bool(xs) or (None if odd else False), where(b), "a packet is accepted although the total size of its blocks was not found equal to the blocks length in its header")
                if el is None: rep.ob(k + ".blocks.list", None, where(b), f"list of blocks not recognised: {show(V)[:160]}"); continue
                rep.ob(k + ".blocks.list", lok if el is not EMPTY else False, where(b), f"blocks are collected as {show(V)[:200]}, not each once in order")
                if el is EMPTY: continue
                call = blkres(el)
                rep.ob(k + ".blocks.read", call.op == "call" and call.a[0] in READS or None, where(b), f"a block comes from {show(call)[:160]}")
                for X in xs:
                    sz = [t for t in subterms(X) if t.op == "call" and t.a[0] == "Size::size" and t.a[1][0] is el]
                    r = None
                    if len(sz) == 1:
                        L2 = sub(X, sz[0])
                        if L2.op == "loop":
                            li = A.loopinfo.get(L2, {"init": {}, "next": {}})
                            r = set(li["init"]) == {ZERO} and set(li["next"]) == {X}
                        else: r = None if opaque_in(L2) and L2.op != "int" else False
                    elif not opaque_in(X): r = False
                    rep.ob(k + ".blocks.sum", r, where(b), f"the blocks length of the header is compared with {show(X)[:200]}, not with the total size of the blocks read")
                csite = call.a[2] if call.op == "call" else None
                end = None
                src = call.a[1][0] if call.op == "call" else None
                if src is not None and src.op == "rd" and L2 is not None:
                    rep.eq(k + ".blocks.from", src.a[1], add(add(S.p0, I(29)), L2), where(b), "place the next block is read from")
            # payload present exactly when announced
            fl = [v for a, v in e.facts.items() if a.op == "eq" and flag in a.a and ONE in a.a]
            fl += [(not v) for a, v in e.facts.items() if a.op == "eq" and flag in a.a and ZERO in a.a and v is True]
            some = {y.a[1] for y in alts(P) if y.op == "agg" and y.a[0] == "Option"}
            if len(some) != 1 or len(some) != len(alts(P)): rep.ob(k + ".payload.flag", None, where(b), "cannot tell packets with and without payload apart")
            elif not fl: rep.ob(k + ".payload.flag", maybe(e.facts, [flag]), where(b), "whether a payload is read does not depend on the flag in the header")
            else: rep.ob(k + ".payload.flag", (fl[0] is True) == (some == {"Some"}), where(b), f"payload flag {'set' if fl[0] else 'clear'} but the packet comes {'with' if some == {'Some'} else 'without'} payload")
            if some == {"Some"}:
                pv = blkres(getf(P, "Some", 0))
                ev = [c for c in evs(A, "call", lambda c: c.name in EXTRACT or c.rn in EXTRACT) if e.n in reach(A, [c.node]) and pv.op == "call" and str(c.site) == str(pv.a[2])]
                if pv.op != "call" or not ev: rep.ob(k + ".payload.read", None, where(b), f"payload comes from {show(pv)[:160]}"); continue
                h = pv.a[1][1]; parts = [fld(p, h, "PayloadHeader", f) for f in ("sig", "crc", "len")] if h.op == "agg" and h.a[0] == "PayloadHeader" else None
                if not parts or any(y.op != "bblock" for y in parts[:2]): rep.ob(k + ".payload.header", None, where(b), f"payload header not recognised: {show(h)[:160]}"); continue
                sg, cr = parts[0].a[0], parts[1].a[0]; lt = parts[2]
                if not (sg.op == "rd" and cr.op == "rd" and lt.op == "fromle" and lt.a[1].op == "rd"): rep.ob(k + ".payload.header", None, where(b), "payload header not recognised"); continue
                start = sub(sg.a[1], ONE); hend = add(lt.a[1].a[1], I(4)); same = sg.a[0] is S.s
                if none: r = start is end if same else (start is ZERO or None)
                elif not same: r = True if contains(sg.a[0], lambda t: t is blen) or contains(start, lambda t: t.op == "pos_after") else None   # read from the part of the buffered packet behind the blocks
                else: r = True if contains(start, lambda t: t.op == "pos_after" and str(t.a[0]) == str(csite)) or start is add(add(S.p0, I(29)), blen) else (False if not opaque_in(sub(start, S.p0)) else None)
                if none and not same: r = True if contains(sg.a[0], lambda t: t is blen) else None
                rep.ob(k + ".payload.at", r, where(b), f"the payload header is taken at {show(start)[:160]}, not right behind the blocks")
                for c in ev:
                    a0 = c.vals[0]; exp = hend
                    if a0.op == "agg" and a0.a[0] == "Cursor": got = add(add(S.p0, I(29)), a0.a[2][1])
                    elif a0.op == "rd": got = a0.a[1]; exp = add(add(S.p0, I(29)), add(blen, sub(hend, mk("pos", sg.a[0])))) if not same else hend
                    else: got = c.st.cur.get(S.s)
                    if got is not None and not same and a0.op != "rd": got = None
                    rep.ob(k + ".payload.body", True if got is exp else (None if got is None or got.op == "phi" or opaque_in(sub(got, exp)) else False), where(b), f"the payload body is taken at {show(got)[:160] if got is not None else '?'}, not right behind the payload header ({show(exp)[:160]})")
            if k.endswith(("stream", "filtered")):
                rep.eq(k + ".consumed", S.moved(e.st), add(size, I(29)), where(b), "bytes taken from the source for one packet")
            else:
                need = add(size, I(29))
                w = [(v, a.op, a.a[0] is need) for a, v in e.facts.items() if a.op in ("lt", "eq") and need in a.a]
                enough = [x for x in w if x in ((False, "lt", False), (True, "lt", True), (True, "eq", True), (True, "eq", False))]
                r = True if enough else (False if w else maybe(e.facts, [size]))
                if r is not True:   # the branches that found it available may have joined
                    if implied(A, e.n, lambda c, v: (c.op == "lt" and (c.a[1] is need and v is False or c.a[0] is need and v is True)) or (c.op == "eq" and need in c.a and v is True)): r = True
                rep.ob(k + ".complete", r, where(b), "a packet is read although its announced size was not found to be available")
                if none and some == {"None"}: rep.eq(k + ".consumed.empty", S.moved(e.st), I(29), where(b), "bytes taken for a packet without blocks and payload")
