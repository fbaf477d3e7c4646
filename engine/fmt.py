"""Format rules: layouts of packet header, blocks, payload header, slot; who writes and reads them."""
from core import *
import spec

LEVEL_OPAQUE = ("<u8 as From>::from", "<Level as TryFrom>::try_from")

def writes(A, ex, s):
    """bytes emitted to stream s on the way to an exit: contiguous pieces in stream order"""
    back = {ex.n}; st = [ex.n]
    while st:
        n = st.pop()
        for m in A.pred[n]:
            if m not in back: back.add(m); st.append(m)
    ev = [e for n in back for e in A.events[n] if e.kind == "io" and e.op in ("write_all", "write", "write_vectored") and e.stream is s]
    return ev
def emitted(A, ex, S):
    """single byte sequence written to S before this exit, or None when not one contiguous run"""
    ev = writes(A, ex, S.s)
    pos = S.p0; parts = []
    rest = list(ev)
    while rest:
        nxt = [e for e in rest if e.off is pos]
        if len(nxt) != 1: return None
        e = nxt[0]; rest.remove(e); parts.append(e.data); pos = add(pos, e.len if e.op == "write_all" else e.len)
    return seq(parts)
def unraw(t):
    """drop the length annotations"""
    if t.op == "raw": return unraw(t.a[0])
    if t.op == "seq": return seq([unraw(x) for x in t.a[0]])
    if t.op == "le": return seq([mk("le", t.a[0], unraw(t.a[1]))])
    if t.op == "crc32": return mk("crc32", unraw(t.a[0]))
    return t

# ------------------------------------------------------------------ packet header
HREADERS = {"stream": "<PacketHeader as ReadFrom>::read", "slice": "<PacketHeader as ReadBlockFromSlice>::read_from_slice",
            "try": "<PacketHeader as TryReadFrom>::try_read", "buffered": "<PacketHeader as TryReadFromBuffered>::try_read"}
def adt(prog, n):
    for t in prog.types:
        if t["k"] == "adt" and t["n"] == n: return t
    raise Missing("type " + n)
def fld(prog, v, n, name):
    t = adt(prog, n)
    return getf(v, None, t["variants"][0]["f"].index(name))
def header_accepts(ctx):
    out = []
    for k, n in HREADERS.items():
        b = ctx.fn(ctx.brec, n); A = ctx.an(ctx.brec, b); S = streamarg(ctx.brec, b)
        acc = [(e, x) for e in exits(A) for c, x in [classify(e.v)] if c in ("ok", "success")]
        out.append((k, b, A, S, acc))
    return out
def header_layout(ctx, rep):
    p = ctx.brec
    for k, b, A, S, acc in header_accepts(ctx):
        rep.cover(A)
        rep.ob(f"header.{k}.accepts", acc, where(b), "reader has no accepting path")
        for e, v in acc:
            exp = {"size": fromle(8, S.at(8, 8)), "blocks_len": fromle(8, S.at(16, 8)), "payload": EQ(fromle(1, S.at(24, 1)), ONE), "crc": fromle(4, S.at(25, 4))}
            for f, x in exp.items():
                got = fld(p, v, "PacketHeader", f)
                rep.ob(f"header.{k}.field.{f}", same(got, x), where(b), f"packet header field `{f}` is decoded as {show(got)}, the format says {show(x)}")
            if isinstance(S, Stream):
                rep.ob(f"header.{k}.consumed", same(S.moved(e.st), I(29)), where(b), f"accepting a header moves the source by {show(S.moved(e.st))} bytes instead of 29")
    exp = None
    for m in ("write", "write_all"):
        b = ctx.fn(p, f"<PacketHeader as WriteTo>::{m}"); A = ctx.an(p, b); S = streamarg(p, b); rep.cover(A)
        me = mk("init", mk("P", argname(b, 1)))
        F = lambda n: fld(p, me, "PacketHeader", n)
        exp = seq([spec.PACKET_SIG, mk("le", 8, F("size")), mk("le", 8, F("blocks_len")), mk("le", 1, F("payload")), mk("le", 4, F("crc"))])
        for e in exits(A):
            c, x = classify(e.v)
            if c == "ok":
                got = emitted(A, e, S)
                rep.ob(f"header.{m}.layout", got is exp, where(b), f"packet header is emitted as {show(got) if got else '(not one contiguous run)'}; the format says {show(exp)}")
    b = ctx.fn(p, "<PacketHeader as StaticSize>::ssize"); A = ctx.an(p, b); rep.cover(A)
    for e in exits(A): rep.ob("header.ssize", e.v is I(29), where(b), f"declared header size is {show(e.v)}, the header has 29 bytes")
def header_crc(ctx, rep):
    p = ctx.brec
    for k, b, A, S, acc in header_accepts(ctx):
        rep.cover(A)
        rep.ob(f"header.{k}.accepts", acc, where(b), "reader has no accepting path")
        for e, v in acc:
            good = any(st is fromle(4, S.at(25, 4)) and c is S.at(8, 17) for st, c in crc_facts(e.facts))
            if not good and any(opaque_in(a) for a in e.facts if contains(a, lambda t: t.op == "crc32")): good = None
            rep.ob(f"header.{k}.crc", good, where(b), f"a packet header is accepted on a path where 'stored crc == crc32(size, blocks_len, flag)' was not established (established: {[(show(x), show(y)) for x, y in crc_facts(e.facts)]})")
    b = ctx.fn(p, "<PacketHeader as CrcU32>::crc"); A = ctx.an(p, b); rep.cover(A)
    me = mk("init", mk("P", argname(b, 1))); F = lambda n: fld(p, me, "PacketHeader", n)
    exp = seq([mk("le", 4, mk("crc32", seq([mk("le", 8, F("size")), mk("le", 8, F("blocks_len")), mk("le", 1, F("payload"))])))])
    for e in exits(A): rep.ob("header.crc.value", same(e.v, exp), where(b), f"header checksum is {show(e.v)}, expected {show(exp)}")
def header_sig(ctx, rep):
    for k, b, A, S, acc in header_accepts(ctx):
        rep.cover(A)
        for e, v in acc:
            rep.ob(f"header.{k}.sig", truth(e.facts, EQ(S.at(0, 8), spec.PACKET_SIG)) is True, where(b), "a packet header is accepted on a path that did not compare the 8-byte signature")

# ------------------------------------------------------------------ blocks (generated code)
def bexp(S, off, fields):
    out = {}
    for n, t in fields:
        w = spec.width(t); src = S.at(off, w)
        if t == "bool": v = EQ(fromle(1, src), ONE)
        elif t == "Level": v = mk("level", fromle(1, src))
        elif t.startswith("["): v = src
        else: v = fromle(w, src)
        out[n] = v; off += w
    return out, off
def lvl(t):
    """canonical name of a user conversion's successful result"""
    if t.op == "fld" and t.a[1] == "Ok" and t.a[0].op == "call" and "TryFrom>::try_from" in t.a[0].a[0]: return mk("level", t.a[0].a[1][0])
    return t
def crccanon(t):
    """checksum content with decoded bytes replaced by the bytes they came from"""
    if t.op == "seq": return seq([crccanon(x) for x in t.a[0]])
    if t.op == "raw": return crccanon(t.a[0])
    if t.op == "le" and t.a[0] == 1:
        x = t.a[1]
        if x.op == "conv": x = x.a[1]
        if x.op == "call" and "From" in x.a[0]: x = x.a[1][0]
        x = lvl(x)
        if x.op == "level": return seq([mk("le", 1, x.a[0])])
    return canon(t)
def ssize_of(fields, crc=True): return 4 + sum(spec.width(t) for _, t in fields) + 4
def block_readers(ctx, bl):
    """(kind, body, analysis, source, signature bytes in front, accepting exits)"""
    h = ctx.har; n = bl["name"]
    out = []
    for kind, name, skip in (("stream", f"<{n} as ReadBlockFrom>::read", 0), ("stream-nosig", f"<{n} as ReadBlockFrom>::read", 1),
                             ("slice", f"<{n}Referred as ReadBlockFromSlice>::read_from_slice", 0), ("slice-nosig", f"<{n}Referred as ReadBlockFromSlice>::read_from_slice", 1),
                             ("try", f"<{n} as TryReadFrom>::try_read", None), ("buffered", f"<{n} as TryReadFromBuffered>::try_read", None)):
        b = ctx.fn(h, name)
        args = {2: I(skip)} if skip is not None else None
        A = ctx.an(h, b, args=args, opaque=LEVEL_OPAQUE); S = streamarg(h, b)
        acc = [(e, x) for e in exits(A) for c, x in [classify(e.v)] if c in ("ok", "success")]
        out.append((kind, b, A, S, 0 if skip == 1 else 4, acc))
    return out
def block_fields(ctx, bl, A, e, v):
    """decoded fields by name; references to blobs are resolved to the bytes they point at"""
    t = adt(ctx.har, v.a[0]) if v.op == "agg" else None
    out = {}
    if t is None: return out
    for i, f in enumerate(t["variants"][0]["f"]):
        x = getf(v, None, i)
        if x.op == "ref": x = A.content(e.st, x)
        out[f] = lvl(x)
    return out
def block_sig(ctx, bl):
    b = ctx.fn(ctx.har, f"<{bl['name']}Referred as SignatureU32>::sig"); A = ctx.an(ctx.har, b)
    (ex,) = exits(A)
    return strip_raw(A.content(ex.st, ex.v)), A
def block_layout(ctx, rep):
    for bl in spec.blocks():
        n = bl["name"]; total = ssize_of(bl["fields"])
        for kind, b, A, S, sg, acc in block_readers(ctx, bl):
            rep.cover(A)
            k = f"block.{n}.{kind}"
            rep.ob(k + ".accepts", acc, where(b), "reader has no accepting path")
            exp, end = bexp(S, sg, bl["fields"])
            for e, v in acc:
                got = block_fields(ctx, bl, A, e, v)
                for f, x in exp.items(): rep.eq(f"{k}.field.{f}", got.get(f), x, where(b), f"block field `{f}` ({dict(bl['fields'])[f]})")
                if isinstance(S, Stream):
                    rep.eq(k + ".consumed", S.moved(e.st), I(end + 4), where(b), "bytes consumed by an accepting read")
        b = ctx.fn(ctx.har, f"<{n} as StaticSize>::ssize"); A = ctx.an(ctx.har, b); rep.cover(A)
        for e in exits(A): rep.eq(f"block.{n}.ssize", e.v, I(total), where(b), "declared block size")
def block_write(ctx, rep):
    h = ctx.har
    for bl in spec.blocks():
        n = bl["name"]; sig, _ = block_sig(ctx, bl)
        def layout(me):
            t = adt(h, n); names = t["variants"][0]["f"]; parts = []
            for f, ty in bl["fields"]:
                x = getf(me, None, names.index(f))
                if ty == "Level": x = mk("conv", "u8", x)
                parts.append(x if ty.startswith("[") else mk("le", spec.width(ty), x))
            return seq(parts)
        def blockcrc(me):
            return mk("bytes", bytes(4)) if not bl["crc"] else mk("le", 4, mk("crc32", layout(me)))
        def nrm(t):
            t = unraw(t)
            def f(x):
                if x.op == "seq": return seq([f(y) for y in x.a[0]])
                if x.op == "le": return seq([mk("le", x.a[0], f(x.a[1]))])
                if x.op == "crc32": return mk("crc32", f(x.a[0]))
                if x.op == "conv" and x.a[0] == "u8": return x
                if x.op == "call" and "From" in x.a[0] and len(x.a[1]) == 1: return mk("conv", "u8", x.a[1][0])
                return x
            return f(t)
        for m in ("write", "write_all"):
            b = ctx.fn(h, f"<{n} as WriteTo>::{m}"); A = ctx.an(h, b, opaque=LEVEL_OPAQUE); S = streamarg(h, b); rep.cover(A)
            me = mk("init", mk("P", argname(b, 1)))
            exp = nrm(seq([sig, layout(me), blockcrc(me)]))
            ok = [e for e in exits(A) if classify(e.v)[0] == "ok"]
            rep.ob(f"block.{n}.{m}.ok", ok, where(b), "writer has no successful path")
            for e in ok:
                got = emitted(A, e, S)
                rep.eq(f"block.{n}.{m}.layout", nrm(got) if got is not None else None, exp, where(b), "bytes emitted for the block")
        b = ctx.fn(h, f"<{n} as WriteVectoredTo>::slices"); A = ctx.an(h, b, opaque=LEVEL_OPAQUE); rep.cover(A)
        me = mk("init", mk("P", argname(b, 1))); exp = nrm(seq([sig, layout(me), blockcrc(me)]))
        for e in exits(A):
            c, x = classify(e.v)
            if c != "ok": continue
            got = ioslices(A, e.st, x)
            rep.eq(f"block.{n}.slices.layout", nrm(got) if got is not None else None, exp, where(b), "bytes of the vectored form of the block")
        for ty in (n, n + "Referred"):
            b = ctx.fn(h, f"<{ty} as CrcU32>::crc"); A = ctx.an(h, b, opaque=LEVEL_OPAQUE); rep.cover(A)
            me = mk("init", mk("P", argname(b, 1)))
            if ty == n: exp = blockcrc(me)
            else:
                t = adt(h, ty); names = t["variants"][0]["f"]; parts = []
                for f, fty in bl["fields"]:
                    x = getf(me, None, names.index(f))
                    if fty == "Level": x = mk("conv", "u8", x)
                    parts.append(mk("init", mk("D", x)) if fty.startswith("[") else mk("le", spec.width(fty), x))
                exp = mk("bytes", bytes(4)) if not bl["crc"] else seq([mk("le", 4, mk("crc32", seq(parts)))])
            for e in exits(A): rep.eq(f"block.{n}.crc.{'owned' if ty == n else 'referred'}", nrm(e.v), nrm(exp), where(b), "block checksum")
def ioslices(A, st, v):
    """flattened byte content of an IoSlices value"""
    if v.op != "agg" or v.a[0] != "IoSlices": return None
    parts = []
    for p in segs(v.a[2][0]):
        x = p.a[1] if p.op == "le" and p.a[0] == 1 else p.a[0] if p.op == "el" else None
        if x is None or x.op != "agg": return None
        if x.a[1] == "Buf": parts.append(x.a[2][0])
        elif x.a[1] == "Slice": parts.append(A.content(st, x.a[2][0]))
        else: return None
    return seq(parts)
def block_crc(ctx, rep):
    for bl in spec.blocks():
        n = bl["name"]
        for kind, b, A, S, sg, acc in block_readers(ctx, bl):
            rep.cover(A)
            k = f"block.{n}.{kind}"
            rep.ob(k + ".accepts", acc, where(b), "reader has no accepting path")
            exp, end = bexp(S, sg, bl["fields"])
            if not bl["crc"]: continue
            for e, v in acc:
                cf = [(x, crccanon(y)) for x, y in crc_facts(e.facts)]
                good = any(x is fromle(4, S.at(end, 4)) and y is S.at(sg, end - sg) for x, y in cf)
                if not good and any(opaque_in(a) for a in e.facts if contains(a, lambda t: t.op == "crc32")): good = None
                rep.ob(k + ".crc", good, where(b), f"a block is accepted on a path that did not establish 'stored checksum == crc32(of all fields)'; established: {[(show(x), show(y)) for x, y in cf]}")
def block_signature(ctx, rep):
    seen = {}
    for bl in spec.blocks():
        n = bl["name"]; sig, SA = block_sig(ctx, bl); rep.cover(SA)
        rep.ob(f"block.{n}.sig.const", sig.op == "bytes" and len(sig.a[0]) == 4, n, f"block signature is not a 4-byte constant: {show(sig)}")
        if sig in seen: rep.ob(f"block.{n}.sig.distinct", False, n, f"blocks {n} and {seen[sig]} have the same signature {show(sig)}")
        else: rep.ob(f"block.{n}.sig.distinct", True, n, "")
        seen[sig] = n
        for kind, b, A, S, sg, acc in block_readers(ctx, bl):
            rep.cover(A)
            if sg == 0: continue
            for e, v in acc:
                rep.ob(f"block.{n}.{kind}.sig", truth(e.facts, EQ(S.at(0, 4), sig)) is True, where(b), "a block is accepted on a path that did not compare its signature")
