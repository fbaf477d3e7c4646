"""Payload rules: header layout, integrity, writing, dispatch of the generated payload enum."""
from core import *
import spec, fmt, models
from fmt import adt, fld, emitted, unraw, ioslices

def dtag(st): return frozenset((a, v) for a, v in st.facts.items() if a.op == "discr" and a.a[0].op != "call")
def ctag(st): return frozenset((a, v) for a, v in st.facts.items() if a.op == "discr" and a.a[0].op == "call")
def call_(n, *vals): return mk("call", n, tuple(vals), None)
def Okf(t): return getf(t, "Ok", 0)
def bb(t): return models.bb_bytes(t)
def psig(x): return call_("PayloadSignature::sig", x)
def pcrc(x): return Okf(call_("PayloadCrc::crc", x))
def psize(x): return Okf(call_("PayloadSize::size", x))
def phbytes(sig, crc, n):
    return seq([mk("le", 1, mk("trunc", "u8", ln(bb(sig)))), bb(sig), mk("le", 1, mk("trunc", "u8", ln(bb(crc)))), bb(crc), mk("le", 4, n)])
def ref_enc(x): return Okf(call_("PayloadEncodeReferred::encode", x))
def own_enc(x): return Okf(call_("PayloadEncode::encode", x))
def body_of(x, facts):
    """the encoded payload on this path: the borrowed form when there is one, the owned form otherwise"""
    d = {nosite(a): v for a, v in facts.items() if a.op == "discr"}
    v = d.get(mk("discr", ref_enc(x)))
    if v == "Some": return mk("init", mk("D", getf(ref_enc(x), "Some", 0)))
    if v == "None": return own_enc(x)
    return None
def me(b, i=1): return mk("init", mk("P", argname(b, i)))
def impls(prog, suffix): return [(n, bs) for n, bs in prog.byname.items() if n.endswith(suffix)]

# ------------------------------------------------------------------ ByteBlock
def byteblock(ctx, rep):
    p = ctx.brec; t = adt(p, "ByteBlock")
    size = {}
    for v in t["variants"]:
        f = p.types[v["ft"][0]] if len(v.get("ft", ())) == 1 else None
        size[v["n"]] = f["n"] if f is not None and f["k"] == "array" else None
    good = {n for n in size.values() if n}
    b = ctx.fn(p, "ByteBlock::is_valid_capacity"); A = ctx.an(p, b); rep.cover(A); cap = mk("param", argname(b, 1))
    capv = A.exits and next(iter(exits(A))).facts
    for e in exits(A):
        c, x = classify(e.v)
        allowed = None; neg = None
        for a, v in e.facts.items():
            if a.op == "call" and "contains" in a.a[0] and a.a[1][0].op == "bytes":
                if v is True: allowed = set(a.a[1][0].a[0])
                else: neg = set(a.a[1][0].a[0])
        eqs = {y.a[0] for a, v in e.facts.items() if a.op == "eq" and v is True for y in a.a if y.op == "int"}
        nes = {y.a[0] for a, v in e.facts.items() if a.op == "eq" and v is False for y in a.a if y.op == "int"}
        if c == "ok":
            s = allowed if allowed is not None else eqs or None
            rep.ob("byteblock.capacity.accepts", None if s is None else s <= good, where(b), f"capacities {sorted((s or set()) - good)} are accepted but no block of that length exists")
        elif c == "err":
            s = neg if neg is not None else nes or None
            rep.ob("byteblock.capacity.rejects", None if s is None else s >= good, where(b), f"capacities {sorted(good - (s or set()))} exist but are rejected")
    b = ctx.fn(p, "<ByteBlock as TryFrom>::try_from"); A = ctx.an(p, b); rep.cover(A); src = mk("param", argname(b, 1))
    seen = set()
    for e in exits(A):
        c, x = classify(e.v)
        if c == "ok" and x.op == "agg":
            seen.add(x.a[1]); n = size.get(x.a[1])
            rep.eq(f"byteblock.from.{x.a[1]}", unraw(x.a[2][0]), src, where(b), "content of a block made from bytes")
    for v in size: rep.ob(f"byteblock.from.{v}.reachable", True if v in seen else (False if seen and not any(classify(e.v)[0] == "?" for e in exits(A)) else None), where(b), f"no bytes convert into {v}")
    b = ctx.fn(p, "ByteBlock::as_slice"); A = ctx.an(p, b); rep.cover(A)
    for e in exits(A):
        got = {A.content(e.st, x) for x in alts(e.v)} if e.v.op != "ref" or e.v.a[0].op != "D" else None
        if got is None:
            inner = e.v.a[0].a[0]
            got = {x for x in alts(inner)}
            exp = {mk("ref", mk("P", argname(b, 1)), (("f", None, 0),))}
        names = {q[1] for g in (got or ()) if g.op == "ref" for q in g.a[1] if q[0] == "f"} | {g.a[1] for g in (got or ()) if g.op == "fld"}
        rep.ob("byteblock.as_slice", None if not names else names >= set(size), where(b), f"blocks of kind {sorted(set(size) - names)} are not exposed as their own bytes")
    b = ctx.fn(p, "ByteBlock::size"); A = ctx.an(p, b); rep.cover(A)
    for e in exits(A): pass

# ------------------------------------------------------------------ payload header
PHREADERS = {"stream": "<PayloadHeader as ReadFrom>::read", "try": "<PayloadHeader as TryReadFrom>::try_read", "buffered": "<PayloadHeader as TryReadFromBuffered>::try_read"}
def pheader_read(ctx, rep):
    p = ctx.brec
    for k, n in PHREADERS.items():
        b = ctx.fn(p, n); A = ctx.an(p, b); S = streamarg(p, b); rep.cover(A)
        acc = [(e, x) for e in exits(A) for c, x in [classify(e.v)] if c in ("ok", "success")]
        rep.ob(f"pheader.{k}.accepts", acc, where(b), "reader has no accepting path")
        n1 = fromle(1, S.at(0, 1)); o2 = add(n1, I(1)); n2 = fromle(1, S.at(o2, 1)); o3 = add(o2, I(1)); end = add(add(o3, n2), I(4))
        exp = {"sig": mk("bblock", S.at(1, n1)), "crc": mk("bblock", S.at(o3, n2)), "len": fromle(4, S.at(add(o3, n2), 4))}
        for e, v in acc:
            for f, x in exp.items(): rep.eq(f"pheader.{k}.field.{f}", fld(p, v, "PayloadHeader", f), x, where(b), f"payload header field `{f}`")
            for nm, n_ in (("signature", n1), ("checksum", n2)):
                good = {2 ** i for i in range(2, 8)}
                ok = models.cap_known(A, e.st, n_, good) or e.facts.get(mk("capok", n_)) is True
                rep.ob(f"pheader.{k}.capacity.{nm}", ok or None, where(b), f"length of the {nm} is not known to be an allowed one")
            if k != "buffered": rep.eq(f"pheader.{k}.consumed", S.moved(e.st), end, where(b), "bytes consumed by an accepting read of a payload header")
            else: rep.eq(f"pheader.{k}.consumed", S.moved(e.st), ZERO, where(b), "bytes consumed by a buffered look at a payload header (callers step over it themselves)")
        av = mk("avail", S.s, S.p0); endp = mk("end", S.s)
        for e in exits(A):
            c, x = classify(e.v)
            if c != "short": continue
            for y in alts(x):
                for tot in (av, sub(endp, S.p0)):
                    E_ = add(y, tot)
                    if not contains(E_, lambda t: t in (av, endp)): break
                E_ = add(y, av) if contains(y, lambda t: t is av) else add(y, sub(endp, S.p0))
                bounds = [I(1), o2, o3, add(o3, n2), end]
                r = True if E_ in bounds else (None if opaque_in(E_) else False)
                if r is False:
                    import lin
                    if any(lin.same0(e.facts, sub(E_, x)) is True for x in bounds): r = True
                rep.ob(f"pheader.{k}.shortage", r, where(b), f"reports {show(y)[:300]} missing bytes, which does not lead to the end of any field")
def pheader_write(ctx, rep):
    p = ctx.brec
    b = ctx.fn(p, "PayloadHeader::as_vec"); A = ctx.an(p, b); rep.cover(A); s = me(b)
    F = lambda n: fld(p, s, "PayloadHeader", n)
    exp = phbytes(F("sig"), F("crc"), F("len"))
    for e in exits(A): rep.eq("pheader.as_vec", unraw(e.v), unraw(exp), where(b), "bytes of a payload header")
    b = ctx.fn(p, "PayloadHeader::size"); A = ctx.an(p, b); rep.cover(A); s = me(b)
    F = lambda n: fld(p, s, "PayloadHeader", n)
    for e in exits(A): rep.eq("pheader.size", e.v, ln(phbytes(F("sig"), F("crc"), F("len"))), where(b), "declared size of a payload header")
    b = ctx.fn(p, "PayloadHeader::payload_len"); A = ctx.an(p, b); rep.cover(A)
    for e in exits(A): rep.eq("pheader.payload_len", e.v, fld(p, me(b), "PayloadHeader", "len"), where(b), "length of the payload body")
    b = ctx.fn(p, "PayloadHeader::new"); A = ctx.an(p, b); rep.cover(A); s = me(b)
    ok = [(e, x) for e in exits(A) for c, x in [classify(e.v)] if c == "ok"]
    rep.ob("pheader.new.ok", ok, where(b), "no successful path")
    for e, v in ok:
        v = nosite(v); n = psize(s)
        rep.eq("pheader.new.sig", fld(p, v, "PayloadHeader", "sig"), psig(s), where(b), "signature stored in the payload header")
        rep.eq("pheader.new.crc", fld(p, v, "PayloadHeader", "crc"), pcrc(s), where(b), "checksum stored in the payload header")
        rep.eq("pheader.new.len", fld(p, v, "PayloadHeader", "len"), mk("trunc", "u32", n), where(b), "length stored in the payload header")
        f = {nosite(a): x for a, x in e.facts.items()}
        lim = I(2 ** 32 - 1)
        r = f.get(LT(lim, n)) is False or f.get(LT(n, I(2 ** 32))) is True or f.get(mk("fits", "u32", n)) is True
        if not r and any(contains(a, lambda t: t is n) for a in f): r = None if not any(a.op == "lt" and n in a.a for a in f) else False
        rep.ob("pheader.new.fits", r, where(b), "a payload longer than the 32-bit length field is accepted and its length truncated")
    b = ctx.fn(p, "PayloadHeader::ssize"); A = ctx.an(p, b); rep.cover(A); s = me(b)
    for e in exits(A):
        c, x = classify(e.v)
        if c == "ok": rep.eq("pheader.ssize", nosite(x), ln(phbytes(psig(s), pcrc(s), I(0))), where(b), "size of the payload header announced for a payload")

# ------------------------------------------------------------------ integrity
def payload_read(ctx, rep):
    p = ctx.brec
    b = ctx.fn(p, "ReadPayloadFrom::read"); A = ctx.an(p, b); S = streamarg(p, b); rep.cover(A)
    hd = None
    for i in range(1, b["argc"] + 1):
        t = p.types[b["locals"][i][0]]
        if t["k"] == "ref" and p.types[t["to"]].get("n") == "PayloadHeader": hd = me(b, i)
    if hd is None: raise Missing("payload header argument")
    H = lambda n: fld(p, hd, "PayloadHeader", n)
    ok = [(e, x) for e in exits(A) for c, x in [classify(e.v)] if c == "ok"]
    rep.ob("payload.read.accepts", ok, where(b), "no accepting path")
    ssig = call_("StaticPayloadSignature::ssig"); data = S.at(0, H("len")); dec = Okf(call_("PayloadDecode::decode", data)); crc = pcrc(dec)
    unbox = lambda t: tmap(nosite(t), lambda y: dec if y.op == "init" and y.a[0].op == "D" and y.a[0].a[0] is dec else y)
    for e, v in ok:
        f = {unbox(a): x for a, x in e.facts.items()}; v = unbox(v)
        rep.eq("payload.read.value", nosite(v), dec, where(b), "value returned for a payload")
        rep.eq("payload.read.consumed", S.moved(e.st), H("len"), where(b), "bytes consumed for a payload")
        for nm, c, msg in (("sig", EQ(ssig, H("sig")), "a payload is accepted on a path that did not compare the signature in its header with the type's signature"),
                           ("crc", EQ(crc, H("crc")), "a payload is accepted on a path that did not compare the checksum in its header with the checksum of the decoded value")):
            r = truth(f, c)
            if r is not True and r is not False: r = maybe(f, [ssig if nm == "sig" else crc])
            rep.ob(f"payload.read.{nm}", r, where(b), msg)
    b = ctx.fn(p, "TryReadPayloadFrom::try_read"); A = ctx.an(p, b); rep.cover(A); S = streamarg(p, b)
    calls = [ev for l in A.events.values() for ev in l if ev.kind == "call" and ev.name == "ReadPayloadFrom::read"]
    n = 0
    for e in exits(A):
        c, x = classify(e.v)
        if c == "success":
            n += 1
            rep.ob("payload.try.delegates", True if (calls and all(y.op == "fld" and y.a[0].op == "call" and y.a[0].a[0] == "ReadPayloadFrom::read" for y in alts(x))) else None, where(b), "the value does not come from the checked read")
        if c == "short":
            pl = [y for y in subterms(x) if y.op in ("fld", "init") and y is fld(p, me(b, 2), "PayloadHeader", "len")]
            rep.eq("payload.try.shortage", x, sub(fld(p, me(b, 2), "PayloadHeader", "len"), sub(mk("end", S.s), S.p0)), where(b), "number of missing bytes reported")
    rep.ob("payload.try.accepts", n, where(b), "no accepting path")
    b = ctx.fn(p, "TryReadPayloadFromBuffered::try_read"); A = ctx.an(p, b); rep.cover(A)
    for e in exits(A):
        c, x = classify(e.v)
        if c == "success": rep.ob("payload.buffered.delegates", True if all(contains(y, lambda t: t.op == "call" and t.a[0] == "ReadPayloadFrom::read") for y in alts(x)) else None, where(b), "the value does not come from the checked read")
    b = ctx.fn(p, "PayloadCrc::crc"); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A); s = me(b)
    for e in exits(A):
        c, x = classify(e.v)
        if c != "ok": continue
        body = body_of(s, e.facts); got = nosite(x)
        if body is None: rep.ob("payload.crc.content", None, where(b), "cannot tell which encoding is used"); continue
        if got.op == "agg" and len(got.a[2]) == 1: got = got.a[2][0]
        elif got.op == "bblock": got = got.a[0]
        rep.eq("payload.crc.content", unraw(got), seq([mk("le", 4, mk("crc32", body))]), where(b), "checksum of a payload")
def maybe(facts, needles):
    """a required comparison was not found: undecided when the needed values are compared in a way we cannot read"""
    for a in facts:
        if a.op in ("eq", "not"): continue
        if any(contains(a, lambda t: t is n) for n in needles) and opaque_in(a): return None
    return False
DEFAULTS = {"String": "String", "Vec": "Vec<u8>"}
def payload_types(ctx, rep):
    """signatures of payload types: static and dynamic agree, all distinct; built-in payloads encode as themselves"""
    seen = {}
    for prog in (ctx.brec, ctx.har):
        for n, bs in prog.byname.items():
            if not n.endswith(" as PayloadSignature>::sig") or n.startswith("<Payload ") or (prog is ctx.har and n[1:].split(" ")[0] in DEFAULTS): continue
            ty = n[1:].split(" ")[0]
            b = ctx.fn(prog, n); A = ctx.an(prog, b); rep.cover(A)
            bs_ = ctx.fn(prog, f"<{ty} as StaticPayloadSignature>::ssig"); B = ctx.an(prog, bs_); rep.cover(B)
            d = {unraw(nosite(bb(e.v))) for e in exits(A)}; s = {unraw(nosite(bb(e.v))) for e in exits(B)}
            if len(d) != 1 or len(s) != 1: rep.ob(f"payload.{ty}.sig", None, where(b), "signature is not a single value"); continue
            d, s = d.pop(), s.pop()
            rep.eq(f"payload.{ty}.sig", d, s, where(b), "signature of a value vs signature of its type")
            if s in seen: rep.ob(f"payload.{ty}.sig.distinct", False, where(bs_), f"payload types {ty} and {seen[s]} have the same signature {show(s)}")
            else: rep.ob(f"payload.{ty}.sig.distinct", True, where(bs_), "")
            seen[s] = ty
    p = ctx.brec
    for ty in DEFAULTS:
        b = ctx.fn(p, f"<{ty} as PayloadSize>::size"); A = ctx.an(p, b); rep.cover(A); s = me(b)
        for e in exits(A):
            c, x = classify(e.v)
            if c == "ok": rep.eq(f"payload.{ty}.size", x, ln(s), where(b), "declared size of the payload")
        b = ctx.fn(p, f"<{ty} as PayloadEncode>::encode"); A = ctx.an(p, b); rep.cover(A); s = me(b)
        for e in exits(A):
            c, x = classify(e.v)
            if c == "ok": rep.eq(f"payload.{ty}.encode", A.deep(e.st, x), s, where(b), "encoded form of the payload")
        b = ctx.fn(p, f"<{ty} as PayloadEncodeReferred>::encode"); A = ctx.an(p, b); rep.cover(A); s = me(b)
        for e in exits(A):
            c, x = classify(e.v)
            if c == "ok" and is_agg(x, "Some"): rep.eq(f"payload.{ty}.encode_ref", A.content(e.st, x.a[2][0]), s, where(b), "borrowed encoded form of the payload")
    b = ctx.fn(p, "<Vec as PayloadDecode>::decode"); A = ctx.an(p, b); rep.cover(A)
    for e in exits(A):
        c, x = classify(e.v)
        if c == "ok": rep.eq("payload.Vec.decode", A.deep(e.st, x), me(b), where(b), "decoded bytes")

# ------------------------------------------------------------------ writing
def payload_write(ctx, rep):
    p = ctx.brec
    for m in ("write", "write_all"):
        b = ctx.fn(p, f"WritePayloadWithHeaderTo::{m}"); A = ctx.an(p, b, tag=dtag, key="d"); S = streamarg(p, b); rep.cover(A); s = me(b)
        ok = [(e, x) for e in exits(A) for c, x in [classify(e.v)] if c == "ok"]
        rep.ob(f"payload.{m}.ok", ok, where(b), "no successful path")
        for e, x in ok:
            body = body_of(s, e.facts)
            if body is None: rep.ob(f"payload.{m}.layout", None, where(b), "cannot tell which encoding is written"); continue
            exp = seq([phbytes(psig(s), pcrc(s), mk("trunc", "u32", psize(s))), body])
            got = emitted(A, e, S)
            rep.eq(f"payload.{m}.layout", nosite(unraw(got)) if got is not None else None, unraw(exp), where(b), "bytes written for a payload")
            if m == "write":
                # header is written in full, the count covers header and what was written of the body
                nw = [t for t in subterms(x) if t.op == "nwritten"]
                hl = ln(phbytes(psig(s), pcrc(s), I(0)))
                rest = sub(nosite(x), hl)
                rep.ob("payload.write.count", True if rest.op == "nwritten" else (None if opaque_in(rest) else False), where(b), f"reported number of written bytes is {show(x)[:300]}, expected header length plus written part of the body")
    b = ctx.fn(p, "WriteVectoredPayloadWithHeaderTo::slices"); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A); s = me(b)
    for e in exits(A):
        c, x = classify(e.v)
        if c != "ok": continue
        body = body_of(s, e.facts)
        if body is None: rep.ob("payload.slices.layout", None, where(b), "cannot tell which encoding is written"); continue
        exp = seq([phbytes(psig(s), pcrc(s), mk("trunc", "u32", psize(s))), body])
        got = ioslices(A, e.st, x)
        rep.eq("payload.slices.layout", nosite(unraw(got)) if got is not None else None, unraw(exp), where(b), "bytes of the vectored form of a payload")

# ------------------------------------------------------------------ hooks
DECODE, AFTER, BEFORE = "PayloadDecode::decode", "PayloadHooks::after_decode", "PayloadHooks::before_encode"
def is_fn(c, n):
    t, m = n.split("::")
    return any(x == n or x is not None and x.endswith(f" as {t}>::{m}") for x in (c.name, c.rn))
def callees(b):
    for bb_ in b["bbs"]:
        if bb_["t"]["k"] == "call":
            f = bb_["t"]["f"].get("fn") or {}
            yield [x for x in (f.get("n"), f.get("rn")) if x]
def users(p, n):
    t, m = n.split("::")
    return sorted(q for q, bs in p.byname.items() if not q.endswith(f" as {t}>::{m}") and any(any(x == n or x.endswith(f" as {t}>::{m}") for x in c) for b in bs for c in callees(b)))
def owner(t):
    while t.op in ("D", "init", "ref", "raw", "L"): t = t.a[0]
    return t
def hooks(ctx, rep):
    """what was decoded passes through its hook, after its checksum was judged, before anyone gets it"""
    n = 0
    for p in (ctx.brec, ctx.har):
        for q in users(p, DECODE):
            if p is ctx.har and q in ctx.brec.byname: continue      # judged where it is written
            if "{closure" in q: rep.ob(f"hook.{q}", None, q, "payload decoded in a closure"); continue
            b = ctx.fn(p, q); A = ctx.an(p, b); rep.cover(A); k = f"hook.{q}"
            ds = [c for c in evs(A, "call") if is_fn(c, DECODE)]; hs = [c for c in evs(A, "call") if is_fn(c, AFTER)]
            cr = [c for c in evs(A, "call") if is_fn(c, "PayloadCrc::crc")]
            for e in exits(A):
                c, x = classify(e.v)
                if c not in ("ok", "success", "?"): continue
                dec = {t for t in subterms(e.v) if t.op == "call" and t.a[0].split("::")[-1] == "decode"}
                if not dec: rep.ob(k + ".value", None, where(b), f"cannot tell where the payload comes from: {show(e.v)[:120]}"); continue
                n += 1
                if c == "?": rep.ob(k + ".value", None, where(b), "outcome not recognised"); continue
                for d in dec:
                    mine = {h.node for h in hs if any(t is d for v in h.vals for t in subterms(v))}
                    free_ = reach(A, [0], mine)
                    rep.ob(k + ".after", bool(mine) and e.n not in free_, where(b), "a payload is given out without its after_decode hook having run on it")
                bad = [v for a, v in e.facts.items() if a.op == "discr" and any(t.op == "call" and t.a[0].split("::")[-1] == "after_decode" for t in subterms(a.a[0]))]
                rep.ob(k + ".failure", "Err" not in bad and (bool(bad) or (None if any(t.op == "call" and t.a[0].split("::")[-1] == "after_decode" for y in [e.v, *e.facts] for t in subterms(y)) else False)) if hs else None, where(b), "a payload is given out although its hook failed, or without looking at whether it did")
            late = reach(A, [m for h in hs for m, _ in A.succ[h.node]]) if hs else set()
            for c in cr: rep.ob(k + ".order", c.node not in late, where(b, c.line), "the checksum is taken of what the hook made of the payload, not of what was decoded")
    rep.ob("hook.some", n > 0 or None, "brec", "no reader of payloads found")
    for q in ("WritePayloadWithHeaderTo::write", "WritePayloadWithHeaderTo::write_all", "WriteVectoredPayloadWithHeaderTo::slices"):
        p = ctx.brec; b = ctx.fn(p, q); A = ctx.an(p, b); rep.cover(A)
        bs = {c.node for c in evs(A, "call") if is_fn(c, BEFORE)}; free_ = reach(A, [0], bs)
        en = [c for c in evs(A, "call") if is_fn(c, "PayloadEncode::encode")]
        rep.ob(f"hook.{q}.before", None if not en else all(c.node not in free_ for c in en), where(b), "a payload is encoded without its before_encode hook having run")
