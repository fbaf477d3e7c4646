"""No failure of a source, sink or file is swallowed: what follows a failed I/O operation ends in an error."""
from core import *
import rul
from bufr import lab_
def outcome(v):
    """'err' | 'ok' | '?' of a returned value, with the error"""
    if v.op == "phi":
        o = {outcome(x)[0] for x in alts(v)}
        return (o.pop() if len(o) == 1 else "?"), v
    if v.op == "agg" and v.a[0] == "Option":
        if v.a[1] == "Some" and v.a[2][0].op in ("agg", "phi"):
            r = outcome(v.a[2][0]); return r
        return ("ok", v) if v.a[1] == "None" else ("?", v)
    c, x = classify(v)
    return ("err", x) if c in ("err", "io") else ("ok", x) if c in ("ok", "success", "short") else ("?", v)
def interrupted(lab):
    """the edge on which the failure turned out to be a mere interruption (to be tried again)"""
    if lab is None: return False
    a, v = lab_(lab)
    if not isinstance(a, Term): return False
    if not contains(a, lambda t: t.op == "call" and t.a[0].endswith("Error::kind")): return False
    # a promoted constant of the field-less `ErrorKind` is its discriminant byte; Interrupted is 0x23
    return v == "Interrupted" or (v is True and contains(a, lambda t: is_agg(t, "Interrupted") or t.op == "cbytes" and t.a[0] in ("23", b"\x23")))
def fallible(p, b):
    """Result or Option<Result> is what it returns"""
    t = p.types[b["locals"][0][0]]
    return t["k"] == "adt" and (t["n"] == "Result" or t["n"] == "Option" and "Result<" in t["s"])
def kindtest(lab):
    return lab is not None and isinstance(lab[0], Term) and contains(lab[0], lambda t: t.op == "call" and t.a[0].endswith("Error::kind"))
def check(ctx, rep, p, b, A, k, tell):
    rep.cover(A); ex = {e.n: e for e in exits(A)}; st = {}; n = 0; raw = p.types[b["locals"][0][0]]["s"].endswith("io::Error>")
    for u in range(len(A.nodes)):
        for m, lab in A.succ[u]:
            if lab and isinstance(lab[0], Term) and lab[0].op == "io" and lab[1] == "Err": st.setdefault((lab[0].a[0], lab[0]), []).append(m)
    for (op, s), ms in sorted(st.items(), key=lambda x: (x[0][0], x[0][1].id)):
        n += 1; w = rul.walk(A, ms, (), interrupted)
        # exits reached without any look at what kind of failure it was
        blind = rul.walk(A, ms, (), lambda l: interrupted(l) or kindtest(l))
        o = [(outcome(ex[x].v), x) for x in w if x in ex]
        bad = [(r, x) for (c, r), x in o if c == "ok"]; odd = [1 for (c, r), x in o if c == "?"]
        line = next((e.line for l in A.events.values() for e in l if e.kind == "io" and getattr(e, "site", None) is s.a[1]), None)
        rep.ob(f"{k}.{op}", False if bad else None if odd else True, where(b), f"after a failed {op} it still ends with {show(bad[0][0])[:140] if bad else 'something not recognised'}")
        if not tell: continue
        v = []
        for (c, r), x in o:
            if c != "err": continue
            al = alts(r); io = any(is_agg(y, "Io") or contains(y, lambda t: t.op == "err" and t.a[0] in IOOPS) for y in al)
            v.append((True if io or raw else None if x not in blind or any(opaque_in(y) for y in al) else False, r))
        w_ = [r for q, r in v if q is False]
        rep.ob(f"{k}.{op}.reported", False if w_ else None if any(q is None for q, _ in v) else True, where(b), f"a failed {op} is reported as {show(w_[0])[:140] if w_ else 'something not recognised'}")
    return n
def library(ctx, rep):
    p = ctx.brec; tot = 0
    for f in ANCHORS: ctx.fn(p, f)
    for n in sorted(p.byname):
        if "closure" in n: continue
        b = ctx.fn(p, n)
        if not fallible(p, b): continue
        A = ctx.an(p, b)
        if not evs(A, "io"): continue
        tot += check(ctx, rep, p, b, A, "io." + n, True)
    rep.ob("io.library.some", tot > 100 or None, "brec", f"only {tot} I/O operations found")
ANCHORS = ("<PacketDef as TryReadFrom>::try_read", "PacketBufReaderDef::read", "ReaderDef::nth", "ReaderDef::reload", "WriterDef::insert", "<BufferedReader as Read>::read", "<Slot as TryReadFrom>::try_read")
TRAITS = ("ReadFrom", "ReadBlockFrom", "TryReadFrom", "TryReadFromBuffered", "WriteTo", "WriteMutTo", "ReadPayloadFrom", "TryReadPayloadFrom", "TryReadPayloadFromBuffered", "ExtractPayloadFrom", "TryExtractPayloadFrom", "TryExtractPayloadFromBuffered", "WritePayloadWithHeaderTo", "PacketReadable")
def generated(ctx, rep):
    p = ctx.har; tot = 0; left = 0
    for n in sorted(p.byname):
        if "closure" in n or " as " not in n or n.split(" as ")[1].split(">")[0] not in TRAITS: continue
        b = ctx.fn(p, n)
        if not fallible(p, b): continue
        try: A = ctx.an(p, b)
        except Incomplete: left += 1; continue
        if not evs(A, "io"): continue
        tot += check(ctx, rep, p, b, A, "io." + n, n.split("::")[0].strip("<").split(" as ")[0] not in ("Block", "Payload"))
    rep.ob("io.generated.some", tot > 50 or None, "brec_harness", f"only {tot} I/O operations found"); rep.info["not analysed"] = left
