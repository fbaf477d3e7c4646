"""Generated dispatch: the enumerations Block, BlockReferred and Payload do what the variant's own type does."""
from core import *
import fmt, spec
from fmt import adt
from pay import dtag, me
ERR = "SignatureDismatch"
def etag(st):
    """all that is known of the latest attempt; of the earlier ones only whether each was refused"""
    by = {}
    for a, v in st.facts.items():
        if a.op != "discr": continue
        t = a.a[0]
        while t.op == "get": t = t.a[0]
        if t.op != "call": 
            t = next((y for y in subterms(a.a[0]) if y.op == "call"), None)
            if t is None: continue
        by.setdefault(t, []).append((a, v))
    if not by: return ()
    *old, last = by
    return (frozenset(by[last]), any(ERR not in [v for _, v in by[t]] for t in old))
def variants(p, n): return {v["n"]: v["ft"][0] for v in adt(p, n)["variants"]}
def tname(p, ti):
    t = p.types[ti]
    while t["k"] == "ref": ti = t["to"]; t = p.types[ti]
    return t.get("full") or t["s"]
def selfof(p, c):
    ta = c.fn.get("targs") or []
    return tname(p, ta[0]) if ta else None
def result(c): return c.get("ret") if hasattr(c, "get") else None
def strh(p, b): return fmt.fld(p, mk("init", mk("P", argname(b, 2))), "PayloadHeader", "sig")
def sig_of(ctx, p, ti):
    """the fixed signature of a payload type, when it is one value"""
    try: A = ctx.an(p, ctx.fn(p, f"<{p.short(ti)} as StaticPayloadSignature>::ssig"))
    except Exception: return None
    vs = {e.v for e in exits(A)}
    return vs.pop() if len(vs) == 1 else None
def reads(ctx, rep):
    p = ctx.har; n_ = 0
    for enum, fn, m in (("Block", "<Block as ReadFrom>::read", "ReadBlockFrom::read"), ("Block", "<Block as ReadBlockFrom>::read", "ReadBlockFrom::read"), ("Block", "<Block as TryReadFrom>::try_read", "TryReadFrom::try_read"), ("Block", "<Block as TryReadFromBuffered>::try_read", "TryReadFromBuffered::try_read"), ("BlockReferred", "<BlockReferred as ReadBlockFromSlice>::read_from_slice", "ReadBlockFromSlice::read_from_slice"),
                        ("Payload", "<Payload as ExtractPayloadFrom>::read", "ReadPayloadFrom::read"), ("Payload", "<Payload as TryExtractPayloadFrom>::try_read", "TryReadPayloadFrom::try_read"), ("Payload", "<Payload as TryExtractPayloadFromBuffered>::try_read", "TryReadPayloadFromBuffered::try_read")):
        b = ctx.fn(p, fn); vs = variants(p, enum); ty = {tname(p, t): v for v, t in vs.items()}; k = "dispatch." + fn.split(">::")[0].strip("<").replace(" as ", ".")
        tr, me_ = m.split("::")
        op = {m, "<Block as ReadFrom>::read"} | {f"<{p.short(t)} as {tr}>::{me_}" for t in vs.values()}
        A = ctx.an(p, b, opaque=tuple(sorted(op)), tag=etag, key="disp"); rep.cover(A)
        cs = [c for c in evs(A, "call") if (c.name == m or c.rn == m)]; by = {}
        for c in cs: by.setdefault(selfof(p, c), []).append(c)
        # which type a call result belongs to
        own = {c.site: selfof(p, c) for c in cs}
        tried = {ty[t] for t in by if t in ty}
        if not cs: rep.ob(k + ".calls", None, where(b), "readers of the variants not recognised"); continue
        for v in vs: rep.ob(f"{k}.tried", v in tried, where(b), f"{v} is never tried")
        strm = mk("init", mk("P", argname(b, 1)))
        for c in cs:
            if fn == "<Block as ReadFrom>::read" and len(c.vals) > 1:
                a = c.vals[0]; ch = a.op == "call" and a.a[0] == "Read::chain"
                good = ch and a.a[1][1] is strm and ln(a.a[1][0]) is I(4) and a.a[1][0].op == "rd" and c.vals[1] is ZERO
                if ch and a.a[1][1] is strm and a.a[1][0].op == "rd" and is_int(ln(a.a[1][0])) and ln(a.a[1][0]) is not I(4): good = None; rep.ob(k + ".signature", False, where(b, c.line), f"{selfof(p, c)} is shown {ln(a.a[1][0]).a[0]} bytes of the signature")
                rep.ob(k + ".signature", True if good else False if (a is strm and c.vals[1] is ZERO and len(cs) > 1) or (ch and c.vals[1] is ONE) else None, where(b, c.line), f"{selfof(p, c)} is tried on something else than signature and rest of the source")
            elif "Read" in m and c.vals:
                rep.ob(k + ".source", True if c.vals[0] is strm else (None if opaque_in(c.vals[0]) else False), where(b, c.line), f"{selfof(p, c)} is tried on {show(c.vals[0])[:100]}")
                if m == "ReadBlockFrom::read": rep.ob(k + ".skip", True if c.vals[1] in (ONE, mk("param", argname(b, 2))) else False if c.vals[1] is ZERO else None, where(b, c.line), "the signature is asked for again")
                if len(c.vals) > 1 and "Payload" in m: rep.ob(k + ".header", True if c.vals[1] is mk("init", mk("P", argname(b, 2))) else (None if opaque_in(c.vals[1]) else False), where(b, c.line), "judged by another header")
                if m.startswith("ReadBlockFromSlice"): rep.ob(k + ".skip", True if c.vals[1] is mk("param", argname(b, 2)) else False if c.vals[1].op == "int" else None, where(b, c.line), "the request to skip the signature is not passed on")
        okv = {}; seen_sig = False
        for e in exits(A):
            n_ += 1; c, x = classify(e.v)
            # what is known of the attempts made on the way
            st = {}
            for a, v in e.facts.items():
                if a.op != "discr": continue
                for t in subterms(a.a[0]):
                    if t.op == "call" and len(t.a) > 2 and t.a[2] in own:
                        q = st.setdefault(t, {})
                        if a.a[0] is t: q["r"] = v
                        elif a.a[0] is getf(t, "Err", 0): q["e"] = v; q.setdefault("r", "Err")
                        elif a.a[0] is getf(t, "Ok", 0): q["s"] = v; q.setdefault("r", "Ok")
            def name(t): return ty.get(own[t.a[2]], str(own[t.a[2]]))
            handed = contains(e.v, lambda t: t.op == "call" and t.a[0].endswith("ReadFrom>::read") and "Block as" in t.a[0])
            for t, q in st.items():
                v = name(t)
                if q.get("r") == "Ok":
                    inner = getf(getf(t, "Ok", 0), "Success", 0) if me_ == "try_read" else getf(t, "Ok", 0)
                    if q.get("s") == "NotEnoughData":
                        exp = getf(getf(t, "Ok", 0), "NotEnoughData", 0)
                        got = x if c == "short" else None
                        rep.ob(k + ".shortage", True if c == "short" and contains(e.v, lambda y: y is exp) else (None if c in ("short", "?") else False), where(b), f"{v} lacks data, but the outcome is {c}")
                    else:
                        if c not in ("ok", "success"): rep.ob(k + ".found", None if c == "?" else False, where(b), f"{v} was read, but the outcome is {c} {show(e.v)[:120]}"); continue
                        g = [y for y in subterms(e.v) if y.op == "agg" and y.a[0] == enum]
                        if len(g) == 1: rep.ob(k + ".found", g[0].a[1] == v and contains(g[0], lambda y: y is t), where(b), f"{v} was read, but what is given out is {show(g[0])[:120]}"); okv[v] = 1
                        else: rep.ob(k + ".found", None, where(b), f"result not recognised: {show(e.v)[:160]}")
                elif q.get("r") == "Err":
                    if q.get("e") == ERR: continue
                    al = alts(x) if c in ("err", "io") else []
                    same_ = [y for y in al if contains(y, lambda z: z is getf(t, "Err", 0)) or (q.get("e") and is_agg(y, q["e"]))]
                    rep.ob(k + ".error", bool(al) and len(same_) == len(al) or (None if c == "?" else False), where(b), f"the failure of {v} ({q.get('e', 'whatever it is')}) ends as {c} {show(e.v)[:140]}")
            if c in ("ok", "success") and not any(q.get("r") == "Ok" for q in st.values()) and not handed:
                vs_ = [y for y in subterms(e.v) if y.op == "agg" and y.a[0] == enum]; ct = [y for y in subterms(e.v) if y.op == "call" and len(y.a) > 2 and y.a[2] in own]
                if len(vs_) == 1 and len(ct) == 1:
                    rep.ob(k + ".found", vs_[0].a[1] == name(ct[0]), where(b), f"{name(ct[0])} was read, but what is given out is {show(vs_[0])[:120]}"); okv[name(ct[0])] = 1
                else: rep.ob(k + ".found", None, where(b), f"result not recognised: {show(e.v)[:160]}")
            if c == "err" and not handed and {name(t) for t, q in st.items() if q.get("e") == ERR} == set(vs) and len(st) == len(vs) and not any(is_agg(y, ERR) for y in alts(x)):
                rep.ob(k + ".unknown", False if all(is_agg(y) for y in alts(x)) else None, where(b), f"all refused, but the outcome is {show(x)[:120]}")
            if c == "err" and all(is_agg(y, ERR) for y in alts(x)):
                no = {name(t) for t, q in st.items() if q.get("e") == ERR}
                if "Payload" in m: no |= {v for v in vs if any(a.op == "eq" and w is False and any(y is strh(p, b) for y in a.a) and sig_of(ctx, p, vs[v]) in a.a for a, w in e.facts.items())}
                rep.ob(k + ".unknown", no == set(vs) or (None if handed else False), where(b), f"gives up although {sorted(set(vs) - no)[:4]} did not refuse")
                seen_sig = True
        for v in vs: rep.ob(k + ".given", v in okv or None, where(b), f"{v} is never given out")
        rep.ob(k + ".refuses", seen_sig or None, where(b), "unknown signatures are not refused")
def delegates(ctx, rep):
    p = ctx.har
    W = (("Block", "WriteTo", "write", "WriteTo"), ("Block", "WriteTo", "write_all", "WriteTo"), ("Block", "WriteVectoredTo", "slices", "WriteVectoredTo"),
         ("Payload", "WriteMutTo", "write", "WritePayloadWithHeaderTo"), ("Payload", "WriteMutTo", "write_all", "WritePayloadWithHeaderTo"), ("Payload", "WriteVectoredMutTo", "slices", "WriteVectoredPayloadWithHeaderTo"),
         ("Payload", "PayloadEncode", "encode", "PayloadEncode"), ("Payload", "PayloadEncodeReferred", "encode", "PayloadEncodeReferred"), ("Payload", "PayloadSignature", "sig", "PayloadSignature"), ("Payload", "PayloadCrc", "crc", "PayloadCrc"), ("Payload", "PayloadSize", "size", "PayloadSize"))
    for enum, tr, m, itr in W:
        b = ctx.fn(p, f"<{enum} as {tr}>::{m}"); vs = variants(p, enum); k = f"delegate.{enum}.{tr}.{m}"
        every = {f"{t}::{m}" for t in ("WriteTo", "WritePayloadWithHeaderTo", "WriteVectoredTo", "WriteVectoredPayloadWithHeaderTo", "PayloadEncode", "PayloadEncodeReferred", "PayloadSignature", "PayloadCrc", "PayloadSize")} | {f"{itr}::{m}"}
        op = set(every)
        for t in vs.values():
            for e_ in every: q, mm = e_.split("::"); op.add(f"<{p.short(t)} as {q}>::{mm}")
        other = {"write": "write_all", "write_all": "write"}.get(m)
        if other:
            op |= {f"{itr}::{other}"} | {f"<{p.short(t)} as {itr}>::{other}" for t in vs.values()}
        A = ctx.an(p, b, opaque=tuple(sorted(op)), tag=dtag, key="disp"); rep.cover(A); s = me(b); seen = set()
        for e in exits(A):
            v = [x for a, x in e.facts.items() if a.op == "discr" and a.a[0] is s]
            if len(v) != 1 or v[0] not in vs: rep.ob(k, None, where(b), "variant not known"); continue
            v = v[0]; seen.add(v); mine = getf(s, v, 0)
            cts = {nosite(y): y for y in subterms(e.v) if y.op == "call" and y.a[1] and nosite(y.a[1][0]) is nosite(mine)}
            if len(cts) != 1: rep.ob(k, None if opaque_in(e.v) else False, where(b), f"{v} gives {show(e.v)[:160]}"); continue
            nm = next(iter(cts)).a[0]; short = nm.split("::")[-1]; tr_ = (nm.split(" as ")[1].split(">")[0] if " as " in nm else nm.split("::")[0])
            rep.ob(k, (short == m and tr_ == itr) or (False if short == other else None), where(b), f"{v} is handed to {nm}")
        for v in vs: rep.ob(k + ".every", v in seen or None, where(b), f"{v} not handled")
    sizes = {x["name"]: fmt.ssize_of([f if isinstance(f, (list, tuple)) else (f["name"], f["ty"]) for f in x["fields"]]) for x in spec.blocks()}
    for enum in ("Block", "BlockReferred"):
        b = ctx.fn(p, f"<{enum} as Size>::size"); A = ctx.an(p, b, tag=dtag, key="disp"); rep.cover(A); s = me(b); vs = variants(p, enum)
        for e in exits(A):
            v = [x for a, x in e.facts.items() if a.op == "discr" and a.a[0] is s]
            if len(v) != 1 or v[0] not in sizes: rep.ob(f"delegate.{enum}.size", None, where(b), "variant not known"); continue
            rep.eq(f"delegate.{enum}.size", e.v, I(sizes[v[0]]), where(b), f"size of {v[0]}")
    b = ctx.fn(p, "<Block as From>::from"); A = ctx.an(p, b, tag=dtag, key="disp"); rep.cover(A); x = mk("param", argname(b, 1))
    for e in exits(A):
        v = [y for a, y in e.facts.items() if a.op == "discr" and a.a[0] is x]
        if len(v) != 1: rep.ob("delegate.Block.from", None, where(b), "variant not known"); continue
        rep.ob("delegate.Block.from", True if is_agg(e.v, v[0]) and contains(e.v, lambda y: y is getf(x, v[0], 0)) else False if is_agg(e.v) and e.v.a[1] != v[0] else None, where(b), f"{v[0]} becomes {show(e.v)[:120]}")
