"""The preloading reader: what comes out is what went in, in order, once; and the vectored output."""
from core import *
import fmt, itertools
from fmt import adt, fld
from pay import me
T = "BufferedReader"
alltag = lambda st: frozenset(st.facts.items())
def same3(got, exp):
    if nosite(got) is nosite(exp): return True
    return None if contains(got, lambda y: y.op in UNK or y.op in ("phi", "filtered", "mapped")) else False
ARITH = ("int", "lin", "min", "max", "satsub", "eq", "lt", "not")
def atoms(t, out):
    if t.op == "lin":
        for k, n in t.a[1]: atoms(k, out)
    elif t.op in ARITH:
        for y in t.a:
            if isinstance(y, Term): atoms(y, out)
    else: out.add(t)
    return out
def orders(e, *ts, top=4):
    """assignments of small sizes to the unknown lengths, one for each way they can be ordered under what is known at e"""
    at_ = set()
    fs = [(f, v) for f, v in e.facts.items() if f.op in ("lt", "eq", "not") and v in (True, False)]
    for t in list(ts) + [f for f, v in fs]: atoms(t, at_)
    at_ = [a for a in at_ if a.op in ("len", "avail", "nread", "param", "nwritten")]
    if len(at_) > 5: at_ = at_[:5]
    for c in itertools.product(range(top), repeat=len(at_)):
        env = dict(zip(at_, c))
        if all(holds(f, v, env) is not False for f, v in fs) and not any(k.op == "nread" and n < 0 for k, n in env.items()): yield env
def cases(e, *ts):
    """resolve min(..) under what is known at exit e: list of substitutions"""
    mins = []
    for t in ts:
        for y in subterms(t):
            if y.op == "min" and y not in mins: mins.append(y)
    if not mins: return [{}]
    seen = set(); tie = set()
    for env in orders(e, *mins):
        pick = []; t_ = False
        for m in mins:
            a, b = ieval(m.a[0], env), ieval(m.a[1], env)
            if a is None or b is None: return []
            pick.append(m.a[0] if a < b else m.a[1]); t_ = t_ or a == b
        (tie if t_ else seen).add(tuple(pick))
    if not seen: seen = tie
    return [dict(zip(mins, p)) for p in seen]
def prefix(t, n):
    """the first n bytes of t"""
    if n is ZERO: return EMPTY
    if t.op == "splice":
        b, f, u, d = t.a
        if n is f: return prefix(b, f)
        if n is u: return seq([prefix(b, f), d])
        d0 = sub(n, f)
        if d0.op != "int" or d0.a[0] > 0: return seq([prefix(b, f), prefix(d, d0)])
    if t.op == "slice" and t.a[0].op == "splice": return prefix(t.a[0], n)
    return slc(t, ZERO, n)
def empties(e): return {a.a[1].a[0] for a, v in e.facts.items() if v is True and a.op == "eq" and a.a[0] is ZERO and a.a[1].op == "len"}
def apply(t, m, emp):
    def f(y):
        if y in m: return m[y]
        if y in emp: return EMPTY
        return y
    return tmap(t, f)
def consumed(rep, b, amt, B1, b0, adv):
    if B1.op == "slice" and B1.a[0] is b0 and B1.a[2] is ln(b0): cut = B1.a[1]
    elif B1 is b0: cut = ZERO
    elif B1 is EMPTY: cut = ln(b0)
    else: rep.ob("buffered.consume", None, where(b), f"what is kept is {show(B1)[:160]}"); return
    rep.ob("buffered.consume", same3(add(cut, adv), amt), where(b), f"takes {show(cut)[:80]} of the preloaded bytes and {show(adv)[:80]} of the source's")
    if adv is not ZERO: rep.ob("buffered.consume.order", same3(cut, ln(b0)), where(b), "bytes of the source are skipped before all preloaded ones")
def reader(ctx, rep):
    """bytes are handed on in the order of the source, each exactly once"""
    p = ctx.brec; F = lambda v, n: fld(p, v, T, n)
    def setup(name):
        b = ctx.fn(p, name); A = ctx.an(p, b, tag=alltag, key="bufr"); rep.cover(A)
        P = mk("P", argname(b, 1)); s = mk("init", P); D = mk("ref", mk("D", F(s, "inner")), ())
        return b, A, P, s, D
    def state(e, P, s, D):
        own = e.st.mem.get(P, s); p0 = mk("pos", D); cur = e.st.cur.get(D) or p0
        return own, p0, sub(cur, p0)
    def ledger(k, b, e, P, s, D, out):
        """out ++ what is still there == what was there"""
        own, p0, adv = state(e, P, s, D); B, B1 = F(s, "buffer"), F(own, "buffer")
        emp = empties(e); res = []
        for m in cases(e, out, B1, adv):
            z = lambda t: apply(t, m, emp)
            got = seq([z(out), z(B1)]); a = z(adv); exp = seq([z(B), mk("rd", D, p0, a)]) if a is not ZERO else z(B)
            res.append((same3(got, exp), got, exp))
        for r in res:
            rep.ob(k, r[0], where(b), f"handed out and kept together are {show(r[1])[:240]}, but taken from the source was {show(r[2])[:240]}")
    def noted(k, b, e, P, s, n):
        own = e.st.mem.get(P, s); emp = empties(e); c0, c1 = F(s, "consumed"), F(own, "consumed")
        rep.ob(k, same3(apply(sub(c1, c0), {}, emp), apply(n, {}, emp)), where(b), f"counted as consumed: {show(sub(c1, c0))[:160]}, handed out: {show(n)[:160]}")
    # read
    b, A, P, s, D = setup(f"<{T} as Read>::read"); buf = mk("P", argname(b, 2)); n_ok = 0
    for e in exits(A):
        c, x = classify(e.v); out0 = e.st.mem.get(buf, mk("init", buf))
        if c == "ok":
            n_ok += 1; emp = empties(e); want = ln(mk("init", buf)); own, p0, adv = state(e, P, s, D)
            for m in cases(e, x, out0, F(own, "buffer"), adv):
                z = lambda t: apply(t, m, emp); n = z(x)
                got = seq([prefix(z(out0), n), z(F(own, "buffer"))]); a = z(adv); B = z(F(s, "buffer")); exp = seq([B, mk("rd", D, p0, a)]) if a is not ZERO else B
                rep.ob("buffered.read", same3(got, exp), where(b), f"read gives out and keeps {show(got)[:240]}, but took {show(exp)[:240]}")
                if n is ZERO and a is ZERO:
                    room = any(f.op == "eq" and f.a[0] is ZERO and f.a[1] is want and v is True for f, v in e.facts.items()) or any(f.op == "lt" and f.a == (ZERO, want) and v is False for f, v in e.facts.items())
                    room = room or not any(env.get(want, 1) > 0 for env in orders(e, want))
                    rep.ob("buffered.read.end", room or (None if any(f.op == "eq" and opaque_in(f) for f in e.facts) else False), where(b), "reports the end of the source without asking it")
            noted("buffered.read.consumed", b, e, P, s, x)
        elif c in ("err", "io"):
            own, p0, adv = state(e, P, s, D); ledger("buffered.read.failed", b, e, P, s, D, EMPTY)
            noted("buffered.read.failed.consumed", b, e, P, s, ZERO)
    rep.ob("buffered.read.some", n_ok > 0 or None, where(b), "no successful path")
    for ev in evs(A, "io", lambda v: v.op in ("read", "read_exact", "fill_buf", "consume")):
        rep.ob("buffered.read.inner", nosite(ev.stream) is nosite(D) or None, where(b, ev.line), "reads from something else")
    # refill
    b, A, P, s, D = setup(f"{T}::refill")
    for e in exits(A):
        c, x = classify(e.v)
        if c in ("ok", "err", "io"): ledger("buffered.refill." + c, b, e, P, s, D, EMPTY); noted("buffered.refill.consumed", b, e, P, s, ZERO)
        if c == "ok":
            own, p0, adv = state(e, P, s, D)
            rep.ob("buffered.refill.more", True if nosite(adv) is nosite(mk("avail", D, p0)) else False if adv is ZERO and nosite(F(own, "buffer")) is nosite(F(s, "buffer")) else None, where(b), "refilling takes nothing from the source")
    # fill_buf
    b, A, P, s, D = setup(f"<{T} as BufRead>::fill_buf")
    for e in exits(A):
        c, x = classify(e.v)
        if c in ("ok", "err", "io"): ledger("buffered.peek.keeps", b, e, P, s, D, EMPTY); noted("buffered.peek.consumed", b, e, P, s, ZERO)
        if c == "ok":
            own, p0, adv = state(e, P, s, D); v = A.deep(e.st, x); emp = empties(e)
            exp = apply(seq([F(s, "buffer"), mk("rd", D, p0, mk("avail", D, p0))]), {}, emp)
            rep.ob("buffered.peek", same3(apply(v, {}, emp), exp), where(b), f"shows {show(v)[:200]}, available is {show(exp)[:200]}")
    # consume
    b, A, P, s, D = setup(f"<{T} as BufRead>::consume"); amt = mk("param", argname(b, 2)); B = F(s, "buffer")
    for e in exits(A):
        own, p0, adv = state(e, P, s, D); emp = empties(e)
        noted("buffered.consume.consumed", b, e, P, s, amt)
        cs = cases(e, F(own, "buffer"), adv)
        if not cs: rep.ob("buffered.consume", None, where(b), "sizes not recognised")
        for m in cs: consumed(rep, b, amt, apply(F(own, "buffer"), m, emp), apply(B, m, emp), apply(adv, m, emp))
    # sizes
    av = lambda D, p0: mk("avail", D, p0)
    for m, f in (("buffer_len", lambda s, D, p0: av(D, p0)), ("len", lambda s, D, p0: add(av(D, p0), ln(F(s, "buffer"))))):
        b, A, P, s, D = setup(f"{T}::{m}")
        for e in exits(A):
            c, x = classify(e.v)
            if c == "ok": rep.ob("buffered." + m, same3(x, f(s, D, mk("pos", D))), where(b), f"{m} is {show(x)[:200]}")
            if c in ("ok", "err", "io"): ledger(f"buffered.{m}.keeps", b, e, P, s, D, EMPTY)
    b, A, P, s, D = setup(f"{T}::is_empty")
    tot = add(av(D, mk("pos", D)), ln(F(s, "buffer")))
    for e in exits(A):
        c, x = classify(e.v)
        if c != "ok": continue
        rs = [(ieval(x, env), int(ieval(tot, env) == 0)) for env in orders(e, tot, x)]
        rep.ob("buffered.is_empty", None if not rs or any(g is None for g, w in rs) else all(g == w for g, w in rs), where(b), f"is_empty is {show(x)[:200]}")
    b, A, P, s, D = setup(f"{T}::consumed")
    for e in exits(A): rep.ob("buffered.consumed", same3(e.v, F(s, "consumed")), where(b), f"consumed() is {show(e.v)[:120]}")
    b = ctx.fn(p, f"{T}::new"); A = ctx.an(p, b, tag=alltag, key="bufr"); rep.cover(A)
    for e in exits(A):
        v = A.deep(e.st, e.v); B = F(v, "buffer")
        rep.ob("buffered.new.buffer", same3(B, EMPTY), where(b), f"starts with {show(B)[:120]} preloaded"); rep.ob("buffered.new.consumed", same3(F(v, "consumed"), ZERO), where(b), "starts with bytes consumed")
# ---------------------------------------------------------------- vectored output
GET, ALL = "IoSlices::get", "IoSlices::write_vectored_all"
def tail(ctx, rep, p, clo, A):
    """the closure that picks what is still to be written of one slice"""
    bs = [b for b in p.byname.get(ALL + "::{closure}", []) if b["argc"] == 2]
    if len(bs) != 1: rep.ob("vectored.rest", None, where(A.root), "what is left of a slice is computed in a way not recognised"); return
    b = bs[0]; X = ctx.an(p, b, tag=alltag, key="bufr"); rep.cover(X); k = "vectored.rest"
    E = mk("P", argname(b, 1)); env0 = mk("init", E)
    item = mk("init", mk("P", argname(b, 2))); data = item; n = ln(item)
    # the captured counter is the place the closure writes, the captured total the one it only reads
    outs = []
    for e in exits(X): outs.append((e, [(q, v) for q, v in e.st.mem.items() if q.op == "D"]))
    cells = {q for e, m in outs for q, v in m if nosite(v) is not nosite(mk("init", q))}
    reads = {y for e, m in outs for f in e.facts for y in subterms(f) if y.op == "init" and y.a[0].op == "D"}
    offs = [mk("init", q) for q in cells]; ws = [y for y in reads if y not in offs]
    if len(offs) != 1 or len(ws) != 1:
        rep.ob(k, (False if not offs and len(ws) >= 1 and len(reads) <= 2 and not any(opaque_in(f) for e, m in outs for f in e.facts) else None), where(b), "the place of a slice in the output is not kept"); return
    o, w = offs[0], ws[0]
    for e, m in outs:
        v = [v for q, v in m if q is o.a[0]]
        rep.ob(k + ".advance", same3(v[0], add(o, n)) if v else False, where(b), f"the next slice is taken to start at {show(v[0])[:120] if v else 'the same place'}")
    for oo in range(3):
        for l in range(4):
            for x in range(8):
                env = {o: oo, w: x, n: l}; left = max(0, min(l, oo + l - x))
                for e, m in outs:
                    hs = [holds(f, v, env) for f, v in e.facts.items()]
                    if False in hs: continue
                    if None in hs: rep.ob(k, None, where(b), "condition not recognised"); continue
                    r = X.deep(e.st, e.v)
                    if is_agg(r, "None"): got = 0
                    elif is_agg(r, "Some"):
                        y = r.a[2][0]
                        while y.op == "agg" and y.a[0] == "IoSlice": y = y.a[2][0]
                        if y.op == "ref": y = X.deep(e.st, y) if y.a[0] is not item else slc(item, ZERO, None) if not y.a[1] else None
                        q = r.a[2][0]
                        if q is data or y is data: got = l
                        elif q.op == "ref" and q.a[1] and q.a[1][-1][0] == "s":
                            s0, s1 = ieval(q.a[1][-1][1], env), ieval(q.a[1][-1][2], env); got = None if None in (s0, s1) else (s1 - s0 if s1 == l else -1)
                        elif y is not None and y.op == "slice" and y.a[0] is data:
                            s0, s1 = ieval(y.a[1], env), ieval(y.a[2], env); got = None if None in (s0, s1) else (s1 - s0 if s1 == l else -1)
                        else: got = None
                    else: got = None
                    if got == 0 and left == 0 and l > 0 and not is_agg(r, "None"): got = "no"      # an empty piece keeps the round going
                    rep.ob(k, None if got is None else got == left, where(b), f"of a slice of {l} bytes at {oo}, with {x} bytes written, {got} are taken to be left")
def vectored(ctx, rep):
    p = ctx.brec; anchors_ = ctx.fn(p, GET)
    for n in ("write_vectored", "write_vectored_all"):
        for Tn in ("WriteVectoredTo", "WriteVectoredMutTo", "WriteVectoredPayloadWithHeaderTo"):
            SL = Tn + "::slices"; b = ctx.fn(p, f"{Tn}::{n}"); A = ctx.an(p, b, opaque=(GET, ALL, SL), key="bufr"); rep.cover(A); k = f"vectored.{Tn}.{n}"
            s = me(b); exp = mk("call", SL, (s,), None); want = getf(exp, "Ok", 0)
            if n == "write_vectored":
                w = evs(A, "io", lambda e: e.op in ("write_vectored", "write", "write_all")); rep.ob(k, bool(w) or None, where(b), "nothing is written")
                for e in w: rep.ob(k + ".data", same3c(e.data, mk("call", GET, (want,), None)), where(b, e.line), f"writes {show(e.data)[:200]}")
                for e in exits(A):
                    c, x = classify(e.v)
                    if c == "ok": rep.ob(k + ".count", x.op == "nwritten" or (None if opaque_in(x) else False), where(b), f"reports {show(x)[:120]} bytes written")
            else:
                cs = calls(A, ALL); part = evs(A, "io", lambda e: e.op in ("write_vectored", "write")); looped = any(e.node in reach(A, [m for m, l in A.succ[e.node]]) for e in part)
                rep.ob(k, bool(cs) or (False if part and not looped or calls(A, Tn + "::write_vectored") and not part else None), where(b), "what the writer does not take at once is not written")
                for c in cs: rep.ob(k + ".data", same3c(c.vals[0], want), where(b, c.line), f"writes {show(c.vals[0])[:200]}")
                skip = reach(A, [0], {c.node for c in cs})
                for e in exits(A):
                    c, x = classify(e.v)
                    if c in ("ok", "?") and cs: rep.ob(k + ".result", e.n not in skip, where(b), "reports success without writing")
    # the pieces
    b = ctx.fn(p, GET); A = ctx.an(p, b, tag=alltag, key="bufr"); rep.cover(A); S = fld(p, me(b), "IoSlices", "slots"); some = 0
    for e in exits(A):
        v = nosite(e.v); vs = {v_ for a, v_ in e.facts.items() if a.op == "discr"}
        if v.op != "star": rep.ob("vectored.get", None, where(b), "list not recognised"); continue
        some += 1
        rep.ob("vectored.get.all", same3(v.a[1].a[0] if v.a[1].op == "src" else v.a[1], nosite(S)), where(b), f"pieces are taken from {show(v.a[1])[:160]}")
        el = v.a[0]; r = [y for y in subterms(el) if y.op == "at" and y.a[0] is nosite(S)]
        rep.ob("vectored.get.piece", True if r and el.op in ("init", "D", "fld", "deref") else (False if el.op in ("bytes", "seq", "slice") and not opaque_in(el) else None), where(b), f"a piece is given as {show(el)[:160]}")
    rep.ob("vectored.get.some", some > 0 or None, where(b), "list not recognised")
    for m, var in (("add_slice", "Slice"), ("add_buffered", "Buf")):
        b = ctx.fn(p, "IoSlices::" + m); A = ctx.an(p, b, key="bufr"); rep.cover(A); P = mk("P", argname(b, 1)); s0 = fld(p, mk("init", P), "IoSlices", "slots")
        for e in exits(A):
            v = fld(p, e.st.mem.get(P, mk("init", P)), "IoSlices", "slots"); sg = segs(v)
            okk = len(sg) == 2 and sg[0] is s0 and contains(sg[1], lambda y: is_agg(y, var) and contains(y, lambda q: q.op in ("P", "param") and q.a[0] == argname(b, 2)))
            rep.ob(f"vectored.{m}", okk or (None if opaque_in(v) else False), where(b), f"afterwards the pieces are {show(v)[:200]}")
    b = ctx.fn(p, "IoSlices::append"); A = ctx.an(p, b, key="bufr"); rep.cover(A); P = mk("P", argname(b, 1)); s0 = fld(p, mk("init", P), "IoSlices", "slots"); o = fld(p, mk("param", argname(b, 2)), "IoSlices", "slots")
    for e in exits(A): rep.eq("vectored.append", fld(p, e.st.mem.get(P, mk("init", P)), "IoSlices", "slots"), seq([s0, o]), where(b), "pieces afterwards")
    # everything is written, whatever the writer takes at a time
    b = ctx.fn(p, ALL); A = ctx.an(p, b, opaque=(GET,), key="bufr"); rep.cover(A); k = "vectored.all"
    ws = evs(A, "io", lambda e: e.op in ("write_vectored", "write", "write_all")); rep.ob(k + ".write", bool(ws) or None, where(b), "nothing is written")
    wn = {e.node for e in ws}; single = all(e.op == "write_all" for e in ws)
    src = mk("call", GET, (me(b),), None)
    def iszero(l):
        q = lab_(l); return q is not None and q[0].op == "eq" and ZERO in q[0].a and any(y.op == "nwritten" for y in q[0].a)
    labs = [(n, m, l) for n in range(len(A.nodes)) for m, l in A.succ[n]]
    loops = [e for e in ws if e.node in reach(A, [m for m, l in A.succ[e.node]])]
    if not single:
        # success only when nothing is left
        def done(l):
            q = lab_(l)
            if q is None or q[0].op not in ("eq", "lt"): return False
            if not contains(q[0], lambda y: y.op == "nwritten"): return True
            return contains(q[0], lambda y: y.op in ("len", "sum", "star", "call") or (y.op == "loop" and y in A.loopinfo and y.a[2].op != "CUR"))
        for e in ws:
            free_ = walk(A, [m for m, l in A.succ[e.node]], (), done)
            for x in exits(A):
                if classify(x.v)[0] == "ok": rep.ob(k + ".complete", x.n not in free_, where(b, e.line), "reports success after a write without looking whether everything was taken")
        for x in exits(A):
            if classify(x.v)[0] != "ok": continue
            Ls = {y for a in x.facts for y in subterms(a) if y.op == "len" and y.a[0].op == "star" and contains(y.a[0], lambda t: t.op == "call" and t.a[0] == GET)}
            for L in Ls:
                hs = [holds(a, v, {L: 1}) for a, v in x.facts.items() if a.op in ("eq", "lt") and contains(a, lambda t: t is L)]
                rep.ob(k + ".empty", True if False in hs else None if None in hs else False, where(b), "reports success while something is left")
        # a writer that takes nothing is an error
        zs = [(n, m, lab_(l)) for n, m, l in labs if iszero(l)]
        if loops and not zs and not any(contains(q[0], lambda y: y.op == "nwritten") for n, m, l in labs for q in [lab_(l)] if q): rep.ob(k + ".zero", False, where(b, loops[0].line), "a writer that takes nothing is asked for ever")
        for n, m, q in zs:
            if q[1]:
                r = reach(A, [m]); rep.ob(k + ".zero", not (r & wn) and not any(x.n in r and classify(x.v)[0] == "ok" for x in exits(A)), where(b), "a writer that takes nothing is asked again, or taken to have taken everything")
            else:
                r = reach(A, [m]); rep.ob(k + ".retry", bool(r & wn) or any(x.n in r and classify(x.v)[0] == "ok" for x in exits(A)), where(b), "gives up although the writer makes progress")
        rep.ob(k + ".loop", bool(loops) or (None if not ws else False), where(b), "what a writer did not take at once is not written")
    for e in ws:
        if e.op == "write_all": rep.ob(k + ".data", None, where(b, e.line), "pieces written one by one"); continue
        d = nosite(e.data)
        if d is src: rep.ob(k + ".progress", False if e in loops else True, where(b, e.line), "after a partial write everything is written again"); continue
        fm = [y for y in subterms(e.data) if y.op == "agg" and y.a[0] == "It" and y.a[1] == "filter_map"]
        if e.data.op != "star" or not fm: rep.ob(k + ".data", None, where(b, e.line), f"data not recognised: {show(d)[:160]}"); continue
        f = fm[0]; rep.ob(k + ".source", same3c(A.deep(e.st, f.a[2][0]), None, src), where(b, e.line), "what is written does not come from the pieces")
        caps = f.a[2][1].a[2] if f.a[2][1].op == "agg" else ()
        lp = [c for c in caps if c.op == "loop" and c in A.loopinfo]; zr = [c for c in caps if c is ZERO]
        if len(caps) != 2 or not lp: rep.ob(k + ".progress", None, where(b, e.line), "state of the writing not recognised"); continue
        tot = [c for c in lp if any(contains(y, lambda t: t.op == "nwritten") for y in A.loopinfo[c]["next"])]
        hv = [c for c in caps if c.op == "havoc" and c.a[0] == "closure"] + [c for c in lp if any(y.op == "havoc" and y.a[0] == "closure" for y in A.loopinfo[c]["next"])]
        rep.ob(k + ".restart", bool(zr) or (None if not hv else False), where(b, e.line), "the place of the first piece is not counted from the start in every round")
        for c in tot:
            li = A.loopinfo[c]; rep.ob(k + ".start", all(y is ZERO for y in li["init"]) or (None if any(opaque_in(y) for y in li["init"]) else False), where(b, e.line), "something is taken to be written before the first write")
            for y in li["next"]:
                dd = sub(y, c); rep.ob(k + ".count", dd.op == "nwritten" or (None if [z for z in opaque_in(tmap(dd, lambda t: ONE if t.op == "nwritten" else t)) if z is not c] else False), where(b, e.line), f"after a write {show(dd)[:120]} more bytes are taken to be written")
        if not tot: rep.ob(k + ".count", False if lp and all(set(A.loopinfo[c]["next"]) <= {c} for c in lp) else None, where(b, e.line), "what was written is not counted")
        tail(ctx, rep, p, f.a[2][1], A)
def same3c(got, exp, within=None):
    if within is not None:
        return True if contains(nosite(got), lambda y: y is within) else (None if opaque_in(got) else False)
    return same3(got, exp) if nosite(got) is nosite(exp) or not [y for y in opaque_in(nosite(got)) if y not in set(opaque_in(exp))] else None
