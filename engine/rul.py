"""Rules: which packets are delivered, and which callback decides."""
from core import *
import fmt, pkt, pbr
from fmt import adt, fld
from pay import dtag, me, maybe
VAR = {"filter_by_blocks": "FilterByBlocks", "filter_by_payload": "FilterByPayload", "filter": "Filter"}
def efacts(facts, of):
    """variants of rules list elements known: [(element, variant)]"""
    return [(a.a[0], v) for a, v in facts.items() if a.op == "discr" and a.a[0].op == "at" and contains(a.a[0], lambda t: t is of)]
def callee(t):
    """(callback, arguments) behind a call of a stored callback"""
    if t.op != "call": return None
    c = t.a[1][0]
    while c.op == "fld" and c.a[1] in ("Static", "Dynamic"): c = c.a[0]
    return c
def filters(ctx, rep):
    """A filter answers what its callback answers on the same argument, and `true` without a callback."""
    p = ctx.brec
    for m, V in VAR.items():
        b = ctx.fn(p, "RulesDef::" + m); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A); s = me(b)
        arg = me(b, 2); kinds = set()
        for e in exits(A):
            v = e.v; k = f"rules.{m}"
            ef = efacts(e.facts, s)
            mine = [x for x, y in ef if y == V]
            if v.op == "int":
                if v is ONE: rep.ob(k + ".none", not mine, where(b), f"a {V} rule is present but its callback does not decide")
                else: rep.ob(k + ".none", False, where(b), f"without a {V} rule everything is refused" if not mine else f"refused without asking the {V} callback")
                continue
            neg = v.op == "not"; c = v.a[0] if neg else v
            if c.op != "call": rep.ob(k + ".result", None, where(b), f"result not recognised: {show(v)[:120]}"); continue
            t = callee(c)
            if t is None or t.op != "fld" or t.a[1] not in set(VAR.values()) | {"Ignored"}: rep.ob(k + ".result", None, where(b), f"result comes from {show(c)[:120]}"); continue
            rep.ob(k + ".which", t.a[1] == V, where(b), f"the answer comes from the callback of a {t.a[1]} rule")
            rep.ob(k + ".same", not neg, where(b), "the callback's answer is inverted")
            for a, y in e.facts.items():
                if a.op == "discr" and a.a[0] is t: kinds.add(y)
        for e in evs(A, "call", lambda e: e.name == "<indirect>" or e.name.startswith(("Fn::", "FnMut::", "FnOnce::"))):
            got = e.vals[1] if len(e.vals) > 1 else None
            if got is not None and got.op == "agg" and got.a[0] == "tuple" and len(got.a[2]) == 1: got = got.a[2][0]
            if e.name != "<indirect>" or len(e.vals) > 1: rep.eq(f"rules.{m}.arg", got, arg, where(b, e.line), "value shown to the callback")
        rep.ob(f"rules.{m}.kinds", kinds == {"Static", "Dynamic"} or None, where(b), f"callbacks asked: {sorted(kinds)}")
def ignored(ctx, rep):
    """Every `Ignored` callback sees the bytes."""
    p = ctx.brec; b = ctx.fn(p, "RulesDef::ignore"); A = ctx.an(p, b); rep.cover(A); buf = me(b, 2)
    cb = evs(A, "call", lambda e: e.name == "<indirect>" or e.name.startswith(("Fn::", "FnMut::")))
    for e in cb:
        got = e.vals[1] if len(e.vals) > 1 else None
        if got is not None and got.op == "agg" and got.a[0] == "tuple" and len(got.a[2]) == 1: got = got.a[2][0]
        rep.eq("rules.ignore.arg", got, buf, where(b, e.line), "bytes shown to the callback")
        t = e.vals[0]
        while t.op == "fld" and t.a[1] in ("Static", "Dynamic"): t = t.a[0]
        rep.ob("rules.ignore.which", None if t.op != "fld" else t.a[1] == "Ignored", where(b, e.line), f"callback of {show(t)[:80]} is called")
    it = iterations(A)
    if len(it) != 1 or not cb: rep.ob("rules.ignore.each", None, where(b), "traversal of the rules not recognised"); return
    it = it[0]; cn = {e.node for e in cb}
    def other(lab): return lab is not None and isinstance(lab[0], Term) and lab[0].op == "discr" and lab[0].a[0].op == "at" and lab[1] != "Ignored"
    n = walk(A, it.some, cn, other)
    rep.ob("rules.ignore.each", not (n & it.nodes), where(b), "an `Ignored` rule can be passed over without being called")
    rep.ob("rules.ignore.all", not (n & set(A.exits)) and not any(x in A.exits for x in reach(A, [m for c in cn for m, _ in A.succ[c]], it.nodes)), where(b), "rules behind the first are left out")
IDS = ("Ignored", "FilterByBlocks", "FilterByPayload", "Filter")
def add_rule(ctx, rep):
    p = ctx.brec; b = ctx.fn(p, "RulesDef::add_rule"); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A)
    r = mk("param", argname(b, 2)); s = me(b); mem = mk("P", argname(b, 1)); dup = set(); known = set()
    for e in exits(A):
        c, x = classify(e.v); V = pkt.dval(e.facts, r); ef = efacts(e.facts, s)
        if V is None: rep.ob("rules.add.kind", None, where(b), "kind of the rule added not known"); continue
        known.add(V)
        if c == "ok":
            rep.ob(f"rules.add.{V}.once", not any(y == V for _, y in ef), where(b), f"a second {V} rule is accepted")
            new = getf(A.deep(e.st, mk("ref", mem, ())), None, 0)
            old = getf(mk("init", mem), None, 0)
            got = getf(e.st.mem.get(mem, mk("init", mem)), None, 0)
            rep.ob(f"rules.add.{V}.kept", True if got is seq([old, mk("le", 1, r)]) or got is seq([old, mk("le", 1, agg("RuleDef", V, (getf(r, V, 0),)))]) else (None if opaque_in(got) else False), where(b), f"rules after adding one are {show(got)[:160]}")
        elif c == "err":
            if x.op == "agg" and x.a[1] == "RuleDuplicate":
                dup.add(V); rep.ob(f"rules.add.{V}.first", None if not ef else any(y == V for _, y in ef), where(b), f"a {V} rule is refused because of another kind of rule")
            else: rep.ob(f"rules.add.{V}.error", None, where(b), f"fails with {show(x)[:100]}")
    for V in sorted(known): rep.ob(f"rules.add.{V}.dup", V in dup, where(b), f"a second {V} rule is not refused")
    b = ctx.fn(p, "RulesDef::remove_rule"); A = ctx.an(p, b, tag=dtag, key="d"); rep.cover(A); w = mk("param", argname(b, 2))
    ev = evs(A, "retain_pred")
    for e in ev:
        q = e.pred; neg = q.op == "not"; q = q.a[0] if neg else q
        if q.op == "call" and q.a[0].endswith("str::starts_with") and len(q.a[1]) == 2:
            # one textual id begins with another: not the same as being that id (Filter / FilterByBlocks)
            ids = {t.a[1] for t in subterms(q) if t.op == "agg" and t.a[0] == "RuleDefId"}
            full = contains(q.a[1][0], lambda t: t is w)
            if len(ids) == 1 and contains(q, lambda t: t is w):
                (X,) = ids; hit = sorted(Y for Y in IDS if Y != X and (Y.startswith(X) if full else X.startswith(Y)))
                if hit: rep.ob("rules.remove.which", False, where(b), f"a {X} rule also goes when {hit[0]} is removed, and the like"); continue
        if q.op != "eq" or not any(contains(y, lambda t: t is w) for y in q.a): rep.ob("rules.remove", None, where(b), f"condition not recognised: {show(e.pred)[:120]}"); continue
        o = next(y for y in q.a if not contains(y, lambda t: t is w))
        V = [v for t, v in efacts(e.st.facts, s)]
        ids = {t.a[1] for t in subterms(o) if t.op == "agg" and t.a[0] == "RuleDefId"}
        rep.ob("rules.remove.keeps", neg, where(b), "removing a rule keeps that rule and drops the others")
        rep.ob("rules.remove.which", None if len(set(V)) != 1 or len(ids) != 1 else set(V) == ids, where(b), f"a {V} rule goes by the id {sorted(ids)}")
    if not ev: rep.ob("rules.remove", None, where(b), "condition not recognised")
GATES = [("filtered", "Accepted", "Denied"), ("reader", "Found", "Skipped")]
def gating(ctx, rep):
    for k, yes, no in GATES:
        if k == "filtered": p, b, S, A = pkt.reader(ctx, "PacketDef::filtered"); T = "LookInStatus"
        else: p, b, A, _ = pbr.analysis(ctx); T = "NextPacket"
        rep.cover(A); k = "rules.gate." + k
        for f in pkt.RULES: ctx.fn(p, f)     # anchors
        def isf(a, m=None): return isinstance(a, Term) and a.op == "call" and a.a[0] in (pkt.RULES if m is None else (m,))
        found = skip = 0
        refused = walk(A, [0], (), lambda lab: lab is not None and isf(lab[0]) and lab[1] is False)
        for e in exits(A):
            c, x = classify(e.v)
            if c not in ("ok", "success") or not (x.op == "agg" and x.a[0] == T): continue
            if x.a[1] == no:
                skip += 1
                rep.ob(k + ".refused", e.n not in refused, where(b), f"a packet is reported {no} although no filter refused it")
            if x.a[1] != yes: continue
            found += 1; pk = x.a[2][-1]
            P = fld(p, pk, "PacketDef", "payload")
            fs = {}
            for a, v in e.facts.items():
                if isf(a): fs.setdefault(a.a[0], []).append((a, v))
            some = {y.a[1] for y in alts(P) if y.op == "agg" and y.a[0] == "Option"}
            for m in pkt.RULES:
                if m.endswith("by_payload") and some != {"Some"}: continue
                w = fs.get(m)
                n = m.split("::")[1]
                rep.ob(f"{k}.{n}", all(v is True for _, v in w) if w else e.n not in walk(A, [0], (), lambda lab: lab is not None and isf(lab[0], m) and lab[1] is True), where(b), f"a packet is delivered although {n} was not asked or refused it")
            for a, v in fs.get(pkt.RULES[2], []):
                rep.ob(k + ".filter.arg", nosite(a.a[1][1]) is nosite(pk), where(b), "the packet shown to the filter is not the packet delivered")
            for a, v in fs.get(pkt.RULES[0], []):
                L = a.a[1][1]
                rep.ob(k + ".filter_by_blocks.arg", True if contains(fld(p, pk, "PacketDef", "blocks"), lambda t: t is L) else None, where(b), "the blocks shown to the filter are not those of the packet delivered")
            for a, v in fs.get(pkt.RULES[1], []):
                pv = pkt.blkres(getf(P, "Some", 0))
                if pv.op != "call": continue
                g, w = span(a.a[1][1]), span(pv.a[1][0])
                r = None
                if g and w and g[0] is w[0]:
                    d = [sub(g[i], w[i]) for i in (1, 2)]
                    r = True if all(y is ZERO for y in d) else False if any(y.op == "int" and y is not ZERO for y in d) or not any(opaque_in(y) for y in d) else None
                rep.ob(k + ".filter_by_payload.arg", r, where(b), f"the payload shown to the filter ({show(a.a[1][1])[:120]}) is not the one extracted")
        rep.ob(k + ".found", found or None, where(b), f"no {yes} result"); rep.ob(k + ".skipped", skip > 0 or None, where(b), f"no {no} result")
        # nothing of the payload is decoded before the blocks and the payload bytes were accepted
        ex = {e.node for e in evs(A, "call", lambda c: c.name in pkt.EXTRACT or c.rn in pkt.EXTRACT)}
        for m in pkt.RULES[:2]:
            free = walk(A, [0], (), lambda lab: lab is not None and isf(lab[0], m) and lab[1] is True)
            rep.ob(f"{k}.{m.split('::')[1]}.first", not (free & ex) if ex else None, where(b), f"the payload is decoded without {m.split('::')[1]} having accepted the packet")
def span(t):
    if t.op == "rd": return t.a[0], t.a[1], add(t.a[1], t.a[2])
    if t.op == "slice": return t.a
    return None
