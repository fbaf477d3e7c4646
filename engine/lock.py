"""Exclusive access to a storage file, and the wake protocol of the observer."""
from core import *
import fmt
from fmt import adt, fld
from pay import dtag, ctag, me, maybe
from rul import walk
from stor import anchors
EXCL = ("try_lock_exclusive", "lock_exclusive", "try_lock", "lock")
SHARED = ("try_lock_shared", "lock_shared")
def last(n): return n.split("::")[-1].rstrip(">")
def islock(t, names=EXCL): return t.op == "call" and "FileExt" in t.a[0] + "FileExt" * ("File::" in t.a[0]) and last(t.a[0]) in names
def opens(A):
    """calls that open a file: (event, path)"""
    out = []
    for c in evs(A, "call"):
        n = c.rn or c.name
        if n.endswith("OpenOptions::open"): out.append((c, c.vals[1]))
        elif n.endswith(("File::open", "File::create", "File::create_new", "File::options")): out.append((c, c.vals[0] if c.vals else None))
    return out
def stripsite(t): return nosite(t)
def settled(facts, t):
    """is the answer of lock call t known to be 'locked'"""
    t = nosite(t); ok = None
    for a, v in facts.items():
        a_ = nosite(a)
        if a_.op == "discr" and a_.a[0] is t: ok = (v == "Ok") if ok in (None, True) else ok
        if a_ is getf(t, "Ok", 0): return bool(v)
    return ok
def exclusive(ctx, rep):
    p = ctx.brec; b = ctx.fn(p, "FileWriterDef::new"); WN = "WriterDef::new"; anchors(ctx, WN); k = "lock"
    A = ctx.an(p, b, opaque=(WN,), key="lock"); rep.cover(A)
    name = mk("param", argname(b, 1)); tmo = mk("param", argname(b, 2))
    lk = [c for c in evs(A, "call") if last(c.rn or c.name) in EXCL + SHARED and ("FileExt" in (c.rn or c.name) or "File::" in (c.rn or c.name))]
    rep.ob(k + ".taken", bool(lk) or None, where(b), "no lock is taken")
    for c in lk:
        n = last(c.rn or c.name)
        rep.ob(k + ".exclusive", n in EXCL, where(b, c.line), f"{n} lets several writers in")
    okx = [e for e in exits(A) if classify(e.v)[0] == "ok"]; rep.ob(k + ".ok", bool(okx) or None, where(b), "no successful path")
    for e in okx:
        x = classify(e.v)[1]; parts = list(x.a[2]) if x.op == "agg" else []
        wr = [q for q in parts if contains(q, lambda t: t.op == "call" and t.a[0] == WN)]
        hs = [q for q in parts if contains(q, lambda t: t.op == "call" and t.a[0].endswith("open") or t.op == "call" and "File::" in t.a[0]) and q not in wr]
        rep.ob(k + ".kept", len(hs) == 1 or (False if parts and lk and not hs else None), where(b), "the locked file is not kept with the writer, so the lock is gone when new() returns")
        if len(hs) != 1: continue
        H = hs[0]; locks = [a for a, v in e.facts.items() if a.op == "fld" and islock(a.a[0]) or a.op == "discr" and islock(a.a[0])]
        mine = [t for a in locks for t in subterms(a) if islock(t) and nosite(t.a[1][0]) is nosite(H)]
        other = [t for a in locks for t in subterms(a) if islock(t) and nosite(t.a[1][0]) is not nosite(H)]
        if mine: rep.ob(k + ".held", True if settled(e.facts, mine[0]) else False, where(b), "a writer is given out although the lock was refused")
        else: rep.ob(k + ".held", (False if other else None) if lk else None, where(b), "the file kept is not the one that was locked")
        # which file the lock lies on follows from the name of the storage alone
        paths = {t.a[1][1] for t in subterms(H) if t.op == "call" and t.a[0].endswith("OpenOptions::open")}
        for q in paths:
            rt = {y for y in subterms(q) if y.op == "param"}; sysd = [y for y in subterms(q) if y.op == "call" and last(y.a[0]) in ("now", "id", "temp_dir", "elapsed", "current_dir")]
            rep.ob(k + ".path", True if rt == {name} and not sysd else False if name not in rt and not opaque_in(tmap(q, lambda y: ZERO if y.op == "call" else y)) or sysd or len(rt) > 1 else None, where(b), f"the lock lies on {show(q)[:120]}: writers of the same storage may use different locks")
    # the storage is not touched before the lock is held
    def got(lab):
        if lab is None or not isinstance(lab[0], Term): return False
        c, v = lab
        while c.op == "not": c, v = c.a[0], not v
        if c.op == "fld" and islock(c.a[0]) and c.a[1] == "Ok": return v is True or v == 1
        return c.op == "discr" and islock(c.a[0]) and v == "Ok" and last(c.a[0].a[0]) not in ("try_lock_exclusive",)
    free_ = walk(A, [0], (), got); any_ = any(got(l) for n in range(len(A.nodes)) for m, l in A.succ[n])
    sto = [(c, q) for c, q in opens(A) if q is not None and nosite(q) is name]
    touch = [c for c, q in sto] + calls(A, WN)
    lockpaths = {nosite(t.a[1][1]) for c in lk for t in subterms(c.vals[0]) if t.op == "call" and t.a[0].endswith("OpenOptions::open")}
    for c in touch:
        if c in [x for x, q in sto] and name in lockpaths and c.node in {x.node for x, q in sto}: continue
        rep.ob(k + ".before", (c.node not in free_) if any_ else None, where(b, c.line), f"{c.rn or c.name} works on the storage before the lock is held")
    rep.ob(k + ".storage", bool(sto) or None, where(b), "opening of the storage not recognised")
    # nothing that exists is destroyed by opening
    for c in evs(A, "call"):
        n = c.rn or c.name
        if n.endswith("OpenOptions::truncate"): rep.ob(k + ".truncate", True if c.vals[1] is ZERO else False if c.vals[1] is ONE else None, where(b, c.line), "opening a storage empties it")
        if n.endswith("OpenOptions::create_new") and c.vals[1] is ONE: rep.ob(k + ".create", None, where(b, c.line), "")
        if n.endswith("File::create"): rep.ob(k + ".truncate", False, where(b, c.line), "opening a storage empties it")
        if last(n) in ("remove_file", "rename", "set_len") and ("fs::" in n or "File::" in n): rep.ob(k + ".destroy", False, where(b, c.line), f"{n} while opening a storage")
    # how a refused lock ends
    for e in exits(A):
        c, x = classify(e.v)
        for y in (alts(x) if c in ("err", "io") else []):
            if y.op != "agg" or not isinstance(y.a[1], str): continue
            d = [v for a, v in e.facts.items() if a.op == "discr" and a.a[0] is tmo]
            if y.a[1] == "TimeoutToWaitLockedFile":
                w = [v for a, v in e.facts.items() if a.op == "lt" and contains(a.a[0], lambda t: t.op == "call" and last(t.a[0]) == "elapsed") and contains(a.a[1], lambda t: t is tmo)] 
                w2 = [not v for a, v in e.facts.items() if a.op == "lt" and contains(a.a[1], lambda t: t.op == "call" and last(t.a[0]) == "elapsed") and contains(a.a[0], lambda t: t is tmo)]
                g = [v for a, v in e.facts.items() if a.op == "call" and "Partial" in a.a[0] or a.op == "call" and last(a.a[0]) in ("ge", "gt", "le", "lt")]
                more = [a for a in e.facts if contains(a, lambda t: t.op == "call" and last(t.a[0]) in ("add", "mul", "checked_add", "saturating_add") and contains(t, lambda q: q.op == "call" and last(q.a[0]) == "elapsed"))]
                rep.ob(k + ".timeout.when", (False if d == ["None"] or more else None if not (w or w2 or g) else True if (w and w[0] is False) or (w2 and w2[0] is False) or g else False), where(b), "gives up by timeout although the time is not over")
            if y.a[1] == "FileIsLocked": rep.ob(k + ".locked.when", True if d == ["None"] else False if d == ["Some"] else None, where(b), "gives up at once although a timeout was given")
    for c in evs(A, "call", lambda c: last(c.rn or c.name) == "sleep"):
        d = [v for a, v in c.st.facts.items() if a.op == "discr" and a.a[0] is tmo]
        rep.ob(k + ".wait.when", True if d == ["Some"] else False if d == ["None"] else None, where(b, c.line), "waits although no timeout was given")
    # another try asks for the lock again; an unlocked file is not used
def release(ctx, rep):
    """Nothing gives the lock back before the writer goes."""
    p = ctx.brec; b0 = ctx.fn(p, "FileWriterDef::new"); n = 0
    for name, bs in p.byname.items():
        for b in bs:
            if "/storage/" not in b["file"]: continue
            for bb in b["bbs"]:
                t = bb["t"]; fn = t["f"].get("fn") if t["k"] == "call" else None
                if not fn: continue
                n += 1; q = fn.get("rn") or fn["n"]
                if last(q) in ("unlock", "unlock_async") and ("FileExt" in q or "File::" in q): rep.ob("lock.unlock." + b["n"], False, where(b, t["l"]), f"{b['n']} gives the lock back")
                if q.startswith("fs::") and last(q) in ("remove_file", "rename", "remove_dir_all", "write", "copy", "hard_link") or q in ("File::create", "File::create_new", "File::set_len"): rep.ob("lock.file." + b["n"], False, where(b, t["l"]), f"{q} in {b['n']}: another writer may lock, or lose, a file this one still uses")
                if last(q) in ("forget", "leak") and ("mem::" in q or "Box::" in q): rep.ob("lock.leak." + b["n"], None, where(b, t["l"]), "value leaked")
    rep.ob("lock.scan", n > 0 or None, where(b0), "no calls found in the storage")
    rep.nodes += n
def options(ctx, rep):
    p = ctx.brec; T = "FileStorageOptions"; FS = ("interval", "timeout", "filename"); NW = "FileWriterDef::new"; anchors(ctx, NW)
    b = ctx.fn(p, T + "::new"); A = ctx.an(p, b); rep.cover(A)
    for e in exits(A):
        rep.ob("options.new.timeout", is_agg(fld(p, e.v, T, "timeout"), "None") or (None if opaque_in(fld(p, e.v, T, "timeout")) else False), where(b), "waits for a lock although nobody asked it to")
        rep.eq("options.new.filename", fld(p, e.v, T, "filename"), mk("param", argname(b, 1)), where(b), "name of the storage")
    for m in ("interval", "timeout"):
        b = ctx.fn(p, f"{T}::{m}"); A = ctx.an(p, b); rep.cover(A); s = mk("param", argname(b, 1)); v = mk("param", argname(b, 2))
        for e in exits(A):
            for f in FS:
                got = fld(p, e.v, T, f); exp = fld(p, s, T, f) if f != m else v if f == "interval" else mk("agg", "Option", "Some", (v,))
                rep.eq(f"options.{m}.{f}", got, exp, where(b), f"field {f}")
    b = ctx.fn(p, T + "::open"); A = ctx.an(p, b, opaque=(NW,)); rep.cover(A); s = mk("param", argname(b, 1)); cs = calls(A, NW)
    rep.ob("options.open.call", bool(cs) or None, where(b), "FileWriterDef::new not called")
    for c in cs:
        rep.eq("options.open.filename", c.vals[0], fld(p, s, T, "filename"), where(b), "name of the storage"); rep.eq("options.open.timeout", c.vals[1], fld(p, s, T, "timeout"), where(b), "timeout")
        rep.eq("options.open.interval", c.vals[2], mk("agg", "Option", "Some", (fld(p, s, T, "interval"),)), where(b), "interval")
        for e in exits(A): rep.ob("options.open.result", contains(e.v, lambda t: t.op == "call" and t.a[0] == NW) or (None if opaque_in(e.v) else False), where(b), "the writer is not what new() gave")
    b = ctx.fn(p, "FileWriterDef::insert"); A = ctx.an(p, b, opaque=("WriterDef::insert",)); rep.cover(A); cs = calls(A, "WriterDef::insert")
    rep.ob("options.insert", bool(cs) or None, where(b), "insertion is not handed on")
    for c in cs:
        rep.eq("options.insert.packet", c.vals[1], mk("param", argname(b, 2)), where(b), "packet inserted")
    skip = reach(A, [0], {c.node for c in cs})
    for e in exits(A):
        if classify(e.v)[0] in ("ok", "?"): rep.ob("options.insert.result", e.n not in skip, where(b), "reports success without inserting")
# ---------------------------------------------------------------- observer
EMIT, FMAX = "Sensor::emit", "sensor::fetch_max_u64"
def named(p):
    """the function that sends the wake and the one that raises the processed length, whatever they are called"""
    def has(b, f):
        for bb in b["bbs"]:
            if bb["t"]["k"] == "call":
                g = bb["t"]["f"].get("fn") or {}
                if f(g.get("rn") or g.get("n") or ""): return True
        return False
    home = {b["file"] for n in ("Sensor::processed", "Sensor::new") for b in p.byname.get(n, [])}
    fs = [(n, b) for n, bs in p.byname.items() for b in bs if b["file"] in home and "{closure" not in n and n not in ("Sensor::processed", "Sensor::new")]
    em = [n for n, b in fs if has(b, lambda c: "Sender" in c and last(c) in ("try_send", "send", "send_timeout"))]
    fm = [n for n, b in fs if n not in em and has(b, lambda c: "Atomic" in c and last(c) in ("compare_exchange", "compare_exchange_weak", "fetch_max", "fetch_update", "store", "swap"))]
    return (EMIT if EMIT in p.byname or len(em) != 1 else em[0], FMAX if FMAX in p.byname or len(fm) != 1 else fm[0])
def atom(c): n = c.rn or c.name; return last(n) if n.startswith(("Atomic::", "AtomicBool::", "AtomicU64::")) or "Atomic" in n.split("::")[0] else None
def send(c): n = c.rn or c.name; return "Sender" in n and last(n) in ("try_send", "send", "send_timeout")
def cas(t): return t.op == "call" and "Atomic" in t.a[0] and last(t.a[0]) in ("compare_exchange", "compare_exchange_weak", "swap", "fetch_or")
ROLES = ("target", "tx", "locked", "processed_len")
def roles(p, b):
    """which parameter of the waking function is which, told by their types"""
    ix = {n: i for i, n in enumerate(ROLES, 1)}
    for i in range(1, b["argc"] + 1):
        t = p.types[b["locals"][i][0]]
        while t["k"] == "ref": t = p.types[t["to"]]
        n = str(t.get("s"))
        for r, w in (("target", "Path"), ("tx", "Sender"), ("locked", "bool"), ("processed_len", "u64")):
            if w in n and (r in ("target", "tx") or "Atomic" in n): ix[r] = i
    if b["argc"] != 4 or len(set(ix.values())) != 4: raise Missing("parameters of the waking function")
    return ix
def wake(ctx, rep):
    p = ctx.brec; k = "wake"; EMIT, FMAX = named(p)
    b = ctx.fn(p, EMIT); A = ctx.an(p, b, key="lock"); rep.cover(A)
    ix = roles(p, b); tgt, tx, lk, pl = [mk("init", mk("P", argname(b, ix[n]))) for n in ROLES]
    ss = [c for c in evs(A, "call") if send(c)]; rep.ob(k + ".send", bool(ss) or None, where(b), "no wake is ever sent")
    def won(lab):
        if lab is None or not isinstance(lab[0], Term): return False
        c, v = lab
        while c.op == "not": c, v = c.a[0], not v
        if c.op == "discr" and cas(c.a[0]) and c.a[0].a[1][0] is lk: return v == "Ok" and c.a[0].a[1][1] is ZERO and c.a[0].a[1][2] is ONE
        return cas(c) and c.a[1][0] is lk and last(c.a[0]) in ("swap", "fetch_or") and c.a[1][1] is ONE and v is False
    def grown(lab):
        if lab is None or not isinstance(lab[0], Term): return False
        c, v = lab
        while c.op == "not": c, v = c.a[0], not v
        if c.op != "lt": return False
        L = lambda t: contains(t, lambda y: y.op == "call" and "Atomic" in y.a[0] and last(y.a[0]) == "load" and y.a[1][0] is pl); M = lambda t: contains(t, lambda y: y.op == "call" and last(y.a[0]) == "metadata")
        return v is True and L(c.a[0]) and M(c.a[1])
    def nsucc(f): return any(f(l) for n in range(len(A.nodes)) for m, l in A.succ[n])
    for f, key, msg in ((won, ".once", "a wake is sent although the last one was not answered"), (grown, ".growth", "a wake is sent although nothing new is there")):
        free_ = walk(A, [0], (), f); kn = nsucc(f)
        if not kn and f is won and any(atom(c) == "store" and c.vals[0] is lk and c.vals[1] is ONE for c in evs(A, "call")):
            rep.ob(k + key, False, where(b), "the turn is taken in two steps: two threads can take it at once"); continue
        if not kn and f is grown and ss:
            L = lambda t: t.op == "call" and "Atomic" in t.a[0] and last(t.a[0]) == "load" and t.a[1][0] is pl; M = lambda t: t.op == "call" and last(t.a[0]) == "len"
            w = [(a, v) for c in ss for a, v in c.st.facts.items() if a.op == "lt" and {L(a.a[0]) or M(a.a[0]), L(a.a[1]) or M(a.a[1])} == {True}]
            if w and all(M(a.a[0]) and L(a.a[1]) and v is False for a, v in w): rep.ob(k + key, False, where(b), msg); continue
        for c in ss: rep.ob(k + key, (c.node not in free_) if kn else (False if not [x for x in evs(A, "call") if atom(x)] else None), where(b, c.line), msg)
    for c in ss:
        v = c.vals[1]; 
        rep.ob(k + ".size", contains(v, lambda t: t.op == "call" and last(t.a[0]) == "len" and contains(t, lambda y: y.op == "call" and last(y.a[0]) == "metadata")) or (None if opaque_in(tmap(v, lambda y: ZERO if y.op == "call" else y)) else False), where(b, c.line), f"wake carries {show(v)[:100]}, not the size of the file")
        rep.ob(k + ".nonblocking", last(c.rn or c.name) == "try_send" or False, where(b, c.line), "sending may block the thread that reports changes")
    # whoever took the turn sends the wake
    st = [m for n in range(len(A.nodes)) for m, l in A.succ[n] if won(l)]
    if st:
        r = reach(A, st, {c.node for c in ss})
        rep.ob(k + ".taken.sent", not any(e.n in r for e in exits(A)), where(b), "the turn is taken but no wake is sent: nobody will ever be woken again")
    # failures
    for e in exits(A):
        c, x = classify(e.v); d = [v for a, v in e.facts.items() if a.op == "discr" and a.a[0].op == "fld" and a.a[0].a[1] == "Err" and contains(a.a[0], lambda t: t.op == "call" and "Sender" in t.a[0])]
        if c == "ok" and "Disconnected" in d: rep.ob(k + ".disconnected", False, where(b), "a closed channel goes unnoticed")
        if c == "err" and "Full" in d: rep.ob(k + ".full", False, where(b), "a wake that is still waiting is reported as a failure")
    fs = [(c, atom(c)) for c in evs(A, "call") if atom(c) in ("store", "swap", "fetch_and", "fetch_or")]
    for c, n in fs:
        if n == "store" and c.vals[0] is lk and c.vals[1] is ZERO: rep.ob(k + ".unlock", None, where(b, c.line), "")
def processed(ctx, rep):
    p = ctx.brec; k = "processed"; EMIT, FMAX = named(p); anchors(ctx, EMIT)
    names = (EMIT, FMAX) if FMAX in p.byname else (EMIT,)
    b = ctx.fn(p, "Sensor::processed"); A = ctx.an(p, b, opaque=names, key="lock"); rep.cover(A); s = me(b); F = lambda n: fld(p, s, "Sensor", n)
    lk, pl, u = F("locked"), F("processed_len"), mk("param", argname(b, 2))
    em = calls(A, EMIT); up = [c for c in evs(A, "call") if (c.name == FMAX or c.rn == FMAX or atom(c) in ("fetch_max", "store", "compare_exchange", "compare_exchange_weak", "fetch_update")) and strip_d(c.vals[0]) is strip_d(pl)]
    un = [c for c in evs(A, "call") if atom(c) in ("store", "swap", "compare_exchange", "fetch_and") and strip_d(c.vals[0]) is strip_d(lk)]
    okx = {e.n for e in exits(A) if classify(e.v)[0] in ("ok", "?")}
    def noted(lab):
        """nothing to note: what was processed is not more than what is noted already"""
        if lab is None or not isinstance(lab[0], Term): return False
        c, v = lab
        while c.op == "not": c, v = c.a[0], not v
        return c.op == "lt" and ((c.a[1] is u and v is False) or (c.a[0] is u and v is True))
    own = up and all(atom(c) in ("compare_exchange", "compare_exchange_weak") for c in up)
    for n, l in (("processed_len", up), ("unlock", un), ("recheck", em)):
        if n == "processed_len" and own and (walk(A, [0], {c.node for c in l}, noted) & okx) == set(): rep.ob(f"{k}.{n}", True, where(b), ""); continue
        rep.ob(f"{k}.{n}", (not (reach(A, [0], {c.node for c in l}) & okx)) if l else (False if n == "recheck" else None), where(b), {"processed_len": "what was processed is not noted", "unlock": "no further wake is let through", "recheck": "growth while the last wake was being handled is not looked for"}[n])
    for c in up:
        rep.ob(k + ".max", False if atom(c) == "store" else True, where(b, c.line), "the processed length can go back")
        if len(c.vals) > 1 and (c.name == FMAX or atom(c) == "fetch_max"): rep.eq(k + ".until", c.vals[1], u, where(b, c.line), "length noted as processed")
    for c in un:
        if atom(c) in ("store", "swap"): rep.eq(k + ".unlock.value", c.vals[1], ZERO, where(b, c.line), "lock flag")
    if up and un: rep.ob(k + ".order.noted", not ((walk(A, [0], {c.node for c in up}, noted) if own else reach(A, [0], {c.node for c in up})) & {c.node for c in un}), where(b), "the next wake is let through before what was processed is noted")
    if un and em:
        rep.ob(k + ".order.recheck", not (reach(A, [0], {c.node for c in un}) & {c.node for c in em}) or not em, where(b), "growth is looked for before the next wake is let through: a change in between is lost")
    ix = roles(p, ctx.fn(p, EMIT))
    for c in em:
        for f in ROLES:
            i = ix[f] - 1
            if i < len(c.vals): rep.ob(k + ".emit." + f, True if strip_d(c.vals[i]) is strip_d(F(f)) else (None if opaque_in(c.vals[i]) else False), where(b, c.line), f"{f} of another sensor")
    if FMAX in p.byname: fmax(ctx, rep, p, k, FMAX)
    b = ctx.fn(p, "Sensor::new"); A = ctx.an(p, b, key="lock"); rep.cover(A)
    for c in evs(A, "call"):
        n = c.rn or c.name
        if last(n) == "bounded": rep.ob("sensor.channel", True if c.vals[0].op == "int" and c.vals[0].a[0] >= 1 else False if c.vals[0] is ZERO else None, where(b, c.line), "a wake cannot wait in the channel")
        if atom(c) == "new": rep.ob("sensor.start", c.vals[0] is ZERO or (None if c.vals[0].op != "int" else False), where(b, c.line), "a new sensor starts locked, or as if something was processed")
    cl = [x for n, bs in p.byname.items() if n.startswith("Sensor::new::{closure}") for x in bs]
    es = [bb for x in cl for bb in x["bbs"] if bb["t"]["k"] == "call" and (bb["t"]["f"].get("fn") or {}).get("rn", (bb["t"]["f"].get("fn") or {}).get("n")) == EMIT]
    rep.ob("sensor.callback", bool(es) or None, where(b), "changes of the file are not passed on")
def fmax(ctx, rep, p, k, FMAX):
    b = ctx.fn(p, FMAX); A = ctx.an(p, b, key="lock"); rep.cover(A); st = me(b); ch = mk("param", argname(b, 2))
    ws = [c for c in evs(A, "call") if atom(c) in ("compare_exchange", "compare_exchange_weak", "store", "fetch_max", "swap")]
    rep.ob(k + ".raise", bool(ws) or None, where(b), "length is never raised")
    if not ws: return
    for c in ws:
        n = atom(c)
        if n == "fetch_max": rep.eq(k + ".raise.to", c.vals[1], ch, where(b, c.line), "length noted"); continue
        if n in ("store", "swap"): rep.ob(k + ".raise.atomic", False, where(b, c.line), "a concurrent raise can be undone"); continue
        cur = c.vals[1]; rep.eq(k + ".raise.to", c.vals[2], ch, where(b, c.line), "length noted")
        g = [v for a, v in c.st.facts.items() if a.op == "lt" and a.a == (cur, ch)]; g2 = [not v for a, v in c.st.facts.items() if a.op == "lt" and a.a == (ch, cur)]
        rep.ob(k + ".raise.only", True if g == [True] else False if g == [False] or (not g and not g2 and not any(contains(a, lambda t: t is ch) for a in c.st.facts)) else None, where(b, c.line), "the processed length can go back")
        li = A.loopinfo.get(cur)
        if li: rep.ob(k + ".raise.current", all(contains(y, lambda t: t.op == "call" and "Atomic" in t.a[0]) for y in list(li["init"]) + list(li["next"])) or None, where(b, c.line), "compared with a value not read from the store")
    # gives up only when done or when nothing is to be raised
    def done(lab):
        if lab is None or not isinstance(lab[0], Term): return False
        c, v = lab
        while c.op == "not": c, v = c.a[0], not v
        if c.op == "discr" and cas(c.a[0]): return v == "Ok"
        if c.op == "lt" and c.a[1] is ch: return v is False
        return c.op == "lt" and c.a[0] is ch and v is True
    if not any(atom(c) == "fetch_max" for c in ws):
        free_ = walk(A, [0], (), done); rep.ob(k + ".raise.retry", not any(e.n in free_ for e in exits(A)), where(b), "gives up although another thread got in between")
def strip_d(t):
    """the object behind references, boxes and shared pointers"""
    while t.op in ("D", "init") or (t.op == "call" and last(t.a[0]) in ("deref", "as_ref", "borrow")): t = t.a[0] if t.op != "call" else t.a[1][0]
    return t
