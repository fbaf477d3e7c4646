"""Abstract interpreter over MIR: forward dataflow on the inlined call graph, partitioned by
known enum variants (trace partitioning), with loop widening. Nothing is executed: values are
value-numbers (terms.py), joins build phi sets, loops introduce widened symbols, branches only
contribute facts. Result: an exploded flow graph with events, edge conditions and exits."""
import json, sys
import heapq
from terms import *
import models

class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = d["types"]; self.crate = d["crate"]; self.roots = d["roots"]; self.impls = d["impls"]
        self.bodies = {}
        self.byname = {}
        for b in d["bodies"]:
            self.bodies[b["id"]] = b
            self.byname.setdefault(b["n"], []).append(b)
        self._prep = {}
    def prep(self, b):
        p = self._prep.get(b["id"])
        if p is None:
            p = self._prep[b["id"]] = BodyInfo(self, b)
        return p
    def short(self, ti):
        t = self.types[ti]
        return t.get("n") or t["s"]

def succs(t):
    k = t["k"]
    if k in ("goto", "drop", "assert"): return [t["t"]]
    if k == "call": return [t["t"]] if t["t"] is not None else []
    if k == "switch": return [x[1] for x in t["t"]] + [t["o"]]
    return []

class BodyInfo:
    def __init__(self, prog, b):
        self.b = b; n = len(b["bbs"])
        # retreating edges by DFS
        self.heads = set(); self.back = set()
        color = {}
        st = [(0, iter(succs(b["bbs"][0]["t"])))]; color[0] = 1
        order = [0]
        while st:
            u, it = st[-1]
            for v in it:
                if color.get(v) == 1: self.heads.add(v); self.back.add((u, v))
                elif v not in color:
                    color[v] = 1; order.append(v); st.append((v, iter(succs(b["bbs"][v]["t"])))); break
            else:
                color[u] = 2; st.pop()
        self.reach = set(color)
        # reverse postorder
        po = []; seen = {0}; st = [(0, iter(succs(b["bbs"][0]["t"])))]
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen: seen.add(v); st.append((v, iter(succs(b["bbs"][v]["t"])))); break
            else: po.append(u); st.pop()
        self.rpo = {u: i for i, u in enumerate(reversed(po))}
        # borrowed locals
        self.borrowed = set()
        use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        def pl_use(p, u, d):
            if p[0] not in d: u.add(p[0])
            for e in p[1:]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d: u.add(e[1])
        def op_use(o, u, d):
            if "cp" in o: pl_use(o["cp"], u, d)
            elif "mv" in o: pl_use(o["mv"], u, d)
        for i, bb in enumerate(b["bbs"]):
            u, d = use[i], dfn[i]
            def defn(p):
                if len(p) == 1: d.add(p[0])
                else: pl_use(p, u, d)
            for s in bb["s"]:
                if s[0] == "=":
                    r = s[2]
                    for k in ("o", "a", "b"):
                        if isinstance(r.get(k), dict): op_use(r[k], u, d)
                    for o in r.get("ops", []): op_use(o, u, d)
                    if "p" in r:
                        pl_use(r["p"], u, d)
                        if r["r"] in ("ref", "rawptr") and "*" not in r["p"][1:]: self.borrowed.add(r["p"][0])
                    defn(s[1])
                elif s[0] == "sd": pl_use(s[1], u, d)
                elif s[0] == "cno":
                    for o in s[1:4]: op_use(o, u, d)
            t = bb["t"]
            if t["k"] == "switch": op_use(t["d"], u, d)
            elif t["k"] == "call":
                op_use(t["f"], u, d)
                for o in t["a"]: op_use(o, u, d)
                if len(t["d"]) > 1: pl_use(t["d"], u, d)
                # dest defined on the way out; treat conservatively as not killing
            elif t["k"] == "assert": op_use(t["c"], u, d); [op_use(o, u, d) for o in t["a"]]
            elif t["k"] == "drop": pass
            elif t["k"] == "ret": u.add(0) if 0 not in d else None
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                t = b["bbs"][i]["t"]
                for s in succs(t): o |= live[s]
                if t["k"] == "call" and len(t["d"]) == 1: o = o - {t["d"][0]}
                nl = use[i] | (o - dfn[i])
                if nl != live[i]: live[i] = nl; ch = True
        self.live = live
        self.boolish = {i for i, l in enumerate(b["locals"]) if prog.types[l[0]].get("n") == "bool"}

class State:
    __slots__ = ("mem", "cur", "facts")
    def __init__(self, mem=None, cur=None, facts=None):
        self.mem = mem or {}; self.cur = cur or {}; self.facts = facts or {}
    def copy(self):
        return State(dict(self.mem), dict(self.cur), dict(self.facts))

class Frame:
    __slots__ = ("id", "body", "info", "parent", "call_bb", "dest", "target", "post", "depth", "stack", "order")

class Ev(dict):
    __getattr__ = dict.get

class Incomplete(Exception):
    pass

class Analysis:
    MAXN = 30000
    def __init__(self, prog, root, opaque=(), args=None, argnames=None, nofork=False, inline_filter=None, init=None, tag=None):
        self.tag = tag
        self.p = prog; self.root = root
        self.ghost = {x[1:] for x in opaque if x[0] == "+"}    # opaque functions whose last argument is collected, in call order
        self.opaque = {x.lstrip("+") for x in opaque}
        self.inline_filter = inline_filter
        self.frames = {}; self.frame_list = []
        self.widen = {}        # (frame,bb) -> {(base,path)}
        self.satsubs = set(); self.satends = set()     # differences taken without going below zero
        self.loopinfo = {}     # Term L -> {"init":set,"next":set}
        self.args = args; self.argnames = argnames; self.init = init
        self.unmodelled = {}
        self.nrounds = 0
        self.run()

    # ---- frames
    def frame(self, body, parent, call_bb, dest, target, post):
        key = (parent.id if parent else -1, call_bb, body["id"], post)
        f = self.frames.get(key)
        if f is None:
            f = Frame(); f.id = len(self.frame_list); f.body = body; f.info = self.p.prep(body)
            f.parent = parent; f.call_bb = call_bb; f.dest = dest; f.target = target; f.post = post
            f.depth = parent.depth + 1 if parent else 0
            f.order = (parent.order + (parent.info.rpo.get(call_bb, 0),)) if parent else ()
            f.stack = (parent.stack if parent else ()) + (body["id"],)
            self.frames[key] = f; self.frame_list.append(f)
        return f

    def run(self):
        for rnd in range(12):
            self.nrounds = rnd + 1
            self.want = False
            self.loopinfo = {}
            self.one()
            if not self.want: return
        raise Incomplete("widening did not settle for " + self.root["n"])

    def one(self):
        self.nodes = {}; self.instate = {}; self.succ = {}; self.events = {}; self.exits = {}; self.pred = {}
        self.visits = {}
        f = self.frame(self.root, None, None, None, None, None)
        st = State()
        names = {}
        for i in range(1, self.root["argc"] + 1):
            l = self.root["locals"][i]
            nm = l[1] if len(l) > 1 else f"arg{i}"
            names[i] = nm
            ty = self.p.types[l[0]]
            v = mk("param", nm)
            if ty["k"] == "ref": v = mk("ref", mk("P", nm), ())
            if self.args and i in self.args: v = self.args[i]
            st.mem[mk("L", f.id, i)] = v
        for g in self.ghost: st.mem[mk("G", g)] = EMPTY
        if self.init: self.init(self, st)
        self.wl = []
        self.enter(None, None, f, 0, st, False)
        steps = 0
        while self.wl:
            n = heapq.heappop(self.wl)[1]
            self.inwl.discard(n)
            steps += 1
            if steps > self.MAXN * 3: raise Incomplete("too many steps in " + self.root["n"])
            self.exec(n)
    inwl = None

    def shape(self, t, d=0):
        if t.op == "agg":
            return (t.a[1],) + (tuple(self.shape(x, d + 1) for x in t.a[2]) if d < 3 else ()) if (t.a[1] or t.a[2]) else ""
        if t.op == "with":
            return tuple([self.shape(t.a[0], d), t.a[1], self.shape(t.a[2], d + 1)]) if (t.a[2].op in ("agg", "with")) else self.shape(t.a[0], d)
        return ""
    def key(self, f, bb, st):
        ks = []
        for b, v in st.mem.items():
            if b.op == "L":
                fr = self.frame_list[b.a[0]]
                if v.op == "int":
                    if b.a[1] in fr.info.boolish: ks.append((b.id, v.a[0]))
                    continue
            s = self.shape(v)
            if s and s != "" and any_tag(s): ks.append((b.id, s))
        ks.sort(key=lambda x: x[0])
        if self.tag: ks.append(self.tag(st))
        return tuple(ks)

    def enter(self, src, label, f, bb, st, back):
        """flow a state along an edge into (f,bb)"""
        if self.inwl is None or src is None: self.inwl = set()
        # liveness pruning of this frame's locals
        live = f.info.live[bb]; bor = f.info.borrowed
        for b in [b for b in st.mem if b.op == "L" and b.a[0] == f.id and b.a[1] not in live and b.a[1] not in bor]:
            del st.mem[b]
        head = bb in f.info.heads
        if head:
            w = self.widen.get((f.id, bb))
            if w:
                for (base, path) in w:
                    self.widen_at(st, f, bb, base, path, back)
        k = (f.id, bb, self.key(f, bb, st))
        nid = self.nodes.get(k)
        if nid is None:
            nid = len(self.nodes)
            if nid > self.MAXN: raise Incomplete("too many partitions in " + self.root["n"])
            self.nodes[k] = nid
            self.instate[nid] = st
            self.succ[nid] = {}; self.events[nid] = []; self.pred[nid] = set()
            self.nodeinfo = getattr(self, "nodeinfo", {})
            self.nodeinfo[nid] = (f, bb)
            changed = True
        else:
            changed = self.join(nid, st, f, bb, head)
        if src is not None:
            self.succ[src][(nid, label)] = 1
            self.pred[nid].add(src)
        if changed and nid not in self.inwl:
            self.inwl.add(nid); heapq.heappush(self.wl, (f.order + (f.info.rpo.get(bb, 0),), nid))
        return nid

    def widen_at(self, st, f, bb, base, path, back):
        L = mk("loop", f.id, bb, base, path)
        li = self.loopinfo.setdefault(L, {"init": {}, "next": {}})
        if base.op == "CUR":
            s = base.a[0]
            v = st.cur.get(s)
            if v is None: v = mk("pos", s)
            st.cur[s] = L
        else:
            v = st.mem.get(base)
            if v is None:
                if base.op == "L": return
                v = mk("init", base)
            cur = v
            for e in path: cur = get(cur, e)
            if cur is BOT: return
            st.mem[base] = put(v, path, L)
            v = cur
        if v is not L:
            (li["next"] if back else li["init"])[v] = 1

    def join(self, nid, st, f, bb, head):
        old = self.instate[nid]; ch = False
        self.visits[nid] = self.visits.get(nid, 0) + 1
        many = self.visits[nid] > 40
        self.jo = old.facts; self.jn = st.facts
        for b in list(old.mem):
            o = old.mem[b]
            n = st.mem.get(b)
            if n is None:
                if b.op == "L":
                    del old.mem[b]; ch = True; continue
                n = mk("init", b)
            if n is not o:
                j = self.jt(o, n, f, bb, b, (), head, many)
                if j is not o: old.mem[b] = j; ch = True
        for b in st.mem:
            if b not in old.mem and b.op != "L":
                i = mk("init", b)
                j = self.jt(i, st.mem[b], f, bb, b, (), head, many)
                old.mem[b] = j
                if j is not i: ch = True
        for s in set(old.cur) | set(st.cur):
            o = old.cur.get(s) or mk("pos", s); n = st.cur.get(s) or mk("pos", s)
            if o is not n:
                j = self.jt(o, n, f, bb, mk("CUR", s), (), head, many)
                if j is not o: old.cur[s] = j; ch = True
        gone = [(a, v) for a, v in old.facts.items() if st.facts.get(a) != v]
        if gone:
            jo = dict(old.facts); self.jo = jo
            for a, v in gone: del old.facts[a]
            ch = True
            # what holds in both states, once the branch that separates them is put in: crc(..0) / crc(..1) -> crc(..flag)
            new = [(a, v) for a, v in st.facts.items() if v is True and a.op == "eq" and a not in jo]
            for a, v in gone:
                if v is True and a.op == "eq" and len(new) < 12:
                    for b_, _ in new:
                        j = self.gjoin(a, b_)
                        if j is not None: old.facts[j] = True
        return ch

    def gjoin(self, o, n, depth=0):
        if o is n: return o
        g = self.gate(o, n)
        if g is not None: return g
        if o.op != n.op or depth > 6 or len(o.a) != len(n.a): return None
        if o.op == "eq":
            for y in (n.a, n.a[::-1]):
                r = [self.gjoin(p, q, depth + 1) for p, q in zip(o.a, y)]
                if None not in r: return EQ(*r)
            return None
        if o.op == "crc32":
            r = self.gjoin(o.a[0], n.a[0], depth + 1)
            return None if r is None else mk("crc32", r)
        if o.op == "seq" and len(o.a[0]) == len(n.a[0]):
            r = [self.gjoin(p, q, depth + 1) for p, q in zip(o.a[0], n.a[0])]
            return None if None in r else seq(r)
        if o.op == "le" and o.a[0] == n.a[0]:
            r = self.gjoin(o.a[1], n.a[1], depth + 1)
            return None if r is None else seq([mk("le", o.a[0], r)])
        return None

    def jt(self, o, n, f, bb, base, path, head, many):
        if o is n: return o
        g = self.gate(o, n)
        if g is not None: return g
        if o.op == "agg" and n.op == "agg" and o.a[0] == n.a[0] and o.a[1] == n.a[1] and len(o.a[2]) == len(n.a[2]):
            vn = o.a[1] or None
            return agg(o.a[0], o.a[1], [self.jt(x, y, f, bb, base, path + (("f", vn, i),), head, many) for i, (x, y) in enumerate(zip(o.a[2], n.a[2]))])
        if o.op == "with" or n.op == "with":
            # join field-wise over the union of overridden fields
            ko = withkeys(o); kn = withkeys(n); bo = withbase(o); bn = withbase(n)
            if bo is bn:
                r = bo
                for k in sorted(set(ko) | set(kn), key=repr):
                    r = setf(r, k[0], k[1], self.jt(getf(o, *k), getf(n, *k), f, bb, base, path + (("f", k[0], k[1]),), head, many))
                return r
        if o.op == "loop" and o.a[0] == f.id and o.a[1] == bb and o.a[2] is base: return o
        if head and all(e[0] == "f" for e in path):
            w = self.widen.setdefault((f.id, bb), {})
            if (base, path) not in w:
                w[(base, path)] = 1; self.want = True
        j = phi([o, n])
        if (j.op == "phi" and len(j.a[0]) > 32) or many:
            return mk("top", f.id, bb, base, path)
        return j

    def gate(self, o, n):
        """0/1 values decided by the branch that separates the two joined states become that
        branch's condition (gated phi) instead of an unrelated {0|1}"""
        if n.op == "ref" and o.op == "ref" and n.a[0].op == "K" and o.a[0].op == "K" and n.a[1] == o.a[1] == ():
            m = self.gate(o.a[0].a[0], n.a[0].a[0])
            return None if m is None else mk("ref", mk("K", m), ())
        if n.op == "bytes" and n.a[0] in (b"\0", b"\1"):
            m = self.gate(I(o.a[0][0]) if o.op == "bytes" and o.a[0] in (b"\0", b"\1") else o.a[1] if o.op == "le" and o.a[0] == 1 else BOT, I(n.a[0][0]))
            return None if m is None else mk("le", 1, m)
        if n.op == "int" and n.a[0] in (0, 1):
            if o.op == "int" and o.a[0] in (0, 1):
                for a, v in self.jo.items():
                    if isinstance(v, bool):
                        w = self.jn.get(a)
                        if isinstance(w, bool) and w != v and a.op not in ("ovf", "isvar"):
                            return a if bool(o.a[0]) == v else NOT(a)
            else:
                a, neg = (o.a[0], True) if o.op == "not" else (o, False)
                w = self.jn.get(a)
                if isinstance(w, bool) and (w != neg) == bool(n.a[0]): return o
        return None

    # ---- execution of one node
    def read(self, st, base, path):
        v = st.mem.get(base)
        if v is None: v = self.initial(base)
        for e in path: v = get(v, e)
        return v
    def initial(self, base):
        if base.op == "K": return base.a[0]
        if base.op == "D":
            # pointee of an opaque pointer value
            return mk("init", base)
        return mk("init", base)
    def write(self, st, base, path, val):
        if not path: st.mem[base] = val; return
        v = st.mem.get(base)
        if v is None: v = self.initial(base)
        st.mem[base] = put(v, path, val)
    def loc(self, st, f, pl):
        base = mk("L", f.id, pl[0]); path = (); var = None
        b = f.body
        for e in pl[1:]:
            if e == "*":
                v = self.read(st, base, path); var = None
                base, path = self.deref(v)
            elif e == "?": path = path + (("?",),)
            elif e[0] == "f": path = path + (("f", var, e[1]),); var = None
            elif e[0] == "d": var = self.vname(st, f, pl, e)
            elif e[0] == "i": path = path + (("i", self.read(st, mk("L", f.id, e[1]), ())),)
            elif e[0] == "ci":
                if e[3]: path = path + (("i", mk("fromend", I(e[1]))),)
                else: path = path + (("i", I(e[1])),)
            elif e[0] == "ss":
                path = path + (("s", I(e[1]), None if e[3] and e[2] == 0 else (mk("endminus", I(e[2])) if e[3] else I(e[2]))),)
        return base, path
    def deref(self, v):
        if v.op == "ref": return v.a[0], v.a[1]
        if v.op == "phi":
            refs = [x for x in v.a[0] if x.op == "ref"]
        return mk("D", v), ()
    def place_ty(self, f, pl, upto):
        ti = f.body["locals"][pl[0]][0]
        for e in pl[1:upto]:
            t = self.p.types[ti]
            if e == "*":
                if t["k"] in ("ref", "ptr"): ti = t["to"]
                elif t["k"] == "adt" and t["args"]: ti = t["args"][0]
            elif isinstance(e, list) and e[0] == "f": ti = e[2]
            elif isinstance(e, list) and e[0] == "i" or isinstance(e, list) and e[0] == "ci": ti = t.get("to", ti)
        return ti
    def vname(self, st, f, pl, e):
        i = pl.index(e, 1) if pl.count(e) == 1 else next(j for j in range(1, len(pl)) if pl[j] is e)
        t = self.p.types[self.place_ty(f, pl, i)]
        try: return t["variants"][e[1]]["n"]
        except Exception: return f"v{e[1]}"
    def rd(self, st, f, pl):
        b, p = self.loc(st, f, pl)
        return self.read(st, b, p)
    def operand(self, st, f, o):
        if "cp" in o: return self.rd(st, f, o["cp"])
        if "mv" in o: return self.rd(st, f, o["mv"])
        return self.const(o)
    def const(self, o):
        if "fn" in o: return mk("fn", o["ty"])
        if "rt" in o: return ZERO
        ty = self.p.types[o["ty"]]
        if "int" in o:
            n = int(o["int"])
            if ty["k"] == "prim" and ty["n"][0] == "i" :
                bits = 8 * o["sz"]
                if n >= 1 << (bits - 1): n -= 1 << bits
            if ty["k"] == "adt":
                if ty["kind"] == "enum":
                    for v in ty["variants"]:
                        if v["d"] == str(n) and not v["f"]: return agg(ty["n"], v["n"], ())
                return mk("cadt", ty["n"], n)
            return I(n)
        if "str" in o: return mk("ref", mk("K", mk("str", o["str"])), ())
        if "rrbytes" in o:
            t2 = self.p.types[self.p.types[ty["to"]]["to"]]
            if t2["k"] == "prim": return mk("ref", mk("K", mk("ref", mk("K", I(int.from_bytes(bytes.fromhex(o["rrbytes"]), "little"))), ())), ())
        if "rbytes" in o:
            bs = bytes.fromhex(o["rbytes"])
            if ty["k"] == "ref":
                inner = self.p.types[ty["to"]]
                el = inner
                if inner["k"] in ("array", "slice"): el = self.p.types[inner["to"]]
                if inner["k"] in ("array", "slice") and el.get("n") == "u8":
                    return mk("ref", mk("K", mk("bytes", bs)), ())
                if inner["k"] == "prim": return mk("ref", mk("K", I(int.from_bytes(bs, "little"))), ())
            return mk("ref", mk("K", mk("cbytes", bs, ty["s"])), ())
        if "bytes" in o:
            bs = bytes.fromhex(o["bytes"])
            if ty["k"] == "array" and self.p.types[ty["to"]].get("n") == "u8": return mk("bytes", bs)
            return mk("cbytes", bs, ty["s"])
        if "zst" in o:
            if ty["k"] == "tuple": return UNIT
            if ty["k"] == "adt" : return agg(ty["n"], "" if ty["kind"] != "enum" else "?", ())
            return mk("zst", ty["s"])
        if ty["k"] == "ref":
            inner = self.p.types[ty["to"]]
            if inner["k"] == "array" and inner["n"] is not None and self.p.types[inner["to"]].get("n") == "u8":
                return mk("ref", mk("K", mk("raw", mk("const", o.get("name") or "?", ty["s"]), I(inner["n"]))), ())
        return mk("const", o.get("name") or "?", ty["s"])

    def rvalue(self, st, f, r, dst_ty):
        k = r["r"]
        if k == "use": return self.operand(st, f, r["o"])
        if k == "ref" or k == "rawptr":
            b, p = self.loc(st, f, r["p"])
            return mk("ref", b, p)
        if k == "repeat":
            n = r["n"]
            x = self.operand(st, f, r["o"])
            return mk("rep", x, I(n)) if n is not None else mk("rep", x, mk("constn", dst_ty))
        if k == "agg":
            ops = [self.operand(st, f, o) for o in r["ops"]]
            if r["k"] == "tuple": return tup(*ops)
            if r["k"] == "array": return seq([mk("el", x) for x in ops]) if ops else EMPTY
            if r["k"] == "adt":
                t = self.p.types[r["ty"]]
                v = t["variants"][r["v"]]
                return agg(t["n"], v["n"] if t["kind"] == "enum" else "", ops)
            if r["k"] == "closure": return agg(f"closure#{r['ty']}", "", ops)
            return agg(r["k"], "", ops)
        if k == "discr":
            t = self.p.types[self.place_ty(f, r["p"], len(r["p"]))]
            v = self.rd(st, f, r["p"])
            return self.discr(v, t)
        if k == "un":
            x = self.operand(st, f, r["o"])
            if r["op"] == "Not":
                t = self.op_ty(f, r["o"])
                if t.get("n") == "bool": return NOT(x)
                return mk("bitnot", x)
            if r["op"] == "Neg": return scale(x, -1)
            if r["op"] == "PtrMetadata": return ln(self.content(st, x))
            return mk("un", r["op"], x)
        if k == "bin": return self.binop(st, f, r)
        if k == "cast": return self.cast(st, f, r)
        return mk("rv", k, r.get("s", ""))
    def op_ty(self, f, o):
        if "cp" in o: return self.p.types[self.place_ty(f, o["cp"], len(o["cp"]))]
        if "mv" in o: return self.p.types[self.place_ty(f, o["mv"], len(o["mv"]))]
        if "ty" in o: return self.p.types[o["ty"]]
        return {"k": "other", "s": "?"}
    W = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "usize": 8, "isize": 8, "u128": 16, "i128": 16, "bool": 1, "char": 4}
    def cast(self, st, f, r):
        x = self.operand(st, f, r["o"]); t = self.p.types[r["ty"]]; s = self.op_ty(f, r["o"])
        if r["k"].startswith("IntToInt") and t["k"] == "prim" and s["k"] == "prim":
            ws, wt = self.W.get(s["n"], 0), self.W.get(t["n"], 0)
            if x.op == "int":
                n = x.a[0] % (1 << (8 * wt))
                if t["n"][0] == "i" and n >= 1 << (8 * wt - 1): n -= 1 << (8 * wt)
                return I(n)
            if wt >= ws and not (s["n"][0] == "i" and t["n"][0] == "u" and wt > ws): 
                if s["n"][0] == "i" and t["n"][0] == "u" and wt == ws and ws < 8: return mk("trunc", t["n"], x)
                return x
            return mk("trunc", t["n"], x)
        if "Float" in r["k"]: return mk("fcast", t.get("n", "?"), x)
        if r["k"].startswith("Transmute") :
            return x
        return x
    def content(self, st, v):
        """value behind a reference (identity for non references)"""
        n = 0
        while n < 6:
            n += 1
            if v.op == "ref":
                v = self.read(st, v.a[0], v.a[1]) if v.a[0].op != "K" else self.readk(v)
            else: return v
        return v
    def readk(self, v):
        x = v.a[0].a[0]
        for e in v.a[1]: x = get(x, e)
        return x
    def one_deref(self, st, v):
        if v.op == "ref":
            if v.a[0].op == "K": return self.readk(v)
            return self.read(st, v.a[0], v.a[1])
        if v.op == "phi": return phi([self.one_deref(st, x) for x in v.a[0]])
        b = mk("D", v)
        return st.mem.get(b) or mk("init", b)
    def deep(self, st, v, d=0):
        """value with references replaced by what they point to"""
        if d > 5: return v
        if v.op == "ref": return self.deep(st, self.one_deref(st, v), d + 1)
        if v.op == "agg": return agg(v.a[0], v.a[1], [self.deep(st, x, d + 1) for x in v.a[2]])
        if v.op == "phi": return phi([self.deep(st, x, d + 1) for x in v.a[0]])
        if v.op == "seq" and any(x.op == "le" and x.a[1].op in ("ref", "agg") for x in v.a[0]):
            return seq([mk("le", x.a[0], self.deep(st, x.a[1], d + 1)) if x.op == "le" else x for x in v.a[0]])
        if v.op == "le" and v.a[1].op in ("ref", "agg"): return mk("le", v.a[0], self.deep(st, v.a[1], d + 1))
        return v
    def discr(self, v, t):
        if v.op == "agg" and v.a[1] and t["k"] == "adt":
            for x in t["variants"]:
                if x["n"] == v.a[1]: return I(int(x["d"]))
        if v.op == "phi" and all(x.op == "agg" for x in v.a[0]):
            return mk("discr", v)
        return mk("discr", v)
    def binop(self, st, f, r):
        a = self.operand(st, f, r["a"]); b = self.operand(st, f, r["b"]); op = r["op"]
        t = self.op_ty(f, r["a"])
        return binop(op, a, b, t.get("n"))

    def node_fn(self, nid):
        return self.nodeinfo[nid][0].body

    def exec(self, nid):
        f, bb = self.nodeinfo[nid]
        st = self.instate[nid].copy()
        blk = f.body["bbs"][bb]
        self.succ_old = self.succ[nid]
        for (m, lab) in list(self.succ[nid]): self.pred[m].discard(nid)
        self.succ[nid] = {}
        self.events[nid] = evs = []
        self.exits.pop(nid, None)
        self.cur_node = nid; self.cur_f = f
        for s in blk["s"]:
            if s[0] == "=":
                dst_ty = None
                v = self.rvalue(st, f, s[2], None)
                b, p = self.loc(st, f, s[1])
                if v.op == "rep" and v.a[1].op == "constn":
                    pass
                self.write(st, b, p, v)
                if b.op != "L" or p:
                    if b.op != "L": evs.append(Ev(kind="set", base=b, path=p, val=v, line=s[3], f=f, node=nid))
            elif s[0] == "sd":
                b, p = self.loc(st, f, s[1])
                t = self.p.types[self.place_ty(f, s[1], len(s[1]))]
                old = self.read(st, b, p)
                self.write(st, b, p, agg(t["n"], t["variants"][s[2]]["n"], [getf(old, t["variants"][s[2]]["n"], i) for i in range(len(t["variants"][s[2]]["f"]))]))
            elif s[0] == "cno":
                src = self.operand(st, f, s[1]); dst = self.operand(st, f, s[2]); cnt = self.operand(st, f, s[3])
                models.copy_nonoverlapping(self, st, src, dst, cnt)
            elif s[0] == "dead":
                st.mem.pop(mk("L", f.id, s[1]), None)
        t = blk["t"]; k = t["k"]
        if k == "goto": self.flow(nid, None, f, bb, t["t"], st)
        elif k == "drop":
            evs.append(Ev(kind="drop", ty=self.p.types[t["ty"]]["s"], line=t["l"], f=f, node=nid, loc=self.loc(st, f, t["p"])))
            self.flow(nid, None, f, bb, t["t"], st)
        elif k == "switch": self.switch(nid, f, bb, t, st)
        elif k == "assert":
            c = self.operand(st, f, t["c"])
            a = [self.operand(st, f, o) for o in t["a"]]
            evs.append(Ev(kind="assert", msg=t["m"], cond=c, exp=t["e"], args=a, line=t["l"], f=f, node=nid, facts=dict(st.facts)))
            if c.op == "int" and bool(c.a[0]) != t["e"]: return
            self.assume(st, c, t["e"])
            self.flow(nid, None, f, bb, t["t"], st)
        elif k == "ret": self.ret(nid, f, st)
        elif k == "call": self.call(nid, f, bb, t, st)
        # unreachable / resume: nothing

    def flow(self, nid, label, f, bb, target, st):
        self.enter(nid, label, f, target, st, (bb, target) in f.info.back)

    def assume(self, st, c, val):
        while c.op == "not": c = c.a[0]; val = not val
        if c.op in ("int",): return
        st.facts[c] = val
        if c.op == "lt" and val: self.unsat(st, c.a[1], c.a[0], True)
        elif c.op == "lt":
            self.unsat(st, c.a[1], c.a[0], False)
            e = EQ(*c.a)
            if e.op == "eq" and st.facts.get(e) is False: self.assume(st, LT(c.a[1], c.a[0]), True)
        elif c.op == "eq" and not val:
            for a, b in ((c.a[0], c.a[1]), (c.a[1], c.a[0])):
                x = LT(a, b)
                if x.op == "lt" and st.facts.get(x) is False: self.assume(st, LT(b, a), True)

    def unsat(self, st, a, b, pos):
        """max(a - b, 0) becomes known"""
        t = mk("satsub", a, b)
        if t in self.satsubs:
            n = sub(a, b) if pos else ZERO; f = lambda y: n if y is t else y
            for m in (st.mem, st.cur):
                for k, v in list(m.items()):
                    if isinstance(v, Term) and contains(v, lambda y: y is t): m[k] = tmap(v, f)

    def truth(self, st, c):
        neg = False
        while c.op == "not": c = c.a[0]; neg = not neg
        if c.op == "int": v = bool(c.a[0])
        elif c in st.facts: v = st.facts[c]
        else:
            v = None
            if c.op == "eq" and ZERO in c.a: x = c.a[0] if c.a[1] is ZERO else c.a[1]
            elif c.op == "lt" and c.a[0] is ZERO: x = c.a[1]
            elif c.op == "lt" and c.a[1] is ONE: x = c.a[0]
            else: return None
            # three ways to say that an unsigned number is zero
            for f, r in ((EQ(x, ZERO), True), (mk("lt", x, ONE), True), (mk("lt", ZERO, x), False)):
                if f in st.facts: v = (st.facts[f] == r) == (c.op == "eq" or c.a[1] is ONE); break
            if v is None: return None
        return v != neg

    def switch(self, nid, f, bb, t, st):
        d = self.operand(st, f, t["d"])
        ty = self.p.types[t["ty"]]
        if d.op == "int":
            for v, tgt in t["t"]:
                if int(v) == d.a[0] % (1 << 128 if d.a[0] < 0 else 1 << 200):
                    return self.flow(nid, None, f, bb, tgt, st)
            return self.flow(nid, None, f, bb, t["o"], st)
        isbool = ty.get("n") == "bool"
        if isbool:
            tv = self.truth(st, d)
            outs = []
            zero = next((tgt for v, tgt in t["t"] if v == "0"), None)
            one = next((tgt for v, tgt in t["t"] if v == "1"), None)
            if zero is None: zero = t["o"]
            if one is None: one = t["o"]
            for val, tgt in ((False, zero), (True, one)):
                if tv is not None and tv != val: continue
                if d.op == "phi":
                    if all(x.op == "int" for x in d.a[0]) and not any(bool(x.a[0]) == val for x in d.a[0]): continue
                s2 = st.copy()
                self.assume(s2, d, val)
                self.subst_all(s2, {d: I(1 if val else 0)})
                self.flow(nid, (d, val), f, bb, tgt, s2)
            return
        if d.op == "discr":
            x = d.a[0]
            # find the enum type: look back at the statement that computed the discriminant
            et = self.discr_type(f, bb, t)
            # phi of aggs: split by variant
            done = set()
            cands = []
            known = st.facts.get(d)
            for v, tgt in t["t"]: cands.append((int(v), tgt))
            listed = {int(v) for v, _ in t["t"]}
            vs = et["variants"] if et and et["k"] == "adt" else None
            if vs:
                for y in vs:
                    dv = int(y["d"])
                    tgt = next((tg for v, tg in cands if v == dv), t["o"])
                    if self.is_unreachable(f, tgt): continue
                    if known is not None and known != y["n"]: continue
                    neg = st.facts.get(mk("isvar", x, y["n"]))
                    if neg is False: continue
                    if x.op == "phi":
                        cs = [z for z in x.a[0] if not (z.op == "agg" and z.a[1] != y["n"])]
                        if not cs: continue
                        nv = phi([z if z.op == "agg" else agg(et["n"], y["n"], [getf(z, y["n"], i) for i in range(len(y["f"]))]) for z in cs])
                        # merge aggregates of one variant field-wise so that tags stay visible
                        al = alts(nv)
                        nv = agg(et["n"], y["n"], [phi([getf(z, y["n"], i) for z in al]) for i in range(len(y["f"]))])
                    else:
                        nv = agg(et["n"], y["n"], [getf(x, y["n"], i) for i in range(len(y["f"]))])
                    s2 = st.copy()
                    s2.facts[d] = y["n"]
                    self.subst_all(s2, {x: nv, d: I(dv)})
                    self.flow(nid, (d, y["n"]), f, bb, tgt, s2)
                return
            for v, tgt in cands + [(None, t["o"])]:
                if self.is_unreachable(f, tgt): continue
                s2 = st.copy()
                if v is not None:
                    if known is not None and known != v: continue
                    s2.facts[d] = v
                self.flow(nid, (d, v), f, bb, tgt, s2)
            return
        # integer switch on an opaque value
        for v, tgt in t["t"]:
            c = EQ(d, I(int(v)))
            tv = self.truth(st, c)
            if tv is False: continue
            s2 = st.copy(); self.assume(s2, c, True)
            self.flow(nid, (c, True), f, bb, tgt, s2)
            if tv is True: return
        if not self.is_unreachable(f, t["o"]):
            s2 = st.copy()
            for v, tgt in t["t"]: self.assume(s2, EQ(d, I(int(v))), False)
            self.flow(nid, (mk("switch", d), "other"), f, bb, t["o"], s2)

    def is_unreachable(self, f, bb):
        b = f.body["bbs"][bb]
        return b["t"]["k"] == "unreachable" and not b["s"]
    def discr_type(self, f, bb, t):
        o = t["d"]
        pl = o.get("mv") or o.get("cp")
        if not pl or len(pl) != 1: return None
        for s in reversed(f.body["bbs"][bb]["s"]):
            if s[0] == "=" and s[1] == pl and s[2]["r"] == "discr":
                return self.p.types[self.place_ty(f, s[2]["p"], len(s[2]["p"]))]
        # computed in another block: search whole body for unique def
        for b in f.body["bbs"]:
            for s in b["s"]:
                if s[0] == "=" and s[1] == pl and s[2]["r"] == "discr":
                    return self.p.types[self.place_ty(f, s[2]["p"], len(s[2]["p"]))]
        return None
    def subst_all(self, st, m):
        for b, v in st.mem.items():
            n = subst(v, m)
            if n is not v: st.mem[b] = n

    def ret(self, nid, f, st):
        v = st.mem.get(mk("L", f.id, 0)) or UNIT
        if f.parent is None:
            self.exits[nid] = (v, st)
            return
        for b in [b for b in st.mem if b.op == "L" and b.a[0] == f.id]: del st.mem[b]
        v = models.apply_post(self, st, f, v)
        if v is None: return
        for (s2, v2) in (v if isinstance(v, list) else [(st, v)]):
            self.finish_call(nid, None, f.parent, f.call_bb, s2, f.dest, f.target, v2)

    def finish_call(self, nid, label, f, bb, st, dest, target, val):
        if target is None: return
        b, p = self.loc(st, f, dest)
        self.write(st, b, p, val)
        self.flow(nid, label, f, bb, target, st)

    def call(self, nid, f, bb, t, st):
        fo = t["f"]; args = [self.operand(st, f, o) for o in t["a"]]
        self.cur_line = t["l"]
        fn = fo.get("fn")
        site = mk("site", f.id, bb)
        if fn is None:
            fv = self.operand(st, f, fo)
            fn = self.fn_of(fv)
            if fn is None:
                self.opaque_call(nid, f, bb, t, st, {"n": "<indirect>", "targs": [], "krate": "?", "trait": False}, [fv] + args, site)
                return
        self.dispatch(nid, f, bb, t, st, fn, args, site)

    def fn_of(self, v):
        if v.op == "fn":
            t = self.p.types[v.a[0]]
            return t.get("callee")
        return None

    def dispatch(self, nid, f, bb, t, st, fn, args, site):
        n = fn["n"]
        if "ctor" in fn:
            ty = self.p.types[fn["ctor"][0]]
            v = ty["variants"][fn["ctor"][1]]
            return self.finish_call(nid, None, f, bb, st, t["d"], t["t"], agg(ty["n"], v["n"] if ty["kind"] == "enum" else "", args))
        # closure invocation
        if n in ("FnOnce::call_once", "FnMut::call_mut", "Fn::call"):
            clo = args[0]
            tupv = args[1] if len(args) > 1 else UNIT
            al = [getf(tupv, None, i) for i in range(len(tupv.a[2]))] if tupv.op == "agg" else [tupv]
            if self.invoke(nid, f, bb, t, st, clo, al, None): return
            return self.opaque_call(nid, f, bb, t, st, fn, args, site)
        names = [n] + ([fn["rn"]] if fn.get("rn") else [])
        if any(x in self.opaque for x in names):
            return self.opaque_call(nid, f, bb, t, st, fn, args, site)
        m = models.lookup(fn, self)
        if m is not None:
            r = m(self, st, fn, args, t, site)
            if r is not None:
                self.outcomes(nid, f, bb, t, r, fn, args)
                return
        if "inst" in fn and fn["inst"] in self.p.bodies:
            b = self.p.bodies[fn["inst"]]
            if b["id"] not in f.stack and f.depth < 24 and (self.inline_filter is None or self.inline_filter(b)):
                self.inline(nid, f, bb, t["d"], t["t"], st, b, args, None, fn)
                return
        self.opaque_call(nid, f, bb, t, st, fn, args, site)

    def inline(self, nid, f, bb, dest, target, st, b, args, post, fn):
        nf = self.frame(b, f, bb, dest, target, post)
        if fn is not None:
            self.events[nid].append(Ev(kind="enter", name=fn["n"], rn=fn.get("rn"), args=args, line=self.cur_line, f=f, node=nid, body=b["n"], st=st))
        st = st.copy()
        for i, a in enumerate(args): st.mem[mk("L", nf.id, i + 1)] = a
        self.enter(nid, None, nf, 0, st, False)

    def invoke(self, nid, f, bb, t, st, clo, al, post):
        """call a closure / fn value with a post-processing tag; True if handled"""
        c = clo
        isref = False
        k = 0
        while c.op == "ref" and k < 4:
            isref = True; k += 1
            c2 = self.one_deref(st, c)
            if c2.op == "ref": c = c2; clo = c2
            else: c = c2; break
        if c.op == "agg" and c.a[0].startswith("closure#"):
            ty = self.p.types[int(c.a[0].split("#")[1])]
            b = self.p.bodies.get(ty["body"])
            if b is None or b["id"] in f.stack: return False
            selfty = self.p.types[b["locals"][1][0]]
            if post is not None: st, post = models.widen_captures(self, st, c, ty, post, mk("site", f.id, bb))
            if selfty["k"] == "ref":
                if not isref:
                    env = mk("ref", mk("K", c), ())
                else: env = clo
            else: env = c
            self.inline(nid, f, bb, t["d"], t["t"], st, b, [env] + al, post, {"n": b["n"]})
            return True
        fn = self.fn_of(c)
        if fn is not None:
            if "ctor" in fn:
                ty = self.p.types[fn["ctor"][0]]; v = ty["variants"][fn["ctor"][1]]
                r = agg(ty["n"], v["n"] if ty["kind"] == "enum" else "", al)
            elif "inst" in fn and fn["inst"] in self.p.bodies and self.p.bodies[fn["inst"]]["id"] not in f.stack:
                self.inline(nid, f, bb, t["d"], t["t"], st, self.p.bodies[fn["inst"]], al, post, fn)
                return True
            else:
                m = models.lookup(fn, self)
                r = None
                if m is not None:
                    o = m(self, st, fn, al, t, mk("site", f.id, bb))
                    if o and len(o) == 1 and not isinstance(o[0][1], tuple): st, r = o[0][0], o[0][1]
                if r is None:
                    r = mk("call", fn["n"], tuple(self.deep(st, a) for a in al))
            ff = Frame(); ff.post = post; ff.parent = f; ff.call_bb = bb; ff.dest = t["d"]; ff.target = t["t"]
            out = models.apply_post(self, st, ff, r)
            if out is None: return True
            for (s2, v2) in (out if isinstance(out, list) else [(st, out)]):
                self.finish_call(nid, None, f, bb, s2, t["d"], t["t"], v2)
            return True
        return False

    def outcomes(self, nid, f, bb, t, outs, fn, args):
        """outs: list of (state, value | ('invoke', clo, args, post)) with optional label"""
        for o in outs:
            s, v = o[0], o[1]
            lab = o[2] if len(o) > 2 else None
            if isinstance(v, tuple) and v[0] == "invoke":
                if not self.invoke(nid, f, bb, t, s, v[1], v[2], v[3]):
                    fv = v[1]
                    r = mk("call", "<closure>", (self.deep(s, fv),) + tuple(self.deep(s, a) for a in v[2]))
                    self.events[nid].append(Ev(kind="call", name="<indirect>", rn=None, args=[fv] + v[2], vals=[self.deep(s, x) for x in [fv] + v[2]], line=self.cur_line, f=f, node=nid, st=s))
                    ff = Frame(); ff.post = v[3]
                    out = models.apply_post(self, s, ff, r)
                    if out is None: continue
                    for (s2, v2) in (out if isinstance(out, list) else [(s, out)]):
                        self.finish_call(nid, lab, f, bb, s2, t["d"], t["t"], v2)
            else:
                self.finish_call(nid, lab, f, bb, s, t["d"], t["t"], v)

    def ev(self, kind, **kw):
        e = Ev(kind=kind, line=self.cur_line, f=self.cur_f, node=self.cur_node, **kw)
        self.events[self.cur_node].append(e)
        return e

    def opaque_call(self, nid, f, bb, t, st, fn, args, site):
        vals = [self.deep(st, a) for a in args]
        self.events[nid].append(Ev(kind="call", name=fn["n"], rn=fn.get("rn"), args=args, vals=vals, line=t["l"], f=f, node=nid, fn=fn, st=st.copy(), site=site))
        if t["t"] is None: return   # diverges
        for g in (fn["n"], fn.get("rn")):
            if g in self.ghost: st.mem[mk("G", g)] = seq([st.mem.get(mk("G", g), EMPTY), vals[-1]]); break
        impure = False; pre = dict(st.cur)
        for i, (a, ti) in enumerate(zip(args, t["at"])):
            ty = self.p.types[ti]
            if ty["k"] == "ref" and ty["mut"] and a.op == "ref":
                impure = True
                if models.is_stream(self, st, a, ty, fn, i):
                    s = models.stream_of(self, st, a)
                    models.setpos(self, st, s, mk("pos_after", site, models.curpos(self, st, s)))
                else:
                    old = self.read(st, a.a[0], a.a[1])
                    self.write(st, a.a[0], a.a[1], mk("havoc", fn["n"], site, i, old))
            elif ty["k"] == "ref" and ty["mut"]: impure = True
        if not models.is_pure(fn) : impure = True if fn["krate"] not in ("core", "alloc", "std") else impure
        self.unmodelled[fn["n"]] = self.unmodelled.get(fn["n"], 0) + 1
        # a result is identified by its call site; the position of an in-memory source is not part of its identity
        argk = tuple(agg("Cursor", "", (v.a[2][0], mk("curpos"))) if is_agg(v) and v.a[0] == "Cursor" and len(v.a[2]) == 2 and self.p.types[ti]["k"] == "ref" and self.p.types[ti]["mut"] else v for v, ti in zip(vals, t["at"]))
        r = mk("call", fn.get("rn") or fn["n"], argk, site if impure else None)
        dt = self.p.types[t["dt"]]
        if fn["n"] in ("TryReadFrom::try_read", "TryExtractPayloadFrom::try_read", "TryReadPayloadFrom::try_read") and dt["k"] == "adt" and dt["n"] == "Result":
            # contract of the seekable try-readers (proved for every implementation by rule try_restores):
            # the position moves on success only
            ok = getf(r, "Ok", 0)
            before = pre
            for lab, v, moved in (("s", Ok(agg("ReadStatus", "Success", [getf(ok, "Success", 0)])), True), ("n", Ok(agg("ReadStatus", "NotEnoughData", [getf(ok, "NotEnoughData", 0)])), False), ("e", agg("Result", "Err", [getf(r, "Err", 0)]), False)):
                s2 = st.copy()
                if not moved: s2.cur = dict(before)
                if lab in ("Some", "None", "Ok", "Err"): s2.facts[mk("discr", r)] = lab
                self.finish_call(nid, (mk("discr", r), lab), f, bb, s2, t["d"], t["t"], v)
            return
        if dt["k"] == "adt" and dt["n"] in ("Result", "Option"):
            for v in dt["variants"]:
                s2 = st.copy()
                s2.facts[mk("discr", r)] = v["n"]
                self.finish_call(nid, (mk("discr", r), v["n"]), f, bb, s2, t["d"], t["t"], agg(dt["n"], v["n"], [getf(r, v["n"], i) for i in range(len(v["f"]))]))
            return
        self.finish_call(nid, None, f, bb, st, t["d"], t["t"], r)

def any_tag(s):
    if isinstance(s, tuple):
        return (len(s) > 0 and isinstance(s[0], str) and s[0] != "") or any(any_tag(x) for x in s[1:] if isinstance(x, tuple)) or (len(s) > 0 and isinstance(s[0], tuple) and any_tag(s[0]))
    return False
def withkeys(t):
    r = []
    while t.op == "with": r.append(t.a[1]); t = t.a[0]
    return r
def withbase(t):
    while t.op == "with": t = t.a[0]
    return t

def binop(op, a, b, tn=None):
    if op in ("Add", "AddUnchecked"): return add(a, b)
    if op in ("Sub", "SubUnchecked"): return sub(a, b)
    if op in ("Mul", "MulUnchecked"): return mul(a, b)
    if op in ("AddWithOverflow", "MulWithOverflow") and a.op == "int" and b.op == "int" and abs(a.a[0]) < 1 << 31 and abs(b.a[0]) < 1 << 31 and tn in ("usize", "u64", "i64", "u128", "isize", "i128"):
        return tup((add if op[0] == "A" else mul)(a, b), ZERO)
    if op == "AddWithOverflow": return tup(add(a, b), mk("ovf", "Add", a, b))
    if op == "SubWithOverflow":
        if a.op == "int" and b.op == "int" and a.a[0] >= b.a[0]: return tup(sub(a, b), ZERO)
        return tup(sub(a, b), mk("ovf", "Sub", a, b))
    if op == "MulWithOverflow": return tup(mul(a, b), mk("ovf", "Mul", a, b))
    if op == "Eq":
        if tn == "bool":
            if b.op == "int": return a if b.a[0] else NOT(a)
            if a.op == "int": return b if a.a[0] else NOT(b)
        return EQ(a, b)
    if op == "Ne": return NOT(binop("Eq", a, b, tn))
    if op == "Lt": return LT(a, b)
    if op == "Gt": return LT(b, a)
    if op == "Le": return NOT(LT(b, a))
    if op == "Ge": return NOT(LT(a, b))
    if op in ("Div", "Rem"):
        if a.op == "int" and b.op == "int" and b.a[0]: return I(a.a[0] // b.a[0] if op == "Div" else a.a[0] % b.a[0])
        return mk(op.lower(), a, b)
    if op in ("BitAnd", "BitOr", "BitXor"):
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            return I(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
        if tn == "bool":
            if op == "BitAnd":
                if a is ZERO or b is ZERO: return ZERO
                if a is ONE: return b
                if b is ONE: return a
            if op == "BitOr":
                if a is ONE or b is ONE: return ONE
                if a is ZERO: return b
                if b is ZERO: return a
        x, y = sorted((a, b), key=lambda t: t.id)
        return mk(op.lower(), x, y)
    return mk(op.lower(), a, b)
