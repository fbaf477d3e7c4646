"""check.py <ID>|all [tier]: dump MIR of the current tree, run the property's rules, write evidence, report."""
import sys, os, json, time, subprocess, fcntl, re, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
T0 = time.time()
from core import *
import props

def dump():
    d = os.environ.get("BREC_DUMP")
    if d: return d, 0, ""
    d = os.path.join(V, ".cache", "dump"); os.makedirs(d, exist_ok=True)
    lk = open(os.path.join(V, ".cache", "lock"), "w"); fcntl.flock(lk, fcntl.LOCK_EX)
    r = subprocess.run(["bash", os.path.join(V, "bin", "dump.sh"), d], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    dump.lock = lk
    return d, r.returncode, r.stdout
def known():
    out = {}
    p = os.path.join(V, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: out.setdefault(m[1], {})[m[2]] = m[3]
    return out
def decide(ctx, pid, tier):
    t = time.time(); rep = Rep(pid); errors = []
    for rule in props.PROPS[pid]:
        try: rule(ctx, rep)
        except HarnessBroken as e:
            rep.ob("harness.compiles", False, "harness", f"code generated for the representative declarations does not compile: {e}")
        except Missing as e:
            rep.ob(f"anchor.{rule.__name__}.{e}", None, str(e), f"anchor not found: {e}")
        except Incomplete as e:
            rep.ob(f"engine.{rule.__name__}", None, str(e), f"analysis stopped: {e}")
        except Exception as e:
            if os.environ.get("BREC_DEBUG"): traceback.print_exc()
            tb = traceback.extract_tb(e.__traceback__)[-1]
            rep.ob(f"engine.{rule.__name__}", None, f"{os.path.basename(tb.filename)}:{tb.lineno}", f"rule could not interpret the code: {e!r}")
    kf = known().get(pid, {})
    new = []; seen = {}
    for v in rep.viol:
        if v["key"] in kf: seen[v["key"]] = v
        elif v["key"] not in {n["key"] for n in new}: new.append(v)
    for k in seen: print(f"KNOWN-FINDING: property={pid} {k}: {kf[k]}")
    for u in rep.und: print(f"UNDECIDED property={pid} {u['key']} at {u['where']}: {u['msg'][:300]}")
    dec = [o for o in rep.obs if o[1] is not None]
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {"explanation": props.DOC.get(pid, "") + " Decided statically on the MIR of the current tree: every listed function is interpreted abstractly with symbolic values over its control-flow graph, and each obligation is a query on the resulting exit states / event positions.",
                       "obligations": len(rep.obs), "discharged": sum(1 for o in dec if o[1]), "undecided": len(rep.und),
                       "known_findings": len(seen), **({"info": rep.info} if rep.info else {}),
                       "functions_analysed": len(rep.fnset), "cfg_nodes": rep.nodes,
                       "functions": sorted(rep.fnset)[:400], "rules": [r.__name__ for r in props.PROPS[pid]],
                       "samples": [o[0] for o in rep.obs[:: max(1, len(rep.obs) // 12)]][:14]},
          "assumptions": props.ASSUME, "wall_s": round(time.time() - (t if os.environ.get("BREC_DUMP") else T0), 3), "violations": len(new)}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    rp = os.path.join(V, "evidence", pid + ".violations.json")
    if os.path.exists(rp): os.remove(rp)
    if new:
        json.dump({"property": pid, "violations": new}, open(rp, "w"), indent=1)
        for v in new[:20]: print(f"  [{v['key']}] {v['where']}: {v['msg'][:500]}")
        print(f"VIOLATION property={pid} replay=evidence/{pid}.violations.json")
        return 1
    print(f"{pid}: held; {ev['coverage']['discharged']}/{len(rep.obs)} obligations, {len(rep.und)} undecided, {len(rep.fnset)} functions, {rep.nodes} nodes, {ev['wall_s']}s")
    return 0
def main():
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    d, rc, log = dump()
    if rc == 3 or not os.path.exists(os.path.join(d, "brec.json")):
        print(log[-4000:]); print("could not analyse the tree (build failed)"); return 2
    ctx = Ctx(d)
    if rc == 2: ctx.harness_error = "\n".join(l for l in log.splitlines() if "error" in l)[:1500] or log[-800:]
    ids = sorted(props.PROPS) if pid == "all" else [pid]
    r = 0
    for p in ids: r = max(r, decide(ctx, p, tier))
    return r
sys.exit(main())
