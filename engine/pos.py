"""Position rules: what the readers leave behind in their source."""
from core import *
import spec, fmt
from fmt import LEVEL_OPAQUE

def seekables(ctx):
    """every implementation of the seekable try-read traits"""
    out = []
    for pr in ("brec", "brec_harness"):
        p = ctx.prog(pr)
        for n, bs in p.byname.items():
            if not (n.endswith(" as TryReadFrom>::try_read") or n in ("TryReadPayloadFrom::try_read",) or n.endswith(("as TryExtractPayloadFrom>::try_read", "as TryReadPayloadFrom>::try_read"))): continue
            b = ctx.fn(p, n)
            if "Slot" in n: continue
            out.append((p, b))
    return out
def try_restores(ctx, rep):
    for p, b in seekables(ctx):
        S = streamarg(p, b)
        opq = list(LEVEL_OPAQUE)
        if b["n"] == "<Block as TryReadFrom>::try_read": opq += [f"<{x['name']} as TryReadFrom>::try_read" for x in spec.blocks()]
        A = ctx.an(p, b, opaque=tuple(opq), key="pos", tag=lambda st: ("moved", S.cur(st) is not S.p0)); rep.cover(A)
        ok = 0
        for e in exits(A):
            c, x = classify(e.v); moved = S.cur(e.st) is not S.p0
            if c in ("ok", "success"): ok += 1; continue
            al = alts(x) if isinstance(x, Term) else []
            bad = [y for y in al if not is_io_err(y)] if c in ("err", "io", "?") else al
            if c == "?": continue
            if moved and bad:
                what = "not-enough-data" if c == "short" else "error " + show(bad[0])[:160]
                rep.ob(f"restore.{b['n']}.{c}", False, where(b), f"returns {what} with the source left at {show(S.cur(e.st))[:200]} instead of where it was")
            else: rep.ob(f"restore.{b['n']}.{c}", True, where(b), "")
        rep.ob(f"restore.{b['n']}.success", ok, where(b), "no successful path")
