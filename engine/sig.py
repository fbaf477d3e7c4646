"""C22: the signature of a block or payload is the documented function of its declaration."""
import zlib, re
from terms import *
from core import *
import fmt, spec
def expected(name, fields):
    f = [("__sig", "[u8;4]")] + [(n, t.replace("; ", ";")) for n, t in fields] + [("__crc", "[u8;4]")]
    return zlib.crc32((name + ";" + ";".join(f"{n}:{t}" for n, t in f)).encode()).to_bytes(4, "little")
def block_const(ctx, rep):
    for bl in spec.blocks():
        sig, A = fmt.block_sig(ctx, bl); rep.cover(A)
        rep.eq(f"block.{bl['name']}.sig.value", sig, mk("bytes", expected(bl["name"], bl["fields"])), bl["name"], "signature of a block (checksum of its name, field names and field types)")
# full names: path segments and type name, first letters in upper case
PAYLOADS = {"PayA": "PayA", "PayB": "PayB", "PayNoCrc": "PayNoCrc", "PayManual": "PayManual", "PayDeep": "DeepPayDeep", "String": "String", "Vec": "Vec<u8>"}
def payload_const(ctx, rep):
    import pay
    for ty, full in PAYLOADS.items():
        p = ctx.brec if ty in pay.DEFAULTS else ctx.har
        exp = zlib.crc32(full.encode()).to_bytes(4, "little")
        for tr, f in (("StaticPayloadSignature", "ssig"), ("PayloadSignature", "sig")):
            b = ctx.fn(p, f"<{ty} as {tr}>::{f}"); A = ctx.an(p, b); rep.cover(A)
            for e in exits(A):
                v = pay.unraw(nosite(pay.bb(e.v)))
                ok = v is mk("bytes", exp) or v in [mk("le", 4, mk("crc32", mk(o, x))) for o, x in (("str", full), ("bytes", full.encode()))]
                if not ok and v.op != "bytes" and not (v.op == "le" and v.a[1].op == "crc32"): ok = None
                rep.ob(f"payload.{ty}.{f}.value", ok, where(b), f"signature of payload {ty}: found {show(v)[:200]}, required crc32('{full}') = {exp.hex()}")
