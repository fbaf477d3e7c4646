"""Committed wire-format oracle (taken from the project's documentation of the format)."""
from terms import *
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKET_SIG = mk("bytes", bytes([236, 37, 94, 136, 236, 37, 94, 136]))
HEADER = 29
W = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16, "f32": 4, "f64": 8, "bool": 1, "Level": 1}
def width(t):
    if t in W: return W[t]
    return int(t.split(";")[1].strip(" ]"))
def blocks(): return json.load(open(os.path.join(V, "harness", "blocks.json")))
