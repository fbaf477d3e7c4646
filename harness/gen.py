#!/usr/bin/env python3
"""Generates src/blocks.rs: a family of block definitions covering every supported field
type, every ordered pair of adjacent field kinds, plus size extremes. Deterministic."""
import itertools
SC=["u8","u16","u32","u64","u128","i8","i16","i32","i64","i128","f32","f64","bool"]
KINDS=SC+["Level","BLOB"]
out=["use brec::prelude::*;",""]
out.append('''#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub enum Level { Err, Warn, Info, Debug }
impl TryFrom<u8> for Level {
    type Error = String;
    fn try_from(value: u8) -> Result<Self, Self::Error> {
        match value { 0 => Ok(Level::Err), 1 => Ok(Level::Warn), 2 => Ok(Level::Debug), 3 => Ok(Level::Info), _ => Err(String::new()) }
    }
}
impl From<&Level> for u8 {
    fn from(value: &Level) -> Self {
        match value { Level::Err => 0, Level::Warn => 1, Level::Debug => 2, Level::Info => 3 }
    }
}
''')
SPEC=[]
def blk(name, fields, attr=""):
    SPEC.append({"name":name,"fields":[list(f) for f in fields],"crc":"no_crc" not in attr})
    out.append(f"#[block{attr}]\n#[derive(PartialEq, PartialOrd, Debug, Clone)]\npub struct {name} {{")
    for i,(n,t) in enumerate(fields): out.append(f"    pub {n}: {t},")
    out.append("}\n")
bl=0
def ty(k):
    global bl
    if k=="BLOB":
        bl+=1
        return f"[u8; {[1,3,16,100,255,256,1000,5][bl%8]}]"
    return k
# singles
for k in SC: blk("Only"+k.capitalize(), [("value",k)])
blk("OnlyBlob",[("value","[u8; 7]")])
blk("OnlyLevel",[("value","Level")])
# adjacency: walk an Eulerian circuit over ordered pairs of kinds
n=len(KINDS)
succ={i:list(range(n)) for i in range(n)}
stack=[0]; circ=[]
while stack:
    v=stack[-1]
    if succ[v]: stack.append(succ[v].pop())
    else: circ.append(stack.pop())
circ=circ[::-1]
step=24; i=0; b=0
while i<len(circ)-1:
    seg=circ[i:i+step+1]
    blk(f"Adj{b:02}", [(f"f{j:02}_{KINDS[k].lower()}", ty(KINDS[k])) for j,k in enumerate(seg)])
    i+=step; b+=1
blk("BigBlobs",[("a","[u8; 65536]"),("n","u32"),("b","[u8; 70001]"),("c","[u8; 1]")])
blk("Many",[(f"m{j:03}", SC[(j*7)%13]) for j in range(120)])
blk("NoCrcBlock",[("a","u32"),("b","[u8; 9]"),("c","bool"),("d","Level")],"(no_crc)")
blk("Same",[("a","u32"),("b","u32"),("c","u32"),("d","[u8; 4]"),("e","[u8; 4]"),("f","bool"),("g","bool"),("h","u32")])
# names that generated code might use itself
blk("Names",[("crc","[u8; 4]"),("sig","[u8; 3]"),("offset","u64"),("src","u16"),("len","bool"),("start_pos","i64"),("sig_buf","[u8; 5]"),("bytes","u32"),("required","f32"),("available","i8"),("slices","Level"),("hasher","u32"),("value","f64"),("block","i128"),("header","u8"),("crc_buf","[u8; 4]"),("skip_sig","bool"),("result","u32"),("read","u64"),("out","u8"),("buffer","u8"),("size","u64"),("reader","[u8; 2]"),("blob","u16"),("pos","u64")])
open("src/blocks.rs","w").write("\n".join(out))

import json
json.dump(SPEC,open("blocks.json","w"),indent=0)
