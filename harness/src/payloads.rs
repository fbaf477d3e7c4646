use brec::prelude::*;

#[payload(bincode)]
#[derive(serde::Deserialize, serde::Serialize, PartialEq, PartialOrd, Debug, Clone)]
pub struct PayA {
    pub a: u32,
    pub s: String,
    pub v: Vec<u64>,
}

#[payload(bincode)]
#[derive(serde::Deserialize, serde::Serialize, PartialEq, PartialOrd, Debug, Clone)]
pub enum PayB {
    U8(u8),
    S(String),
}

/// CRC switched off by directive
#[payload(bincode, no_crc)]
#[derive(serde::Deserialize, serde::Serialize, PartialEq, Debug, Clone)]
pub struct PayNoCrc {
    pub items: std::collections::HashMap<String, String>,
}

/// Hand-written codec
#[payload]
#[derive(PartialEq, Debug, Clone)]
pub struct PayManual {
    pub body: Vec<u8>,
}
impl brec::PayloadEncode for PayManual {
    fn encode(&self) -> std::io::Result<Vec<u8>> { Ok(self.body.clone()) }
}
impl brec::PayloadEncodeReferred for PayManual {
    fn encode(&self) -> std::io::Result<Option<&[u8]>> { Ok(Some(&self.body)) }
}
impl brec::PayloadDecode<PayManual> for PayManual {
    fn decode(buf: &[u8]) -> std::io::Result<PayManual> { Ok(PayManual { body: buf.to_vec() }) }
}
impl brec::PayloadSize for PayManual {
    fn size(&self) -> std::io::Result<u64> { Ok(self.body.len() as u64) }
}
impl brec::PayloadCrc for PayManual {}

/// Named by a path: the variant and the signature come from the full path
pub mod deep {
    #[brec::payload(path = deep, bincode)]
    #[derive(serde::Deserialize, serde::Serialize, PartialEq, Debug, Clone)]
    pub struct PayDeep {
        pub n: u16,
    }
}

/// Signature of its own, hooks of its own, checksum of its own
#[payload(bincode, no_default_sig, hooks, no_auto_crc)]
#[derive(serde::Deserialize, serde::Serialize, PartialEq, Debug, Clone)]
pub struct PayOwn {
    pub t: String,
}
impl brec::PayloadSignature for PayOwn {
    fn sig(&self) -> brec::ByteBlock { brec::ByteBlock::Len8([8, 7, 6, 5, 4, 3, 2, 1]) }
}
impl brec::StaticPayloadSignature for PayOwn {
    fn ssig() -> brec::ByteBlock { brec::ByteBlock::Len8([8, 7, 6, 5, 4, 3, 2, 1]) }
}
impl brec::PayloadHooks for PayOwn {}
impl brec::PayloadCrc for PayOwn {}
