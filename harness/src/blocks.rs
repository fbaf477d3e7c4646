use brec::prelude::*;

#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Clone)]
pub enum Level { Err, Warn, Info, Debug }
impl TryFrom<u8> for Level {
    type Error = String;
    fn try_from(value: u8) -> Result<Self, Self::Error> {
        match value { 0 => Ok(Level::Err), 1 => Ok(Level::Warn), 2 => Ok(Level::Debug), 3 => Ok(Level::Info), _ => Err(String::new()) }
    }
}
impl From<&Level> for u8 {
    fn from(value: &Level) -> Self {
        match value { Level::Err => 0, Level::Warn => 1, Level::Debug => 2, Level::Info => 3 }
    }
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyU8 {
    pub value: u8,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyU16 {
    pub value: u16,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyU32 {
    pub value: u32,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyU64 {
    pub value: u64,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyU128 {
    pub value: u128,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyI8 {
    pub value: i8,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyI16 {
    pub value: i16,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyI32 {
    pub value: i32,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyI64 {
    pub value: i64,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyI128 {
    pub value: i128,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyF32 {
    pub value: f32,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyF64 {
    pub value: f64,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyBool {
    pub value: bool,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyBlob {
    pub value: [u8; 7],
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct OnlyLevel {
    pub value: Level,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj00 {
    pub f00_u8: u8,
    pub f01_blob: [u8; 3],
    pub f02_blob: [u8; 16],
    pub f03_level: Level,
    pub f04_blob: [u8; 100],
    pub f05_bool: bool,
    pub f06_blob: [u8; 255],
    pub f07_f64: f64,
    pub f08_blob: [u8; 256],
    pub f09_f32: f32,
    pub f10_blob: [u8; 1000],
    pub f11_i128: i128,
    pub f12_blob: [u8; 5],
    pub f13_i64: i64,
    pub f14_blob: [u8; 1],
    pub f15_i32: i32,
    pub f16_blob: [u8; 3],
    pub f17_i16: i16,
    pub f18_blob: [u8; 16],
    pub f19_i8: i8,
    pub f20_blob: [u8; 100],
    pub f21_u128: u128,
    pub f22_blob: [u8; 255],
    pub f23_u64: u64,
    pub f24_blob: [u8; 256],
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj01 {
    pub f00_blob: [u8; 1000],
    pub f01_u32: u32,
    pub f02_blob: [u8; 5],
    pub f03_u16: u16,
    pub f04_blob: [u8; 1],
    pub f05_u8: u8,
    pub f06_level: Level,
    pub f07_level: Level,
    pub f08_bool: bool,
    pub f09_level: Level,
    pub f10_f64: f64,
    pub f11_level: Level,
    pub f12_f32: f32,
    pub f13_level: Level,
    pub f14_i128: i128,
    pub f15_level: Level,
    pub f16_i64: i64,
    pub f17_level: Level,
    pub f18_i32: i32,
    pub f19_level: Level,
    pub f20_i16: i16,
    pub f21_level: Level,
    pub f22_i8: i8,
    pub f23_level: Level,
    pub f24_u128: u128,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj02 {
    pub f00_u128: u128,
    pub f01_level: Level,
    pub f02_u64: u64,
    pub f03_level: Level,
    pub f04_u32: u32,
    pub f05_level: Level,
    pub f06_u16: u16,
    pub f07_level: Level,
    pub f08_u8: u8,
    pub f09_bool: bool,
    pub f10_bool: bool,
    pub f11_f64: f64,
    pub f12_bool: bool,
    pub f13_f32: f32,
    pub f14_bool: bool,
    pub f15_i128: i128,
    pub f16_bool: bool,
    pub f17_i64: i64,
    pub f18_bool: bool,
    pub f19_i32: i32,
    pub f20_bool: bool,
    pub f21_i16: i16,
    pub f22_bool: bool,
    pub f23_i8: i8,
    pub f24_bool: bool,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj03 {
    pub f00_bool: bool,
    pub f01_u128: u128,
    pub f02_bool: bool,
    pub f03_u64: u64,
    pub f04_bool: bool,
    pub f05_u32: u32,
    pub f06_bool: bool,
    pub f07_u16: u16,
    pub f08_bool: bool,
    pub f09_u8: u8,
    pub f10_f64: f64,
    pub f11_f64: f64,
    pub f12_f32: f32,
    pub f13_f64: f64,
    pub f14_i128: i128,
    pub f15_f64: f64,
    pub f16_i64: i64,
    pub f17_f64: f64,
    pub f18_i32: i32,
    pub f19_f64: f64,
    pub f20_i16: i16,
    pub f21_f64: f64,
    pub f22_i8: i8,
    pub f23_f64: f64,
    pub f24_u128: u128,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj04 {
    pub f00_u128: u128,
    pub f01_f64: f64,
    pub f02_u64: u64,
    pub f03_f64: f64,
    pub f04_u32: u32,
    pub f05_f64: f64,
    pub f06_u16: u16,
    pub f07_f64: f64,
    pub f08_u8: u8,
    pub f09_f32: f32,
    pub f10_f32: f32,
    pub f11_i128: i128,
    pub f12_f32: f32,
    pub f13_i64: i64,
    pub f14_f32: f32,
    pub f15_i32: i32,
    pub f16_f32: f32,
    pub f17_i16: i16,
    pub f18_f32: f32,
    pub f19_i8: i8,
    pub f20_f32: f32,
    pub f21_u128: u128,
    pub f22_f32: f32,
    pub f23_u64: u64,
    pub f24_f32: f32,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj05 {
    pub f00_f32: f32,
    pub f01_u32: u32,
    pub f02_f32: f32,
    pub f03_u16: u16,
    pub f04_f32: f32,
    pub f05_u8: u8,
    pub f06_i128: i128,
    pub f07_i128: i128,
    pub f08_i64: i64,
    pub f09_i128: i128,
    pub f10_i32: i32,
    pub f11_i128: i128,
    pub f12_i16: i16,
    pub f13_i128: i128,
    pub f14_i8: i8,
    pub f15_i128: i128,
    pub f16_u128: u128,
    pub f17_i128: i128,
    pub f18_u64: u64,
    pub f19_i128: i128,
    pub f20_u32: u32,
    pub f21_i128: i128,
    pub f22_u16: u16,
    pub f23_i128: i128,
    pub f24_u8: u8,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj06 {
    pub f00_u8: u8,
    pub f01_i64: i64,
    pub f02_i64: i64,
    pub f03_i32: i32,
    pub f04_i64: i64,
    pub f05_i16: i16,
    pub f06_i64: i64,
    pub f07_i8: i8,
    pub f08_i64: i64,
    pub f09_u128: u128,
    pub f10_i64: i64,
    pub f11_u64: u64,
    pub f12_i64: i64,
    pub f13_u32: u32,
    pub f14_i64: i64,
    pub f15_u16: u16,
    pub f16_i64: i64,
    pub f17_u8: u8,
    pub f18_i32: i32,
    pub f19_i32: i32,
    pub f20_i16: i16,
    pub f21_i32: i32,
    pub f22_i8: i8,
    pub f23_i32: i32,
    pub f24_u128: u128,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj07 {
    pub f00_u128: u128,
    pub f01_i32: i32,
    pub f02_u64: u64,
    pub f03_i32: i32,
    pub f04_u32: u32,
    pub f05_i32: i32,
    pub f06_u16: u16,
    pub f07_i32: i32,
    pub f08_u8: u8,
    pub f09_i16: i16,
    pub f10_i16: i16,
    pub f11_i8: i8,
    pub f12_i16: i16,
    pub f13_u128: u128,
    pub f14_i16: i16,
    pub f15_u64: u64,
    pub f16_i16: i16,
    pub f17_u32: u32,
    pub f18_i16: i16,
    pub f19_u16: u16,
    pub f20_i16: i16,
    pub f21_u8: u8,
    pub f22_i8: i8,
    pub f23_i8: i8,
    pub f24_u128: u128,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj08 {
    pub f00_u128: u128,
    pub f01_i8: i8,
    pub f02_u64: u64,
    pub f03_i8: i8,
    pub f04_u32: u32,
    pub f05_i8: i8,
    pub f06_u16: u16,
    pub f07_i8: i8,
    pub f08_u8: u8,
    pub f09_u128: u128,
    pub f10_u128: u128,
    pub f11_u64: u64,
    pub f12_u128: u128,
    pub f13_u32: u32,
    pub f14_u128: u128,
    pub f15_u16: u16,
    pub f16_u128: u128,
    pub f17_u8: u8,
    pub f18_u64: u64,
    pub f19_u64: u64,
    pub f20_u32: u32,
    pub f21_u64: u64,
    pub f22_u16: u16,
    pub f23_u64: u64,
    pub f24_u8: u8,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Adj09 {
    pub f00_u8: u8,
    pub f01_u32: u32,
    pub f02_u32: u32,
    pub f03_u16: u16,
    pub f04_u32: u32,
    pub f05_u8: u8,
    pub f06_u16: u16,
    pub f07_u16: u16,
    pub f08_u8: u8,
    pub f09_u8: u8,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct BigBlobs {
    pub a: [u8; 65536],
    pub n: u32,
    pub b: [u8; 70001],
    pub c: [u8; 1],
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Many {
    pub m000: u8,
    pub m001: i32,
    pub m002: u16,
    pub m003: i64,
    pub m004: u32,
    pub m005: i128,
    pub m006: u64,
    pub m007: f32,
    pub m008: u128,
    pub m009: f64,
    pub m010: i8,
    pub m011: bool,
    pub m012: i16,
    pub m013: u8,
    pub m014: i32,
    pub m015: u16,
    pub m016: i64,
    pub m017: u32,
    pub m018: i128,
    pub m019: u64,
    pub m020: f32,
    pub m021: u128,
    pub m022: f64,
    pub m023: i8,
    pub m024: bool,
    pub m025: i16,
    pub m026: u8,
    pub m027: i32,
    pub m028: u16,
    pub m029: i64,
    pub m030: u32,
    pub m031: i128,
    pub m032: u64,
    pub m033: f32,
    pub m034: u128,
    pub m035: f64,
    pub m036: i8,
    pub m037: bool,
    pub m038: i16,
    pub m039: u8,
    pub m040: i32,
    pub m041: u16,
    pub m042: i64,
    pub m043: u32,
    pub m044: i128,
    pub m045: u64,
    pub m046: f32,
    pub m047: u128,
    pub m048: f64,
    pub m049: i8,
    pub m050: bool,
    pub m051: i16,
    pub m052: u8,
    pub m053: i32,
    pub m054: u16,
    pub m055: i64,
    pub m056: u32,
    pub m057: i128,
    pub m058: u64,
    pub m059: f32,
    pub m060: u128,
    pub m061: f64,
    pub m062: i8,
    pub m063: bool,
    pub m064: i16,
    pub m065: u8,
    pub m066: i32,
    pub m067: u16,
    pub m068: i64,
    pub m069: u32,
    pub m070: i128,
    pub m071: u64,
    pub m072: f32,
    pub m073: u128,
    pub m074: f64,
    pub m075: i8,
    pub m076: bool,
    pub m077: i16,
    pub m078: u8,
    pub m079: i32,
    pub m080: u16,
    pub m081: i64,
    pub m082: u32,
    pub m083: i128,
    pub m084: u64,
    pub m085: f32,
    pub m086: u128,
    pub m087: f64,
    pub m088: i8,
    pub m089: bool,
    pub m090: i16,
    pub m091: u8,
    pub m092: i32,
    pub m093: u16,
    pub m094: i64,
    pub m095: u32,
    pub m096: i128,
    pub m097: u64,
    pub m098: f32,
    pub m099: u128,
    pub m100: f64,
    pub m101: i8,
    pub m102: bool,
    pub m103: i16,
    pub m104: u8,
    pub m105: i32,
    pub m106: u16,
    pub m107: i64,
    pub m108: u32,
    pub m109: i128,
    pub m110: u64,
    pub m111: f32,
    pub m112: u128,
    pub m113: f64,
    pub m114: i8,
    pub m115: bool,
    pub m116: i16,
    pub m117: u8,
    pub m118: i32,
    pub m119: u16,
}

#[block(no_crc)]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct NoCrcBlock {
    pub a: u32,
    pub b: [u8; 9],
    pub c: bool,
    pub d: Level,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Same {
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub d: [u8; 4],
    pub e: [u8; 4],
    pub f: bool,
    pub g: bool,
    pub h: u32,
}

#[block]
#[derive(PartialEq, PartialOrd, Debug, Clone)]
pub struct Names {
    pub crc: [u8; 4],
    pub sig: [u8; 3],
    pub offset: u64,
    pub src: u16,
    pub len: bool,
    pub start_pos: i64,
    pub sig_buf: [u8; 5],
    pub bytes: u32,
    pub required: f32,
    pub available: i8,
    pub slices: Level,
    pub hasher: u32,
    pub value: f64,
    pub block: i128,
    pub header: u8,
    pub crc_buf: [u8; 4],
    pub skip_sig: bool,
    pub result: u32,
    pub read: u64,
    pub out: u8,
    pub buffer: u8,
    pub size: u64,
    pub reader: [u8; 2],
    pub blob: u16,
    pub pos: u64,
}
