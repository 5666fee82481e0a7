//! The code under test, behind one table.
use text_encoding::single_byte::*;
use text_encoding::*;

pub enum Enc {
    Plain(for<'a> fn(&str, &'a mut [u8]) -> EncodeResult<'a>),
    End(for<'a> fn(&str, &'a mut [u8], bool) -> EncodeResult<'a>),
}
pub enum Dec {
    Plain(for<'a> fn(&[u8], &'a mut [u8]) -> DecodeResult<'a>),
    End(for<'a> fn(&[u8], &'a mut [u8], bool) -> DecodeResult<'a>),
}
pub struct Codec {
    pub name: &'static str,
    pub enc: Enc,
    pub dec: Dec,
}

macro_rules! utf { ($m:ident) => {
    Codec { name: stringify!($m), enc: Enc::Plain($m::encode_from_str), dec: Dec::End($m::decode_to_str) } } }
macro_rules! sb { ($m:ident) => {
    Codec { name: stringify!($m), enc: Enc::Plain($m::encode_from_str), dec: Dec::Plain($m::decode_to_str) } } }

pub static CODECS: &[Codec] = &[
    utf!(utf8),
    utf!(utf16_be),
    utf!(utf16_le),
    utf!(utf32_be),
    utf!(utf32_le),
    Codec {
        name: "big5_whatwg",
        enc: Enc::End(big5_whatwg::encode_from_str),
        dec: Dec::End(big5_whatwg::decode_to_str),
    },
    utf!(shiftjis_whatwg),
    sb!(ascii),
    sb!(ibm_866),
    sb!(iso_8859_1),
    sb!(iso_8859_2),
    sb!(iso_8859_3),
    sb!(iso_8859_4),
    sb!(iso_8859_5),
    sb!(iso_8859_6),
    sb!(iso_8859_7),
    sb!(iso_8859_8),
    sb!(iso_8859_9),
    sb!(iso_8859_10),
    sb!(iso_8859_11),
    sb!(iso_8859_13),
    sb!(iso_8859_14),
    sb!(iso_8859_15),
    sb!(iso_8859_16),
    sb!(koi8_r),
    sb!(koi8_u),
    sb!(mac_roman),
    sb!(mac_cyrillic),
    sb!(windows_874),
    sb!(windows_1250),
    sb!(windows_1251),
    sb!(windows_1252),
    sb!(windows_1253),
    sb!(windows_1254),
    sb!(windows_1255),
    sb!(windows_1256),
    sb!(windows_1257),
    sb!(windows_1258),
];

pub const UTF8: usize = 0;
pub const U16BE: usize = 1;
pub const U16LE: usize = 2;
pub const U32BE: usize = 3;
pub const U32LE: usize = 4;
pub const BIG5: usize = 5;
pub const SJIS: usize = 6;

pub fn index(name: &str) -> usize {
    CODECS.iter().position(|c| c.name == name).unwrap_or_else(|| panic!("no such encoding: {}", name))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Dir {
    Dec,
    Enc,
}
pub use Dir::{Dec as DEC, Enc as ENC};
impl Dir {
    pub fn name(self) -> &'static str {
        if self == DEC {
            "dec"
        } else {
            "enc"
        }
    }
}

pub fn has_end(e: usize, d: Dir) -> bool {
    match d {
        DEC => matches!(CODECS[e].dec, Dec::End(_)),
        ENC => matches!(CODECS[e].enc, Enc::End(_)),
    }
}
