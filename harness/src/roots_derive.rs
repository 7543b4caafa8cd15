//! Derived codecs and field codec modules.
use super::*;
use ssz_derive::{Decode, Encode};

/// contract types: their codec calls are never entered
pub struct OpF(pub u8);
pub struct OpV(pub u8);
macro_rules! contract {
    ($t:ident, $f:expr) => {
        impl ssz::Encode for $t {
            fn is_ssz_fixed_len() -> bool { $f }
            fn ssz_fixed_len() -> usize { loop {} }
            fn ssz_append(&self, _: &mut Vec<u8>) { loop {} }
            fn ssz_bytes_len(&self) -> usize { loop {} }
        }
        impl ssz::Decode for $t {
            fn is_ssz_fixed_len() -> bool { $f }
            fn ssz_fixed_len() -> usize { loop {} }
            fn from_ssz_bytes(_: &[u8]) -> Result<Self, ssz::DecodeError> { loop {} }
        }
    };
}
contract!(OpF, true);
contract!(OpV, false);

pub struct ForeignV(pub OpV);
pub struct ForeignF(pub OpF);
macro_rules! field_codec {
    ($m:ident, $w:ident, $t:ident) => {
        pub mod $m {
            pub mod encode {
                use super::super::*;
                use ssz::Encode;
                pub fn is_ssz_fixed_len() -> bool { <$t as Encode>::is_ssz_fixed_len() }
                pub fn ssz_fixed_len() -> usize { <$t as Encode>::ssz_fixed_len() }
                pub fn ssz_bytes_len(x: &$w) -> usize { x.0.ssz_bytes_len() }
                pub fn ssz_append(x: &$w, buf: &mut Vec<u8>) { x.0.ssz_append(buf) }
                pub fn as_ssz_bytes(x: &$w) -> Vec<u8> { let mut b = vec![]; x.0.ssz_append(&mut b); b }
            }
            pub mod decode {
                use super::super::*;
                use ssz::Decode;
                pub fn is_ssz_fixed_len() -> bool { <$t as Decode>::is_ssz_fixed_len() }
                pub fn ssz_fixed_len() -> usize { <$t as Decode>::ssz_fixed_len() }
                pub fn from_ssz_bytes(b: &[u8]) -> Result<$w, ssz::DecodeError> { <$t as Decode>::from_ssz_bytes(b).map($w) }
            }
        }
    };
}
field_codec!(codec_v, ForeignV, OpV);
field_codec!(codec_f, ForeignF, OpF);
/// codecs of their own, different from the field codecs in every respect: nothing of them may show up in a field with a codec
macro_rules! own_codec {
    ($t:ident, $f:expr, $n:expr) => {
        impl ssz::Encode for $t {
            fn is_ssz_fixed_len() -> bool { $f }
            fn ssz_fixed_len() -> usize { $n }
            fn ssz_append(&self, buf: &mut Vec<u8>) { buf.extend_from_slice(&[7; $n]) }
            fn ssz_bytes_len(&self) -> usize { $n }
        }
        impl ssz::Decode for $t {
            fn is_ssz_fixed_len() -> bool { $f }
            fn ssz_fixed_len() -> usize { $n }
            fn from_ssz_bytes(_: &[u8]) -> Result<Self, ssz::DecodeError> { Err(ssz::DecodeError::ZeroLengthItem) }
        }
    };
}
own_codec!(ForeignV, true, 3);
own_codec!(ForeignF, false, 4);
macro_rules! plain_codec {
    ($m:ident, $t:ty) => {
        pub mod $m {
            pub mod encode {
                use super::super::*;
                use ssz::Encode;
                pub fn is_ssz_fixed_len() -> bool { <$t as Encode>::is_ssz_fixed_len() }
                pub fn ssz_fixed_len() -> usize { <$t as Encode>::ssz_fixed_len() }
                pub fn ssz_bytes_len(x: &$t) -> usize { x.ssz_bytes_len() }
                pub fn ssz_append(x: &$t, buf: &mut Vec<u8>) { x.ssz_append(buf) }
            }
            pub mod decode {
                use super::super::*;
                use ssz::Decode;
                pub fn is_ssz_fixed_len() -> bool { <$t as Decode>::is_ssz_fixed_len() }
                pub fn ssz_fixed_len() -> usize { <$t as Decode>::ssz_fixed_len() }
                pub fn from_ssz_bytes(b: &[u8]) -> Result<$t, ssz::DecodeError> { <$t as Decode>::from_ssz_bytes(b) }
            }
        }
    };
}
plain_codec!(codec_u, u32);
plain_codec!(codec_w, Vec<u16>);
#[path = "roots_gen.rs"]
pub mod gen;

ssz::four_byte_option_impl!(legacy_f, OpF);
ssz::four_byte_option_impl!(legacy_v, OpV);
type Vu16 = Vec<u16>;
ssz::four_byte_option_impl!(legacy_u64, u64);
ssz::four_byte_option_impl!(legacy_vec, Vu16);
macro_rules! legacy {
    ($m:ident, $l:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn append(x: &Option<$t>, buf: &mut Vec<u8>) { $l::encode::ssz_append(x, buf) }
            pub fn as_bytes(x: &Option<$t>) -> Vec<u8> { $l::encode::as_ssz_bytes(x) }
            pub fn bytes_len(x: &Option<$t>) -> usize { $l::encode::ssz_bytes_len(x) }
            pub fn enc_fixed() -> bool { $l::encode::is_ssz_fixed_len() }
            pub fn enc_flen() -> usize { $l::encode::ssz_fixed_len() }
            pub fn dec_fixed() -> bool { $l::decode::is_ssz_fixed_len() }
            pub fn dec_flen() -> usize { $l::decode::ssz_fixed_len() }
            pub fn decode(b: &[u8]) -> Result<Option<$t>, ssz::DecodeError> { $l::decode::from_ssz_bytes(b) }
        }
    };
}
legacy!(l_f, legacy_f, OpF);
legacy!(l_v, legacy_v, OpV);
legacy!(l_u64, legacy_u64, u64);
legacy!(l_vec, legacy_vec, Vu16);

// ---- containers
#[derive(Encode, Decode)]
pub struct C1<A: ssz::Encode + ssz::Decode> { a: A }
#[derive(Encode, Decode)]
pub struct C2<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode> { a: A, b: B }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "container")]
pub struct C3<A, B, C> where A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode, C: ssz::Encode + ssz::Decode { z: A, y: B, x: C }
#[derive(Encode, Decode)]
pub struct C5<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode, C: ssz::Encode + ssz::Decode, D: ssz::Encode + ssz::Decode, E: ssz::Encode + ssz::Decode> {
    f5: A, f4: B, f3: C, f2: D, f1: E,
}
#[derive(Encode, Decode)]
pub struct C10<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode> {
    a0: A, a1: B, a2: A, a3: B, a4: B, a5: A, a6: B, a7: A, a8: B, a9: B,
}
#[derive(Encode, Decode)]
pub struct Empty {}
/// field names that could clash with locals of the generated code
#[derive(Encode, Decode)]
pub struct Names<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode> {
    bytes: A, buf: B, builder: A, decoder: B, encoder: A, offset: A, len: B, start: A, end: A, slice: A, i: B, r#type: A, item: B, expected: A,
}
#[derive(Encode, Decode)]
pub struct Arr<const N: usize> { a: [u8; N], b: u16 }
#[derive(Encode, Decode)]
pub struct ArrV<const N: usize> { a: [u8; N], b: Vec<u8>, c: [u8; N] }
#[derive(Encode, Decode)]
pub struct Fixed { a: u8, b: u16, c: u32, d: u64, e: bool, f: [u8; 4], g: Address, h: U256 }
#[derive(Encode, Decode)]
pub struct Mixed { a: u16, b: Vec<u8>, c: bool, d: Option<u32>, e: u64, f: Bytes }
#[derive(Encode, Decode)]
pub struct Nest { x: Mixed, y: C2<u16, Vec<u16>>, z: Fixed }
#[derive(Encode, Decode)]
pub struct ListOfC { x: Vec<C2<u16, u8>>, y: Vec<u16> }
#[derive(Encode)]
pub struct Borrowed<'a, A: ssz::Encode> { a: &'a A, b: u8, c: Arc<A> }
// ---- skipped fields
#[derive(Encode, Decode)]
pub struct SkipMid<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode> {
    a: A,
    #[ssz(skip_serializing, skip_deserializing)]
    s: u8,
    b: B,
}
#[derive(Encode, Decode)]
pub struct SkipEnds<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode> {
    #[ssz(skip_serializing, skip_deserializing)]
    s: Vec<u8>,
    a: A,
    b: B,
    #[ssz(skip_deserializing, skip_serializing)]
    t: bool,
    #[ssz(skip_deserializing, skip_serializing)]
    u: u64,
}
#[derive(Encode, Decode)]
pub struct SkipSer<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode> {
    a: A,
    #[ssz(skip_serializing)]
    s: u8,
    b: B,
}
#[derive(Encode, Decode)]
pub struct SkipDe<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode> {
    a: A,
    #[ssz(skip_deserializing)]
    s: u8,
    b: B,
}
// ---- field codecs
#[derive(Encode, Decode)]
pub struct WithV<A: ssz::Encode + ssz::Decode> {
    a: A,
    #[ssz(with = "codec_v")]
    w: ForeignV,
    b: A,
}
#[derive(Encode, Decode)]
pub struct WithF<A: ssz::Encode + ssz::Decode> {
    #[ssz(with = "codec_f")]
    w: ForeignF,
    a: A,
    #[ssz(with = "codec_f")]
    x: ForeignF,
}
#[derive(Encode, Decode)]
pub struct WithLegacy<A: ssz::Encode + ssz::Decode> {
    a: A,
    #[ssz(with = "legacy_f")]
    f: Option<OpF>,
    #[ssz(with = "legacy_v")]
    v: Option<OpV>,
    b: A,
}
#[derive(Encode, Decode)]
pub struct OneLegacy {
    #[ssz(with = "legacy_v")]
    v: Option<OpV>,
}
// ---- transparent structs
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T1<A: ssz::Encode + ssz::Decode> { a: A }
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T2<A: ssz::Encode + ssz::Decode>(A);
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T3<A: ssz::Encode + ssz::Decode>(#[ssz(skip_serializing, skip_deserializing)] u8, A);
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T4<A: ssz::Encode + ssz::Decode> {
    #[ssz(skip_serializing, skip_deserializing)]
    s: bool,
    bytes: A,
    #[ssz(skip_serializing, skip_deserializing)]
    t: u64,
}
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T5 {
    #[ssz(with = "codec_v")]
    w: ForeignV,
}
#[derive(Encode, Decode)]
#[ssz(struct_behaviour = "transparent")]
pub struct T6(#[ssz(with = "codec_f")] ForeignF, #[ssz(skip_serializing, skip_deserializing)] u8);
// ---- enums
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U1<A: ssz::Encode + ssz::Decode> { X(A) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U3<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode> { Z(A), Y(B), X(A) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "union")]
pub enum U5 { E(u8), D(Vec<u8>), C(Mixed), B(Option<u16>), A(bool) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E1<A: ssz::Encode + ssz::Decode> { X(A) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "transparent")]
pub enum E3<A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode, C: ssz::Encode + ssz::Decode> { Z(A), Y(B), X(C) }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum G1 { A }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum G3 { C, A, B }
#[derive(Encode, Decode)]
#[ssz(enum_behaviour = "tag")]
pub enum G4 { C = 7, A = 1, B = 0, D = 200 }
macro_rules! many {
    ($($v:ident)*) => {
        #[derive(Encode, Decode)]
        #[ssz(enum_behaviour = "tag")]
        pub enum G128 { $($v),* }
        #[derive(Encode, Decode)]
        #[ssz(enum_behaviour = "union")]
        pub enum U128v<A: ssz::Encode + ssz::Decode> { $($v(A)),* }
    };
}
many! {
    V0 V1 V2 V3 V4 V5 V6 V7 V8 V9 V10 V11 V12 V13 V14 V15 V16 V17 V18 V19 V20 V21 V22 V23 V24 V25 V26 V27 V28 V29 V30 V31
    V32 V33 V34 V35 V36 V37 V38 V39 V40 V41 V42 V43 V44 V45 V46 V47 V48 V49 V50 V51 V52 V53 V54 V55 V56 V57 V58 V59 V60 V61 V62 V63
    V64 V65 V66 V67 V68 V69 V70 V71 V72 V73 V74 V75 V76 V77 V78 V79 V80 V81 V82 V83 V84 V85 V86 V87 V88 V89 V90 V91 V92 V93 V94 V95
    V96 V97 V98 V99 V100 V101 V102 V103 V104 V105 V106 V107 V108 V109 V110 V111 V112 V113 V114 V115 V116 V117 V118 V119 V120 V121 V122 V123 V124 V125 V126 V127
}
codec!(c1, [A: ssz::Encode + ssz::Decode], C1<A>);
codec!(c2, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode], C2<A, B>);
codec!(c3, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode, C: ssz::Encode + ssz::Decode], C3<A, B, C>);
codec!(c5, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode, C: ssz::Encode + ssz::Decode, D: ssz::Encode + ssz::Decode, E: ssz::Encode + ssz::Decode], C5<A, B, C, D, E>);
codec!(c10, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode], C10<A, B>);
codec!(empty, [], Empty);
codec!(names, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode], Names<A, B>);
codec!(arr, [const N: usize], Arr<N>);
codec!(arrv, [const N: usize], ArrV<N>);
codec!(fixed, [], Fixed);
codec!(mixed, [], Mixed);
codec!(nest, [], Nest);
codec!(list_of_c, [], ListOfC);
enc!(borrowed, ['a, A: ssz::Encode + 'a], Borrowed<'a, A>);
codec!(skip_mid, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode], SkipMid<A, B>);
codec!(skip_ends, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode], SkipEnds<A, B>);
codec!(skip_ser, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode], SkipSer<A, B>);
codec!(skip_de, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode], SkipDe<A, B>);
codec!(with_v, [A: ssz::Encode + ssz::Decode], WithV<A>);
codec!(with_f, [A: ssz::Encode + ssz::Decode], WithF<A>);
codec!(with_legacy, [A: ssz::Encode + ssz::Decode], WithLegacy<A>);
codec!(one_legacy, [], OneLegacy);
codec!(t1, [A: ssz::Encode + ssz::Decode], T1<A>);
codec!(t2, [A: ssz::Encode + ssz::Decode], T2<A>);
codec!(t3, [A: ssz::Encode + ssz::Decode], T3<A>);
codec!(t4, [A: ssz::Encode + ssz::Decode], T4<A>);
codec!(t5, [], T5);
codec!(t6, [], T6);
codec!(u1, [A: ssz::Encode + ssz::Decode], U1<A>);
codec!(u3, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode], U3<A, B>);
codec!(u5, [], U5);
codec!(u128v, [A: ssz::Encode + ssz::Decode], U128v<A>);
codec!(e1, [A: ssz::Encode + ssz::Decode], E1<A>);
codec!(e3, [A: ssz::Encode + ssz::Decode, B: ssz::Encode + ssz::Decode, C: ssz::Encode + ssz::Decode], E3<A, B, C>);
codec!(g1, [], G1);
codec!(g3, [], G3);
codec!(g4, [], G4);
codec!(g128, [], G128);
