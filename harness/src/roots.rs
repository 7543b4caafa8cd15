//! Entry points of the analysis: one-line calls of the public API at generic types.
use alloy_primitives::{Address, Bloom, Bytes, FixedBytes, U128, U256};
use core::num::NonZeroUsize;
use smallvec::SmallVec;
use ssz::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

macro_rules! enc {
    ($m:ident, [$($g:tt)*], $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn append<$($g)*>(x: &$t, buf: &mut Vec<u8>) { <$t as Encode>::ssz_append(x, buf) }
            pub fn as_bytes<$($g)*>(x: &$t) -> Vec<u8> { <$t as Encode>::as_ssz_bytes(x) }
            pub fn bytes_len<$($g)*>(x: &$t) -> usize { <$t as Encode>::ssz_bytes_len(x) }
            pub fn enc_fixed<$($g)*>() -> bool { <$t as Encode>::is_ssz_fixed_len() }
            pub fn enc_flen<$($g)*>() -> usize { <$t as Encode>::ssz_fixed_len() }
        }
    };
}
macro_rules! dec {
    ($m:ident, [$($g:tt)*], $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn dec_fixed<$($g)*>() -> bool { <$t as Decode>::is_ssz_fixed_len() }
            pub fn dec_flen<$($g)*>() -> usize { <$t as Decode>::ssz_fixed_len() }
            pub fn decode<$($g)*>(b: &[u8]) -> Result<$t, DecodeError> { <$t as Decode>::from_ssz_bytes(b) }
        }
    };
}
macro_rules! codec {
    ($m:ident, [$($g:tt)*], $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn append<$($g)*>(x: &$t, buf: &mut Vec<u8>) { <$t as Encode>::ssz_append(x, buf) }
            pub fn as_bytes<$($g)*>(x: &$t) -> Vec<u8> { <$t as Encode>::as_ssz_bytes(x) }
            pub fn bytes_len<$($g)*>(x: &$t) -> usize { <$t as Encode>::ssz_bytes_len(x) }
            pub fn enc_fixed<$($g)*>() -> bool { <$t as Encode>::is_ssz_fixed_len() }
            pub fn enc_flen<$($g)*>() -> usize { <$t as Encode>::ssz_fixed_len() }
            pub fn dec_fixed<$($g)*>() -> bool { <$t as Decode>::is_ssz_fixed_len() }
            pub fn dec_flen<$($g)*>() -> usize { <$t as Decode>::ssz_fixed_len() }
            pub fn decode<$($g)*>(b: &[u8]) -> Result<$t, DecodeError> { <$t as Decode>::from_ssz_bytes(b) }
        }
    };
}
codec!(r_u8, [], u8);
codec!(r_u16, [], u16);
codec!(r_u32, [], u32);
codec!(r_u64, [], u64);
codec!(r_u128, [], u128);
codec!(r_usize, [], usize);
codec!(r_bool, [], bool);
codec!(r_nonzero, [], NonZeroUsize);
codec!(r_address, [], Address);
codec!(r_fixedbytes, [const N: usize], FixedBytes<N>);
codec!(r_bloom, [], Bloom);
codec!(r_u256, [], U256);
codec!(r_alloy_u128, [], U128);
codec!(r_bytes, [], Bytes);
codec!(r_array, [const N: usize], [u8; N]);
codec!(r_option, [T: Encode + Decode], Option<T>);
codec!(r_arc, [T: Encode + Decode], Arc<T>);
codec!(r_vec, [T: Encode + Decode], Vec<T>);
codec!(r_smallvec, [T: Encode + Decode, const N: usize], SmallVec<[T; N]>);
codec!(r_map, [K: Encode + Decode + Ord, V: Encode + Decode], BTreeMap<K, V>);
codec!(r_set, [T: Encode + Decode + Ord], BTreeSet<T>);
macro_rules! tup {
    ($($m:ident [$($t:ident)*])*) => { $( codec!($m, [$($t: Encode + Decode),*], ($($t,)*)); )* };
}
tup! {
    r_tuple2 [A B]
    r_tuple3 [A B C]
    r_tuple4 [A B C D]
    r_tuple5 [A B C D E]
    r_tuple6 [A B C D E F]
    r_tuple7 [A B C D E F G]
    r_tuple8 [A B C D E F G H]
    r_tuple9 [A B C D E F G H I]
    r_tuple10 [A B C D E F G H I J]
    r_tuple11 [A B C D E F G H I J K]
    r_tuple12 [A B C D E F G H I J K L]
}
pub mod r_ref {
    use super::*;
    pub fn append<T: Encode>(x: &&T, buf: &mut Vec<u8>) { <&T as Encode>::ssz_append(x, buf) }
    pub fn as_bytes<T: Encode>(x: &&T) -> Vec<u8> { <&T as Encode>::as_ssz_bytes(x) }
    pub fn bytes_len<T: Encode>(x: &&T) -> usize { <&T as Encode>::ssz_bytes_len(x) }
    pub fn enc_fixed<'a, T: Encode + 'a>() -> bool { <&'a T as Encode>::is_ssz_fixed_len() }
    pub fn enc_flen<'a, T: Encode + 'a>() -> usize { <&'a T as Encode>::ssz_fixed_len() }
}
#[path = "roots_misc.rs"]
pub mod r_misc;
#[path = "roots_bits.rs"]
pub mod bits;
#[cfg(feature = "derived")]
#[path = "roots_derive.rs"]
pub mod derived;
