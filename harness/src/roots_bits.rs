//! Bitfields: codec entry points, byte-level API, every operation, serde and arbitrary.
use smallvec::SmallVec;
use ssz::*;
use typenum::Unsigned;

use smallvec::ToSmallVec;

macro_rules! ops {
    ($m:ident, [$($g:tt)*], $t:ty) => {
        pub mod $m {
            use super::*;
            pub fn append<$($g)*>(x: &$t, buf: &mut Vec<u8>) { <$t as Encode>::ssz_append(x, buf) }
            pub fn as_bytes<$($g)*>(x: &$t) -> Vec<u8> { <$t as Encode>::as_ssz_bytes(x) }
            pub fn bytes_len<$($g)*>(x: &$t) -> usize { <$t as Encode>::ssz_bytes_len(x) }
            pub fn enc_fixed<$($g)*>() -> bool { <$t as Encode>::is_ssz_fixed_len() }
            pub fn enc_flen<$($g)*>() -> usize { <$t as Encode>::ssz_fixed_len() }
            pub fn dec_fixed<$($g)*>() -> bool { <$t as Decode>::is_ssz_fixed_len() }
            pub fn dec_flen<$($g)*>() -> usize { <$t as Decode>::ssz_fixed_len() }
            pub fn decode<$($g)*>(b: &[u8]) -> Result<$t, DecodeError> { <$t as Decode>::from_ssz_bytes(b) }
            pub fn into_bytes<$($g)*>(x: $t) -> Vec<u8> { x.into_bytes().into_vec() }
            pub fn into_raw<$($g)*>(x: $t) -> Vec<u8> { x.into_raw_bytes().into_vec() }
            pub fn as_slice<'a, $($g)*>(x: &'a $t) -> &'a [u8] { x.as_slice() }
            pub fn set<$($g)*>(x: &mut $t, i: usize, v: bool) -> Result<(), BitfieldError> { x.set(i, v) }
            pub fn get<$($g)*>(x: &$t, i: usize) -> Result<bool, BitfieldError> { x.get(i) }
            pub fn len<$($g)*>(x: &$t) -> usize { x.len() }
            pub fn is_empty<$($g)*>(x: &$t) -> bool { x.is_empty() }
            pub fn highest<$($g)*>(x: &$t) -> Option<usize> { x.highest_set_bit() }
            pub fn is_zero<$($g)*>(x: &$t) -> bool { x.is_zero() }
            pub fn count<$($g)*>(x: &$t) -> usize { x.num_set_bits() }
            pub fn iter<$($g)*>(x: &$t) -> Vec<bool> { let mut v = vec![]; for b in x.iter() { v.push(b); } v }
            pub fn iter_nth<$($g)*>(x: &$t, n: usize, m: usize) -> (Option<bool>, Option<bool>) {
                let mut it = x.iter();
                let a = it.nth(n);
                (a, it.nth(m))
            }
            pub fn iter_rest<$($g)*>(x: &$t, n: usize) -> Vec<bool> {
                let mut it = x.iter();
                it.nth(n);
                let mut v = vec![];
                it.for_each(|b| v.push(b));
                v
            }
            pub fn iter_hint<$($g)*>(x: &$t, n: usize) -> (usize, Option<usize>) {
                let mut it = x.iter();
                it.nth(n);
                it.size_hint()
            }
            pub fn iter_count<$($g)*>(x: &$t) -> usize { x.iter().count() }
            pub fn iter_last<$($g)*>(x: &$t) -> Option<bool> { x.iter().last() }
            pub fn difference<$($g)*>(x: &$t, y: &$t) -> $t { x.difference(y) }
            pub fn difference_inplace<$($g)*>(x: &mut $t, y: &$t) { x.difference_inplace(y) }
            pub fn shift_up<$($g)*>(x: &mut $t, n: usize) -> Result<(), BitfieldError> { x.shift_up(n) }
            pub fn clone<$($g)*>(x: &$t) -> $t { x.clone() }
            pub fn eq<$($g)*>(x: &$t, y: &$t) -> bool { x == y }
            pub fn hash<$($g)*>(x: &$t, h: &mut crate::models::Rec) { core::hash::Hash::hash(x, h) }
            pub fn ser<$($g)*>(x: &$t) -> Result<String, crate::models::SErr> { serde::Serialize::serialize(x, crate::models::StrSer) }
            pub fn de<$($g)*>(s: &str) -> Result<$t, crate::models::SErr> { serde::Deserialize::deserialize(crate::models::StrDe(s)) }
        }
    };
}
ops!(bl, [N: Unsigned + Clone], BitList<N>);
ops!(bv, [N: Unsigned + Clone], BitVector<N>);
ops!(bd, [], BitVectorDynamic);

pub mod bl_x {
    use super::*;
    pub fn with_capacity<N: Unsigned + Clone>(n: usize) -> Result<BitList<N>, BitfieldError> { BitList::<N>::with_capacity(n) }
    pub fn max_len<N: Unsigned + Clone>() -> usize { BitList::<N>::max_len() }
    pub fn from_bytes<N: Unsigned + Clone>(b: &[u8]) -> Result<BitList<N>, BitfieldError> { BitList::<N>::from_bytes(b.to_smallvec()) }
    pub fn intersection<N: Unsigned + Clone>(x: &BitList<N>, y: &BitList<N>) -> BitList<N> { x.intersection(y) }
    pub fn union<N: Unsigned + Clone>(x: &BitList<N>, y: &BitList<N>) -> BitList<N> { x.union(y) }
    pub fn is_subset<N: Unsigned + Clone>(x: &BitList<N>, y: &BitList<N>) -> bool { x.is_subset(y) }
    pub fn resize<N: Unsigned + Clone, M: Unsigned + Clone>(x: &BitList<N>) -> Result<BitList<M>, BitfieldError> { x.resize::<M>() }
    pub fn arb<N: Unsigned + Clone + 'static>(b: &[u8]) -> Result<BitList<N>, arbitrary::Error> {
        let mut u = arbitrary::Unstructured::new(b);
        <BitList<N> as arbitrary::Arbitrary>::arbitrary(&mut u)
    }
}
pub mod bv_x {
    use super::*;
    pub fn new<N: Unsigned + Clone>() -> BitVector<N> { BitVector::<N>::new() }
    pub fn default<N: Unsigned + Clone>() -> BitVector<N> { Default::default() }
    pub fn capacity<N: Unsigned + Clone>() -> usize { BitVector::<N>::capacity() }
    pub fn from_bytes<N: Unsigned + Clone>(b: &[u8]) -> Result<BitVector<N>, BitfieldError> { BitVector::<N>::from_bytes(b.to_smallvec()) }
    pub fn intersection<N: Unsigned + Clone>(x: &BitVector<N>, y: &BitVector<N>) -> BitVector<N> { x.intersection(y) }
    pub fn union<N: Unsigned + Clone>(x: &BitVector<N>, y: &BitVector<N>) -> BitVector<N> { x.union(y) }
    pub fn is_subset<N: Unsigned + Clone>(x: &BitVector<N>, y: &BitVector<N>) -> bool { x.is_subset(y) }
    pub fn arb<N: Unsigned + Clone + 'static>(b: &[u8]) -> Result<BitVector<N>, arbitrary::Error> {
        let mut u = arbitrary::Unstructured::new(b);
        <BitVector<N> as arbitrary::Arbitrary>::arbitrary(&mut u)
    }
}
pub mod bd_x {
    use super::*;
    pub fn new(n: usize) -> Result<BitVectorDynamic, BitfieldError> { BitVectorDynamic::new(n) }
    pub fn from_bytes_with_len(b: &[u8], n: usize) -> Result<BitVectorDynamic, BitfieldError> { BitVectorDynamic::from_bytes_with_len(b.to_smallvec(), n) }
    pub fn intersection(x: &BitVectorDynamic, y: &BitVectorDynamic) -> Result<BitVectorDynamic, BitfieldError> { x.intersection(y) }
    pub fn union(x: &BitVectorDynamic, y: &BitVectorDynamic) -> Result<BitVectorDynamic, BitfieldError> { x.union(y) }
}
