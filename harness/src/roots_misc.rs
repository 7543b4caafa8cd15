//! Protocol-level entry points: offsets, unions, limited lists, the container builder and encoder.
use super::*;
pub fn ssz_encode_fn<T: Encode>(x: &T) -> Vec<u8> { ssz::ssz_encode(x) }
pub fn encode_length_fn(n: usize) -> [u8; 4] { ssz::encode_length(n) }
pub fn read_offset_fn(b: &[u8]) -> Result<usize, DecodeError> { ssz::read_offset(b) }
pub fn offset_roundtrip(n: usize) -> Result<usize, DecodeError> { ssz::read_offset(&ssz::encode_length(n)) }
pub fn split_union(b: &[u8]) -> Result<(UnionSelector, &[u8]), DecodeError> { ssz::split_union_bytes(b) }
pub fn selector_new(x: u8) -> Result<UnionSelector, DecodeError> { UnionSelector::new(x) }
pub fn selector_into(x: UnionSelector) -> u8 { x.into() }
pub fn split_selector(b: &[u8]) -> Result<u8, DecodeError> { ssz::split_union_bytes(b).map(|(s, _)| s.into()) }

// ---- lists with a limit
/// keeps at most N items and refuses a longer sequence
pub struct Bounded<T, const N: usize>(pub Vec<T>);
impl<T, const N: usize> TryFromIter<T> for Bounded<T, N> {
    type Error = ();
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, ()> {
        let mut v = Vec::new();
        for x in iter {
            if v.len() >= N {
                return Err(());
            }
            v.push(x);
        }
        Ok(Bounded(v))
    }
}
/// refuses everything without looking at it
pub struct Never;
impl<T> TryFromIter<T> for Never {
    type Error = u8;
    fn try_from_iter<I: IntoIterator<Item = T>>(_: I) -> Result<Self, u8> { Err(0) }
}
/// collects everything, then refuses if there are more than N items
pub struct Late<T, const N: usize>(pub Vec<T>);
impl<T, const N: usize> TryFromIter<T> for Late<T, N> {
    type Error = String;
    fn try_from_iter<I: IntoIterator<Item = T>>(iter: I) -> Result<Self, String> {
        let mut v = Vec::new();
        for x in iter {
            v.push(x);
        }
        if v.len() > N { Err(String::new()) } else { Ok(Late(v)) }
    }
}
pub fn list_vec<T: Decode>(b: &[u8], max: Option<usize>) -> Result<Vec<T>, DecodeError> { ssz::decode_list_of_variable_length_items(b, max) }
pub fn list_small<T: Decode, const N: usize>(b: &[u8], max: Option<usize>) -> Result<SmallVec<[T; N]>, DecodeError> { ssz::decode_list_of_variable_length_items(b, max) }
pub fn list_set<T: Decode + Ord>(b: &[u8], max: Option<usize>) -> Result<BTreeSet<T>, DecodeError> { ssz::decode_list_of_variable_length_items(b, max) }
pub fn list_bounded<T: Decode, const N: usize>(b: &[u8], max: Option<usize>) -> Result<Bounded<T, N>, DecodeError> { ssz::decode_list_of_variable_length_items(b, max) }
pub fn list_late<T: Decode, const N: usize>(b: &[u8], max: Option<usize>) -> Result<Late<T, N>, DecodeError> { ssz::decode_list_of_variable_length_items(b, max) }
pub fn list_never<T: Decode>(b: &[u8], max: Option<usize>) -> Result<Never, DecodeError> { ssz::decode_list_of_variable_length_items::<T, Never>(b, max) }
pub fn try_vec<T>(v: Vec<T>) -> Vec<T> { match <Vec<T> as TryFromIter<T>>::try_from_iter(v) { Ok(x) => x, Err(_) => Vec::new() } }

// ---- the container builder: every registration sequence of the given length; slices handed out in order
macro_rules! build {
    ($($m:ident [$($f:ident $l:ident)*])*) => { $(
        pub fn $m<'a>(b: &'a [u8], $($f: bool, $l: usize),*) -> Result<Vec<&'a [u8]>, DecodeError> {
            let mut builder = SszDecoderBuilder::new(b);
            $( builder.register_type_parameterized($f, $l)?; )*
            let mut decoder = builder.build()?;
            let mut out: Vec<&'a [u8]> = Vec::new();
            $( let _ = $f; out.push(decoder.decode_next_with(|s| Ok(s))?); )*
            Ok(out)
        }
    )* };
}
build! {
    build0 []
    build1 [fa la]
    build2 [fa la fb lb]
    build3 [fa la fb lb fc lc]
    build4 [fa la fb lb fc lc fd ld]
    build5 [fa la fb lb fc lc fd ld fe le]
}
/// more items than the builder keeps inline
macro_rules! build_v {
    ($m:ident [$($f:literal)*]) => {
        pub fn $m<'a>(b: &'a [u8], l: usize) -> Result<Vec<&'a [u8]>, DecodeError> {
            let mut builder = SszDecoderBuilder::new(b);
            $( builder.register_type_parameterized($f, l)?; )*
            let mut decoder = builder.build()?;
            let mut out: Vec<&'a [u8]> = Vec::new();
            $( let _ = $f; out.push(decoder.decode_next_with(|s| Ok(s))?); )*
            Ok(out)
        }
    };
}
build_v!(build_v9 [false false false false false false false false false]);
build_v!(build_m10 [true false false true false false true false false true]);
build_v!(build_f12 [true true true true true true true true true true true true]);
pub fn build_types<A: Decode, B: Decode, C: Decode>(b: &[u8]) -> Result<(A, B, C), DecodeError> {
    let mut builder = SszDecoderBuilder::new(b);
    builder.register_type::<A>()?;
    builder.register_type::<B>()?;
    builder.register_type::<C>()?;
    let mut d = builder.build()?;
    Ok((d.decode_next()?, d.decode_next()?, d.decode_next()?))
}
pub fn build_anon<'a>(b: &'a [u8], f: bool, l: usize) -> Result<Vec<&'a [u8]>, DecodeError> {
    let mut builder = SszDecoderBuilder::new(b);
    builder.register_anonymous_variable_length_item()?;
    builder.register_type_parameterized(f, l)?;
    builder.register_anonymous_variable_length_item()?;
    let mut decoder = builder.build()?;
    let mut out: Vec<&'a [u8]> = Vec::new();
    out.push(decoder.decode_next_with(|s| Ok(s))?);
    out.push(decoder.decode_next_with(|s| Ok(s))?);
    out.push(decoder.decode_next_with(|s| Ok(s))?);
    Ok(out)
}
// ---- the container encoder
pub fn enc_types<A: Encode, B: Encode, C: Encode>(a: &A, b: &B, c: &C, buf: &mut Vec<u8>) {
    let n = A::ssz_fixed_len() + B::ssz_fixed_len() + C::ssz_fixed_len();
    let mut e = SszEncoder::container(buf, n);
    e.append(a);
    e.append(b);
    e.append(c);
    e.finalize();
}
/// every combination of parts, given as raw bytes
pub fn enc_raw(n: usize, fa: bool, a: &[u8], fb: bool, b: &[u8], fc: bool, c: &[u8], fd: bool, d: &[u8], buf: &mut Vec<u8>) {
    let mut e = SszEncoder::container(buf, n);
    e.append_parameterized(fa, |x| x.extend_from_slice(a));
    e.append_parameterized(fb, |x| x.extend_from_slice(b));
    e.append_parameterized(fc, |x| x.extend_from_slice(c));
    e.append_parameterized(fd, |x| x.extend_from_slice(d));
    e.finalize();
}
