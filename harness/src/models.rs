//! Descriptions of standard-library functions whose real bodies work on raw memory. Never executed: the analysis
//! reads their MIR in place of the library's.
use core::ops::{ControlFlow, Try, FromResidual};
use smallvec::{Array, SmallVec};
use std::collections::{BTreeMap, BTreeSet};

pub fn iter_fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next_back() {
        acc = f(acc, x);
    }
    acc
}
pub fn iter_try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: Try<Output = B>>(it: &mut I, init: B, mut f: F) -> R {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x).branch() {
            ControlFlow::Continue(c) => acc = c,
            ControlFlow::Break(r) => return R::from_residual(r),
        }
    }
    R::from_output(acc)
}
pub fn iter_for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) {
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn iter_try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: Try<Output = ()>>(it: &mut I, mut f: F) -> R {
    while let Some(x) = it.next() {
        match f(x).branch() {
            ControlFlow::Continue(()) => (),
            ControlFlow::Break(r) => return R::from_residual(r),
        }
    }
    R::from_output(())
}
pub fn iter_all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn iter_any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn iter_find<I: Iterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(it: &mut I, mut p: P) -> Option<I::Item> {
    while let Some(x) = it.next_back() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn iter_find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn iter_position<I: Iterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0usize;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn iter_rposition<I: DoubleEndedIterator + ExactSizeIterator, P: FnMut(I::Item) -> bool>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = it.len();
    while let Some(x) = it.next_back() {
        i -= 1;
        if p(x) {
            return Some(i);
        }
    }
    None
}
pub fn iter_count<I: Iterator>(mut it: I) -> usize {
    let mut i = 0usize;
    while let Some(_) = it.next() {
        i += 1;
    }
    i
}
pub fn iter_last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn iter_nth<I: Iterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = n;
    while i > 0 {
        if it.next().is_none() {
            return None;
        }
        i -= 1;
    }
    it.next()
}
pub fn iter_nth_back<I: DoubleEndedIterator>(it: &mut I, n: usize) -> Option<I::Item> {
    let mut i = n;
    while i > 0 {
        if it.next_back().is_none() {
            return None;
        }
        i -= 1;
    }
    it.next_back()
}
pub fn iter_max<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut r = it.next()?;
    while let Some(x) = it.next() {
        if x >= r {
            r = x;
        }
    }
    Some(r)
}
pub fn iter_min<I: Iterator>(mut it: I) -> Option<I::Item>
where
    I::Item: Ord,
{
    let mut r = it.next()?;
    while let Some(x) = it.next() {
        if x < r {
            r = x;
        }
    }
    Some(r)
}
pub fn iter_reduce<I: Iterator, F: FnMut(I::Item, I::Item) -> I::Item>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut r = it.next()?;
    while let Some(x) = it.next() {
        r = f(r, x);
    }
    Some(r)
}
pub fn iter_eq<I: Iterator, J: IntoIterator>(mut it: I, other: J) -> bool
where
    I::Item: PartialEq<J::Item>,
{
    let mut o = other.into_iter();
    loop {
        match it.next() {
            None => return o.next().is_none(),
            Some(x) => match o.next() {
                None => return false,
                Some(y) => {
                    if x != y {
                        return false;
                    }
                }
            },
        }
    }
}
pub struct MyZip<A, B> {
    pub a: A,
    pub b: B,
}
pub fn iter_zip<A: Iterator, U: IntoIterator>(a: A, b: U) -> MyZip<A, U::IntoIter> {
    MyZip { a, b: b.into_iter() }
}
pub fn zip_next<A: Iterator, B: Iterator>(z: &mut MyZip<A, B>) -> Option<(A::Item, B::Item)> {
    let x = z.a.next()?;
    let y = z.b.next()?;
    Some((x, y))
}
pub fn zip_next_back<A: DoubleEndedIterator + ExactSizeIterator, B: DoubleEndedIterator + ExactSizeIterator>(
    z: &mut MyZip<A, B>,
) -> Option<(A::Item, B::Item)> {
    while z.a.len() > z.b.len() {
        z.a.next_back();
    }
    while z.b.len() > z.a.len() {
        z.b.next_back();
    }
    let x = z.a.next_back()?;
    let y = z.b.next_back()?;
    Some((x, y))
}
pub fn zip_size_hint<A: Iterator, B: Iterator>(z: &MyZip<A, B>) -> (usize, Option<usize>) {
    let (l1, u1) = z.a.size_hint();
    let (l2, u2) = z.b.size_hint();
    let l = if l1 < l2 { l1 } else { l2 };
    let u = match (u1, u2) {
        (Some(x), Some(y)) => Some(if x < y { x } else { y }),
        (Some(x), None) => Some(x),
        (None, y) => y,
    };
    (l, u)
}
pub struct MySkip<A> {
    pub it: A,
    pub n: usize,
}
pub fn iter_skip<A: Iterator>(it: A, n: usize) -> MySkip<A> {
    let mut s = MySkip { it, n };
    skip_do(&mut s);
    s
}
/// Skipping eagerly is unobservable for the side-effect free sources used here.
pub fn skip_do<A: Iterator>(s: &mut MySkip<A>) {
    while s.n > 0 {
        if s.it.next().is_none() {
            s.n = 0;
            return;
        }
        s.n -= 1;
    }
}
pub fn skip_next<A: Iterator>(s: &mut MySkip<A>) -> Option<A::Item> {
    s.it.next()
}
pub fn skip_next_back<A: DoubleEndedIterator>(s: &mut MySkip<A>) -> Option<A::Item> {
    s.it.next_back()
}
pub fn skip_size_hint<A: Iterator>(s: &MySkip<A>) -> (usize, Option<usize>) {
    s.it.size_hint()
}
pub struct MyStepBy<A> {
    pub it: A,
    pub step: usize,
    pub first: bool,
}
pub fn iter_step_by<A: Iterator>(it: A, step: usize) -> MyStepBy<A> {
    assert!(step != 0);
    MyStepBy { it, step, first: true }
}
pub fn step_by_next<A: Iterator>(s: &mut MyStepBy<A>) -> Option<A::Item> {
    if s.first {
        s.first = false;
        s.it.next()
    } else {
        iter_nth(&mut s.it, s.step - 1)
    }
}
pub struct MyOptItem<A> {
    pub opt: Option<A>,
}
pub struct MyOptIter<A> {
    pub inner: MyOptItem<A>,
}
pub fn opt_iter_next<A>(s: &mut MyOptIter<A>) -> Option<A> {
    s.inner.opt.take()
}

pub fn vec_from_iter<C, T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut it = it.into_iter();
    let (lower, _) = it.size_hint();
    let mut v = Vec::with_capacity(lower);
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn string_from_iter<C, T, I: IntoIterator<Item = T>>(it: I) -> Vec<T> {
    let mut it = it.into_iter();
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn string_from_iter_s<C, T: AsRef<str>, I: IntoIterator<Item = T>>(it: I) -> String {
    let mut it = it.into_iter();
    let mut v = String::new();
    while let Some(x) = it.next() {
        v.push_str(x.as_ref());
    }
    v
}
pub fn string_extend<C, T, I: IntoIterator<Item = char>>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn string_extend_s<C, T: AsRef<str>, I: IntoIterator<Item = T>>(v: &mut String, it: I) {
    let mut it = it.into_iter();
    while let Some(x) = it.next() {
        v.push_str(x.as_ref());
    }
}
pub fn vec_extend<C, T, I: IntoIterator<Item = T>>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    let (lower, _) = it.size_hint();
    v.reserve(lower);
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub fn vec_extend_ref<C, R: core::ops::Deref<Target = T>, I: IntoIterator<Item = R>, T: Copy>(v: &mut Vec<T>, it: I) {
    let mut it = it.into_iter();
    let (lower, _) = it.size_hint();
    v.reserve(lower);
    while let Some(x) = it.next() {
        v.push(*x);
    }
}
pub fn smallvec_from_iter<C: Array<Item = T>, T, I: IntoIterator<Item = T>>(it: I) -> SmallVec<C> {
    let mut it = it.into_iter();
    let (lower, _) = it.size_hint();
    let mut v = SmallVec::new();
    v.reserve(lower);
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn smallvec_extend<C: Array<Item = T>, T, I: IntoIterator<Item = T>>(v: &mut SmallVec<C>, it: I) {
    let mut it = it.into_iter();
    let (lower, _) = it.size_hint();
    v.reserve(lower);
    while let Some(x) = it.next() {
        v.push(x);
    }
}
pub struct ResShunt<'a, I, E> {
    pub it: I,
    pub err: &'a mut Result<(), E>,
}
impl<'a, A, E, I: Iterator<Item = Result<A, E>>> Iterator for ResShunt<'a, I, E> {
    type Item = A;
    fn next(&mut self) -> Option<A> {
        match self.it.next() {
            Some(Ok(x)) => Some(x),
            Some(Err(e)) => {
                *self.err = Err(e);
                None
            }
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.err.is_err() {
            (0, Some(0))
        } else {
            let (_, upper) = self.it.size_hint();
            (0, upper)
        }
    }
}
/// args: Self, Result<A, E> (the trait's item), I, then Self's own arguments V, E
pub fn result_from_iter<C, R, I: IntoIterator<Item = Result<A0<R>, E>>, V: FromIterator<A0<R>>, E>(it: I) -> Result<V, E>
where
    R: IsResult,
{
    let mut err = Ok(());
    let v = V::from_iter(ResShunt { it: it.into_iter(), err: &mut err });
    match err {
        Ok(()) => Ok(v),
        Err(e) => Err(e),
    }
}
pub trait IsResult {
    type A;
}
impl<A, E> IsResult for Result<A, E> {
    type A = A;
}
pub type A0<R> = <R as IsResult>::A;
pub struct OptShunt<'a, I> {
    pub it: I,
    pub none: &'a mut bool,
}
impl<'a, A, I: Iterator<Item = Option<A>>> Iterator for OptShunt<'a, I> {
    type Item = A;
    fn next(&mut self) -> Option<A> {
        match self.it.next() {
            Some(Some(x)) => Some(x),
            Some(None) => {
                *self.none = true;
                None
            }
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (_, upper) = self.it.size_hint();
        (0, upper)
    }
}
pub trait IsOption {
    type A;
}
impl<A> IsOption for Option<A> {
    type A = A;
}
pub fn option_from_iter<C, R: IsOption, I: IntoIterator<Item = Option<R::A>>, V: FromIterator<R::A>>(it: I) -> Option<V> {
    let mut none = false;
    let v = V::from_iter(OptShunt { it: it.into_iter(), none: &mut none });
    if none {
        None
    } else {
        Some(v)
    }
}
/// The standard library buffers the entries in a vector before building the tree.
pub fn btreemap_from_iter<C, T, I: IntoIterator<Item = (K, V)>, K: Ord, V>(it: I) -> BTreeMap<K, V> {
    let mut it = it.into_iter();
    let (lower, _) = it.size_hint();
    let buffer: Vec<(K, V)> = Vec::with_capacity(lower);
    let mut m = BTreeMap::new();
    while let Some((k, v)) = it.next() {
        m.insert(k, v);
    }
    drop(buffer);
    m
}
pub fn btreemap_extend<C, T, I: IntoIterator<Item = (K, V)>, K: Ord, V>(m: &mut BTreeMap<K, V>, it: I) {
    let mut it = it.into_iter();
    while let Some((k, v)) = it.next() {
        m.insert(k, v);
    }
}
pub fn btreeset_from_iter<C, T: Ord, I: IntoIterator<Item = T>>(it: I) -> BTreeSet<T> {
    let mut it = it.into_iter();
    let (lower, _) = it.size_hint();
    let buffer: Vec<T> = Vec::with_capacity(lower);
    let mut m = BTreeSet::new();
    while let Some(k) = it.next() {
        m.insert(k);
    }
    drop(buffer);
    m
}
pub fn btreeset_extend<C, T: Ord, I: IntoIterator<Item = T>>(m: &mut BTreeSet<T>, it: I) {
    let mut it = it.into_iter();
    while let Some(k) = it.next() {
        m.insert(k);
    }
}
/// hasher that records what it is given
pub fn hash_slice_u8<T, H: core::hash::Hasher>(s: &[u8], h: &mut H) {
    h.write(s)
}
pub struct Rec(pub Vec<u8>);
impl core::hash::Hasher for Rec {
    fn finish(&self) -> u64 { 0 }
    fn write(&mut self, b: &[u8]) { self.0.extend_from_slice(b) }
}
/// serializer that only accepts a string and returns it
#[derive(Debug)]
pub struct SErr;
impl core::fmt::Display for SErr {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) }
}
impl std::error::Error for SErr {}
impl serde::ser::Error for SErr {
    fn custom<T: core::fmt::Display>(_: T) -> Self { SErr }
}
impl serde::de::Error for SErr {
    fn custom<T: core::fmt::Display>(_: T) -> Self { SErr }
}
pub struct StrSer;
type Imp = serde::ser::Impossible<String, SErr>;
impl serde::Serializer for StrSer {
    type Ok = String;
    type Error = SErr;
    type SerializeSeq = Imp;
    type SerializeTuple = Imp;
    type SerializeTupleStruct = Imp;
    type SerializeTupleVariant = Imp;
    type SerializeMap = Imp;
    type SerializeStruct = Imp;
    type SerializeStructVariant = Imp;
    fn serialize_str(self, v: &str) -> Result<String, SErr> { Ok(String::from(v)) }
    fn serialize_bool(self, _: bool) -> Result<String, SErr> { Err(SErr) }
    fn serialize_i8(self, _: i8) -> Result<String, SErr> { Err(SErr) }
    fn serialize_i16(self, _: i16) -> Result<String, SErr> { Err(SErr) }
    fn serialize_i32(self, _: i32) -> Result<String, SErr> { Err(SErr) }
    fn serialize_i64(self, _: i64) -> Result<String, SErr> { Err(SErr) }
    fn serialize_u8(self, _: u8) -> Result<String, SErr> { Err(SErr) }
    fn serialize_u16(self, _: u16) -> Result<String, SErr> { Err(SErr) }
    fn serialize_u32(self, _: u32) -> Result<String, SErr> { Err(SErr) }
    fn serialize_u64(self, _: u64) -> Result<String, SErr> { Err(SErr) }
    fn serialize_f32(self, _: f32) -> Result<String, SErr> { Err(SErr) }
    fn serialize_f64(self, _: f64) -> Result<String, SErr> { Err(SErr) }
    fn serialize_char(self, _: char) -> Result<String, SErr> { Err(SErr) }
    fn serialize_bytes(self, _: &[u8]) -> Result<String, SErr> { Err(SErr) }
    fn serialize_none(self) -> Result<String, SErr> { Err(SErr) }
    fn serialize_some<T: ?Sized + serde::Serialize>(self, _: &T) -> Result<String, SErr> { Err(SErr) }
    fn serialize_unit(self) -> Result<String, SErr> { Err(SErr) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<String, SErr> { Err(SErr) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<String, SErr> { Err(SErr) }
    fn serialize_newtype_struct<T: ?Sized + serde::Serialize>(self, _: &'static str, _: &T) -> Result<String, SErr> { Err(SErr) }
    fn serialize_newtype_variant<T: ?Sized + serde::Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<String, SErr> { Err(SErr) }
    fn serialize_seq(self, _: Option<usize>) -> Result<Imp, SErr> { Err(SErr) }
    fn serialize_tuple(self, _: usize) -> Result<Imp, SErr> { Err(SErr) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Imp, SErr> { Err(SErr) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, SErr> { Err(SErr) }
    fn serialize_map(self, _: Option<usize>) -> Result<Imp, SErr> { Err(SErr) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Imp, SErr> { Err(SErr) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Imp, SErr> { Err(SErr) }
}
pub struct StrDe<'a>(pub &'a str);
impl<'de, 'a> serde::Deserializer<'de> for StrDe<'a> {
    type Error = SErr;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, SErr> { v.visit_str(self.0) }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
pub fn step_by_size_hint<A: Iterator>(s: &MyStepBy<A>) -> (usize, Option<usize>) {
    let (n, _) = s.it.size_hint();
    let k = if s.first {
        if n == 0 {
            0
        } else {
            1 + (n - 1) / s.step
        }
    } else {
        n / s.step
    };
    (k, Some(k))
}
pub struct MyRepeatN<T> {
    pub x: T,
    pub n: usize,
}
pub fn repeat_n<T: Clone>(x: T, n: usize) -> MyRepeatN<T> {
    MyRepeatN { x, n }
}
pub fn repeat_n_next<T: Clone>(s: &mut MyRepeatN<T>) -> Option<T> {
    if s.n == 0 {
        return None;
    }
    s.n -= 1;
    Some(s.x.clone())
}
pub fn repeat_n_size_hint<T>(s: &MyRepeatN<T>) -> (usize, Option<usize>) {
    (s.n, Some(s.n))
}
pub fn vec_resize_with<T, F: FnMut() -> T>(v: &mut Vec<T>, n: usize, mut f: F) {
    let k = v.len();
    if n <= k {
        v.truncate(n);
    } else {
        v.reserve(n - k);
        for _ in 0..n - k {
            v.push(f());
        }
    }
}
pub fn slice_fill_with<T, F: FnMut() -> T>(s: &mut [T], mut f: F) {
    for x in s.iter_mut() {
        *x = f();
    }
}
pub fn slice_contains<T: PartialEq>(s: &[T], x: &T) -> bool {
    for y in s.iter() {
        if *y == *x {
            return true;
        }
    }
    false
}
