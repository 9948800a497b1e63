// ===== vx: models of the std / core operations the crate calls (assumed contracts) =====
pub mod vx {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;

pub mod pre {
    #[allow(unused_imports)]
    pub use super::{VIter as Iterator, VIterX, VIntoIter as IntoIterator, VFrom as From, VInto as Into,
        VTryFrom as TryFrom, VTryInto as TryInto, VAsRef as AsRef, VAsMut as AsMut, VFromIter as FromIterator,
        VExtend as Extend, VFromStr, VParse, VStr, VToString, ToOwnedX, VSlice, VMutSlice, VVecX, VArr, VInt, VU8, VOption, VResult,
        VDefault as Default, VEq as PartialEq, VDrop as Drop, Display, Debug, LowerHex, UpperHex, VFull, VGet, VChecked,
        VStringX, VBytesIter, VFlow, VBack, VOptRef};
    #[allow(unused_imports)]
    pub use crate::vx2::{VStrMore, VAscii, VCharX, VRangeC, VCmpX, VOptMore, VResMore, VIterMore, VSliceMore, VMutMore};
}

// mentions a spec function, so that its definition is available where the verifier schedules the proof
pub proof fn vx_dep<X>(x: X) { }
pub proof fn vx_copy<X: Copy>() { }
pub proof fn vx_base() { vx_copy::<u8>(); vx_copy::<u16>(); vx_copy::<u32>(); vx_copy::<u64>(); vx_copy::<usize>(); vx_copy::<bool>(); vx_copy::<char>(); }

// ---------- conversions
pub trait VFrom<T>: Sized {
    spec fn from_post(x: T, r: Self) -> bool;
    fn vx_from(x: T) -> (r: Self) ensures Self::from_post(x, r);
}
impl<T> VFrom<T> for T {
    open spec fn from_post(x: T, r: T) -> bool { r == x }
    fn vx_from(x: T) -> (r: T) { proof { vx_dep(<T as VFrom<T>>::from_post(x, x)); } x }
}
pub trait VInto<U>: Sized {
    spec fn into_post(x: Self, r: U) -> bool;
    fn vx_into(self) -> (r: U) ensures Self::into_post(self, r);
}
impl<T, U: VFrom<T>> VInto<U> for T {
    open spec fn into_post(x: T, r: U) -> bool { U::from_post(x, r) }
    fn vx_into(self) -> (r: U) { let r = U::vx_from(self); proof { vx_dep(<T as VInto<U>>::into_post(self, r)); } r }
}
pub trait VTryFrom<T>: Sized {
    type Error;
    spec fn try_from_post(x: T, r: Result<Self, Self::Error>) -> bool;
    fn vx_try_from(x: T) -> (r: Result<Self, Self::Error>) ensures Self::try_from_post(x, r);
}
pub trait VTryInto<U: VTryFrom<Self>>: Sized {
    fn vx_try_into(self) -> (r: Result<U, U::Error>) ensures U::try_from_post(self, r);
}
impl<T, U: VTryFrom<T>> VTryInto<U> for T {
    fn vx_try_into(self) -> (r: Result<U, U::Error>) { U::vx_try_from(self) }
}
#[derive(core::fmt::Debug)]
pub struct TryFromSliceError;
impl<'a, const N: usize> VTryFrom<&'a [u8]> for [u8; N] {
    type Error = TryFromSliceError;
    open spec fn try_from_post(x: &'a [u8], r: Result<[u8; N], TryFromSliceError>) -> bool {
        match r { Ok(a) => a@ =~= x@, Err(_) => x@.len() != N }
    }
    #[verifier::external_body]
    fn vx_try_from(x: &'a [u8]) -> (r: Result<[u8; N], TryFromSliceError>) { unimplemented!() }
}
impl<'a, const N: usize> VTryFrom<&'a [u8]> for &'a [u8; N] {
    type Error = TryFromSliceError;
    open spec fn try_from_post(x: &'a [u8], r: Result<&'a [u8; N], TryFromSliceError>) -> bool {
        match r { Ok(a) => a@ =~= x@, Err(_) => x@.len() != N }
    }
    #[verifier::external_body]
    fn vx_try_from(x: &'a [u8]) -> (r: Result<&'a [u8; N], TryFromSliceError>) { unimplemented!() }
}
impl<'a> VFrom<&'a [u8]> for Vec<u8> {
    open spec fn from_post(x: &'a [u8], r: Vec<u8>) -> bool { r@ == x@ }
    #[verifier::external_body]
    fn vx_from(x: &'a [u8]) -> (r: Vec<u8>) { unimplemented!() }
}
impl<'a> VFrom<&'a str> for String {
    open spec fn from_post(x: &'a str, r: String) -> bool { r@ == x@ }
    #[verifier::external_body]
    fn vx_from(x: &'a str) -> (r: String) { unimplemented!() }
}
macro_rules! widen { ($($a:ty => $b:ty),*) => { $(
verus! {
impl VFrom<$a> for $b {
    open spec fn from_post(x: $a, r: $b) -> bool { r == x as $b }
    fn vx_from(x: $a) -> (r: $b) { proof { vx_dep(<$b as VFrom<$a>>::from_post(x, arbitrary())); } x as $b }
}
} )* } }
widen!(u8 => u16, u8 => u32, u8 => u64, u8 => usize, u16 => u32, u16 => u64, u16 => usize, u32 => u64);

macro_rules! boolint { ($($b:ty),*) => { $(
verus! {
impl VFrom<bool> for $b {
    open spec fn from_post(x: bool, r: $b) -> bool { r == (if x { 1 as $b } else { 0 as $b }) }
    fn vx_from(x: bool) -> (r: $b) { proof { vx_dep(<$b as VFrom<bool>>::from_post(x, arbitrary())); } if x { 1 } else { 0 } }
}
} )* } }
boolint!(u8, u16, u32, u64, usize);

// values of slice / str type as spec functions of their contents
pub uninterp spec fn slice_of<T>(s: Seq<T>) -> &'static [T];
pub uninterp spec fn str_of(s: Seq<char>) -> &'static str;
pub axiom fn ax_slice_of<T>(s: &[T]) ensures #[trigger] slice_of(s@) == s;
pub axiom fn ax_str_of(s: &str) ensures #[trigger] str_of(s@) == s;
pub broadcast axiom fn ax_slice_of_b<T>(s: &[T]) ensures slice_of(#[trigger] s@) == s;
pub broadcast axiom fn ax_str_of_b(s: &str) ensures str_of(#[trigger] s@) == s;
pub broadcast axiom fn ax_slice_view_b<T>(s: Seq<T>) requires s.len() <= mem_max() ensures #[trigger] slice_of(s)@ == s;
pub broadcast axiom fn ax_str_view_b(s: Seq<char>) requires utf8(s).len() <= mem_max() ensures #[trigger] str_of(s)@ == s;

/// no text or byte slice is larger than the address space of today's 64-bit machines (2^56 bytes)
pub open spec fn mem_max() -> int { 0x100_0000_0000_0000 }
pub broadcast axiom fn ax_str_size(s: &str) ensures utf8(#[trigger] s@).len() <= mem_max();
pub broadcast proof fn lemma_vec_len<T>(v: Vec<T>) ensures (#[trigger] v@).len() <= usize::MAX { assert(v.len() <= usize::MAX); }
pub broadcast axiom fn ax_bytes_size(s: &[u8]) ensures (#[trigger] s@).len() <= mem_max();
global size_of usize == 8;
pub trait VAsRef<T: ?Sized> {
    spec fn as_ref_spec(&self) -> &T;
    fn vx_as_ref(&self) -> (r: &T) ensures r == self.as_ref_spec();
}
impl<T> VAsRef<[T]> for [T] {
    open spec fn as_ref_spec(&self) -> &[T] { slice_of(self@) }
    fn vx_as_ref(&self) -> (r: &[T]) { proof { vx_dep(self.as_ref_spec()); ax_slice_of(self); } self }
}
impl<T> VAsRef<[T]> for Vec<T> {
    open spec fn as_ref_spec(&self) -> &[T] { slice_of(self@) }
    fn vx_as_ref(&self) -> (r: &[T]) { let r = self.as_slice(); proof { vx_dep(self.as_ref_spec()); ax_slice_of(r); } r }
}
impl<T, const N: usize> VAsRef<[T]> for [T; N] {
    open spec fn as_ref_spec(&self) -> &[T] { slice_of(self@) }
    fn vx_as_ref(&self) -> (r: &[T]) { let r = self.as_slice(); proof { vx_dep(self.as_ref_spec()); ax_slice_of(r); } r }
}
impl<'a, U: ?Sized, T: ?Sized + VAsRef<U>> VAsRef<U> for &'a T {
    open spec fn as_ref_spec(&self) -> &U { (**self).as_ref_spec() }
    fn vx_as_ref(&self) -> (r: &U) { proof { vx_dep(self.as_ref_spec()); } (**self).vx_as_ref() }
}
impl VAsRef<str> for str {
    open spec fn as_ref_spec(&self) -> &str { str_of(self@) }
    fn vx_as_ref(&self) -> (r: &str) { proof { vx_dep(<str as VAsRef<str>>::as_ref_spec(self)); ax_str_of(self); } self }
}
impl VAsRef<str> for String {
    open spec fn as_ref_spec(&self) -> &str { str_of(self@) }
    fn vx_as_ref(&self) -> (r: &str) { let r = self.as_str(); proof { vx_dep(<String as VAsRef<str>>::as_ref_spec(self)); ax_str_of(r); } r }
}
impl VAsRef<[u8]> for str {
    open spec fn as_ref_spec(&self) -> &[u8] { slice_of(utf8(self@)) }
    #[verifier::external_body]
    fn vx_as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
pub trait VAsMut<T: ?Sized> {
    spec fn as_mut_rel(pre: &Self, post: &Self, rpre: &T, rpost: &T) -> bool;
    fn vx_as_mut(&mut self) -> (r: &mut T) ensures Self::as_mut_rel(old(self), final(self), r, final(r));
}
impl<T, const N: usize> VAsMut<[T]> for [T; N] {
    open spec fn as_mut_rel(pre: &[T; N], post: &[T; N], rpre: &[T], rpost: &[T]) -> bool { rpre@ == pre@ && post@ == rpost@ }
    #[verifier::external_body]
    fn vx_as_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
}
impl<T> VAsMut<[T]> for Vec<T> {
    open spec fn as_mut_rel(pre: &Vec<T>, post: &Vec<T>, rpre: &[T], rpost: &[T]) -> bool { rpre@ == pre@ && post@ == rpost@ }
    #[verifier::external_body]
    fn vx_as_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
}
impl<T> VAsMut<[T]> for [T] {
    open spec fn as_mut_rel(pre: &[T], post: &[T], rpre: &[T], rpost: &[T]) -> bool { rpre@ == pre@ && post@ == rpost@ }
    #[verifier::external_body]
    fn vx_as_mut(&mut self) -> (r: &mut [T]) { unimplemented!() }
}

// ---------- defaults, equality, drop
pub trait VDefault: Sized {
    spec fn default_post(r: Self) -> bool;
    fn vx_default() -> (r: Self) ensures Self::default_post(r);
}
macro_rules! defint { ($($a:ty),*) => { $(
verus! {
impl VDefault for $a {
    open spec fn default_post(r: $a) -> bool { r == 0 }
    fn vx_default() -> (r: $a) { proof { vx_dep(<$a as VDefault>::default_post(0)); } 0 }
}
impl VEq for $a {
    open spec fn veq_spec(&self, o: &$a) -> bool { *self == *o }
    fn veq(&self, o: &$a) -> (r: bool) { proof { vx_dep(self.veq_spec(o)); } *self == *o }
}
} )* } }
defint!(u8, u16, u32, u64, usize);
impl VDefault for bool {
    open spec fn default_post(r: bool) -> bool { r == false }
    fn vx_default() -> (r: bool) { proof { vx_dep(<bool as VDefault>::default_post(false)); } false }
}
impl<const N: usize> VDefault for [u8; N] {
    open spec fn default_post(r: [u8; N]) -> bool { r@ =~= Seq::new(N as nat, |i: int| 0u8) }
    #[verifier::external_body]
    fn vx_default() -> (r: [u8; N]) { unimplemented!() }
}
impl<T> VDefault for Vec<T> {
    open spec fn default_post(r: Vec<T>) -> bool { r@.len() == 0 }
    fn vx_default() -> (r: Vec<T>) { proof { vx_dep(<Vec<T> as VDefault>::default_post(arbitrary())); } Vec::new() }
}
impl VDefault for String {
    open spec fn default_post(r: String) -> bool { r@.len() == 0 }
    fn vx_default() -> (r: String) { proof { vx_dep(<String as VDefault>::default_post(arbitrary())); } let s = String::new(); proof { reveal_strlit(""); } s }
}
pub trait VEq<R: ?Sized = Self> {
    spec fn veq_spec(&self, o: &R) -> bool;
    fn veq(&self, o: &R) -> (r: bool) ensures r == self.veq_spec(o);
}
impl<const N: usize> VEq for [u8; N] {
    open spec fn veq_spec(&self, o: &[u8; N]) -> bool { self@ =~= o@ }
    #[verifier::external_body]
    fn veq(&self, o: &[u8; N]) -> (r: bool) { unimplemented!() }
}
impl<T: VEq> VEq for Vec<T> {
    open spec fn veq_spec(&self, o: &Vec<T>) -> bool { self@.len() == o@.len() && forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).veq_spec(&o@[i]) }
    #[verifier::external_body]
    fn veq(&self, o: &Vec<T>) -> (r: bool) { unimplemented!() }
}
// what a destructor leaves behind in the memory it wipes
pub trait VDrop: Sized {
    spec fn wiped(&self) -> bool;
    fn vdrop(&mut self) ensures final(self).wiped();
}

// ---------- panics
pub fn vx_assert(c: bool) requires c { }
#[verifier::external_body]
pub fn vx_panic<T>() -> (r: T) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_leak<T>(t: T) -> (r: &'static T) ensures *r == t { unimplemented!() }

// ---------- iterators
pub trait VIter: Sized {
    type Item;
    spec fn seq(&self) -> Seq<Self::Item>;
    spec fn wf(&self) -> bool;
    spec fn hi(&self) -> nat;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf()
        ensures final(self).wf(), final(self).hi() <= old(self).hi(),
            match r {
                Some(x) => old(self).seq().len() > 0 && x == old(self).seq()[0]
                    && final(self).seq() =~= old(self).seq().subrange(1, old(self).seq().len() as int)
                    && forall|i: int| 1 <= i < old(self).seq().len() ==> #[trigger] old(self).seq()[i] == final(self).seq()[i - 1],
                None => old(self).seq().len() == 0 && final(self).seq() =~= old(self).seq(),
            };
    fn vx_size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.wf()
        ensures r.0 <= self.seq().len(), r.1 matches Some(u) ==> u <= self.hi();
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VAdapt<T> { _p: core::marker::PhantomData<T> }
impl<T> VIter for VAdapt<T> {
    type Item = T;
    uninterp spec fn seq(&self) -> Seq<T>;
    open spec fn wf(&self) -> bool { true }
    uninterp spec fn hi(&self) -> nat;
    #[verifier::external_body] fn next(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
}
pub trait VIntoIter: Sized {
    type Item;
    type IntoIter: VIter<Item = Self::Item>;
    spec fn into_seq(self) -> Seq<Self::Item>;
    spec fn into_hi(self) -> nat;
    spec fn into_wf(self) -> bool;
    fn vx_into_iter(self) -> (r: Self::IntoIter)
        requires self.into_wf()
        ensures r.wf(), r.seq() == self.into_seq(), r.hi() == self.into_hi();
}
impl<I: VIter> VIntoIter for I {
    type Item = I::Item;
    type IntoIter = I;
    open spec fn into_seq(self) -> Seq<I::Item> { self.seq() }
    open spec fn into_hi(self) -> nat { self.hi() }
    open spec fn into_wf(self) -> bool { self.wf() }
    fn vx_into_iter(self) -> (r: I) { proof { vx_dep(<I as VIntoIter>::into_seq(self)); vx_dep(<I as VIntoIter>::into_hi(self)); vx_dep(<I as VIntoIter>::into_wf(self)); } self }
}
impl<T> VIntoIter for Vec<T> {
    type Item = T;
    type IntoIter = VAdapt<T>;
    open spec fn into_seq(self) -> Seq<T> { self@ }
    open spec fn into_hi(self) -> nat { self@.len() }
    open spec fn into_wf(self) -> bool { true }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VAdapt<T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a Vec<T> {
    type Item = &'a T;
    type IntoIter = VAdapt<&'a T>;
    open spec fn into_seq(self) -> Seq<&'a T> { refs(self@) }
    open spec fn into_hi(self) -> nat { self@.len() }
    open spec fn into_wf(self) -> bool { true }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VAdapt<&'a T>) { unimplemented!() }
}
impl<'a, T> VIntoIter for &'a [T] {
    type Item = &'a T;
    type IntoIter = VAdapt<&'a T>;
    open spec fn into_seq(self) -> Seq<&'a T> { refs(self@) }
    open spec fn into_hi(self) -> nat { self@.len() }
    open spec fn into_wf(self) -> bool { true }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VAdapt<&'a T>) { unimplemented!() }
}
impl<'a, T, const N: usize> VIntoIter for &'a [T; N] {
    type Item = &'a T;
    type IntoIter = VAdapt<&'a T>;
    open spec fn into_seq(self) -> Seq<&'a T> { refs(self@) }
    open spec fn into_hi(self) -> nat { self@.len() }
    open spec fn into_wf(self) -> bool { true }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VAdapt<&'a T>) { unimplemented!() }
}
impl<T, const N: usize> VIntoIter for [T; N] {
    type Item = T;
    type IntoIter = VAdapt<T>;
    open spec fn into_seq(self) -> Seq<T> { self@ }
    open spec fn into_hi(self) -> nat { self@.len() }
    open spec fn into_wf(self) -> bool { true }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VAdapt<T>) { unimplemented!() }
}
impl<T> VIntoIter for Option<T> {
    type Item = T;
    type IntoIter = VAdapt<T>;
    open spec fn into_seq(self) -> Seq<T> { match self { Some(x) => seq![x], None => Seq::empty() } }
    open spec fn into_hi(self) -> nat { if self is Some { 1 } else { 0 } }
    open spec fn into_wf(self) -> bool { true }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VAdapt<T>) { unimplemented!() }
}
macro_rules! rng { ($($a:ty),*) => { $(
verus! {
impl VIntoIter for core::ops::Range<$a> {
    type Item = $a;
    type IntoIter = VAdapt<$a>;
    open spec fn into_seq(self) -> Seq<$a> { Seq::new(if self.start <= self.end { (self.end - self.start) as nat } else { 0 }, |i: int| (self.start + i) as $a) }
    open spec fn into_hi(self) -> nat { if self.start <= self.end { (self.end - self.start) as nat } else { 0 } }
    open spec fn into_wf(self) -> bool { true }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VAdapt<$a>) { unimplemented!() }
}
} )* } }
rng!(u8, u16, u32, u64, usize, i32);
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { Seq::new(s.len(), |i: int| *s[i]) }

/// the values of a sequence of values or of references to them
pub trait VVals<T>: Sized { spec fn vals(self) -> Seq<T>; }
impl<T> VVals<T> for Seq<T> { open spec fn vals(self) -> Seq<T> { self } }
impl<'a, T> VVals<T> for Seq<&'a T> { open spec fn vals(self) -> Seq<T> { derefs(self) } }
pub open spec fn vals<T, S: VVals<T>>(s: S) -> Seq<T> { s.vals() }

pub trait VFromIter<T>: Sized {
    spec fn from_iter_post(s: Seq<T>, r: Self) -> bool;
}
impl<T> VFromIter<T> for Vec<T> {
    open spec fn from_iter_post(s: Seq<T>, r: Vec<T>) -> bool { r@ =~= s }
}
impl VFromIter<char> for String {
    open spec fn from_iter_post(s: Seq<char>, r: String) -> bool { r@ =~= s }
}
impl<T, E, V: VFromIter<T>> VFromIter<Result<T, E>> for Result<V, E> {
    open spec fn from_iter_post(s: Seq<Result<T, E>>, r: Result<V, E>) -> bool {
        match r {
            Ok(v) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Ok)
                && V::from_iter_post(Seq::new(s.len(), |i: int| s[i]->Ok_0), v),
            Err(e) => exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == Result::<T, E>::Err(e)
                && forall|j: int| 0 <= j < i ==> (#[trigger] s[j]) is Ok,
        }
    }
}
impl<T, V: VFromIter<T>> VFromIter<Option<T>> for Option<V> {
    open spec fn from_iter_post(s: Seq<Option<T>>, r: Option<V>) -> bool {
        match r {
            Some(v) => (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some)
                && V::from_iter_post(Seq::new(s.len(), |i: int| s[i]->Some_0), v),
            None => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is None,
        }
    }
}
pub trait VIterX: VIter {
    fn vx_map<B, F: Fn(Self::Item) -> B>(self, f: F) -> (r: VAdapt<B>)
        requires self.wf(), forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (#[trigger] self.seq()[i],))
        ensures r.seq().len() == self.seq().len(), r.hi() == self.hi(),
            forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (#[trigger] self.seq()[i],), r.seq()[i]),
            forall|i: int| 0 <= i < self.seq().len() ==> call_ensures(f, (self.seq()[i],), #[trigger] r.seq()[i]);
    fn vx_fold<B, F: Fn(B, Self::Item) -> B>(self, init: B, f: F) -> (r: B)
        requires self.wf(), forall|b: B, i: int| 0 <= i < self.seq().len() ==> #[trigger] call_requires(f, (b, self.seq()[i]))
        ensures exists|st: Seq<B>| fold_chain(f, init, self.seq(), r, st);
    fn vx_collect<C: VFromIter<Self::Item>>(self) -> (r: C)
        requires self.wf()
        ensures C::from_iter_post(self.seq(), r);
    fn vx_chain<J: VIntoIter<Item = Self::Item>>(self, j: J) -> (r: VAdapt<Self::Item>)
        requires self.wf(), j.into_wf()
        ensures r.seq() =~= self.seq() + j.into_seq(), r.hi() == self.hi() + j.into_hi();
    fn vx_enumerate(self) -> (r: VAdapt<(usize, Self::Item)>)
        requires self.wf()
        ensures r.seq().len() == self.seq().len(), r.hi() == self.hi(),
            forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] r.seq()[i] == (i as usize, self.seq()[i]),
            self.seq().len() <= usize::MAX;
    fn vx_position<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires old(self).wf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (#[trigger] old(self).seq()[i],))
        ensures final(self).wf(),
            match r {
                Some(k) => k < old(self).seq().len() && call_ensures(f, (old(self).seq()[k as int],), true)
                    && forall|j: int| 0 <= j < k ==> call_ensures(f, (#[trigger] old(self).seq()[j],), false),
                None => forall|j: int| 0 <= j < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[j],), false),
            };
    fn vx_take_while<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: VAdapt<Self::Item>)
        requires self.wf(), forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (&#[trigger] self.seq()[i],))
        ensures r.seq().len() <= self.seq().len(), r.seq() =~= self.seq().subrange(0, r.seq().len() as int),
            forall|j: int| 0 <= j < r.seq().len() ==> call_ensures(f, (&#[trigger] self.seq()[j],), true),
            r.seq().len() < self.seq().len() ==> call_ensures(f, (&self.seq()[r.seq().len() as int],), false);
    fn vx_count(self) -> (r: usize)
        requires self.wf()
        ensures r == self.seq().len();
    fn vx_skip(self, n: usize) -> (r: VAdapt<Self::Item>)
        requires self.wf()
        ensures r.seq() =~= (if n <= self.seq().len() { self.seq().subrange(n as int, self.seq().len() as int) } else { Seq::empty() });
    fn vx_take(self, n: usize) -> (r: VAdapt<Self::Item>)
        requires self.wf()
        ensures r.seq() =~= (if n <= self.seq().len() { self.seq().subrange(0, n as int) } else { self.seq() });
    fn vx_rev(self) -> (r: VAdapt<Self::Item>)
        requires self.wf()
        ensures r.seq() =~= self.seq().reverse();
    fn vx_zip<J: VIntoIter>(self, j: J) -> (r: VAdapt<(Self::Item, J::Item)>)
        requires self.wf(), j.into_wf()
        ensures r.seq().len() == (if self.seq().len() <= j.into_seq().len() { self.seq().len() } else { j.into_seq().len() }),
            forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == (self.seq()[i], j.into_seq()[i]);
    fn vx_any<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).wf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (#[trigger] old(self).seq()[i],))
        ensures final(self).wf(),
            r ==> exists|j: int| 0 <= j < old(self).seq().len() && call_ensures(f, (#[trigger] old(self).seq()[j],), true),
            !r ==> forall|j: int| 0 <= j < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[j],), false);
    fn vx_all<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: bool)
        requires old(self).wf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (#[trigger] old(self).seq()[i],))
        ensures final(self).wf(),
            !r ==> exists|j: int| 0 <= j < old(self).seq().len() && call_ensures(f, (#[trigger] old(self).seq()[j],), false),
            r ==> forall|j: int| 0 <= j < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[j],), true);
    fn vx_last(self) -> (r: Option<Self::Item>)
        requires self.wf()
        ensures match r { Some(x) => self.seq().len() > 0 && x == self.seq().last(), None => self.seq().len() == 0 };
    fn vx_nth(&mut self, n: usize) -> (r: Option<Self::Item>)
        requires old(self).wf()
        ensures final(self).wf(), match r {
            Some(x) => n < old(self).seq().len() && x == old(self).seq()[n as int]
                && final(self).seq() =~= old(self).seq().subrange(n + 1, old(self).seq().len() as int),
            None => n >= old(self).seq().len() && final(self).seq().len() == 0 };
}
pub open spec fn fold_chain<B, T, F: Fn(B, T) -> B>(f: F, init: B, s: Seq<T>, r: B, st: Seq<B>) -> bool {
    &&& st.len() == s.len() + 1
    &&& st[0] == init
    &&& st[s.len() as int] == r
    &&& forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (st[i], #[trigger] s[i]), st[i + 1])
}
impl<I: VIter> VIterX for I {
    #[verifier::external_body] fn vx_map<B, F: Fn(I::Item) -> B>(self, f: F) -> (r: VAdapt<B>) { unimplemented!() }
    #[verifier::external_body] fn vx_fold<B, F: Fn(B, I::Item) -> B>(self, init: B, f: F) -> (r: B) { unimplemented!() }
    #[verifier::external_body] fn vx_collect<C: VFromIter<I::Item>>(self) -> (r: C) { unimplemented!() }
    #[verifier::external_body] fn vx_chain<J: VIntoIter<Item = I::Item>>(self, j: J) -> (r: VAdapt<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_enumerate(self) -> (r: VAdapt<(usize, I::Item)>) { unimplemented!() }
    #[verifier::external_body] fn vx_position<F: Fn(I::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_take_while<F: Fn(&I::Item) -> bool>(self, f: F) -> (r: VAdapt<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_count(self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_skip(self, n: usize) -> (r: VAdapt<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_take(self, n: usize) -> (r: VAdapt<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_rev(self) -> (r: VAdapt<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_zip<J: VIntoIter>(self, j: J) -> (r: VAdapt<(I::Item, J::Item)>) { unimplemented!() }
    #[verifier::external_body] fn vx_any<F: Fn(I::Item) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_all<F: Fn(I::Item) -> bool>(&mut self, f: F) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_last(self) -> (r: Option<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_nth(&mut self, n: usize) -> (r: Option<I::Item>) { unimplemented!() }
}
// iterators over references: cloned / copied (elements are plain data, so a clone is the value itself)
pub trait VBytesIter<'a, T: 'a>: VIter<Item = &'a T> {
    fn vx_cloned(self) -> (r: VAdapt<T>)
        requires self.wf() ensures r.seq() =~= derefs(self.seq()), r.hi() == self.hi();
    fn vx_copied(self) -> (r: VAdapt<T>)
        requires self.wf() ensures r.seq() =~= derefs(self.seq()), r.hi() == self.hi();
}
impl<'a, T: 'a, I: VIter<Item = &'a T>> VBytesIter<'a, T> for I {
    #[verifier::external_body] fn vx_cloned(self) -> (r: VAdapt<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_copied(self) -> (r: VAdapt<T>) { unimplemented!() }
}
pub trait VOptRef<'a, T: 'a>: Sized {
    spec fn orv(self) -> Option<&'a T>;
    fn vx_cloned(self) -> (r: Option<T>) ensures match self.orv() { Some(x) => r == Some(*x), None => r is None };
    fn vx_copied(self) -> (r: Option<T>) ensures match self.orv() { Some(x) => r == Some(*x), None => r is None };
}
impl<'a, T: 'a> VOptRef<'a, T> for Option<&'a T> {
    open spec fn orv(self) -> Option<&'a T> { self }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() }
}
pub fn once<T>(x: T) -> (r: VAdapt<T>) ensures r.seq() =~= seq![x], r.hi() == 1 { Some(x).vx_into_iter() }
pub trait VExtend<T>: Sized {
    spec fn ext_post(a: &Self, s: Seq<T>, b: &Self) -> bool;
    fn vx_extend<VxI: VIntoIter<Item = T>>(&mut self, it: VxI)
        requires it.into_wf()
        ensures Self::ext_post(old(self), it.into_seq(), final(self));
}
impl<T> VExtend<T> for Vec<T> {
    open spec fn ext_post(a: &Vec<T>, s: Seq<T>, b: &Vec<T>) -> bool { b@ =~= a@ + s }
    #[verifier::external_body] fn vx_extend<VxI: VIntoIter<Item = T>>(&mut self, it: VxI) { unimplemented!() }
}
impl VExtend<char> for String {
    open spec fn ext_post(a: &String, s: Seq<char>, b: &String) -> bool { b@ =~= a@ + s }
    #[verifier::external_body] fn vx_extend<VxI: VIntoIter<Item = char>>(&mut self, it: VxI) { unimplemented!() }
}

// ---------- slices, vectors, arrays
pub trait VPlain { }
impl VPlain for u8 { } impl VPlain for u16 { } impl VPlain for u32 { } impl VPlain for u64 { } impl VPlain for usize { }
pub trait VSlice<T> {
    spec fn sv(&self) -> Seq<T>;
    // `==` with an array of numbers
    fn vx_same(&self, o: &[T]) -> (r: bool) where T: VPlain ensures r == (self.sv() =~= o@);
    fn vx_iter(&self) -> (r: VAdapt<&T>) ensures r.seq() == refs(self.sv()), r.hi() == self.sv().len();
    fn vx_split_at(&self, k: usize) -> (r: (&[T], &[T]))
        requires k <= self.sv().len()
        ensures r.0@ == self.sv().subrange(0, k as int), r.1@ == self.sv().subrange(k as int, self.sv().len() as int);
    fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.sv();
    fn vx_as_slice(&self) -> (r: &[T]) ensures r@ == self.sv();
    fn vx_first(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.sv().len() > 0 && *x == self.sv()[0], None => self.sv().len() == 0 };
    fn vx_last(&self) -> (r: Option<&T>) ensures match r { Some(x) => self.sv().len() > 0 && *x == self.sv().last(), None => self.sv().len() == 0 };
    fn vx_split_first(&self) -> (r: Option<(&T, &[T])>)
        ensures match r { Some((x, y)) => self.sv().len() > 0 && *x == self.sv()[0] && y@ == self.sv().subrange(1, self.sv().len() as int), None => self.sv().len() == 0 };
    fn vx_split_last(&self) -> (r: Option<(&T, &[T])>)
        ensures match r { Some((x, y)) => self.sv().len() > 0 && *x == self.sv().last() && y@ == self.sv().subrange(0, self.sv().len() - 1), None => self.sv().len() == 0 };
    fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.sv().contains(*x);
    fn vx_starts_with(&self, x: &[T]) -> (r: bool) ensures r == x@.is_prefix_of(self.sv());
    fn vx_ends_with(&self, x: &[T]) -> (r: bool) ensures r == x@.is_suffix_of(self.sv());
    fn vx_len(&self) -> (r: usize) ensures r == self.sv().len();
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
}
impl<T> VSlice<T> for [T] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VAdapt<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_same(&self, o: &[T]) -> (r: bool) where T: VPlain { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, k: usize) -> (r: (&[T], &[T])) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_as_slice(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_first(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_last(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, x: &[T]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with(&self, x: &[T]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T> VSlice<T> for Vec<T> {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VAdapt<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_same(&self, o: &[T]) -> (r: bool) where T: VPlain { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, k: usize) -> (r: (&[T], &[T])) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_as_slice(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_first(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_last(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, x: &[T]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with(&self, x: &[T]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T, const N: usize> VSlice<T> for [T; N] {
    open spec fn sv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_iter(&self) -> (r: VAdapt<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_same(&self, o: &[T]) -> (r: bool) where T: VPlain { unimplemented!() }
    #[verifier::external_body] fn vx_split_at(&self, k: usize) -> (r: (&[T], &[T])) { unimplemented!() }
    #[verifier::external_body] fn vx_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_as_slice(&self) -> (r: &[T]) { unimplemented!() }
    #[verifier::external_body] fn vx_first(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last(&self) -> (r: Option<&T>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_first(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_last(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains(&self, x: &T) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with(&self, x: &[T]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with(&self, x: &[T]) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
pub trait VMutSlice<T> {
    spec fn mv(&self) -> Seq<T>;
    fn vx_split_at_mut(&mut self, k: usize) -> (r: (&mut [T], &mut [T]))
        requires k <= old(self).mv().len()
        ensures r.0@ == old(self).mv().subrange(0, k as int), r.1@ == old(self).mv().subrange(k as int, old(self).mv().len() as int),
            final(self).mv() =~= final(r.0)@ + final(r.1)@;
    fn vx_fill(&mut self, x: T) where T: VPlain
        ensures final(self).mv() =~= Seq::new(old(self).mv().len(), |i: int| x);
}
impl<T> VMutSlice<T> for [T] {
    open spec fn mv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_split_at_mut(&mut self, k: usize) -> (r: (&mut [T], &mut [T])) { unimplemented!() }
    #[verifier::external_body] fn vx_fill(&mut self, x: T) where T: VPlain { unimplemented!() }
}
impl<T, const N: usize> VMutSlice<T> for [T; N] {
    open spec fn mv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_split_at_mut(&mut self, k: usize) -> (r: (&mut [T], &mut [T])) { unimplemented!() }
    #[verifier::external_body] fn vx_fill(&mut self, x: T) where T: VPlain { unimplemented!() }
}
pub trait VVecX<T> {
    fn vx_truncate(&mut self, n: usize);
    fn vx_extend_from_slice(&mut self, s: &[T]);
}
impl<T> VVecX<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_truncate(&mut self, n: usize)
        ensures final(self)@ =~= (if n <= old(self)@.len() { old(self)@.subrange(0, n as int) } else { old(self)@ }) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend_from_slice(&mut self, s: &[T]) ensures final(self)@ =~= old(self)@ + s@ { unimplemented!() }
}
pub trait VArr { }
// `x[..]` as a method
pub trait VFull {
    type Out: ?Sized;
    spec fn full_rel(&self, r: &Self::Out) -> bool;
    fn vx_full(&self) -> (r: &Self::Out) ensures self.full_rel(r);
}
impl VFull for String {
    type Out = str;
    open spec fn full_rel(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_full(&self) -> (r: &str) { unimplemented!() }
}
impl VFull for str {
    type Out = str;
    open spec fn full_rel(&self, r: &str) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_full(&self) -> (r: &str) { unimplemented!() }
}
impl<T> VFull for Vec<T> {
    type Out = [T];
    open spec fn full_rel(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T> VFull for [T] {
    type Out = [T];
    open spec fn full_rel(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T, const N: usize> VFull for [T; N] {
    type Out = [T];
    open spec fn full_rel(&self, r: &[T]) -> bool { r@ == self@ }
    #[verifier::external_body] fn vx_full(&self) -> (r: &[T]) { unimplemented!() }
}

// ---------- integers
pub trait VInt: Sized {
    type B;
    spec fn be_spec(self) -> Seq<u8>;
    spec fn be_rel(self, b: Self::B) -> bool;
    fn vx_to_be_bytes(self) -> (r: Self::B) ensures self.be_rel(r);
    fn vx_from_be_bytes(b: Self::B) -> (r: Self) ensures r.be_rel(b);
    spec fn le_rel(self, b: Self::B) -> bool;
    fn vx_to_le_bytes(self) -> (r: Self::B) ensures self.le_rel(r);
    fn vx_from_le_bytes(b: Self::B) -> (r: Self) ensures r.le_rel(b);
}
impl VInt for u32 {
    type B = [u8; 4];
    open spec fn be_spec(self) -> Seq<u8> { be32(self) }
    open spec fn be_rel(self, b: [u8; 4]) -> bool { b@ =~= be32(self) && self == un32(b@) }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; 4]) -> (r: u32) { unimplemented!() }
    open spec fn le_rel(self, b: [u8; 4]) -> bool { b@ =~= be32(self).reverse() && self == un32(b@.reverse()) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; 4]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; 4]) -> (r: u32) { unimplemented!() }
}
pub trait VU8: Sized {
    spec fn cv(self) -> u32;
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (65 <= self.cv() <= 90 || 97 <= self.cv() <= 122);
    fn vx_is_ascii_digit(&self) -> (r: bool) ensures r == (48 <= self.cv() <= 57);
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (48 <= self.cv() <= 57 || 65 <= self.cv() <= 90 || 97 <= self.cv() <= 122);
    fn vx_is_ascii_lowercase(&self) -> (r: bool) ensures r == (97 <= self.cv() <= 122);
    fn vx_is_ascii_uppercase(&self) -> (r: bool) ensures r == (65 <= self.cv() <= 90);
}
impl VU8 for u8 {
    open spec fn cv(self) -> u32 { self as u32 }
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) { proof { vx_dep(self.cv()); } 65 <= *self && *self <= 90 || 97 <= *self && *self <= 122 }
    fn vx_is_ascii_digit(&self) -> (r: bool) { proof { vx_dep(self.cv()); } 48 <= *self && *self <= 57 }
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { proof { vx_dep(self.cv()); } 48 <= *self && *self <= 57 || 65 <= *self && *self <= 90 || 97 <= *self && *self <= 122 }
    fn vx_is_ascii_lowercase(&self) -> (r: bool) { proof { vx_dep(self.cv()); } 97 <= *self && *self <= 122 }
    fn vx_is_ascii_uppercase(&self) -> (r: bool) { proof { vx_dep(self.cv()); } 65 <= *self && *self <= 90 }
}
impl VU8 for char {
    open spec fn cv(self) -> u32 { self as u32 }
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) { proof { vx_dep(self.cv()); } let c = *self as u32; 65 <= c && c <= 90 || 97 <= c && c <= 122 }
    fn vx_is_ascii_digit(&self) -> (r: bool) { proof { vx_dep(self.cv()); } let c = *self as u32; 48 <= c && c <= 57 }
    fn vx_is_ascii_alphanumeric(&self) -> (r: bool) { proof { vx_dep(self.cv()); } let c = *self as u32; 48 <= c && c <= 57 || 65 <= c && c <= 90 || 97 <= c && c <= 122 }
    fn vx_is_ascii_lowercase(&self) -> (r: bool) { proof { vx_dep(self.cv()); } let c = *self as u32; 97 <= c && c <= 122 }
    fn vx_is_ascii_uppercase(&self) -> (r: bool) { proof { vx_dep(self.cv()); } let c = *self as u32; 65 <= c && c <= 90 }
}
pub trait VChecked: Sized {
    spec fn ival(self) -> int;
    spec fn imax() -> int;
    fn vx_checked_add(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(x) => x.ival() == self.ival() + o.ival(), None => self.ival() + o.ival() > Self::imax() };
    fn vx_checked_sub(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(x) => x.ival() == self.ival() - o.ival(), None => self.ival() < o.ival() };
}
macro_rules! chk { ($($a:ty),*) => { $(
verus! {
impl VChecked for $a {
    open spec fn ival(self) -> int { self as int }
    open spec fn imax() -> int { <$a>::MAX as int }
    #[verifier::external_body] fn vx_checked_add(self, o: $a) -> (r: Option<$a>) { unimplemented!() }
    #[verifier::external_body] fn vx_checked_sub(self, o: $a) -> (r: Option<$a>) { unimplemented!() }
}
} )* } }
chk!(u8, u16, u32, u64, usize);

// ---------- Option / Result adapters
pub trait VOption<T>: Sized {
    spec fn ov(self) -> Option<T>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.ov() matches Some(x) ==> call_requires(f, (x,))
        ensures match self.ov() { Some(x) => r is Some && call_ensures(f, (x,), r->Some_0), None => r is None };
    fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
        requires self.ov() matches Some(x) ==> call_requires(f, (x,))
        ensures match self.ov() { Some(x) => call_ensures(f, (x,), r), None => r is None };
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.ov() matches Some(x) ==> call_requires(f, (x,))
        ensures match self.ov() { Some(x) => call_ensures(f, (x,), r), None => r == d };
}
impl<T> VOption<T> for Option<T> {
    open spec fn ov(self) -> Option<T> { self }
    #[verifier::external_body] fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() }
    #[verifier::external_body] fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
}
pub trait VResult<T, E>: Sized {
    spec fn rv(self) -> Result<T, E>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>)
        requires self.rv() matches Ok(x) ==> call_requires(f, (x,))
        ensures match self.rv() { Ok(x) => r is Ok && call_ensures(f, (x,), r->Ok_0), Err(e) => r == Result::<U, E>::Err(e) };
    fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>)
        requires self.rv() matches Ok(x) ==> call_requires(f, (x,))
        ensures match self.rv() { Ok(x) => call_ensures(f, (x,), r), Err(e) => r == Result::<U, E>::Err(e) };
    fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U)
        requires self.rv() matches Ok(x) ==> call_requires(f, (x,))
        ensures match self.rv() { Ok(x) => call_ensures(f, (x,), r), Err(_) => r == d };
}
impl<T, E> VResult<T, E> for Result<T, E> {
    open spec fn rv(self) -> Result<T, E> { self }
    #[verifier::external_body] fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Result<U, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_and_then<U, F: FnOnce(T) -> Result<U, E>>(self, f: F) -> (r: Result<U, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() }
}

// `and_then` as a match: the value, or what is returned in its place
pub struct StopNone;
pub struct StopErr<E> { pub e: E }
pub trait VFlow: Sized {
    type T;
    type S;
    spec fn flow(self) -> Result<Self::T, Self::S>;
    fn vx_flow(self) -> (r: Result<Self::T, Self::S>) ensures r == self.flow();
}
impl<T> VFlow for Option<T> {
    type T = T;
    type S = StopNone;
    open spec fn flow(self) -> Result<T, StopNone> { match self { Some(x) => Ok(x), None => Err(StopNone) } }
    fn vx_flow(self) -> (r: Result<T, StopNone>) { proof { vx_dep(self.flow()); } match self { Some(x) => Ok(x), None => Err(StopNone) } }
}
impl<T, E> VFlow for Result<T, E> {
    type T = T;
    type S = StopErr<E>;
    open spec fn flow(self) -> Result<T, StopErr<E>> { match self { Ok(x) => Ok(x), Err(e) => Err(StopErr { e }) } }
    fn vx_flow(self) -> (r: Result<T, StopErr<E>>) { proof { vx_dep(self.flow()); } match self { Ok(x) => Ok(x), Err(e) => Err(StopErr { e }) } }
}
pub trait VBack<R>: Sized {
    spec fn back(self) -> R;
    fn vx_back(self) -> (r: R) ensures r == self.back();
}
impl<U> VBack<Option<U>> for StopNone {
    open spec fn back(self) -> Option<U> { None }
    fn vx_back(self) -> (r: Option<U>) { proof { vx_dep::<Option<U>>(self.back()); } None }
}
impl<U, E> VBack<Result<U, E>> for StopErr<E> {
    open spec fn back(self) -> Result<U, E> { Err(self.e) }
    fn vx_back(self) -> (r: Result<U, E>) { proof { vx_dep::<Result<U, E>>(self.back()); } Err(self.e) }
}

// ---------- strings
pub trait VPat { spec fn pat(self) -> Seq<char>; }
impl VPat for char { open spec fn pat(self) -> Seq<char> { seq![self] } }
impl<'a> VPat for &'a str { open spec fn pat(self) -> Seq<char> { self@ } }
impl<'a> VPat for &'a String { open spec fn pat(self) -> Seq<char> { self@ } }
pub open spec fn views<'a>(s: Seq<&'a str>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i]@) }

/// the strings' contents
pub open spec fn strs<'a>(s: Seq<&'a str>, parts: Seq<Seq<char>>) -> bool {
    &&& s.len() == parts.len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == parts[i]
    &&& forall|i: int| 0 <= i < s.len() ==> s[i]@ == #[trigger] parts[i]
}
pub trait VStr {
    spec fn st(&self) -> Seq<char>;
    fn vx_split<P: VPat>(&self, p: P) -> (r: VAdapt<&str>)
        ensures p.pat().len() == 1 ==> strs(r.seq(), split_spec(self.st(), p.pat()[0]));
    fn vx_split_whitespace(&self) -> (r: VAdapt<&str>) ensures strs(r.seq(), split_ws(self.st()));
    fn vx_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => self.st() =~= t@ + p.pat(), None => !ends_with(self.st(), p.pat()) };
    fn vx_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>)
        ensures match r { Some(t) => self.st() =~= p.pat() + t@, None => !p.pat().is_prefix_of(self.st()) };
    fn vx_starts_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == p.pat().is_prefix_of(self.st()),
        r && all_ascii(p.pat()) ==> bpos(self.st(), p.pat().len() as int) == p.pat().len();
    fn vx_ends_with<P: VPat>(&self, p: P) -> (r: bool) ensures r == ends_with(self.st(), p.pat()),
        r && p.pat().len() == 1 && (p.pat()[0] as u32) < 128 ==> bpos(self.st(), self.st().len() - 1) == utf8(self.st()).len() - 1;
    fn vx_as_bytes(&self) -> (r: &[u8]) ensures r@ == utf8(self.st());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == lower(self.st());
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (lower(self.st()) == lower(o@));
    fn vx_nfkd(&self) -> (r: crate::ext::unicode_normalization::Decompositions<VAdapt<char>>) ensures r.seq() == nfkd(self.st());
    fn vx_chars(&self) -> (r: VAdapt<char>) ensures r.seq() == self.st();
    fn vx_trim(&self) -> (r: &str) ensures r@ == trim_spec(self.st());
    fn vx_len(&self) -> (r: usize) ensures r == utf8(self.st()).len(), self.st().len() <= r;
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.st().len() == 0);
}
impl VStr for str {
    open spec fn st(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_split<P: VPat>(&self, p: P) -> (r: VAdapt<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_whitespace(&self) -> (r: VAdapt<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_starts_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_as_bytes(&self) -> (r: &[u8]) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_nfkd(&self) -> (r: crate::ext::unicode_normalization::Decompositions<VAdapt<char>>) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: VAdapt<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
pub trait VFromStr: Sized {
    type Err;
    spec fn parse_post(s: Seq<char>, r: Result<Self, Self::Err>) -> bool;
    fn vx_from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::parse_post(s@, r);
}
#[derive(core::fmt::Debug)]
pub struct ParseIntError;
impl VFromStr for u32 {
    type Err = ParseIntError;
    open spec fn parse_post(s: Seq<char>, r: Result<u32, ParseIntError>) -> bool {
        match r { Ok(v) => parse_dec(s) == Some(v as nat), Err(_) => match parse_dec(s) { None => true, Some(n) => n > u32::MAX } }
    }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<u32, ParseIntError>) { unimplemented!() }
}
pub trait VParse {
    spec fn pv(&self) -> Seq<char>;
    fn vx_parse<F: VFromStr>(&self) -> (r: Result<F, F::Err>) ensures F::parse_post(self.pv(), r);
}
impl VParse for str {
    open spec fn pv(&self) -> Seq<char> { self@ }
    fn vx_parse<F: VFromStr>(&self) -> (r: Result<F, F::Err>) { proof { vx_dep(self.pv()); } F::vx_from_str(self) }
}
pub trait VGet<R> {
    type Out: ?Sized;
    spec fn get_rel(&self, r: R, o: Option<&Self::Out>) -> bool;
    fn vx_get(&self, r: R) -> (o: Option<&Self::Out>) ensures self.get_rel(r, o);
}
/// the byte offset of the k-th character
pub open spec fn bpos(s: Seq<char>, k: int) -> int { utf8(s.subrange(0, k)).len() as int }
pub open spec fn at_char(s: Seq<char>, i: int) -> bool { 0 <= i <= utf8(s).len() && (i == 0 || i == utf8(s).len() || exists|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == i) }
pub open spec fn str_get(s: Seq<char>, a: int, b: int, o: Option<&str>) -> bool {
    match o {
        Some(t) => a <= b <= utf8(s).len() && utf8(t@) =~= utf8(s).subrange(a, b) && (all_ascii(s) ==> t@ =~= s.subrange(a, b))
            && exists|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] bpos(s, i) == a && #[trigger] bpos(s, j) == b && t@ =~= s.subrange(i, j)
                && (a == 0 ==> i == 0) && (b == utf8(s).len() ==> j == s.len())
                && (forall|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == a ==> k == i) && (forall|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == b ==> k == j),
        None => (all_ascii(s) ==> !(a <= b <= s.len())) && !(a <= b && at_char(s, a) && at_char(s, b)),
    }
}
impl VGet<core::ops::RangeTo<usize>> for str {
    type Out = str;
    open spec fn get_rel(&self, r: core::ops::RangeTo<usize>, o: Option<&str>) -> bool { str_get(self@, 0, r.end as int, o) }
    #[verifier::external_body] fn vx_get(&self, r: core::ops::RangeTo<usize>) -> (o: Option<&str>) { unimplemented!() }
}
impl VGet<core::ops::Range<usize>> for str {
    type Out = str;
    open spec fn get_rel(&self, r: core::ops::Range<usize>, o: Option<&str>) -> bool { str_get(self@, r.start as int, r.end as int, o) }
    #[verifier::external_body] fn vx_get(&self, r: core::ops::Range<usize>) -> (o: Option<&str>) { unimplemented!() }
}
impl VGet<core::ops::RangeFrom<usize>> for str {
    type Out = str;
    open spec fn get_rel(&self, r: core::ops::RangeFrom<usize>, o: Option<&str>) -> bool { str_get(self@, r.start as int, utf8(self@).len() as int, o) }
    #[verifier::external_body] fn vx_get(&self, r: core::ops::RangeFrom<usize>) -> (o: Option<&str>) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_str_index<R>(s: &str, r: R) -> (t: &str) where str: VGet<R, Out = str>
    requires !s.get_rel(r, None)
    ensures s.get_rel(r, Some(t)) { unimplemented!() }
impl<T> VGet<usize> for [T] {
    type Out = T;
    open spec fn get_rel(&self, r: usize, o: Option<&T>) -> bool { match o { Some(t) => r < self@.len() && *t == self@[r as int], None => r >= self@.len() } }
    #[verifier::external_body] fn vx_get(&self, r: usize) -> (o: Option<&T>) { unimplemented!() }
}
impl<T> VGet<core::ops::RangeTo<usize>> for [T] {
    type Out = [T];
    open spec fn get_rel(&self, r: core::ops::RangeTo<usize>, o: Option<&[T]>) -> bool { match o { Some(t) => r.end <= self@.len() && t@ =~= self@.subrange(0, r.end as int), None => r.end > self@.len() } }
    #[verifier::external_body] fn vx_get(&self, r: core::ops::RangeTo<usize>) -> (o: Option<&[T]>) { unimplemented!() }
}
impl<T> VGet<core::ops::RangeFrom<usize>> for [T] {
    type Out = [T];
    open spec fn get_rel(&self, r: core::ops::RangeFrom<usize>, o: Option<&[T]>) -> bool { match o { Some(t) => r.start <= self@.len() && t@ =~= self@.subrange(r.start as int, self@.len() as int), None => r.start > self@.len() } }
    #[verifier::external_body] fn vx_get(&self, r: core::ops::RangeFrom<usize>) -> (o: Option<&[T]>) { unimplemented!() }
}
impl<T> VGet<core::ops::Range<usize>> for [T] {
    type Out = [T];
    open spec fn get_rel(&self, r: core::ops::Range<usize>, o: Option<&[T]>) -> bool { match o { Some(t) => r.start <= r.end <= self@.len() && t@ =~= self@.subrange(r.start as int, r.end as int), None => r.end > self@.len() || r.start > r.end } }
    #[verifier::external_body] fn vx_get(&self, r: core::ops::Range<usize>) -> (o: Option<&[T]>) { unimplemented!() }
}
pub trait VStringX { }
pub trait ToOwnedX { }
pub trait VToString { fn vx_to_string(&self) -> String; }
impl<T: Display + ?Sized> VToString for T {
    #[verifier::external_body]
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() }
}
pub assume_specification [String::with_capacity](n: usize) -> (r: String)
    requires n <= isize::MAX
    ensures r@.len() == 0;

// ---------- formatting
#[derive(core::fmt::Debug)]
pub struct FmtError;
pub type FResult = Result<(), FmtError>;
#[verifier::external_body]
pub struct Formatter<'a> { _p: core::marker::PhantomData<&'a u8> }
impl<'a> Formatter<'a> {
    pub uninterp spec fn out(&self) -> Seq<char>;
    pub uninterp spec fn alt(&self) -> bool;
    /// the sink never reports an error (a String)
    pub uninterp spec fn infallible(&self) -> bool;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: FResult) ensures wrote(old(self), final(self), s@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: FResult) ensures wrote(old(self), final(self), seq![c], r) { unimplemented!() }
    #[verifier::external_body]
    pub fn pad(&mut self, s: &str) -> (r: FResult) ensures wrote(old(self), final(self), s@, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn alternate(&self) -> (r: bool) ensures r == self.alt() { unimplemented!() }
    #[verifier::external_body]
    pub fn debug_struct<'b>(&'b mut self, n: &str) -> (r: DebugStruct<'b, 'a>)
        ensures r.text() == dbg_open(n@), *r.f == *old(self), *final(self) == *final(r.f) { unimplemented!() }
}
/// the effect of writing text s
pub open spec fn wrote(a: &Formatter, b: &Formatter, s: Seq<char>, r: FResult) -> bool {
    &&& b.alt() == a.alt() && b.infallible() == a.infallible()
    &&& r is Ok ==> b.out() =~= a.out() + s
    &&& a.infallible() ==> r is Ok
}
pub struct DebugStruct<'b, 'a> { pub f: &'b mut Formatter<'a>, pub t: Ghost<Seq<char>> }
pub uninterp spec fn dbg_open(n: Seq<char>) -> Seq<char>;
pub uninterp spec fn dbg_field(t: Seq<char>, n: Seq<char>, v: Seq<char>) -> Seq<char>;
pub uninterp spec fn dbg_close(t: Seq<char>) -> Seq<char>;
pub uninterp spec fn dbg_close_ne(t: Seq<char>) -> Seq<char>;
impl<'b, 'a> DebugStruct<'b, 'a> {
    pub open spec fn text(&self) -> Seq<char> { self.t@ }
    #[verifier::external_body]
    pub fn field<T: Debug + ?Sized>(self, n: &str, v: &T) -> (r: DebugStruct<'b, 'a>)
        ensures r.text() == dbg_field(self.text(), n@, v.dbg()), *r.f == *old(self.f), *final(r.f) == *final(self.f) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish(self) -> (r: FResult)
        ensures wrote(old(self.f), final(self.f), dbg_close(self.text()), r) { unimplemented!() }
    #[verifier::external_body]
    pub fn finish_non_exhaustive(self) -> (r: FResult)
        ensures wrote(old(self.f), final(self.f), dbg_close_ne(self.text()), r) { unimplemented!() }
}
pub trait Display {
    spec fn disp(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FResult) ensures wrote(old(f), final(f), self.disp(), r);
}
pub trait Debug {
    spec fn dbg(&self) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FResult) ensures wrote(old(f), final(f), self.dbg(), r);
}
pub trait LowerHex {
    spec fn hexs(&self, alt: bool) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FResult) ensures wrote(old(f), final(f), self.hexs(old(f).alt()), r);
}
pub trait UpperHex {
    spec fn hexs(&self, alt: bool) -> Seq<char>;
    fn fmt(&self, f: &mut Formatter) -> (r: FResult) ensures wrote(old(f), final(f), self.hexs(old(f).alt()), r);
}
impl<'a, T: Display + ?Sized> Display for &'a T {
    open spec fn disp(&self) -> Seq<char> { (**self).disp() }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
impl<'a, T: Debug + ?Sized> Debug for &'a T {
    open spec fn dbg(&self) -> Seq<char> { (**self).dbg() }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
impl<'a, T: LowerHex + ?Sized> LowerHex for &'a T {
    open spec fn hexs(&self, alt: bool) -> Seq<char> { (**self).hexs(alt) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
impl<'a, T: UpperHex + ?Sized> UpperHex for &'a T {
    open spec fn hexs(&self, alt: bool) -> Seq<char> { (**self).hexs(alt) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
impl Display for str {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
impl Display for String {
    open spec fn disp(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
impl Display for char {
    open spec fn disp(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
pub uninterp spec fn str_dbg(s: Seq<char>) -> Seq<char>;
impl Debug for str {
    open spec fn dbg(&self) -> Seq<char> { str_dbg(self@) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
impl Debug for String {
    open spec fn dbg(&self) -> Seq<char> { str_dbg(self@) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
macro_rules! dispint { ($($a:ty),*) => { $(
verus! {
impl Display for $a {
    open spec fn disp(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
impl Debug for $a {
    open spec fn dbg(&self) -> Seq<char> { dec(*self as nat) }
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
} )* } }
dispint!(u8, u16, u32, u64, usize);
macro_rules! dbgopaque { ($($a:ty),*) => { $(
verus! {
impl<const N: usize> Debug for [$a; N] {
    uninterp spec fn dbg(&self) -> Seq<char>;
    #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
}
} )* } }
dbgopaque!(u8);

// pieces of write! / format!
pub fn fmt_str(f: &mut Formatter, s: &str) -> (r: FResult) ensures wrote(old(f), final(f), s@, r) { f.write_str(s) }
#[verifier::external_body]
pub fn fmt_disp<T: Display + ?Sized>(f: &mut Formatter, v: &T) -> (r: FResult) ensures wrote(old(f), final(f), v.disp(), r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_dbg<T: Debug + ?Sized>(f: &mut Formatter, v: &T) -> (r: FResult) ensures wrote(old(f), final(f), v.dbg(), r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_adbg<T: Debug + ?Sized>(f: &mut Formatter, v: &T) -> (r: FResult) ensures exists|s: Seq<char>| wrote(old(f), final(f), s, r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_lhex<T: LowerHex + ?Sized>(f: &mut Formatter, v: &T) -> (r: FResult) ensures wrote(old(f), final(f), v.hexs(false), r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_uhex<T: UpperHex + ?Sized>(f: &mut Formatter, v: &T) -> (r: FResult) ensures wrote(old(f), final(f), v.hexs(false), r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_alhex<T: LowerHex + ?Sized>(f: &mut Formatter, v: &T) -> (r: FResult) ensures wrote(old(f), final(f), v.hexs(true), r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_auhex<T: UpperHex + ?Sized>(f: &mut Formatter, v: &T) -> (r: FResult) ensures wrote(old(f), final(f), v.hexs(true), r) { unimplemented!() }
/// {:02x} / {:02X} of a byte: always two digits
pub trait Byte { spec fn bv(&self) -> u8; }
impl Byte for u8 { open spec fn bv(&self) -> u8 { *self } }
impl<'a, T: Byte> Byte for &'a T { open spec fn bv(&self) -> u8 { (**self).bv() } }
#[verifier::external_body]
pub fn fmt_lhex2<T: Byte>(f: &mut Formatter, v: &T) -> (r: FResult) ensures wrote(old(f), final(f), hex2(v.bv(), false), r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_uhex2<T: Byte>(f: &mut Formatter, v: &T) -> (r: FResult) ensures wrote(old(f), final(f), hex2(v.bv(), true), r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_vhex10(f: &mut Formatter, v: &u32) -> (r: FResult) ensures wrote(old(f), final(f), hex8(*v), r) { unimplemented!() }
#[verifier::external_body]
pub fn fmt_new() -> (r: Formatter<'static>) ensures r.out().len() == 0, r.infallible(), !r.alt() { unimplemented!() }
#[verifier::external_body]
pub fn fmt_done(f: Formatter<'static>, q: FResult) -> (r: String) requires q is Ok ensures r@ == f.out() { unimplemented!() }

// bytes of text
pub broadcast proof fn ax_utf8_ascii(s: Seq<char>)
    requires all_ascii(s)
    ensures (#[trigger] utf8(s)) == ascii_bytes(s)
    decreases s.len()
{
    reveal(utf8);
    if s.len() > 0 {
        let t = s.drop_last();
        assert(all_ascii(t)) by { assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 by { assert(t[i] == s[i]); } }
        ax_utf8_ascii(t);
        assert((s[s.len() - 1] as u32) < 128);
        assert(ascii_bytes(s) =~= ascii_bytes(t) + utf8_1(s.last()));
    } else { assert(ascii_bytes(s) =~= utf8(s)); }
}
pub broadcast proof fn ax_utf8_len(s: Seq<char>)
    ensures #[trigger] utf8(s).len() >= s.len()
    decreases s.len()
{ reveal(utf8); if s.len() > 0 { ax_utf8_len(s.drop_last()); } }
pub proof fn ax_utf8_ascii_rev(s: Seq<char>)
    requires forall|i: int| 0 <= i < utf8(s).len() ==> (#[trigger] utf8(s)[i]) < 128
    ensures all_ascii(s), utf8(s) == ascii_bytes(s)
    decreases s.len()
{
    reveal(utf8);
    if s.len() > 0 {
        let (t, u) = (s.drop_last(), utf8(s.drop_last()));
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) < 128 by { assert(u[i] == utf8(s)[i]); }
        ax_utf8_ascii_rev(t);
        let c = s.last() as u32;
        assert(utf8(s)[u.len() as int] == utf8_1(s.last())[0]);
        assert(c < 128) by {
            if c >= 128 { assert(c <= 0x10ffff); assert(utf8_1(s.last())[0] >= 128); }
        }
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 128 by { if i < t.len() { assert(t[i] == s[i]); } }
    }
    ax_utf8_ascii(s);
}
pub broadcast proof fn lemma_ascii_text(s: Seq<char>)
    requires bytes7(utf8(s))
    ensures s == chars_of(#[trigger] utf8(s)), all_ascii(s)
{ ax_utf8_ascii_rev(s); assert(s =~= chars_of(utf8(s))); }
pub proof fn lemma_b58c7(d: Seq<u8>)
    ensures bytes7(ascii_bytes(b58c(d))), b58c(d).len() >= d.len() + 4, d.len() <= 78 ==> b58c(d).len() <= 112, utf8(b58c(d)) == ascii_bytes(b58c(d))
{ broadcast use {ax_b58c, ax_b58c_len, ax_utf8_ascii};
  assert forall|i: int| 0 <= i < b58c(d).len() implies (#[trigger] ascii_bytes(b58c(d))[i]) < 128 by { assert((b58c(d)[i] as u32) < 128); } }
pub broadcast proof fn lemma_b58c_un(t: Seq<u8>)
    requires #[trigger] b58c_un(t) is Some
    ensures bytes7(t), t.len() >= b58c_un(t)->Some_0.len() + 4
{ ax_b58c_un(t); lemma_b58c7(b58c_un(t)->Some_0); }
pub proof fn ax_utf8_concat(a: Seq<char>, b: Seq<char>)
    ensures utf8(a + b) == utf8(a) + utf8(b)
    decreases b.len()
{
    reveal(utf8);
    if b.len() == 0 { assert(a + b =~= a); assert(utf8(a) + utf8(b) =~= utf8(a)); }
    else {
        ax_utf8_concat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(utf8(a + b) =~= utf8(a) + utf8(b));
    }
}

pub broadcast proof fn lemma_sub_sub<T>(s: Seq<T>, a: int, b: int, c: int, d: int)
    requires 0 <= a <= b <= s.len(), 0 <= c <= d <= b - a
    ensures #[trigger] s.subrange(a, b).subrange(c, d) == s.subrange(a + c, a + d)
{ assert(s.subrange(a, b).subrange(c, d) =~= s.subrange(a + c, a + d)); }
// two numbers are equal exactly if their bitwise difference is zero
pub broadcast proof fn lemma_xor8(a: u8, b: u8) ensures (#[trigger] (a ^ b) == 0) == (a == b) { assert((a ^ b) == 0 <==> a == b) by(bit_vector); }
pub broadcast proof fn lemma_xor32(a: u32, b: u32) ensures (#[trigger] (a ^ b) == 0) == (a == b) { assert((a ^ b) == 0 <==> a == b) by(bit_vector); }
pub broadcast proof fn lemma_xor64(a: u64, b: u64) ensures (#[trigger] (a ^ b) == 0) == (a == b) { assert((a ^ b) == 0 <==> a == b) by(bit_vector); }
pub broadcast group group_vx {
    lemma_xor8, lemma_xor32, lemma_xor64,
    lemma_sub_sub,
    ax_str_size, ax_bytes_size, lemma_vec_len,
    ax_slice_of_b, ax_str_of_b, ax_slice_view_b, ax_str_view_b, ax_utf8_ascii, ax_utf8_len, lemma_ascii_text, lemma_b58c_un,
    crate::spec::group_spec,
}
} // mod vx
