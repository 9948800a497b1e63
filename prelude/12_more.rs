// ===== vx2: further std / core operations (assumed contracts), so that changes written with them stay within reach =====
pub mod vx2 {
use vstd::prelude::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::vx::*;

// ---------- str
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, k: int) -> bool { 0 <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) =~= p }
pub trait VStrMore {
    spec fn sm(&self) -> Seq<char>;
    fn vx_contains<P: VPat>(&self, p: P) -> (r: bool)
        ensures r ==> exists|k: int| #[trigger] occurs(self.sm(), p.pat(), k), !r ==> forall|k: int| !#[trigger] occurs(self.sm(), p.pat(), k);
    fn vx_find<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(i) => exists|k: int| #[trigger] occurs(self.sm(), p.pat(), k) && (forall|j: int| 0 <= j < k ==> !#[trigger] occurs(self.sm(), p.pat(), j))
                && i == bpos(self.sm(), k) && (all_ascii(self.sm()) ==> i == k),
            None => forall|k: int| !#[trigger] occurs(self.sm(), p.pat(), k) };
    fn vx_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>)
        ensures match r {
            Some(i) => exists|k: int| #[trigger] occurs(self.sm(), p.pat(), k) && (forall|j: int| k < j ==> !#[trigger] occurs(self.sm(), p.pat(), j))
                && i == bpos(self.sm(), k) && (all_ascii(self.sm()) ==> i == k),
            None => forall|k: int| !#[trigger] occurs(self.sm(), p.pat(), k) };
    fn vx_split_once<P: VPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match r {
            Some((a, b)) => self.sm() =~= a@ + p.pat() + b@ && (forall|j: int| 0 <= j < a@.len() ==> !#[trigger] occurs(self.sm(), p.pat(), j)),
            None => forall|k: int| !#[trigger] occurs(self.sm(), p.pat(), k) };
    fn vx_rsplit_once<P: VPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match r {
            Some((a, b)) => self.sm() =~= a@ + p.pat() + b@ && (forall|j: int| a@.len() < j ==> !#[trigger] occurs(self.sm(), p.pat(), j)),
            None => forall|k: int| !#[trigger] occurs(self.sm(), p.pat(), k) };
    fn vx_trim_end(&self) -> (r: &str)
        ensures r@.len() <= self.sm().len(), r@ =~= self.sm().subrange(0, r@.len() as int), r@.len() > 0 ==> !is_ws(r@.last()),
            forall|i: int| r@.len() <= i < self.sm().len() ==> is_ws(#[trigger] self.sm()[i]);
    fn vx_trim_start(&self) -> (r: &str)
        ensures r@.len() <= self.sm().len(), r@ =~= self.sm().subrange(self.sm().len() - r@.len(), self.sm().len() as int), r@.len() > 0 ==> !is_ws(r@[0]),
            forall|i: int| 0 <= i < self.sm().len() - r@.len() ==> is_ws(#[trigger] self.sm()[i]);
    fn vx_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str)
        ensures p.pat().len() == 1 ==> r@.len() <= self.sm().len() && r@ =~= self.sm().subrange(0, r@.len() as int) && (r@.len() > 0 ==> r@.last() != p.pat()[0])
            && forall|i: int| r@.len() <= i < self.sm().len() ==> #[trigger] self.sm()[i] == p.pat()[0];
    fn vx_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str)
        ensures p.pat().len() == 1 ==> r@.len() <= self.sm().len() && r@ =~= self.sm().subrange(self.sm().len() - r@.len(), self.sm().len() as int) && (r@.len() > 0 ==> r@[0] != p.pat()[0])
            && forall|i: int| 0 <= i < self.sm().len() - r@.len() ==> #[trigger] self.sm()[i] == p.pat()[0];
    fn vx_trim_matches(&self, p: char) -> (r: &str)
        ensures exists|a: int| 0 <= a && a + r@.len() <= self.sm().len() && r@ =~= #[trigger] self.sm().subrange(a, a + r@.len())
            && (forall|i: int| 0 <= i < a ==> #[trigger] self.sm()[i] == p)
            && (forall|i: int| a + r@.len() <= i < self.sm().len() ==> #[trigger] self.sm()[i] == p)
            && (r@.len() > 0 ==> r@[0] != p && r@.last() != p);
    fn vx_bytes(&self) -> (r: VAdapt<u8>) ensures r.seq() =~= utf8(self.sm()), r.hi() == utf8(self.sm()).len();
    fn vx_char_indices(&self) -> (r: VAdapt<(usize, char)>)
        ensures r.seq().len() == self.sm().len(),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).1 == self.sm()[i] && r.seq()[i].0 == bpos(self.sm(), i) && (all_ascii(self.sm()) ==> r.seq()[i].0 == i);
    fn vx_is_char_boundary(&self, i: usize) -> (r: bool)
        ensures r == at_char(self.sm(), i as int), all_ascii(self.sm()) ==> r == (i <= self.sm().len());
    fn vx_split_ascii_whitespace(&self) -> (r: VAdapt<&str>)
        ensures (forall|i: int| 0 <= i < self.sm().len() ==> (#[trigger] self.sm()[i] as u32) < 128 && self.sm()[i] as u32 != 11) ==> strs(r.seq(), split_ws(self.sm()));
    fn vx_to_lowercase(&self) -> (r: String) ensures all_ascii(self.sm()) ==> r@ =~= lower(self.sm());
}
impl VStrMore for str {
    open spec fn sm(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_contains<P: VPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_find<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind<P: VPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_rsplit_once<P: VPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches<P: VPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_matches(&self, p: char) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_bytes(&self) -> (r: VAdapt<u8>) { unimplemented!() }
    #[verifier::external_body] fn vx_char_indices(&self) -> (r: VAdapt<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_char_boundary(&self, i: usize) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_split_ascii_whitespace(&self) -> (r: VAdapt<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
}

// ---------- integers and characters
pub trait VAscii: Sized {
    spec fn up(self) -> Self;
    spec fn low(self) -> Self;
    fn vx_to_ascii_lowercase(&self) -> (r: Self) ensures r == self.low();
    fn vx_to_ascii_uppercase(&self) -> (r: Self) ensures r == self.up();
    fn vx_eq_ignore_ascii_case(&self, o: &Self) -> (r: bool) ensures r == (self.low() == o.low());
}
impl VAscii for u8 {
    open spec fn up(self) -> u8 { if 97 <= self <= 122 { (self - 32) as u8 } else { self } }
    open spec fn low(self) -> u8 { if 65 <= self <= 90 { (self + 32) as u8 } else { self } }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: u8) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &u8) -> (r: bool) { unimplemented!() }
}
impl VAscii for char {
    open spec fn up(self) -> char { if 'a' <= self && self <= 'z' { ((self as u32) - 32) as char } else { self } }
    open spec fn low(self) -> char { lower1(self) }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &char) -> (r: bool) { unimplemented!() }
}
pub trait VCharX: Sized {
    spec fn ch(self) -> char;
    fn vx_to_digit(self, radix: u32) -> (r: Option<u32>)
        requires 2 <= radix <= 36
        ensures r == digit_val(self.ch(), radix);
    fn vx_is_digit(self, radix: u32) -> (r: bool)
        requires 2 <= radix <= 36
        ensures r == (digit_val(self.ch(), radix) is Some);
}
pub open spec fn digit_val(c: char, radix: u32) -> Option<u32> {
    let u = c as u32;
    let v: int = if 48 <= u <= 57 { u - 48 } else if 65 <= u <= 90 { u - 55 } else if 97 <= u <= 122 { u - 87 } else { 99 };
    if v < radix { Some(v as u32) } else { None }
}
impl VCharX for char {
    open spec fn ch(self) -> char { self }
    #[verifier::external_body] fn vx_to_digit(self, radix: u32) -> (r: Option<u32>) { unimplemented!() }
    #[verifier::external_body] fn vx_is_digit(self, radix: u32) -> (r: bool) { unimplemented!() }
}
pub trait VRangeC<T> {
    spec fn has(&self, x: T) -> bool;
    fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.has(*x);
}
macro_rules! rngc { ($($a:ty),*) => { $(
verus! {
impl VRangeC<$a> for core::ops::Range<$a> {
    open spec fn has(&self, x: $a) -> bool { self.start <= x && x < self.end }
    #[verifier::external_body] fn vx_contains(&self, x: &$a) -> (r: bool) { unimplemented!() }
}
impl VRangeC<$a> for core::ops::RangeInclusive<$a> {
    open spec fn has(&self, x: $a) -> bool { self@.start <= x && x <= self@.end }
    #[verifier::external_body] fn vx_contains(&self, x: &$a) -> (r: bool) { unimplemented!() }
}
impl VRangeC<$a> for core::ops::RangeFrom<$a> {
    open spec fn has(&self, x: $a) -> bool { self.start <= x }
    #[verifier::external_body] fn vx_contains(&self, x: &$a) -> (r: bool) { unimplemented!() }
}
} )* } }
rngc!(u8, u16, u32, u64, usize, char);

macro_rules! rngi { ($($a:ty),*) => { $(
verus! {
impl VIntoIter for core::ops::RangeInclusive<$a> {
    type Item = $a;
    type IntoIter = VAdapt<$a>;
    open spec fn into_seq(self) -> Seq<$a> { Seq::new(if !self@.exhausted && self@.start <= self@.end { (self@.end - self@.start + 1) as nat } else { 0 }, |i: int| (self@.start + i) as $a) }
    open spec fn into_hi(self) -> nat { if !self@.exhausted && self@.start <= self@.end { (self@.end - self@.start + 1) as nat } else { 0 } }
    open spec fn into_wf(self) -> bool { true }
    #[verifier::external_body] fn vx_into_iter(self) -> (r: VAdapt<$a>) { unimplemented!() }
}
} )* } }
rngi!(u8, u16, u32, u64, usize);

macro_rules! narrow { ($($a:ty => $b:ty),*) => { $(
verus! {
impl VTryFrom<$a> for $b {
    type Error = TryFromIntError;
    open spec fn try_from_post(x: $a, r: Result<$b, TryFromIntError>) -> bool { match r { Ok(v) => v as int == x as int, Err(_) => x as int > <$b>::MAX as int || (x as int) < <$b>::MIN as int } }
    #[verifier::external_body] fn vx_try_from(x: $a) -> (r: Result<$b, TryFromIntError>) { unimplemented!() }
}
} )* } }
#[derive(core::fmt::Debug)]
pub struct TryFromIntError;
narrow!(u16 => u8, u32 => u8, u64 => u8, usize => u8, u32 => u16, u64 => u16, usize => u16, u64 => u32, usize => u32, u128 => u32, u32 => usize, i32 => u32, i64 => u32, u32 => i32, i32 => usize, i32 => u8);
macro_rules! pint { ($($a:ty),*) => { $(
verus! {
impl VFromStr for $a {
    type Err = ParseIntError;
    open spec fn parse_post(s: Seq<char>, r: Result<$a, ParseIntError>) -> bool {
        match r { Ok(v) => parse_dec(s) == Some(v as nat), Err(_) => match parse_dec(s) { None => true, Some(n) => n > <$a>::MAX } }
    }
    #[verifier::external_body] fn vx_from_str(s: &str) -> (r: Result<$a, ParseIntError>) { unimplemented!() }
}
} )* } }
pint!(u8, u16, u64, usize);

pub open spec fn un16(b: Seq<u8>) -> int { b[0] * 0x100 + b[1] }
pub open spec fn un64(b: Seq<u8>) -> int { un32(b.subrange(0, 4)) * 0x1_0000_0000 + un32(b.subrange(4, 8)) }
macro_rules! beint { ($($a:ty, $n:expr, $un:ident);*) => { $(
verus! {
impl VInt for $a {
    type B = [u8; $n];
    uninterp spec fn be_spec(self) -> Seq<u8>;
    open spec fn be_rel(self, b: [u8; $n]) -> bool { self as int == $un(b@) }
    #[verifier::external_body] fn vx_to_be_bytes(self) -> (r: [u8; $n]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_be_bytes(b: [u8; $n]) -> (r: $a) { unimplemented!() }
    open spec fn le_rel(self, b: [u8; $n]) -> bool { self as int == $un(b@.reverse()) }
    #[verifier::external_body] fn vx_to_le_bytes(self) -> (r: [u8; $n]) { unimplemented!() }
    #[verifier::external_body] fn vx_from_le_bytes(b: [u8; $n]) -> (r: $a) { unimplemented!() }
}
} )* } }
beint!(u16, 2, un16; u64, 8, un64);

pub trait VCmpX: Sized {
    spec fn ov(self) -> int;
    fn vx_cmp(&self, o: &Self) -> (r: core::cmp::Ordering)
        ensures r == (if self.ov() < o.ov() { core::cmp::Ordering::Less } else if self.ov() == o.ov() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater });
    fn vx_checked_mul(self, o: Self) -> (r: Option<Self>)
        ensures match r { Some(x) => x.ov() == self.ov() * o.ov(), None => self.ov() * o.ov() > Self::top() };
    fn vx_abs_diff(self, o: Self) -> (r: Self) ensures r.ov() == (if self.ov() < o.ov() { o.ov() - self.ov() } else { self.ov() - o.ov() });
    fn vx_overflowing_add(self, o: Self) -> (r: (Self, bool))
        ensures r.1 == (self.ov() + o.ov() > Self::top()), r.0.ov() == (if r.1 { self.ov() + o.ov() - Self::top() - 1 } else { self.ov() + o.ov() });
    fn vx_overflowing_sub(self, o: Self) -> (r: (Self, bool))
        ensures r.1 == (self.ov() < o.ov()), r.0.ov() == (if r.1 { self.ov() - o.ov() + Self::top() + 1 } else { self.ov() - o.ov() });
    spec fn top() -> int;
    fn vx_max(self, o: Self) -> (r: Self) ensures r == (if self.ov() < o.ov() { o } else { self });
    fn vx_min(self, o: Self) -> (r: Self) ensures r == (if self.ov() <= o.ov() { self } else { o });
    fn vx_clamp(self, a: Self, b: Self) -> (r: Self)
        requires a.ov() <= b.ov()
        ensures r == (if self.ov() < a.ov() { a } else if self.ov() > b.ov() { b } else { self });
}
macro_rules! cmpx { ($($a:ty),*) => { $(
verus! {
impl VCmpX for $a {
    open spec fn ov(self) -> int { self as int }
    open spec fn top() -> int { <$a>::MAX as int }
    #[verifier::external_body] fn vx_cmp(&self, o: &$a) -> (r: core::cmp::Ordering) { unimplemented!() }
    #[verifier::external_body] fn vx_checked_mul(self, o: $a) -> (r: Option<$a>) { unimplemented!() }
    #[verifier::external_body] fn vx_abs_diff(self, o: $a) -> (r: $a) { unimplemented!() }
    #[verifier::external_body] fn vx_overflowing_add(self, o: $a) -> (r: ($a, bool)) { unimplemented!() }
    #[verifier::external_body] fn vx_overflowing_sub(self, o: $a) -> (r: ($a, bool)) { unimplemented!() }
    #[verifier::external_body] fn vx_max(self, o: $a) -> (r: $a) { unimplemented!() }
    #[verifier::external_body] fn vx_min(self, o: $a) -> (r: $a) { unimplemented!() }
    #[verifier::external_body] fn vx_clamp(self, a: $a, b: $a) -> (r: $a) { unimplemented!() }
}
} )* } }
cmpx!(u8, u16, u32, u64, usize);
pub assume_specification [u32::rotate_left](x: u32, n: u32) -> (r: u32)
    ensures n < 32 ==> r == ((x << n) | (x >> ((32 - n) as u32))) || n == 0 && r == x;
pub assume_specification [u32::rotate_right](x: u32, n: u32) -> (r: u32)
    ensures n < 32 ==> r == ((x >> n) | (x << ((32 - n) as u32))) || n == 0 && r == x;
pub assume_specification [u32::swap_bytes](x: u32) -> (r: u32)
    ensures be32(r) =~= be32(x).reverse(), r == un32(be32(x).reverse());
pub assume_specification [usize::div_ceil](x: usize, n: usize) -> (r: usize)
    requires n != 0
    ensures r == x / n + (if x % n == 0 { 0int } else { 1int });
pub assume_specification [u32::div_ceil](x: u32, n: u32) -> (r: u32)
    requires n != 0
    ensures r == x / n + (if x % n == 0 { 0int } else { 1int });
pub assume_specification<T> [bool::then_some::<T>](b: bool, x: T) -> (r: Option<T>)
    ensures r == (if b { Some(x) } else { None });

// ---------- Option / Result
pub trait VOptMore<T>: Sized {
    spec fn om(self) -> Option<T>;
    fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
        requires self.om() matches Some(x) ==> call_requires(f, (&x,))
        ensures match self.om() { Some(x) => call_ensures(f, (&x,), true) && r == Some(x) || call_ensures(f, (&x,), false) && r is None, None => r is None };
    fn vx_take(&mut self) -> (r: Option<T>) ensures r == old(self).om(), final(self).om() is None;
    fn vx_or(self, o: Option<T>) -> (r: Option<T>) ensures r == (if self.om() is Some { self.om() } else { o });
    fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
        requires self.om() is None ==> call_requires(f, ())
        ensures match self.om() { Some(x) => r == Some(x), None => call_ensures(f, (), r) };
    fn vx_unwrap_or_default(self) -> (r: T) where T: VDefault
        ensures match self.om() { Some(x) => r == x, None => T::default_post(r) };
}
impl<T> VOptMore<T> for Option<T> {
    open spec fn om(self) -> Option<T> { self }
    #[verifier::external_body] fn vx_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_take(&mut self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_or(self, o: Option<T>) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: T) where T: VDefault { unimplemented!() }
}
pub trait VResMore<T, E>: Sized {
    spec fn rm(self) -> Result<T, E>;
    fn vx_or_else<G, F: FnOnce(E) -> Result<T, G>>(self, f: F) -> (r: Result<T, G>)
        requires self.rm() matches Err(e) ==> call_requires(f, (e,))
        ensures match self.rm() { Ok(x) => r == Result::<T, G>::Ok(x), Err(e) => call_ensures(f, (e,), r) };
    fn vx_or<G>(self, o: Result<T, G>) -> (r: Result<T, G>)
        ensures match self.rm() { Ok(x) => r == Result::<T, G>::Ok(x), Err(_) => r == o };
    fn vx_unwrap_or_default(self) -> (r: T) where T: VDefault
        ensures match self.rm() { Ok(x) => r == x, Err(_) => T::default_post(r) };
}
impl<T, E> VResMore<T, E> for Result<T, E> {
    open spec fn rm(self) -> Result<T, E> { self }
    #[verifier::external_body] fn vx_or_else<G, F: FnOnce(E) -> Result<T, G>>(self, f: F) -> (r: Result<T, G>) { unimplemented!() }
    #[verifier::external_body] fn vx_or<G>(self, o: Result<T, G>) -> (r: Result<T, G>) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: T) where T: VDefault { unimplemented!() }
}

// ---------- iterators
pub trait VIterMore: VIter {
    fn vx_find<F: Fn(&Self::Item) -> bool>(&mut self, f: F) -> (r: Option<Self::Item>)
        requires old(self).wf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (&#[trigger] old(self).seq()[i],))
        ensures final(self).wf(), match r {
            Some(x) => exists|k: int| 0 <= k < old(self).seq().len() && #[trigger] old(self).seq()[k] == x && call_ensures(f, (&x,), true)
                && forall|j: int| 0 <= j < k ==> call_ensures(f, (&#[trigger] old(self).seq()[j],), false),
            None => forall|j: int| 0 <= j < old(self).seq().len() ==> call_ensures(f, (&#[trigger] old(self).seq()[j],), false) };
    fn vx_step_by(self, n: usize) -> (r: VAdapt<Self::Item>)
        requires self.wf(), n > 0
        ensures r.seq().len() == (self.seq().len() + n - 1) / n as int, forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == self.seq()[i * n];
    fn vx_skip_while<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: VAdapt<Self::Item>)
        requires self.wf(), forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (&#[trigger] self.seq()[i],))
        ensures r.seq().len() <= self.seq().len(), r.seq() =~= self.seq().subrange(self.seq().len() - r.seq().len(), self.seq().len() as int),
            forall|j: int| 0 <= j < self.seq().len() - r.seq().len() ==> call_ensures(f, (&#[trigger] self.seq()[j],), true),
            r.seq().len() > 0 ==> call_ensures(f, (&r.seq()[0],), false);
    fn vx_filter<F: Fn(&Self::Item) -> bool>(self, f: F) -> (r: VAdapt<Self::Item>)
        requires self.wf(), forall|i: int| 0 <= i < self.seq().len() ==> call_requires(f, (&#[trigger] self.seq()[i],))
        ensures r.seq().len() <= self.seq().len(), exists|p: Seq<bool>| kept(f, self.seq(), p) && r.seq() == #[trigger] picked(self.seq(), p);
    fn vx_next_back(&mut self) -> (r: Option<Self::Item>)
        requires old(self).wf()
        ensures final(self).wf(), match r {
            Some(x) => old(self).seq().len() > 0 && x == old(self).seq().last() && final(self).seq() =~= old(self).seq().drop_last(),
            None => old(self).seq().len() == 0 && final(self).seq() =~= old(self).seq() };
    fn vx_rposition<F: Fn(Self::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires old(self).wf(), forall|i: int| 0 <= i < old(self).seq().len() ==> call_requires(f, (#[trigger] old(self).seq()[i],))
        ensures final(self).wf(),
            match r {
                Some(k) => k < old(self).seq().len() && call_ensures(f, (old(self).seq()[k as int],), true)
                    && forall|j: int| k < j < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[j],), false),
                None => forall|j: int| 0 <= j < old(self).seq().len() ==> call_ensures(f, (#[trigger] old(self).seq()[j],), false),
            };
}
pub open spec fn kept<T, F: Fn(&T) -> bool>(f: F, s: Seq<T>, p: Seq<bool>) -> bool {
    p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (&#[trigger] s[i],), p[i])
}
pub open spec fn picked<T>(s: Seq<T>, p: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || p.len() != s.len() { Seq::empty() }
    else if p.last() { picked(s.drop_last(), p.drop_last()).push(s.last()) } else { picked(s.drop_last(), p.drop_last()) }
}
impl<I: VIter> VIterMore for I {
    #[verifier::external_body] fn vx_find<F: Fn(&I::Item) -> bool>(&mut self, f: F) -> (r: Option<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_step_by(self, n: usize) -> (r: VAdapt<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_skip_while<F: Fn(&I::Item) -> bool>(self, f: F) -> (r: VAdapt<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_filter<F: Fn(&I::Item) -> bool>(self, f: F) -> (r: VAdapt<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_next_back(&mut self) -> (r: Option<I::Item>) { unimplemented!() }
    #[verifier::external_body] fn vx_rposition<F: Fn(I::Item) -> bool>(&mut self, f: F) -> (r: Option<usize>) { unimplemented!() }
}

// ---------- slices and vectors
pub trait VSliceMore<T> {
    spec fn sx(&self) -> Seq<T>;
    fn vx_chunks(&self, n: usize) -> (r: VAdapt<&[T]>)
        requires n > 0
        ensures r.seq().len() == (self.sx().len() + n - 1) / n as int,
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ =~= self.sx().subrange(i * n, if (i + 1) * n <= self.sx().len() { (i + 1) * n } else { self.sx().len() as int });
    fn vx_chunks_exact(&self, n: usize) -> (r: VAdapt<&[T]>)
        requires n > 0
        ensures r.seq().len() == self.sx().len() / n as nat,
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ =~= self.sx().subrange(i * n, (i + 1) * n);
    fn vx_windows(&self, n: usize) -> (r: VAdapt<&[T]>)
        requires n > 0
        ensures r.seq().len() == (if self.sx().len() < n { 0 } else { self.sx().len() - n + 1 }),
            forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ =~= self.sx().subrange(i, i + n);
}
impl<T> VSliceMore<T> for [T] {
    open spec fn sx(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_chunks(&self, n: usize) -> (r: VAdapt<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vx_chunks_exact(&self, n: usize) -> (r: VAdapt<&[T]>) { unimplemented!() }
    #[verifier::external_body] fn vx_windows(&self, n: usize) -> (r: VAdapt<&[T]>) { unimplemented!() }
}
pub trait VMutMore<T> {
    spec fn mm(&self) -> Seq<T>;
    fn vx_swap(&mut self, i: usize, j: usize)
        requires i < old(self).mm().len(), j < old(self).mm().len()
        ensures final(self).mm() =~= old(self).mm().update(i as int, old(self).mm()[j as int]).update(j as int, old(self).mm()[i as int]);
    fn vx_reverse(&mut self) ensures final(self).mm() =~= old(self).mm().reverse();
    fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => i < old(self).mm().len() && *x == old(self).mm()[i as int] && final(self).mm() =~= old(self).mm().update(i as int, *final(x)),
            None => i >= old(self).mm().len() && final(self).mm() =~= old(self).mm() };
}
impl<T> VMutMore<T> for [T] {
    open spec fn mm(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_swap(&mut self, i: usize, j: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
}
impl<T, const N: usize> VMutMore<T> for [T; N] {
    open spec fn mm(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_swap(&mut self, i: usize, j: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
}
impl<T> VMutMore<T> for Vec<T> {
    open spec fn mm(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_swap(&mut self, i: usize, j: usize) { unimplemented!() }
    #[verifier::external_body] fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body] fn vx_get_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
}
}
