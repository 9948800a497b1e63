// ===== ext: assumed contracts of the crates the code depends on =====
pub mod ext {
pub mod libsecp256k1 {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    #[derive(Debug)]
    pub struct Error;
    #[verifier::external_body]
    pub struct SecretKey { _p: u8 }
    impl SecretKey {
        pub uninterp spec fn b(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn vx_parse(x: &[u8; 32]) -> (r: Result<SecretKey, Error>)
            ensures match r { Ok(k) => sk_ok(x@) && k.b() =~= x@, Err(_) => !sk_ok(x@) } { unimplemented!() }
        #[verifier::external_body]
        pub fn parse_slice(x: &[u8]) -> (r: Result<SecretKey, Error>)
            ensures match r { Ok(k) => sk_ok(x@) && k.b() =~= x@, Err(_) => !sk_ok(x@) } { unimplemented!() }
        #[verifier::external_body]
        pub fn serialize(&self) -> (r: [u8; 32]) ensures r@ == self.b() { unimplemented!() }
        #[verifier::external_body]
        pub fn tweak_add_assign(&mut self, t: &SecretKey) -> (r: Result<(), Error>)
            ensures match r {
                Ok(_) => sk_add(old(self).b(), t.b()) == Some(final(self).b()),
                Err(_) => sk_add(old(self).b(), t.b()) is None && *final(self) == *old(self) } { unimplemented!() }
    }
    impl Clone for SecretKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for SecretKey {}
    pub broadcast axiom fn ax_sk(k: SecretKey) ensures sk_ok(#[trigger] k.b());
    pub axiom fn ax_sk_ext(a: SecretKey, b: SecretKey) requires a.b() == b.b() ensures a == b;
    impl VEq for SecretKey {
        open spec fn veq_spec(&self, o: &SecretKey) -> bool { self.b() == o.b() }
        #[verifier::external_body] fn veq(&self, o: &SecretKey) -> (r: bool) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct PublicKey { _p: u8 }
    impl PublicKey {
        pub uninterp spec fn b(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn from_secret_key(k: &SecretKey) -> (r: PublicKey) ensures r.b() == gmul(k.b()) { unimplemented!() }
        #[verifier::external_body]
        pub fn parse_compressed(x: &[u8; 33]) -> (r: Result<PublicKey, Error>)
            ensures match r { Ok(k) => point_ok(x@) && k.b() =~= x@, Err(_) => !point_ok(x@) } { unimplemented!() }
        #[verifier::external_body]
        pub fn serialize_compressed(&self) -> (r: [u8; 33]) ensures r@ == self.b() { unimplemented!() }
        #[verifier::external_body]
        pub fn tweak_add_assign(&mut self, t: &SecretKey) -> (r: Result<(), Error>)
            ensures match r {
                Ok(_) => padd(old(self).b(), t.b()) == Some(final(self).b()),
                Err(_) => padd(old(self).b(), t.b()) is None && *final(self) == *old(self) } { unimplemented!() }
    }
    impl Clone for PublicKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
    impl Copy for PublicKey {}
    pub broadcast axiom fn ax_pk(k: PublicKey) ensures point_ok(#[trigger] k.b());
    impl VEq for PublicKey {
        open spec fn veq_spec(&self, o: &PublicKey) -> bool { self.b() == o.b() }
        #[verifier::external_body] fn veq(&self, o: &PublicKey) -> (r: bool) { unimplemented!() }
    }
    impl Debug for PublicKey {
        uninterp spec fn dbg(&self) -> Seq<char>;
        #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Message { _p: u8 }
    impl Message {
        pub uninterp spec fn b(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn parse_slice(x: &[u8]) -> (r: Result<Message, Error>)
            ensures match r { Ok(m) => x@.len() == 32 && m.b() =~= x@, Err(_) => x@.len() != 32 } { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_parse(x: &[u8; 32]) -> (r: Message) ensures r.b() == x@ { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct Signature { _p: u8 }
    impl Signature {
        pub uninterp spec fn b(&self) -> Seq<u8>;
        #[verifier::external_body]
        pub fn serialize(&self) -> (r: [u8; 64]) ensures r@ == self.b() { unimplemented!() }
    }
    #[verifier::external_body]
    pub struct RecoveryId { _p: u8 }
    impl RecoveryId {
        pub uninterp spec fn v(&self) -> u8;
        #[verifier::external_body]
        pub fn serialize(&self) -> (r: u8) ensures r == self.v() { unimplemented!() }
    }
    impl VFrom<RecoveryId> for u8 {
        open spec fn from_post(x: RecoveryId, r: u8) -> bool { r == x.v() }
        #[verifier::external_body] fn vx_from(x: RecoveryId) -> (r: u8) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn sign(m: &Message, k: &SecretKey) -> (r: (Signature, RecoveryId))
        ensures r.0.b() == ecdsa_sig(k.b(), m.b()), r.1.v() == ecdsa_rec(k.b(), m.b()) { unimplemented!() }
}
pub mod bs58 {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    pub mod encode { use vstd::prelude::*; #[derive(Debug)] pub struct Error; }
    pub mod decode { use vstd::prelude::*; #[derive(Debug)] pub struct Error; }
    pub struct EncodeBuilder { pub data: Ghost<Seq<u8>> }
    pub struct EncodeCheck { pub data: Ghost<Seq<u8>> }
    #[verifier::external_body]
    pub fn encode<I: VAsRef<[u8]>>(x: I) -> (r: EncodeBuilder) ensures r.data@ == x.as_ref_spec()@ { unimplemented!() }
    impl EncodeBuilder {
        #[verifier::external_body]
        pub fn with_check(self) -> (r: EncodeCheck) ensures r.data == self.data { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_into<O: VAsMut<[u8]> + ?Sized>(self, out: &mut O) -> (r: Result<usize, encode::Error>) { unimplemented!() }
    }
    impl EncodeCheck {
        #[verifier::external_body]
        pub fn vx_into<O: VAsMut<[u8]> + ?Sized>(self, out: &mut O) -> (r: Result<usize, encode::Error>)
            ensures exists|a: &[u8], b: &[u8]| #[trigger] O::as_mut_rel(old(out), final(out), a, b) && b@.len() == a@.len() && match r {
                Ok(n) => n == b58c(self.data@).len() && n <= a@.len() && b@ =~= ascii_bytes(b58c(self.data@)) + a@.subrange(n as int, a@.len() as int)
                    && forall|k: int| 0 <= k <= n ==> #[trigger] b@.subrange(0, k) == ascii_bytes(b58c(self.data@)).subrange(0, k),
                Err(_) => b58c(self.data@).len() > a@.len() } { unimplemented!() }
    }
    pub struct DecodeBuilder { pub data: Ghost<Seq<u8>> }
    pub struct DecodeCheck { pub data: Ghost<Seq<u8>> }
    #[verifier::external_body]
    pub fn decode<I: VAsRef<[u8]>>(x: I) -> (r: DecodeBuilder) ensures r.data@ == x.as_ref_spec()@ { unimplemented!() }
    impl DecodeBuilder {
        #[verifier::external_body]
        pub fn with_check(self, v: Option<u8>) -> (r: DecodeCheck) requires v is None ensures r.data == self.data { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_into<O: VAsMut<[u8]> + ?Sized>(self, out: &mut O) -> (r: Result<usize, decode::Error>) { unimplemented!() }
    }
    impl DecodeCheck {
        #[verifier::external_body]
        pub fn vx_into<O: VAsMut<[u8]> + ?Sized>(self, out: &mut O) -> (r: Result<usize, decode::Error>)
            ensures exists|a: &[u8], b: &[u8]| #[trigger] O::as_mut_rel(old(out), final(out), a, b) && b@.len() == a@.len() && match r {
                Ok(n) => n + 4 <= a@.len() && b58c_un(self.data@) == Some(b@.subrange(0, n as int)),
                Err(_) => match b58c_un(self.data@) { Some(p) => p.len() + 4 > a@.len(), None => true } } { unimplemented!() }
    }
}
pub mod digestm {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    pub trait Digest: Sized {
        type Out;
        spec fn dg(m: Seq<u8>) -> Seq<u8>;
        spec fn ov(o: Self::Out) -> Seq<u8>;
        spec fn fed(&self) -> Seq<u8>;
        fn digest<D: VAsRef<[u8]>>(d: D) -> (r: Self::Out) ensures Self::ov(r) == Self::dg(d.as_ref_spec()@);
        fn new() -> (r: Self) ensures r.fed().len() == 0;
        fn update<D: VAsRef<[u8]>>(&mut self, d: D) ensures final(self).fed() =~= old(self).fed() + d.as_ref_spec()@;
        fn finalize(self) -> (r: Self::Out) ensures Self::ov(r) == Self::dg(self.fed());
    }
}
pub mod sha2 {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    pub use super::digestm::Digest;
    #[verifier::external_body] pub struct Sha256 { _p: u8 }
    #[verifier::external_body] pub struct Sha512 { _p: u8 }
    impl Digest for Sha256 {
        type Out = [u8; 32];
        open spec fn dg(m: Seq<u8>) -> Seq<u8> { sha256(m) }
        open spec fn ov(o: [u8; 32]) -> Seq<u8> { o@ }
        uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] fn digest<D: VAsRef<[u8]>>(d: D) -> (r: [u8; 32]) { unimplemented!() }
        #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
        #[verifier::external_body] fn update<D: VAsRef<[u8]>>(&mut self, d: D) { unimplemented!() }
        #[verifier::external_body] fn finalize(self) -> (r: [u8; 32]) { unimplemented!() }
    }
    impl Digest for Sha512 {
        type Out = [u8; 64];
        open spec fn dg(m: Seq<u8>) -> Seq<u8> { sha512(m) }
        open spec fn ov(o: [u8; 64]) -> Seq<u8> { o@ }
        uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] fn digest<D: VAsRef<[u8]>>(d: D) -> (r: [u8; 64]) { unimplemented!() }
        #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
        #[verifier::external_body] fn update<D: VAsRef<[u8]>>(&mut self, d: D) { unimplemented!() }
        #[verifier::external_body] fn finalize(self) -> (r: [u8; 64]) { unimplemented!() }
    }
}
pub mod ripemd {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    pub use super::digestm::Digest;
    #[verifier::external_body] pub struct Ripemd160 { _p: u8 }
    impl Digest for Ripemd160 {
        type Out = [u8; 20];
        open spec fn dg(m: Seq<u8>) -> Seq<u8> { ripemd160(m) }
        open spec fn ov(o: [u8; 20]) -> Seq<u8> { o@ }
        uninterp spec fn fed(&self) -> Seq<u8>;
        #[verifier::external_body] fn digest<D: VAsRef<[u8]>>(d: D) -> (r: [u8; 20]) { unimplemented!() }
        #[verifier::external_body] fn new() -> (r: Self) { unimplemented!() }
        #[verifier::external_body] fn update<D: VAsRef<[u8]>>(&mut self, d: D) { unimplemented!() }
        #[verifier::external_body] fn finalize(self) -> (r: [u8; 20]) { unimplemented!() }
    }
}
pub mod hmac {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    pub mod digest { use vstd::prelude::*; #[derive(Debug)] pub struct InvalidLength; }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(D)]
    pub struct Hmac<D> { _p: core::marker::PhantomData<D> }
    pub struct CtOutput { pub o: [u8; 64] }
    impl CtOutput {
        pub fn into_bytes(self) -> (r: [u8; 64]) ensures r == self.o { self.o }
    }
    pub trait Mac: Sized {
        spec fn key(&self) -> Seq<u8>;
        spec fn msg(&self) -> Seq<u8>;
        fn new_from_slice(k: &[u8]) -> (r: Result<Self, digest::InvalidLength>)
            ensures r matches Ok(h) && h.key() == k@ && h.msg().len() == 0;
        fn update(&mut self, d: &[u8]) ensures final(self).key() == old(self).key(), final(self).msg() =~= old(self).msg() + d@;
        fn chain_update(self, d: &[u8]) -> (r: Self) ensures r.key() == self.key(), r.msg() =~= self.msg() + d@;
        fn finalize(self) -> (r: CtOutput) ensures r.o@ == hmac512(self.key(), self.msg());
    }
    impl Mac for Hmac<super::sha2::Sha512> {
        uninterp spec fn key(&self) -> Seq<u8>;
        uninterp spec fn msg(&self) -> Seq<u8>;
        #[verifier::external_body] fn new_from_slice(k: &[u8]) -> (r: Result<Self, digest::InvalidLength>) { unimplemented!() }
        #[verifier::external_body] fn update(&mut self, d: &[u8]) { unimplemented!() }
        #[verifier::external_body] fn chain_update(self, d: &[u8]) -> (r: Self) { unimplemented!() }
        #[verifier::external_body] fn finalize(self) -> (r: CtOutput) { unimplemented!() }
    }
}
pub mod pbkdf2 {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    pub trait PrfSpec { spec fn prf_id() -> int; }
    impl PrfSpec for super::hmac::Hmac<super::sha2::Sha512> { open spec fn prf_id() -> int { 512 } }
    impl PrfSpec for super::hmac::Hmac<super::sha2::Sha256> { open spec fn prf_id() -> int { 256 } }
    #[verifier::external_body]
    pub fn pbkdf2<M: PrfSpec>(pw: &[u8], salt: &[u8], rounds: u32, out: &mut [u8])
        ensures final(out)@ =~= pbkdf2_spec(M::prf_id(), pw@, salt@, rounds as nat, old(out)@.len()), final(out)@.len() == old(out)@.len() { unimplemented!() }
}
pub mod hex {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    #[verifier::external_body]
    pub fn encode<T: VAsRef<[u8]>>(x: T) -> (r: String) ensures r@ == hexs(x.as_ref_spec()@, false) { unimplemented!() }
    #[verifier::external_body]
    pub fn encode_upper<T: VAsRef<[u8]>>(x: T) -> (r: String) ensures r@ == hexs(x.as_ref_spec()@, true) { unimplemented!() }
}
pub mod rand {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    #[verifier::external_body] pub struct ThreadRng { _p: u8 }
    #[verifier::external_body] pub fn thread_rng() -> (r: ThreadRng) { unimplemented!() }
    pub trait RngCore {
        /// every byte of the buffer is fresh output of the generator
        fn fill_bytes(&mut self, d: &mut [u8]) ensures final(d)@.len() == old(d)@.len(), csprng(final(d)@);
    }
    impl RngCore for ThreadRng { #[verifier::external_body] fn fill_bytes(&mut self, d: &mut [u8]) { unimplemented!() } }
}
pub mod unicode_normalization {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    pub trait UnicodeNormalization { }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(I)]
    pub struct Decompositions<I> { _p: core::marker::PhantomData<I> }
    impl<I> VIter for Decompositions<I> {
        type Item = char;
        uninterp spec fn seq(&self) -> Seq<char>;
        open spec fn wf(&self) -> bool { true }
        uninterp spec fn hi(&self) -> nat;
        #[verifier::external_body] fn next(&mut self) -> (r: Option<char>) { unimplemented!() }
        #[verifier::external_body] fn vx_size_hint(&self) -> (r: (usize, Option<usize>)) { unimplemented!() }
    }
    impl<I> Display for Decompositions<I> {
        open spec fn disp(&self) -> Seq<char> { self.seq() }
        #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: FResult) { unimplemented!() }
    }
}
pub mod zeroize {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    broadcast use crate::vx::group_vx;
    /// after the call the memory the value owned holds only zeros
    pub trait Zeroize {
        spec fn zeroed(&self) -> bool;
        fn zeroize(&mut self) ensures final(self).zeroed();
    }
    impl<const N: usize> Zeroize for [u8; N] {
        open spec fn zeroed(&self) -> bool { forall|i: int| 0 <= i < N ==> self@[i] == 0u8 }
        #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() }
    }
    pub uninterp spec fn vec_mem_zero(v: &Vec<u8>) -> bool;
    pub uninterp spec fn str_mem_zero(v: &String) -> bool;
    impl Zeroize for Vec<u8> {
        open spec fn zeroed(&self) -> bool { vec_mem_zero(self) && self@.len() == 0 }
        #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() }
    }
    impl Zeroize for String {
        open spec fn zeroed(&self) -> bool { str_mem_zero(self) && self@.len() == 0 }
        #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() }
    }
    macro_rules! zint { ($($a:ty),*) => { $(
    verus! {
    impl Zeroize for $a {
        open spec fn zeroed(&self) -> bool { *self == 0 }
        #[verifier::external_body] fn zeroize(&mut self) { unimplemented!() }
    }
    } )* } }
    zint!(u8, u16, u32, u64, usize);
    /// owner whose destructor zeroizes the value
    pub struct Zeroizing<T> { pub z: T }
    impl<T> Zeroizing<T> {
        pub fn new(z: T) -> (r: Self) ensures r.z == z { Zeroizing { z } }
    }
    impl<T> core::ops::Deref for Zeroizing<T> {
        type Target = T;
        fn deref(&self) -> (r: &T) ensures *r == self.z { &self.z }
    }
    impl<T> core::ops::DerefMut for Zeroizing<T> {
        fn deref_mut(&mut self) -> (r: &mut T) ensures *r == old(self).z, *final(r) == final(self).z { &mut self.z }
    }
    impl<T: Clone> Clone for Zeroizing<T> {
        #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    }
    impl<T> VFrom<T> for Zeroizing<T> {
        open spec fn from_post(x: T, r: Zeroizing<T>) -> bool { r.z == x }
        fn vx_from(x: T) -> (r: Zeroizing<T>) { Zeroizing { z: x } }
    }
}
pub mod once_cell { pub mod sync { use vstd::prelude::*; #[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Lazy<T> { _p: core::marker::PhantomData<T> } } }
pub mod subtle {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    pub struct Choice { pub c: bool }
    impl Clone for Choice { fn clone(&self) -> (r: Choice) ensures r == *self { *self } }
    impl Copy for Choice {}
    impl vstd::std_specs::ops::BitAndSpecImpl for Choice {
        open spec fn obeys_bitand_spec() -> bool { true }
        open spec fn bitand_req(self, o: Choice) -> bool { true }
        open spec fn bitand_spec(self, o: Choice) -> Choice { Choice { c: self.c && o.c } }
    }
    impl core::ops::BitAnd for Choice {
        type Output = Choice;
        fn bitand(self, o: Choice) -> (r: Choice) { Choice { c: self.c && o.c } }
    }
    impl vstd::std_specs::ops::BitOrSpecImpl for Choice {
        open spec fn obeys_bitor_spec() -> bool { true }
        open spec fn bitor_req(self, o: Choice) -> bool { true }
        open spec fn bitor_spec(self, o: Choice) -> Choice { Choice { c: self.c || o.c } }
    }
    impl core::ops::BitOr for Choice {
        type Output = Choice;
        fn bitor(self, o: Choice) -> (r: Choice) { Choice { c: self.c || o.c } }
    }
    impl VFrom<Choice> for bool {
        open spec fn from_post(x: Choice, r: bool) -> bool { r == x.c }
        fn vx_from(x: Choice) -> (r: bool) { x.c }
    }
    impl Choice { pub fn unwrap_u8(&self) -> (r: u8) ensures r == (if self.c { 1u8 } else { 0u8 }) { if self.c { 1 } else { 0 } } }
    pub trait ConstantTimeEq {
        spec fn ct_spec(&self, o: &Self) -> bool;
        fn vx_ct_eq(&self, o: &Self) -> (r: Choice) ensures r.c == self.ct_spec(o);
    }
    macro_rules! ctint { ($($a:ty),*) => { $(
    verus! {
    impl ConstantTimeEq for $a {
        open spec fn ct_spec(&self, o: &$a) -> bool { *self == *o }
        fn vx_ct_eq(&self, o: &$a) -> (r: Choice) { Choice { c: *self == *o } }
    }
    } )* } }
    ctint!(u8, u16, u32, u64, usize);
    impl<const N: usize> ConstantTimeEq for [u8; N] {
        open spec fn ct_spec(&self, o: &[u8; N]) -> bool { self@ =~= o@ }
        #[verifier::external_body] fn vx_ct_eq(&self, o: &[u8; N]) -> (r: Choice) { unimplemented!() }
    }
    impl ConstantTimeEq for [u8] {
        open spec fn ct_spec(&self, o: &[u8]) -> bool { self@ =~= o@ }
        #[verifier::external_body] fn vx_ct_eq(&self, o: &[u8]) -> (r: Choice) { unimplemented!() }
    }
}
pub mod encoding {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    pub trait Encoding { fn raw_encoder(&self) -> (r: RawEncoder); }
    #[verifier::external_body] pub struct RawEncoder { _p: u8 }
    #[verifier::external_body] pub struct FeedResult { _p: u8 }
    impl RawEncoder {
        #[verifier::external_body]
        pub fn raw_feed(&mut self, s: &str, out: &mut Vec<u8>) -> (r: FeedResult) ensures final(out)@ =~= old(out)@ + gb18030(s@) { unimplemented!() }
    }
    pub mod codec { pub mod simpchinese {
        use vstd::prelude::*;
        pub struct Gb18030;
        pub const GB18030_ENCODING: Gb18030 = Gb18030;
        impl super::super::Encoding for Gb18030 { #[verifier::external_body] fn raw_encoder(&self) -> (r: super::super::RawEncoder) { unimplemented!() } }
    } }
}
pub mod rustc_hash {
    use vstd::prelude::*;
    use crate::vx::*;
    use crate::spec::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::reject_recursive_types(V)]
    pub struct FxHashMap<K, V> { _k: core::marker::PhantomData<(K, V)> }
    impl<V> FxHashMap<&'static str, V> {
        pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
        #[verifier::external_body]
        pub fn vx_get(&self, k: &str) -> (r: Option<&V>)
            ensures match r { Some(v) => self.m().dom().contains(k@) && *v == self.m()[k@], None => !self.m().dom().contains(k@) } { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self.m().dom().contains(k@) { unimplemented!() }
    }
    impl<V> crate::vx::VDefault for FxHashMap<&'static str, V> {
        open spec fn default_post(r: Self) -> bool { r.m() == Map::<Seq<char>, V>::empty() }
        #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() }
    }
    impl<V> FxHashMap<&'static str, V> {
        #[verifier::external_body]
        pub fn insert(&mut self, k: &'static str, v: V) -> (r: Option<V>)
            ensures final(self).m() == old(self).m().insert(k@, v) { unimplemented!() }
    }
    /// collecting pairs: later pairs win
    pub open spec fn pairs_map<V>(s: Seq<(&'static str, V)>) -> Map<Seq<char>, V> decreases s.len() {
        if s.len() == 0 { Map::empty() } else { pairs_map(s.drop_last()).insert(s.last().0@, s.last().1) }
    }
    impl<V> VFromIter<(&'static str, V)> for FxHashMap<&'static str, V> {
        open spec fn from_iter_post(s: Seq<(&'static str, V)>, r: Self) -> bool { r.m() == pairs_map(s) }
    }
}
pub mod anyhow {
    use vstd::prelude::*;
    use crate::vx::*;
    /// the wrapped error value (downcast_ref)
    pub struct Error { pub kind: Ghost<crate::bip39::ErrorKind> }
    impl VFrom<crate::bip39::ErrorKind> for Error {
        open spec fn from_post(x: crate::bip39::ErrorKind, r: Error) -> bool { r.kind@ == x }
        #[verifier::external_body] fn vx_from(x: crate::bip39::ErrorKind) -> (r: Error) { unimplemented!() }
    }
}
pub mod core {
    pub mod fmt { pub use crate::vx::{Display, Debug, LowerHex, UpperHex, Formatter, FResult as Result, FmtError as Error}; }
    pub mod str {
        use vstd::prelude::*;
        pub use crate::vx::VFromStr as FromStr;
        use crate::spec::*;
        #[derive(Debug)] pub struct Utf8Error;
        #[verifier::external_body]
        pub fn vx_from_utf8(b: &[u8]) -> (r: ::core::result::Result<&str, Utf8Error>)
            ensures r matches Ok(s) ==> utf8(s@) == b@,
                r is Err ==> !(forall|i: int| 0 <= i < b@.len() ==> (#[trigger] b@[i]) < 128) { unimplemented!() }
    }
    pub mod mem {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub fn vx_swap<T>(a: &mut T, b: &mut T) ensures *final(a) == *old(b), *final(b) == *old(a) { unimplemented!() }
        #[verifier::external_body]
        pub fn replace<T>(d: &mut T, s: T) -> (r: T) ensures r == *old(d), *final(d) == s { unimplemented!() }
        #[verifier::external_body]
        pub fn vx_take<T: crate::vx::VDefault>(d: &mut T) -> (r: T) ensures r == *old(d), T::default_post(*final(d)) { unimplemented!() }
    }
    pub mod cmp {
        use vstd::prelude::*;
        pub use ::core::cmp::Ordering;
        pub use crate::vx::VEq as PartialEq;
        pub fn vx_max<T: crate::vx2::VCmpX>(a: T, b: T) -> (r: T) ensures r == (if a.ov() <= b.ov() { b } else { a }) { b.vx_max(a) }
        pub fn vx_min<T: crate::vx2::VCmpX>(a: T, b: T) -> (r: T) ensures r == (if a.ov() <= b.ov() { a } else { b }) { a.vx_min(b) }
    }
    pub mod char {
        use vstd::prelude::*;
        use crate::spec::*;
        #[verifier::external_body]
        pub fn from_digit(n: u32, radix: u32) -> (r: Option<char>)
            requires 2 <= radix <= 36
            ensures r == (if n < radix { Some(hexd(n as nat, false)) } else { None }) { unimplemented!() }
    }
    pub mod marker { pub use ::core::marker::PhantomData; }
    pub mod result { pub use ::core::result::Result; }
    pub mod option { pub use ::core::option::Option; }
    pub mod array { pub use crate::vx::TryFromSliceError; }
    pub mod convert { pub use crate::vx::{VFrom as From, VInto as Into, VTryFrom as TryFrom, VTryInto as TryInto, VAsRef as AsRef, VAsMut as AsMut}; }
    pub mod iter { pub use crate::vx::{VIter as Iterator, VIntoIter as IntoIterator, VFromIter as FromIterator, VExtend as Extend, once}; }
    pub mod ops { pub use ::core::ops::*; }
}
pub mod std {
    pub mod thread {
        use vstd::prelude::*;
        /// whether a panic is unwinding: either answer
        #[verifier::external_body]
        pub fn panicking() -> (r: bool) { unimplemented!() }
    }
    pub use super::core::{fmt, str, mem, marker, result, option, array, convert, iter, ops, cmp, char};
    pub mod vec { pub use ::std::vec::Vec; pub use crate::vx::VAdapt as IntoIter; }
    pub mod string { pub use ::std::string::String; pub use crate::vx::VToString as ToString; }
}
pub mod alloc { pub use super::std::{vec, string}; }
}
