// ---------------------------------------------------------------- mnemonic sizes
#mod bip39::mnemonic_type
impl MnemonicType {
    /// the number of checksum bits of the size, 4 to 8
    pub open spec fn k(&self) -> nat {
        match *self { MnemonicType::Words12 => 4, MnemonicType::Words15 => 5, MnemonicType::Words18 => 6, MnemonicType::Words21 => 7, MnemonicType::Words24 => 8 }
    }
}
pub open spec fn is_k(k: int) -> bool { 4 <= k <= 8 }
pub proof fn lemma_discr(t: MnemonicType)
    ensures (t as usize) == t.k() * 32 * 256 + t.k(), (t as usize) >> 8 == t.k() * 32, ((t as usize) as u8) == t.k()
{
    assert((128usize << 8) | 4 == 32772) by(bit_vector);
    assert((160usize << 8) | 5 == 40965) by(bit_vector);
    assert((192usize << 8) | 6 == 49158) by(bit_vector);
    assert((224usize << 8) | 7 == 57351) by(bit_vector);
    assert((256usize << 8) | 8 == 65544) by(bit_vector);
    let d = t as usize;
    assert(d >> 8 == d / 256) by(bit_vector);
    assert((d as u8) == d % 256) by(bit_vector);
}
#fn MnemonicType::for_word_count
#params size
#ensures C02 C07
        match vx_r { Ok(t) => size == 3 * t.k(), Err(e) => e.kind@ == ErrorKind::InvalidWordLength(size) && !(size % 3 == 0 && is_k(size as int / 3)) },
#fn MnemonicType::for_key_size
#params size
#ensures C01 C07
        match vx_r { Ok(t) => size == 32 * t.k(), Err(e) => e.kind@ == ErrorKind::InvalidKeysize(size) && !(size % 32 == 0 && is_k(size as int / 32)) },
#fn MnemonicType::for_phrase
#params phrase
#ensures C07
        match vx_r {
            Ok(t) => split_spec(phrase@, ' ').len() == 3 * t.k(),
            Err(e) => e.kind@ == ErrorKind::InvalidWordLength(split_spec(phrase@, ' ').len() as usize) && split_spec(phrase@, ' ').len() <= usize::MAX
                && !(split_spec(phrase@, ' ').len() % 3 == 0 && is_k(split_spec(phrase@, ' ').len() as int / 3)),
        },
#pre
proof { reveal_strlit(" "); }
#fn MnemonicType::total_bits
#ensures C07
        vx_r == 33 * self.k(),
#fn MnemonicType::entropy_bits
#ensures C01 C06 C07
        vx_r == 32 * self.k(),
#pre
proof { lemma_discr(*self); }
#fn MnemonicType::checksum_bits
#ensures C07
        vx_r == self.k(),
#pre
proof { lemma_discr(*self); }
#fn MnemonicType::word_count
#ensures C07
        vx_r == 3 * self.k(),
#impl MnemonicType as Default
    open spec fn default_post(r: Self) -> bool { r == MnemonicType::Words12 }
#fn <MnemonicType as Default>::default
#prop C07
#impl MnemonicType as Display
    open spec fn disp(&self) -> Seq<char> { dec(3 * self.k()) + " words ("@ + dec(32 * self.k()) + "bits)"@ }
#fn <MnemonicType as Display>::fmt
#params f
#prop C07
// ---------------------------------------------------------------- hashing helpers
#fn sha256_first_byte
#params input
#ensures C01 C02
        vx_r == sha256(input@)[0],
#fn gen_random_bytes
#params byte_length
#requires
        byte_length <= 32,
#ensures C06
        vx_r@.len() == byte_length, csprng(vx_r@),
#fn pbkdf2
#params input, salt
#ensures C05
        vx_r@ == pbkdf2_spec(512, input@, utf8(salt@), 2048, 64), vx_r@.len() == 64,
#fn ripemd
#params msg
#ensures C24
        vx_r@ == hexs(ripemd160(msg@), false),
#pre
proof { assert(Seq::<u8>::empty() + msg@ =~= msg@); }
#fn ecdsa_sign
#params secret, bytes
#ensures C23
        match vx_r {
            Ok(o) => bytes@.len() == 32 && o.0@ == ecdsa_sig(secret.b(), bytes@) && o.1 == ecdsa_rec(secret.b(), bytes@),
            Err(_) => bytes@.len() != 32,
        },
// ---------------------------------------------------------------- seeds
#mod spec
/// two digits per byte, with 0x in front in the alternate form
pub open spec fn hexp(b: Seq<u8>, alt: bool, upper: bool) -> Seq<char> { if alt { seq!['0', 'x'] + hexs(b, upper) } else { hexs(b, upper) } }
pub proof fn lemma_hexs_push(b: Seq<u8>, k: int, upper: bool)
    requires 0 <= k < b.len()
    ensures hexs(b.subrange(0, k + 1), upper) == hexs(b.subrange(0, k), upper) + hex2(b[k], upper)
{ assert(b.subrange(0, k + 1).drop_last() =~= b.subrange(0, k)); }
#fn Seed::new
#params mnemonic, password
#ensures C05
        vx_r.bytes@ == pbkdf2_spec(512, mnemonic.mbytes(), utf8(nfkd("mnemonic"@ + password@)), 2048, 64), vx_r.bytes@.len() == 64,
#fn Seed::as_bytes
#ensures C05
        vx_r@ == self.bytes@,
#impl Seed as AsRef<[u8]>
    open spec fn as_ref_spec(&self) -> &[u8] { crate::vx::slice_of(self.bytes@) }
#fn <Seed as AsRef<[u8]>>::as_ref
#prop C05
#impl Seed as Debug
    open spec fn dbg(&self) -> Seq<char> { hexp(self.bytes@, true, true) }
#fn <Seed as Debug>::fmt
#params f
#prop C24
#impl Seed as LowerHex
    open spec fn hexs(&self, alt: bool) -> Seq<char> { hexp(self.bytes@, alt, false) }
#fn <Seed as LowerHex>::fmt
#params f
#prop C24
#pre
let ghost vx_b = self.bytes@;
let ghost vx_p = if f.alt() { seq!['0', 'x'] } else { Seq::<char>::empty() };
let ghost vx_f0 = f.out();
proof { reveal_strlit("0x"); assert("0x"@ =~= seq!['0', 'x']); assert(vx_b.subrange(0, 0) =~= Seq::empty()); }
#loop 0
            invariant
                crate::vx::vals::<u8, _>($S) =~= vx_b, vx_b == self.bytes@, vx_p == (if old(f).alt() { seq!['0', 'x'] } else { Seq::<char>::empty() }), vx_f0 == old(f).out(),
                f.alt() == old(f).alt(), f.infallible() == old(f).infallible(), f.out() =~= vx_f0 + vx_p + hexs(vx_b.subrange(0, $K), false),
#body 0
proof { if $IT.seq().len() > 0 { lemma_hexs_push(vx_b, $K, false); assert($IT.seq()[0] == $S[$K]); } }
#exit 0
proof { assert(vx_b.subrange(0, vx_b.len() as int) =~= vx_b); assert(vx_p + hexs(vx_b, false) =~= hexp(vx_b, old(f).alt(), false)); assert(vx_f0 + vx_p + hexs(vx_b, false) =~= vx_f0 + (vx_p + hexs(vx_b, false))); }
#impl Seed as UpperHex
    open spec fn hexs(&self, alt: bool) -> Seq<char> { hexp(self.bytes@, alt, true) }
#fn <Seed as UpperHex>::fmt
#params f
#prop C24
#pre
let ghost vx_b = self.bytes@;
let ghost vx_p = if f.alt() { seq!['0', 'x'] } else { Seq::<char>::empty() };
let ghost vx_f0 = f.out();
proof { reveal_strlit("0x"); assert("0x"@ =~= seq!['0', 'x']); assert(vx_b.subrange(0, 0) =~= Seq::empty()); }
#loop 0
            invariant
                crate::vx::vals::<u8, _>($S) =~= vx_b, vx_b == self.bytes@, vx_p == (if old(f).alt() { seq!['0', 'x'] } else { Seq::<char>::empty() }), vx_f0 == old(f).out(),
                f.alt() == old(f).alt(), f.infallible() == old(f).infallible(), f.out() =~= vx_f0 + vx_p + hexs(vx_b.subrange(0, $K), true),
#body 0
proof { if $IT.seq().len() > 0 { lemma_hexs_push(vx_b, $K, true); assert($IT.seq()[0] == $S[$K]); } }
#exit 0
proof { assert(vx_b.subrange(0, vx_b.len() as int) =~= vx_b); assert(vx_p + hexs(vx_b, true) =~= hexp(vx_b, old(f).alt(), true)); assert(vx_f0 + vx_p + hexs(vx_b, true) =~= vx_f0 + (vx_p + hexs(vx_b, true))); }
#impl Seed as Drop
    open spec fn wiped(&self) -> bool { crate::ext::zeroize::vec_mem_zero(&self.bytes) }
#fn <Seed as Drop>::drop
#prop C22
#impl ExtendedKey as Drop
    open spec fn wiped(&self) -> bool { forall|i: int| 0 <= i < 33 ==> self.key_bytes@[i] == 0u8 }
#fn <ExtendedKey as Drop>::drop
#prop C22
#mod bip39::mnemonic
impl Mnemonic {
    /// the phrase as password bytes
    pub open spec fn mbytes(&self) -> Seq<u8> { if self.lang == Language::ChineseSimplified { gb18030(self.phrase.z@) } else { utf8(self.phrase.z@) } }
}
#fn Mnemonic::phrase
#ensures C01 C02
        vx_r@ == self.phrase.z@,
#fn Mnemonic::into_phrase
#ensures C24
        vx_r@ == self.phrase.z@,
#fn Mnemonic::entropy
#ensures C01 C02
        vx_r@ == self.entropy.z@,
#fn Mnemonic::language
#ensures C01 C25
        vx_r == self.lang,
#fn Mnemonic::as_bytes
#ensures C05
        vx_r@ == self.mbytes(),
#pre
proof { assert(Seq::<u8>::empty() + gb18030(self.phrase.z@) =~= gb18030(self.phrase.z@)); }
#impl Mnemonic as AsRef<str>
    open spec fn as_ref_spec(&self) -> &str { crate::vx::str_of(self.phrase.z@) }
#fn <Mnemonic as AsRef<str>>::as_ref
#prop C24
#impl Mnemonic as Display
    open spec fn disp(&self) -> Seq<char> { self.phrase.z@ }
#fn <Mnemonic as Display>::fmt
#params f
#prop C24
#impl Mnemonic as Debug
    open spec fn dbg(&self) -> Seq<char> { crate::vx::str_dbg(self.phrase.z@) }
#fn <Mnemonic as Debug>::fmt
#params f
#prop C24
#impl Mnemonic as LowerHex
    open spec fn hexs(&self, alt: bool) -> Seq<char> { hexp(self.entropy.z@, alt, false) }
#fn <Mnemonic as LowerHex>::fmt
#params f
#prop C24
#pre
let ghost vx_b = self.entropy.z@;
let ghost vx_p = if f.alt() { seq!['0', 'x'] } else { Seq::<char>::empty() };
let ghost vx_f0 = f.out();
proof { reveal_strlit("0x"); assert("0x"@ =~= seq!['0', 'x']); assert(vx_b.subrange(0, 0) =~= Seq::empty()); }
#loop 0
            invariant
                crate::vx::vals::<u8, _>($S) =~= vx_b, vx_b == self.entropy.z@, vx_p == (if old(f).alt() { seq!['0', 'x'] } else { Seq::<char>::empty() }), vx_f0 == old(f).out(),
                f.alt() == old(f).alt(), f.infallible() == old(f).infallible(), f.out() =~= vx_f0 + vx_p + hexs(vx_b.subrange(0, $K), false),
#body 0
proof { if $IT.seq().len() > 0 { lemma_hexs_push(vx_b, $K, false); assert($IT.seq()[0] == $S[$K]); } }
#exit 0
proof { assert(vx_b.subrange(0, vx_b.len() as int) =~= vx_b); assert(vx_p + hexs(vx_b, false) =~= hexp(vx_b, old(f).alt(), false)); assert(vx_f0 + vx_p + hexs(vx_b, false) =~= vx_f0 + (vx_p + hexs(vx_b, false))); }
#impl Mnemonic as UpperHex
    open spec fn hexs(&self, alt: bool) -> Seq<char> { hexp(self.entropy.z@, alt, true) }
#fn <Mnemonic as UpperHex>::fmt
#params f
#prop C24
#pre
let ghost vx_b = self.entropy.z@;
let ghost vx_p = if f.alt() { seq!['0', 'x'] } else { Seq::<char>::empty() };
let ghost vx_f0 = f.out();
proof { reveal_strlit("0x"); assert("0x"@ =~= seq!['0', 'x']); assert(vx_b.subrange(0, 0) =~= Seq::empty()); }
#loop 0
            invariant
                crate::vx::vals::<u8, _>($S) =~= vx_b, vx_b == self.entropy.z@, vx_p == (if old(f).alt() { seq!['0', 'x'] } else { Seq::<char>::empty() }), vx_f0 == old(f).out(),
                f.alt() == old(f).alt(), f.infallible() == old(f).infallible(), f.out() =~= vx_f0 + vx_p + hexs(vx_b.subrange(0, $K), true),
#body 0
proof { if $IT.seq().len() > 0 { lemma_hexs_push(vx_b, $K, true); assert($IT.seq()[0] == $S[$K]); } }
#exit 0
proof { assert(vx_b.subrange(0, vx_b.len() as int) =~= vx_b); assert(vx_p + hexs(vx_b, true) =~= hexp(vx_b, old(f).alt(), true)); assert(vx_f0 + vx_p + hexs(vx_b, true) =~= vx_f0 + (vx_p + hexs(vx_b, true))); }
#impl String as From<Mnemonic>
    open spec fn from_post(x: Mnemonic, r: Self) -> bool { r@ == x.phrase.z@ }
#fn <String as From<Mnemonic>>::from
#prop C24
#end
