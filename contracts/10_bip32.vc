#mod spec
pub type BErr = crate::bip32::Error;
pub use crate::bip32::{ChildNumber, ExtendedKeyAttrs, ExtendedKey, ExtendedPrivateKey, ExtendedPublicKey, PrivateKey, PublicKey, DerivationPath, Prefix};
// ---------- BIP32
/// an extended key as plain data
pub struct XKey { pub key: Seq<u8>, pub depth: int, pub fp: Seq<u8>, pub child: u32, pub chain: Seq<u8> }
pub open spec fn hardened(c: u32) -> bool { c >= 0x8000_0000 }
pub open spec fn btc_seed() -> Seq<u8> { seq![0x42u8, 0x69, 0x74, 0x63, 0x6f, 0x69, 0x6e, 0x20, 0x73, 0x65, 0x65, 0x64] }
pub open spec fn left(i: Seq<u8>) -> Seq<u8> { i.subrange(0, 32) }
pub open spec fn right(i: Seq<u8>) -> Seq<u8> { i.subrange(32, 64) }
/// BIP32 CKDpriv on secp256k1 (None: no such child)
pub open spec fn ckd_priv(x: XKey, c: u32) -> Option<XKey> {
    let i = hmac512(x.chain, if hardened(c) { seq![0u8] + x.key + be32(c) } else { gmul(x.key) + be32(c) });
    match secp_tweak(x.key, left(i)) {
        Some(k) => if x.depth < 255 { Some(XKey { key: k, depth: x.depth + 1, fp: fp(gmul(x.key)), child: c, chain: right(i) }) } else { None },
        None => None,
    }
}
/// BIP32 CKDpub on secp256k1
pub open spec fn ckd_pub(x: XKey, c: u32) -> Option<XKey> {
    let i = hmac512(x.chain, x.key + be32(c));
    match secp_ptweak(x.key, left(i)) {
        Some(k) => if x.depth < 255 && !hardened(c) { Some(XKey { key: k, depth: x.depth + 1, fp: fp(x.key), child: c, chain: right(i) }) } else { None },
        None => None,
    }
}
/// BIP32 master key generation
pub open spec fn master(seed: Seq<u8>) -> Option<XKey> {
    let i = hmac512(btc_seed(), seed);
    if sk_ok(left(i)) { Some(XKey { key: left(i), depth: 0, fp: zeros(4), child: 0, chain: right(i) }) } else { None }
}
/// equality of extended keys, with the byte strings compared element by element
pub open spec fn xk_is(x: XKey, y: XKey) -> bool { x.key =~= y.key && x.fp =~= y.fp && x.chain =~= y.chain && x == y }
pub open spec fn xk_step(a: Option<XKey>, y: XKey) -> bool { match a { Some(x) => xk_is(x, y), None => false } }
pub open spec fn neuter(x: XKey) -> XKey { XKey { key: gmul(x.key), depth: x.depth, fp: x.fp, child: x.child, chain: x.chain } }
pub proof fn lemma_cn_bits()
    ensures
        forall|x: u32| #[trigger] (x | 0u32) == x,
        forall|x: u32| #[trigger] (0u32 | x) == x,
        forall|x: u32| #[trigger] (x ^ 0u32) == x,
        forall|x: u32| #[trigger] (x & 0u32) == 0u32,
        1u32 << 31u32 == 0x8000_0000u32,
        0u32 << 31 == 0u32,
        forall|x: u32| x < 0x8000_0000 ==> #[trigger] (0x8000_0000u32 ^ x) == x + 0x8000_0000,
        forall|x: u32| #[trigger] (0x7fff_ffffu32 & x) == (if x >= 0x8000_0000 { x - 0x8000_0000 } else { x as int }),
        forall|x: u32| #[trigger] (0x8000_0000u32 & x) == (if x >= 0x8000_0000 { 0x8000_0000u32 } else { 0u32 }),
        forall|x: u32| #[trigger] (x >> 31u32) == (if x >= 0x8000_0000 { 1u32 } else { 0u32 }),
        1u32 << 31 == 0x8000_0000u32,
        forall|x: u32| x < 0x8000_0000 ==> #[trigger] (x | 0x8000_0000u32) == x + 0x8000_0000,
        forall|x: u32| x < 0x8000_0000 ==> #[trigger] (0x8000_0000u32 | x) == x + 0x8000_0000,
        forall|x: u32| x < 0x8000_0000 ==> #[trigger] (x ^ 0x8000_0000u32) == x + 0x8000_0000,
        !0x8000_0000u32 == 0x7fff_ffffu32,
        forall|x: u32| #[trigger] (x & 0x7fff_ffffu32) == (if x >= 0x8000_0000 { x - 0x8000_0000 } else { x as int }),
        forall|x: u32| #[trigger] (x & 0x8000_0000u32) == (if x >= 0x8000_0000 { 0x8000_0000u32 } else { 0u32 }),
        forall|x: u32| #[trigger] (x >> 31) == (if x >= 0x8000_0000 { 1u32 } else { 0u32 }),
{
    assert(forall|x: u32| #[trigger] (x | 0u32) == x) by(bit_vector);
    assert(forall|x: u32| #[trigger] (0u32 | x) == x) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x ^ 0u32) == x) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x & 0u32) == 0u32) by(bit_vector);
    assert(1u32 << 31u32 == 0x8000_0000u32) by(bit_vector);
    assert(0u32 << 31 == 0u32) by(bit_vector);
    assert(forall|x: u32| x < 0x8000_0000 ==> #[trigger] (0x8000_0000u32 ^ x) == x + 0x8000_0000) by(bit_vector);
    assert(forall|x: u32| #[trigger] (0x7fff_ffffu32 & x) == (if x >= 0x8000_0000u32 { sub(x, 0x8000_0000u32) } else { x })) by(bit_vector);
    assert(forall|x: u32| #[trigger] (0x8000_0000u32 & x) == (if x >= 0x8000_0000 { 0x8000_0000u32 } else { 0u32 })) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x >> 31u32) == (if x >= 0x8000_0000 { 1u32 } else { 0u32 })) by(bit_vector);
    assert(1u32 << 31 == 0x8000_0000u32) by(bit_vector);
    assert(forall|x: u32| x < 0x8000_0000 ==> #[trigger] (x | 0x8000_0000u32) == x + 0x8000_0000) by(bit_vector);
    assert(forall|x: u32| x < 0x8000_0000 ==> #[trigger] (0x8000_0000u32 | x) == x + 0x8000_0000) by(bit_vector);
    assert(forall|x: u32| x < 0x8000_0000 ==> #[trigger] (x ^ 0x8000_0000u32) == x + 0x8000_0000) by(bit_vector);
    assert(!0x8000_0000u32 == 0x7fff_ffffu32) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x & 0x7fff_ffffu32) == (if x >= 0x8000_0000u32 { sub(x, 0x8000_0000u32) } else { x })) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x & 0x8000_0000u32) == (if x >= 0x8000_0000 { 0x8000_0000u32 } else { 0u32 })) by(bit_vector);
    assert(forall|x: u32| #[trigger] (x >> 31) == (if x >= 0x8000_0000 { 1u32 } else { 0u32 })) by(bit_vector);
}
pub open spec fn cn_value(index: u32, h: bool) -> int { if h { index + 0x8000_0000 } else { index as int } }
pub open spec fn cn_index(c: u32) -> int { if hardened(c) { c - 0x8000_0000 } else { c as int } }
pub open spec fn cn_text(c: u32) -> Seq<char> { if hardened(c) { dec(cn_index(c) as nat) + seq!['\''] } else { dec(cn_index(c) as nat) } }
pub open spec fn cn_num(s: Seq<char>, h: bool) -> Option<u32> {
    match parse_dec(s) { Some(n) => if n < 0x8000_0000 { Some(cn_value(n as u32, h) as u32) } else { None }, None => None }
}
/// the child number a text stands for
pub open spec fn cn_parse(s: Seq<char>) -> Option<u32> {
    if ends_with(s, seq!['\'']) { cn_num(s.drop_last(), true) } else { cn_num(s, false) }
}
#fn ChildNumber::new
#params index, hardened
#ensures C19
        match vx_r {
            Ok(c) => index < 0x8000_0000 && c.0 == cn_value(index, hardened),
            Err(e) => index >= 0x8000_0000 && e == BErr::ChildNumber,
        },
#pre
proof { lemma_cn_bits(); }
#fn ChildNumber::from_bytes
#params bytes
#ensures C16 C19
        vx_r.0 == un32(bytes@), bytes@ =~= be32(vx_r.0),
#pre
proof { lemma_un32(bytes@); }
#fn ChildNumber::to_bytes
#ensures C09 C10 C15 C19
        vx_r@ =~= be32(self.0), self.0 == un32(vx_r@),
#pre
proof { lemma_be32(self.0); }
#fn ChildNumber::index
#ensures C19
        vx_r == cn_index(self.0),
#pre
proof { lemma_cn_bits(); }
#fn ChildNumber::is_hardened
#ensures C09 C10 C19
        vx_r == hardened(self.0),
#pre
proof { lemma_cn_bits(); }
#impl ChildNumber as Display
    open spec fn disp(&self) -> Seq<char> { cn_text(self.0) }
#fn <ChildNumber as Display>::fmt
#prop C19 C20
#pre
proof { lemma_cn_bits(); reveal_strlit("'"); assert("'"@ =~= seq!['\'']); }
#impl ChildNumber as From<u32>
    open spec fn from_post(x: u32, r: ChildNumber) -> bool { r.0 == x }
#fn <ChildNumber as From<u32>>::from
#prop C19
#impl u32 as From<ChildNumber>
    open spec fn from_post(x: ChildNumber, r: u32) -> bool { r == x.0 }
#fn <u32 as From<ChildNumber>>::from
#prop C19
#impl ChildNumber as FromStr
    open spec fn parse_post(s: Seq<char>, r: core::result::Result<ChildNumber, BErr>) -> bool {
        match r { Ok(c) => cn_parse(s) == Some(c.0), Err(e) => cn_parse(s) is None && e == BErr::ChildNumber }
    }
#fn <ChildNumber as FromStr>::from_str
#params child
#prop C19 C20
#pre
let ghost vx_txt = child@;
proof {
    assert(forall|t: Seq<char>| vx_txt == #[trigger] (t + seq!['\'']) ==> ends_with(vx_txt, seq!['\'']) && vx_txt.drop_last() =~= t);
}

// ---------------------------------------------------------------- keys
#trait PrivateKey
    /// the key types' own operations, as functions on serialised bytes
    spec fn s_valid(b: Seq<u8>) -> bool;
    spec fn s_tweak(b: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>>;
    spec fn s_pub(b: Seq<u8>) -> Seq<u8>;
    spec fn sb(&self) -> Seq<u8>;
#fn PrivateKey::from_bytes
#params bytes
#ensures C08 C17
        match vx_r { Ok(k) => Self::s_valid(bytes@) && k.sb() == bytes@, Err(e) => !Self::s_valid(bytes@) && e == BErr::Crypto },
#fn PrivateKey::to_bytes
#ensures C09 C15 C21
        vx_r@ == self.sb(),
#fn PrivateKey::derive_child
#params other
#ensures C09
        match vx_r { Ok(k) => Self::s_tweak(self.sb(), other@) == Some(k.sb()), Err(e) => Self::s_tweak(self.sb(), other@) is None && e == BErr::Crypto },
#fn PrivateKey::public_key
#ensures C09 C11
        vx_r.pb() == Self::s_pub(self.sb()),
#impl SecretKey as PrivateKey
    open spec fn s_valid(b: Seq<u8>) -> bool { sk_ok(b) }
    open spec fn s_tweak(b: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>> { secp_tweak(b, t) }
    open spec fn s_pub(b: Seq<u8>) -> Seq<u8> { gmul(b) }
    open spec fn sb(&self) -> Seq<u8> { self.b() }
#fn <SecretKey as PrivateKey>::from_bytes
#prop C08 C17
#fn <SecretKey as PrivateKey>::to_bytes
#prop C09 C15 C21
#fn <SecretKey as PrivateKey>::derive_child
#prop C09 C14
#fn <SecretKey as PrivateKey>::public_key
#prop C09 C11
#trait PublicKey
    spec fn p_valid(b: Seq<u8>) -> bool;
    spec fn p_tweak(b: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>>;
    spec fn pb(&self) -> Seq<u8>;
#fn PublicKey::from_bytes
#params bytes
#ensures C17
        match vx_r { Ok(k) => Self::p_valid(bytes@) && k.pb() == bytes@, Err(e) => !Self::p_valid(bytes@) && e == BErr::Crypto },
#fn PublicKey::to_bytes
#ensures C10 C15
        vx_r@ == self.pb(),
#fn PublicKey::derive_child
#params other
#ensures C10
        match vx_r { Ok(k) => Self::p_tweak(self.pb(), other@) == Some(k.pb()), Err(e) => Self::p_tweak(self.pb(), other@) is None && e == BErr::Crypto },
#fn PublicKey::fingerprint
#ensures C09 C10
        vx_r@ == fp(self.pb()),
#impl PublicKey as PublicKey
    open spec fn p_valid(b: Seq<u8>) -> bool { point_ok(b) }
    open spec fn p_tweak(b: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>> { secp_ptweak(b, t) }
    open spec fn pb(&self) -> Seq<u8> { self.b() }
#fn <PublicKey as PublicKey>::from_bytes
#prop C17
#fn <PublicKey as PublicKey>::to_bytes
#prop C10 C15
#fn <PublicKey as PublicKey>::derive_child
#prop C10 C14

// ---------------------------------------------------------------- extended private keys
#mod spec
impl<K: PrivateKey> ExtendedPrivateKey<K> {
    pub open spec fn xk(&self) -> XKey {
        XKey { key: self.private_key.sb(), depth: self.attrs.depth as int, fp: self.attrs.parent_fingerprint@, child: self.attrs.child_number.0, chain: self.attrs.chain_code@ }
    }
    /// child derivation for any key type; thm_ckd_priv instantiates it to BIP32 CKDpriv
    pub open spec fn ckd(x: XKey, c: u32) -> Option<XKey> {
        let i = hmac512(x.chain, if hardened(c) { seq![0u8] + x.key + be32(c) } else { K::s_pub(x.key) + be32(c) });
        match K::s_tweak(x.key, left(i)) {
            Some(k) => if x.depth < 255 { Some(XKey { key: k, depth: x.depth + 1, fp: fp(K::s_pub(x.key)), child: c, chain: right(i) }) } else { None },
            None => None,
        }
    }
    /// the first n steps of a path
    pub open spec fn run(x: XKey, p: Seq<ChildNumber>, n: int) -> Option<XKey> decreases n {
        if n <= 0 { Some(x) } else { match Self::run(x, p, n - 1) { Some(y) => Self::ckd(y, p[n - 1].0), None => None } }
    }
    /// the error of a step that fails
    pub open spec fn bad(x: XKey, c: u32, e: BErr) -> bool { e == (if x.depth >= 255 { BErr::Depth } else { BErr::Crypto }) }
    /// e is the error of the first step of the path that fails
    pub open spec fn run_err(x: XKey, p: Seq<ChildNumber>, n: int, e: BErr) -> bool decreases n {
        if n <= 0 { false } else { match Self::run(x, p, n - 1) { Some(y) => Self::ckd(y, p[n - 1].0) is None && Self::bad(y, p[n - 1].0, e), None => Self::run_err(x, p, n - 1, e) } }
    }
    /// what deriving along a path from x gives: the stepwise result, or the first failing step's error
    pub open spec fn path_from(x: XKey, p: Seq<ChildNumber>, n: int, r: core::result::Result<Self, BErr>) -> bool {
        match Self::run(x, p, n) { Some(y) => r is Ok && r->Ok_0.xk() == y, None => r is Err && Self::run_err(x, p, n, r->Err_0) }
    }
    /// the first failing step decides the whole path
    pub proof fn lemma_stop(x: XKey, p: Seq<ChildNumber>, k: int, n: int, e: BErr)
        requires 0 <= k < n, Self::run(x, p, k) matches Some(y) && Self::ckd(y, p[k].0) is None && Self::bad(y, p[k].0, e),
        ensures Self::run(x, p, n) is None, Self::run_err(x, p, n, e),
        decreases n,
    {
        if k + 1 < n { Self::lemma_stop(x, p, k, n - 1, e); }
    }
    pub proof fn lemma_stops(p: Seq<ChildNumber>)
        ensures forall|x: XKey, k: int, a: Self, n: u32, e: BErr| #[trigger] Self::path_from(x, p, k, Ok(a)) && #[trigger] Self::bad(a.xk(), n, e) && 0 <= k < p.len() && n == p[k].0
            && Self::ckd(a.xk(), n) is None ==> Self::path_from(x, p, p.len() as int, Err(e)),
    {
        assert forall|x: XKey, k: int, a: Self, n: u32, e: BErr| #[trigger] Self::path_from(x, p, k, Ok(a)) && #[trigger] Self::bad(a.xk(), n, e) && 0 <= k < p.len() && n == p[k].0
            && Self::ckd(a.xk(), n) is None implies Self::path_from(x, p, p.len() as int, Err(e)) by {
            Self::lemma_stop(x, p, k, p.len() as int, e);
        }
    }
    pub open spec fn seed_len_ok(seed: Seq<u8>) -> bool { seed.len() == 16 || seed.len() == 32 || seed.len() == 64 || seed.len() == 128 }
    pub open spec fn new_ok(seed: Seq<u8>) -> bool { Self::seed_len_ok(seed) && K::s_valid(left(hmac512(btc_seed(), seed))) }
    pub open spec fn new_x(seed: Seq<u8>) -> XKey {
        let i = hmac512(btc_seed(), seed);
        XKey { key: left(i), depth: 0, fp: zeros(4), child: 0, chain: right(i) }
    }
    pub open spec fn new_post(seed: Seq<u8>, r: core::result::Result<Self, BErr>) -> bool {
        &&& Self::new_ok(seed) ==> r is Ok && xk_is(r->Ok_0.xk(), Self::new_x(seed))
        &&& !Self::new_ok(seed) ==> r is Err
        &&& !Self::seed_len_ok(seed) ==> r == core::result::Result::<Self, BErr>::Err(BErr::SeedLength)
    }
}
#fn ExtendedPrivateKey::new
#params seed
#ensures C08
        Self::new_post(seed.as_ref_spec()@, vx_r),
#fn ExtendedPrivateKey::new_from_path
#params seed, path
#ensures C12
        Self::new_ok(seed.as_ref_spec()@) ==> Self::path_from(Self::new_x(seed.as_ref_spec()@), path.path@, path.path@.len() as int, vx_r),
        !Self::new_ok(seed.as_ref_spec()@) ==> vx_r is Err,
        !Self::seed_len_ok(seed.as_ref_spec()@) ==> vx_r == core::result::Result::<Self, BErr>::Err(BErr::SeedLength),
#pre
        proof { Self::lemma_stops(path.path@); }
#loop 0
            invariant
                crate::vx::vals::<ChildNumber, _>($S) =~= path.path@,
                Self::new_ok(seed.as_ref_spec()@) ==> Self::path_from(Self::new_x(seed.as_ref_spec()@), path.path@, $K, $ACC),
                !Self::new_ok(seed.as_ref_spec()@) ==> $ACC is Err,
                !Self::seed_len_ok(seed.as_ref_spec()@) ==> $ACC == core::result::Result::<Self, BErr>::Err(BErr::SeedLength),
#body 0
        proof { Self::lemma_stops(path.path@); }
#fn ExtendedPrivateKey::derive_from_path
#params path
#ensures C12
        Self::path_from(self.xk(), path.path@, path.path@.len() as int, vx_r),
#pre
        proof { Self::lemma_stops(path.path@); }
#loop 0
            invariant
                crate::vx::vals::<ChildNumber, _>($S) =~= path.path@,
                Self::path_from(self.xk(), path.path@, $K, $ACC),
#body 0
        proof { Self::lemma_stops(path.path@); }
#fn ExtendedPrivateKey::derive_child
#params child_number
#ensures aux
        vx_r matches Err(e) ==> Self::bad(self.xk(), child_number.0, e),
#ensures C13
        self.attrs.depth == 255 ==> vx_r == core::result::Result::<Self, BErr>::Err(BErr::Depth),
        vx_r matches Ok(k) ==> k.attrs.depth == self.attrs.depth + 1,
#ensures C09
        match vx_r { Ok(k) => xk_step(Self::ckd(self.xk(), child_number.0), k.xk()), Err(e) => Self::ckd(self.xk(), child_number.0) is None },
#fn ExtendedPrivateKey::private_key
#ensures C17
        *vx_r == self.private_key,
#fn ExtendedPrivateKey::attrs
#ensures C13 C17
        *vx_r == self.attrs,
#fn ExtendedPrivateKey::public_key
#ensures C11
        xk_is(vx_r.xk(), XKey { key: K::s_pub(self.xk().key), ..self.xk() }),
#fn ExtendedPrivateKey::to_bytes
#ensures C15 C21
        vx_r@ == self.private_key.sb(),
#fn ExtendedPrivateKey::to_extended_key
#params prefix
#ensures C15
        vx_r.prefix == prefix, vx_r.attrs == self.attrs, vx_r.key_bytes@ =~= seq![0u8] + self.private_key.sb(),
#fn ExtendedPrivateKey::to_string
#params prefix
#ensures C15
        vx_r.z@ == b58c(xk_bytes(prefix.ver(), self.attrs, seq![0u8] + self.private_key.sb())),
#impl ExtendedPrivateKey as ConstantTimeEq
    open spec fn ct_spec(&self, o: &Self) -> bool { self.xk() == o.xk() }
#fn <ExtendedPrivateKey as ConstantTimeEq>::ct_eq
#prop C21
#impl ExtendedPrivateKey as PartialEq
    open spec fn veq_spec(&self, o: &Self) -> bool { self.xk() == o.xk() }
#fn <ExtendedPrivateKey as PartialEq>::eq
#prop C21
#impl ExtendedPrivateKey as Debug
    /// a function of the attributes alone: it cannot depend on the private key
    open spec fn dbg(&self) -> Seq<char> { xprv_dbg(self.attrs) }
#fn <ExtendedPrivateKey as Debug>::fmt
#prop C22
#mod spec
pub open spec fn xprv_dbg(a: ExtendedKeyAttrs) -> Seq<char> {
    crate::vx::dbg_close(crate::vx::dbg_field(crate::vx::dbg_field(crate::vx::dbg_open("ExtendedPrivateKey"@), "private_key"@, crate::vx::str_dbg("..."@)), "attrs"@, crate::vx::Debug::dbg(&a)))
}
#impl ExtendedPrivateKey as FromStr
    open spec fn parse_post(s: Seq<char>, r: core::result::Result<Self, BErr>) -> bool {
        match r {
            Ok(k) => exists|x: ExtendedKey| #[trigger] ExtendedKey::parse_post(s, Ok(x)) && <Self as TryFrom<ExtendedKey>>::try_from_post(x, Ok(k)),
            Err(e) => ExtendedKey::parse_post(s, Err(e)) || exists|x: ExtendedKey| #[trigger] ExtendedKey::parse_post(s, Ok(x)) && <Self as TryFrom<ExtendedKey>>::try_from_post(x, Err(e)),
        }
    }
#fn <ExtendedPrivateKey as FromStr>::from_str
#prop C17
#impl ExtendedPrivateKey as TryFrom<ExtendedKey>
    open spec fn try_from_post(x: ExtendedKey, r: core::result::Result<Self, BErr>) -> bool {
        let ok = x.prefix.ch().subrange(1, 4) =~= seq![112u8, 114, 118] && x.key_bytes@[0] == 0 && K::s_valid(x.key_bytes@.subrange(1, 33)) && attrs_ok(x.attrs);
        match r {
            Ok(k) => ok && k.attrs == x.attrs && k.private_key.sb() == x.key_bytes@.subrange(1, 33),
            Err(_) => !ok,
        }
    }
#fn <ExtendedPrivateKey as TryFrom<ExtendedKey>>::try_from
#prop C17
#mod spec
/// the 78 serialised bytes
pub open spec fn xk_bytes(version: u32, a: ExtendedKeyAttrs, key: Seq<u8>) -> Seq<u8> {
    be32(version) + seq![a.depth] + a.parent_fingerprint@ + be32(a.child_number.0) + a.chain_code@ + key
}
/// BIP32: a depth-zero key has no parent
pub open spec fn attrs_ok(a: ExtendedKeyAttrs) -> bool { a.depth != 0 || (a.parent_fingerprint@ =~= zeros(4) && a.child_number.0 == 0) }
#fn ExtendedKeyAttrs::is_consistent
#ensures C17
        vx_r == attrs_ok(*self),
#end
