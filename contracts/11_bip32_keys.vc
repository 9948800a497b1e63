
#mod spec
impl<K: PublicKey> ExtendedPublicKey<K> {
    pub open spec fn xk(&self) -> XKey {
        XKey { key: self.public_key.pb(), depth: self.attrs.depth as int, fp: self.attrs.parent_fingerprint@, child: self.attrs.child_number.0, chain: self.attrs.chain_code@ }
    }
    /// child derivation for any key type; thm_ckd_pub instantiates it to BIP32 CKDpub
    pub open spec fn ckd(x: XKey, c: u32) -> Option<XKey> {
        let i = hmac512(x.chain, x.key + be32(c));
        match K::p_tweak(x.key, left(i)) {
            Some(k) => if x.depth < 255 && !hardened(c) { Some(XKey { key: k, depth: x.depth + 1, fp: fp(x.key), child: c, chain: right(i) }) } else { None },
            None => None,
        }
    }
    /// the first n steps of a path
    pub open spec fn run(x: XKey, p: Seq<ChildNumber>, n: int) -> Option<XKey> decreases n {
        if n <= 0 { Some(x) } else { match Self::run(x, p, n - 1) { Some(y) => Self::ckd(y, p[n - 1].0), None => None } }
    }
    /// the error of a step that fails
    pub open spec fn bad(x: XKey, c: u32, e: BErr) -> bool { e == (if x.depth >= 255 && !hardened(c) { BErr::Depth } else if hardened(c) { BErr::ChildNumber } else { BErr::Crypto }) }
    /// e is the error of the first step of the path that fails
    pub open spec fn run_err(x: XKey, p: Seq<ChildNumber>, n: int, e: BErr) -> bool decreases n {
        if n <= 0 { false } else { match Self::run(x, p, n - 1) { Some(y) => Self::ckd(y, p[n - 1].0) is None && Self::bad(y, p[n - 1].0, e), None => Self::run_err(x, p, n - 1, e) } }
    }
    /// what deriving along a path from x gives: the stepwise result, or the first failing step's error
    pub open spec fn path_from(x: XKey, p: Seq<ChildNumber>, n: int, r: core::result::Result<Self, BErr>) -> bool {
        match Self::run(x, p, n) { Some(y) => r is Ok && r->Ok_0.xk() == y, None => r is Err && Self::run_err(x, p, n, r->Err_0) }
    }
    /// the first failing step decides the whole path
    pub proof fn lemma_stop(x: XKey, p: Seq<ChildNumber>, k: int, n: int, e: BErr)
        requires 0 <= k < n, Self::run(x, p, k) matches Some(y) && Self::ckd(y, p[k].0) is None && Self::bad(y, p[k].0, e),
        ensures Self::run(x, p, n) is None, Self::run_err(x, p, n, e),
        decreases n,
    {
        if k + 1 < n { Self::lemma_stop(x, p, k, n - 1, e); }
    }
    pub proof fn lemma_stops(p: Seq<ChildNumber>)
        ensures forall|x: XKey, k: int, a: Self, n: u32, e: BErr| #[trigger] Self::path_from(x, p, k, Ok(a)) && #[trigger] Self::bad(a.xk(), n, e) && 0 <= k < p.len() && n == p[k].0
            && Self::ckd(a.xk(), n) is None ==> Self::path_from(x, p, p.len() as int, Err(e)),
    {
        assert forall|x: XKey, k: int, a: Self, n: u32, e: BErr| #[trigger] Self::path_from(x, p, k, Ok(a)) && #[trigger] Self::bad(a.xk(), n, e) && 0 <= k < p.len() && n == p[k].0
            && Self::ckd(a.xk(), n) is None implies Self::path_from(x, p, p.len() as int, Err(e)) by {
            Self::lemma_stop(x, p, k, p.len() as int, e);
        }
    }
}
#fn ExtendedPublicKey::public_key
#ensures C17
        *vx_r == self.public_key,
#fn ExtendedPublicKey::attrs
#ensures C13 C17
        *vx_r == self.attrs,
#fn ExtendedPublicKey::fingerprint
#ensures C10
        vx_r@ == fp(self.public_key.pb()),
#fn ExtendedPublicKey::derive_from_path
#params path
#ensures C12
        Self::path_from(self.xk(), path.path@, path.path@.len() as int, vx_r),
#pre
        proof { Self::lemma_stops(path.path@); }
#loop 0
            invariant
                crate::vx::vals::<ChildNumber, _>($S) =~= path.path@,
                Self::path_from(self.xk(), path.path@, $K, $ACC),
#body 0
        proof { Self::lemma_stops(path.path@); }
#fn ExtendedPublicKey::derive_child
#params child_number
#ensures aux
        vx_r matches Err(e) ==> Self::bad(self.xk(), child_number.0, e),
#ensures C13
        self.attrs.depth == 255 && !hardened(child_number.0) ==> vx_r == core::result::Result::<Self, BErr>::Err(BErr::Depth),
        vx_r matches Ok(k) ==> k.attrs.depth == self.attrs.depth + 1,
#ensures C10
        match vx_r { Ok(k) => xk_step(Self::ckd(self.xk(), child_number.0), k.xk()), Err(e) => Self::ckd(self.xk(), child_number.0) is None },
#fn ExtendedPublicKey::to_bytes
#ensures C10 C15
        vx_r@ == self.public_key.pb(),
#fn ExtendedPublicKey::to_extended_key
#params prefix
#ensures C15
        vx_r.prefix == prefix, vx_r.attrs == self.attrs, vx_r.key_bytes@ == self.public_key.pb(),
#fn ExtendedPublicKey::to_string
#params prefix
#ensures C15
        vx_r@ == b58c(xk_bytes(prefix.ver(), self.attrs, self.public_key.pb())),
#fn <ExtendedPublicKey as PartialEq>::eq
#prop C21
#impl ExtendedPublicKey as From<&ExtendedPrivateKey<K>>
    open spec fn from_post(x: &ExtendedPrivateKey<K>, r: Self) -> bool { xk_is(r.xk(), XKey { key: K::s_pub(x.xk().key), ..x.xk() }) }
#fn <ExtendedPublicKey as From<&ExtendedPrivateKey<K>>>::from
#prop C11
#impl ExtendedPublicKey as FromStr
    open spec fn parse_post(s: Seq<char>, r: core::result::Result<Self, BErr>) -> bool {
        match r {
            Ok(k) => exists|x: ExtendedKey| #[trigger] ExtendedKey::parse_post(s, Ok(x)) && <Self as crate::vx::VTryFrom<ExtendedKey>>::try_from_post(x, Ok(k)),
            Err(e) => ExtendedKey::parse_post(s, Err(e)) || exists|x: ExtendedKey| #[trigger] ExtendedKey::parse_post(s, Ok(x)) && <Self as crate::vx::VTryFrom<ExtendedKey>>::try_from_post(x, Err(e)),
        }
    }
#fn <ExtendedPublicKey as FromStr>::from_str
#prop C17
#impl ExtendedPublicKey as TryFrom<ExtendedKey>
    open spec fn try_from_post(x: ExtendedKey, r: core::result::Result<Self, BErr>) -> bool {
        let ok = x.prefix.ch().subrange(1, 4) =~= seq![112u8, 117, 98] && K::p_valid(x.key_bytes@) && attrs_ok(x.attrs);
        match r {
            Ok(k) => ok && k.attrs == x.attrs && k.public_key.pb() == x.key_bytes@,
            Err(_) => !ok,
        }
    }
#fn <ExtendedPublicKey as TryFrom<ExtendedKey>>::try_from
#prop C17
#impl SecretKey as From<XPrv>
    open spec fn from_post(x: XPrv, r: Self) -> bool { r == x.private_key }
#fn <SecretKey as From<XPrv>>::from
#prop C17
#impl SecretKey as From<&XPrv>
    open spec fn from_post(x: &XPrv, r: Self) -> bool { r == x.private_key }
#fn <SecretKey as From<&XPrv>>::from
#prop C17
#impl PublicKey as From<XPub>
    open spec fn from_post(x: XPub, r: Self) -> bool { r == x.public_key }
#fn <PublicKey as From<XPub>>::from
#prop C17
#impl PublicKey as From<&XPub>
    open spec fn from_post(x: &XPub, r: Self) -> bool { r == x.public_key }
#fn <PublicKey as From<&XPub>>::from
#prop C17

// ---------------------------------------------------------------- prefixes
#mod spec
pub open spec fn letter(b: u8) -> bool { 97 <= b <= 122 || 65 <= b <= 90 }
/// four ASCII letters
pub open spec fn letters(b: Seq<u8>) -> bool { b.len() == 4 && forall|i: int| 0 <= i < 4 ==> letter(#[trigger] b[i]) }
/// text prefix of the all-zero key under a version
pub open spec fn version_text(v: u32) -> Seq<u8> { ascii_bytes(b58c(be32(v) + zeros(74))).subrange(0, 4) }
pub open spec fn prefix_post(v: u32, r: core::result::Result<Prefix, BErr>) -> bool {
    match r { Ok(p) => p.ver() == v && p.ch() == version_text(v) && letters(version_text(v)), Err(_) => !letters(version_text(v)) }
}
pub proof fn lemma_bytes7_sub(b: Seq<u8>, k: int) requires bytes7(b), 0 <= k <= b.len() ensures bytes7(b.subrange(0, k)) { }
pub proof fn lemma_letters7(b: Seq<u8>) requires letters(b) ensures bytes7(b), b.len() == 4 { }
#trait private Prefix
#mod bip32::prefix
impl Prefix {
    #[verifier::type_invariant]
    spec fn inv(self) -> bool { letters(self.chars@) }
    pub closed spec fn ch(self) -> Seq<u8> { self.chars@ }
    pub closed spec fn ver(self) -> u32 { self.version }
}
/// every prefix is four ASCII letters
pub proof fn lemma_prefix(tracked p: &Prefix) ensures letters(p.ch()) { use_type_invariant(p); }
#fn Prefix::from_parts_unchecked
#params s, version
#requires
        letters(utf8(s@)),
#ensures C18
        vx_r.ver() == version, vx_r.ch() =~= utf8(s@),
#fn Prefix::TPRV
#ensures C18
        vx_r.ver() == 0x04358394, vx_r.ch() =~= seq![116u8, 112, 114, 118],
#pre
proof { reveal_strlit("tprv"); }
#fn Prefix::TPUB
#ensures C18
        vx_r.ver() == 0x043587cf, vx_r.ch() =~= seq![116u8, 112, 117, 98],
#pre
proof { reveal_strlit("tpub"); }
#fn Prefix::XPRV
#ensures C18
        vx_r.ver() == 0x0488ade4, vx_r.ch() =~= seq![120u8, 112, 114, 118],
#pre
proof { reveal_strlit("xprv"); }
#fn Prefix::XPUB
#ensures C18
        vx_r.ver() == 0x0488b21e, vx_r.ch() =~= seq![120u8, 112, 117, 98],
#pre
proof { reveal_strlit("xpub"); }
#fn Prefix::YPRV
#ensures C18
        vx_r.ver() == 0x049d7878, vx_r.ch() =~= seq![121u8, 112, 114, 118],
#pre
proof { reveal_strlit("yprv"); }
#fn Prefix::YPUB
#ensures C18
        vx_r.ver() == 0x049d7cb2, vx_r.ch() =~= seq![121u8, 112, 117, 98],
#pre
proof { reveal_strlit("ypub"); }
#fn Prefix::ZPRV
#ensures C18
        vx_r.ver() == 0x04b2430c, vx_r.ch() =~= seq![122u8, 112, 114, 118],
#pre
proof { reveal_strlit("zprv"); }
#fn Prefix::ZPUB
#ensures C18
        vx_r.ver() == 0x04b24746, vx_r.ch() =~= seq![122u8, 112, 117, 98],
#pre
proof { reveal_strlit("zpub"); }
#fn Prefix::from_bytes
#params bytes
#ensures C18
        prefix_post(un32(bytes@), vx_r),
#fn Prefix::from_version
#params version
#ensures C18
        prefix_post(version, vx_r),
#pre
proof { crate::vx::lemma_b58c7(be32(version) + zeros(74)); lemma_bytes7_sub(ascii_bytes(b58c(be32(version) + zeros(74))), 4); }
#fn Prefix::as_str
#ensures C18
        utf8(vx_r@) == self.ch(), vx_r@ == chars_of(self.ch()),
#pre
proof { use_type_invariant(self); lemma_letters7(self.chars@); }
#mod bip32::prefix
/// the text ends with t exactly when its bytes do
pub proof fn lemma_end3(c: Seq<u8>, t: Seq<char>, b: Seq<u8>)
    requires c.len() == 4, letters(c), t.len() == 3, b.len() == 3, forall|i: int| 0 <= i < 3 ==> (#[trigger] t[i]) == b[i] as char
    ensures ends_with(chars_of(c), t) == (c.subrange(1, 4) =~= b), ends_with(chars_of(c), t) == (c.subrange(1, 4) == b), all_ascii(chars_of(c)),
        (chars_of(c).subrange(1, 4) == t) == (c.subrange(1, 4) =~= b),
{
    let s = chars_of(c);
    assert(s.subrange(1, 4).len() == 3);
    assert forall|i: int| 0 <= i < 3 implies (s.subrange(1, 4)[i] == t[i] <==> c.subrange(1, 4)[i] == b[i]) by {
        assert(s.subrange(1, 4)[i] == c[i + 1] as char && t[i] == b[i] as char);
    }
    if ends_with(s, t) {
        assert forall|i: int| 0 <= i < 3 implies c.subrange(1, 4)[i] == b[i] by { assert(s.subrange(1, 4)[i] == t[i]); }
        assert(c.subrange(1, 4) =~= b);
    }
    if c.subrange(1, 4) =~= b {
        assert forall|i: int| 0 <= i < 3 implies s.subrange(1, 4)[i] == t[i] by { assert(c.subrange(1, 4)[i] == b[i]); }
        assert(s.subrange(1, 4) =~= t);
    }
}
#fn Prefix::is_public
#ensures C17 C18
        vx_r == (self.ch().subrange(1, 4) =~= seq![112u8, 117, 98]),
#pre
proof { use_type_invariant(self); reveal_strlit("pub"); lemma_end3(self.chars@, "pub"@, seq![112u8, 117, 98]); }
#fn Prefix::is_private
#ensures C17 C18
        vx_r == (self.ch().subrange(1, 4) =~= seq![112u8, 114, 118]),
#pre
proof { use_type_invariant(self); reveal_strlit("prv"); lemma_end3(self.chars@, "prv"@, seq![112u8, 114, 118]); }
#fn Prefix::version
#ensures C18
        vx_r == self.ver(),
#fn Prefix::to_bytes
#ensures C15 C18
        vx_r@ == be32(self.ver()),
#fn Prefix::validate_str
#params s
#ensures C16 C18
        match vx_r { Ok(t) => t == s && letters(utf8(s@)), Err(e) => !letters(utf8(s@)) && e == BErr::Decode },
#loop 0
            invariant i <= 4, utf8(s@).len() == 4, forall|j: int| 0 <= j < i ==> letter(#[trigger] utf8(s@)[j]),
            decreases 4 - i,
#impl Prefix as AsRef<str>
    open spec fn as_ref_spec(&self) -> &str { crate::vx::str_of(chars_of(self.ch())) }
#fn <Prefix as AsRef<str>>::as_ref
#prop C18
#impl Prefix as Display
    open spec fn disp(&self) -> Seq<char> { chars_of(self.ch()) }
#fn <Prefix as Display>::fmt
#prop C18
#impl Prefix as Debug
    open spec fn dbg(&self) -> Seq<char> {
        crate::vx::dbg_close(crate::vx::dbg_field(crate::vx::dbg_field(crate::vx::dbg_open("Prefix"@), "chars"@, crate::vx::str_dbg(chars_of(self.ch()))), "version"@, hex8(self.ver())))
    }
#fn <Prefix as Debug>::fmt
#prop C14
#impl DebugVersion as Debug
    open spec fn dbg(&self) -> Seq<char> { hex8(self.0) }
#fn <DebugVersion as Debug>::fmt
#prop C14
#impl Error as Display
    open spec fn disp(&self) -> Seq<char> {
        match *self {
            BErr::Base58 => "base58 error"@, BErr::Bip39 => "bip39 error"@, BErr::ChildNumber => "invalid child number"@,
            BErr::Crypto => "cryptographic error"@, BErr::Decode => "decoding error"@,
            BErr::Depth => "maximum derivation depth exceeded"@, BErr::SeedLength => "seed length invalid"@,
        }
    }
#fn <Error as Display>::fmt
#prop C14
#impl Error as From<bs58::decode::Error>
    open spec fn from_post(x: crate::ext::bs58::decode::Error, r: Error) -> bool { r == BErr::Base58 }
#impl Error as From<bs58::encode::Error>
    open spec fn from_post(x: crate::ext::bs58::encode::Error, r: Error) -> bool { r == BErr::Base58 }
#impl Error as From<libsecp256k1::Error>
    open spec fn from_post(x: crate::ext::libsecp256k1::Error, r: Error) -> bool { r == BErr::Crypto }
#fn <Error as From<Error>>::from
#prop C14
#impl Error as From<InvalidLength>
    open spec fn from_post(x: InvalidLength, r: Error) -> bool { r == BErr::Crypto }
#fn <Error as From<InvalidLength>>::from
#prop C14
#impl Error as From<TryFromSliceError>
    open spec fn from_post(x: crate::ext::core::array::TryFromSliceError, r: Error) -> bool { r == BErr::Decode }
#fn <Error as From<TryFromSliceError>>::from
#prop C14
#fn ExtendedKey::write_base58
#params buffer
#ensures C14 C15
        vx_r is Ok,
#ensures C15
        vx_r matches Ok(s) && s@ == b58c(xk_bytes(self.prefix.ver(), self.attrs, self.key_bytes@)),
#pre
proof { crate::vx::lemma_b58c7(xk_bytes(self.prefix.ver(), self.attrs, self.key_bytes@)); }
#impl ExtendedKey as Display
    open spec fn disp(&self) -> Seq<char> { b58c(xk_bytes(self.prefix.ver(), self.attrs, self.key_bytes@)) }
#fn <ExtendedKey as Display>::fmt
#prop C15
#impl ExtendedKey as FromStr
    open spec fn parse_post(s: Seq<char>, r: core::result::Result<Self, BErr>) -> bool { xk_parse(s, r) }
#fn <ExtendedKey as FromStr>::from_str
#params base58
#prop C16
#closure 0 |chars: &str| -> (vx_cr: core::result::Result<Prefix, BErr>)
            ensures match vx_cr { Ok(p) => letters(utf8(chars@)) && p.ch() =~= utf8(chars@) && p.ver() == un32(bytes@.subrange(0, 4)), Err(_) => !letters(utf8(chars@)) },
#mod spec
pub open spec fn xk_accepts(s: Seq<char>) -> bool {
    b58c_un(utf8(s)) is Some && b58c_un(utf8(s))->Some_0.len() == 78 && letters(utf8(s).subrange(0, 4))
}
/// the extended key a text stands for
pub open spec fn xk_parse(s: Seq<char>, r: core::result::Result<ExtendedKey, BErr>) -> bool {
    let d = b58c_un(utf8(s))->Some_0;
    match r {
        Ok(x) => xk_accepts(s) && x.prefix.ver() == un32(d.subrange(0, 4)) && x.prefix.ch() == utf8(s).subrange(0, 4)
            && x.attrs.depth == d[4] && x.attrs.parent_fingerprint@ == d.subrange(5, 9) && x.attrs.child_number.0 == un32(d.subrange(9, 13))
            && x.attrs.chain_code@ == d.subrange(13, 45) && x.key_bytes@ == d.subrange(45, 78),
        Err(_) => !xk_accepts(s),
    }
}
#impl Version as From<Prefix>
    open spec fn from_post(x: Prefix, r: u32) -> bool { r == x.ver() }
#fn <Version as From<Prefix>>::from
#prop C18
#impl Version as From<&Prefix>
    open spec fn from_post(x: &Prefix, r: u32) -> bool { r == x.ver() }
#fn <Version as From<&Prefix>>::from
#prop C18
#impl Prefix as TryFrom<Version>
    open spec fn try_from_post(x: u32, r: core::result::Result<Self, BErr>) -> bool { prefix_post(x, r) }
#fn <Prefix as TryFrom<Version>>::try_from
#prop C18
#impl Prefix as TryFrom<&[u8]>
    open spec fn try_from_post(x: &[u8], r: core::result::Result<Self, BErr>) -> bool {
        if x@.len() == 4 { prefix_post(un32(x@), r) } else { r is Err }
    }
#fn <Prefix as TryFrom<&[u8]>>::try_from
#prop C18
#end
