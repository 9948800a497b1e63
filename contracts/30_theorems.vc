// The listed properties as theorems over the contracts: pure lemmas over the specification functions, and client
// programs that only call the functions under contract (a client is checked against their contracts, not their bodies).
#mod spec
pub use crate::ext::libsecp256k1::{SecretKey, PublicKey as PubKey};
pub type XPrv = ExtendedPrivateKey<SecretKey>;
pub type XPub = ExtendedPublicKey<PubKey>;
pub type Res<T> = core::result::Result<T, BErr>;
#mod thms C09
pub proof fn thm_ckd_priv(x: XKey, c: u32)
    ensures XPrv::ckd(x, c) == ckd_priv(x, c), ckd_priv(x, c) matches Some(y) ==> sk_ok(y.key)
{ lemma_sk_add_ok(x.key, left(hmac512(x.chain, if hardened(c) { seq![0u8] + x.key + be32(c) } else { gmul(x.key) + be32(c) }))); }
/// deriving a child of an extended private key
pub fn client_ckd_priv(k: &XPrv, c: ChildNumber)
{
    let r = k.derive_child(c);
    proof { thm_ckd_priv(k.xk(), c.0); }
    assert(match r { Ok(y) => ckd_priv(k.xk(), c.0) == Some(y.xk()), Err(_) => ckd_priv(k.xk(), c.0) is None });
}
#mod thms C10
pub proof fn thm_ckd_pub(x: XKey, c: u32)
    ensures XPub::ckd(x, c) == ckd_pub(x, c)
{ }
pub fn client_ckd_pub(k: &XPub, c: ChildNumber)
{
    let r = k.derive_child(c);
    proof { thm_ckd_pub(k.xk(), c.0); }
    assert(match r { Ok(y) => ckd_pub(k.xk(), c.0) == Some(y.xk()), Err(_) => ckd_pub(k.xk(), c.0) is None });
    assert(hardened(c.0) ==> r is Err);
}
#mod thms C08
pub fn client_master(seed: &[u8])
{
    let r = XPrv::new(seed);
    assert(seed@.len() == 16 || seed@.len() == 32 || seed@.len() == 64 || seed@.len() == 128 ==> match r { Ok(k) => master(seed@) == Some(k.xk()), Err(_) => master(seed@) is None });
    assert(!(seed@.len() == 16 || seed@.len() == 32 || seed@.len() == 64 || seed@.len() == 128) ==> r == Res::<XPrv>::Err(BErr::SeedLength));
}
#mod thms C11
/// neutering commutes with a non-hardened step
pub proof fn thm_commute(x: XKey, c: u32)
    requires sk_ok(x.key), !hardened(c)
    ensures match ckd_priv(x, c) { Some(y) => ckd_pub(neuter(x), c) == Some(neuter(y)), None => ckd_pub(neuter(x), c) is None }
{
    let t = left(hmac512(x.chain, gmul(x.key) + be32(c)));
    if sk_ok(t) { ax_group(x.key, t); }
}
pub open spec fn all_normal(p: Seq<ChildNumber>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !hardened((#[trigger] p[i]).0) }
/// and with any number of them
pub proof fn thm_commute_path(x: XKey, p: Seq<ChildNumber>, n: int)
    requires sk_ok(x.key), 0 <= n <= p.len(), all_normal(p, n)
    ensures match XPrv::run(x, p, n) { Some(y) => sk_ok(y.key) && XPub::run(neuter(x), p, n) == Some(neuter(y)), None => XPub::run(neuter(x), p, n) is None }
    decreases n
{
    if n > 0 {
        thm_commute_path(x, p, n - 1);
        assert(!hardened(p[n - 1].0));
        match XPrv::run(x, p, n - 1) {
            Some(y) => { thm_ckd_priv(y, p[n - 1].0); thm_ckd_pub(neuter(y), p[n - 1].0); thm_commute(y, p[n - 1].0); }
            None => { }
        }
    }
}
pub fn client_commute(k: &XPrv, c: ChildNumber)
    requires !hardened(c.0)
{
    let a = k.derive_child(c);
    let b = k.public_key().derive_child(c);
    proof {
        crate::ext::libsecp256k1::ax_sk(k.private_key);
        thm_ckd_priv(k.xk(), c.0); thm_ckd_pub(neuter(k.xk()), c.0); thm_commute(k.xk(), c.0);
    }
    assert(a is Ok <==> b is Ok);
    match (a, b) {
        (Ok(x), Ok(y)) => {
            let z = x.public_key();
            assert(z.xk() == y.xk());
            proof { lemma_xpub_ext(z.xk(), y.xk()); }
            let e = crate::vx::VEq::veq(&z, &y);
            assert(e);
        }
        _ => { }
    }
}
pub proof fn lemma_xpub_ext(a: XKey, b: XKey) requires a == b ensures a.key == b.key { }
pub fn client_commute_path(k: XPrv, p: DerivationPath)
    requires all_normal(p.path@, p.path@.len() as int)
{
    let ghost x = k.xk();
    let q = k.public_key();
    proof { crate::ext::libsecp256k1::ax_sk(k.private_key); thm_commute_path(x, p.path@, p.path@.len() as int); }
    let ghost pp = p;
    let b = q.derive_from_path(&p);
    let a = k.derive_from_path(&p);
    assert(a is Ok <==> b is Ok);
    assert(a matches Ok(y) ==> b->Ok_0.xk() == neuter(y.xk()));
}
#mod thms C12
/// deriving along one path and then another is deriving along their concatenation
pub proof fn thm_concat(x: XKey, p: Seq<ChildNumber>, q: Seq<ChildNumber>, n: int)
    requires 0 <= n <= q.len()
    ensures
        XPrv::run(x, p + q, p.len() + n) == (match XPrv::run(x, p, p.len() as int) { Some(y) => XPrv::run(y, q, n), None => None }),
        XPub::run(x, p + q, p.len() + n) == (match XPub::run(x, p, p.len() as int) { Some(y) => XPub::run(y, q, n), None => None }),
    decreases n
{
    if n > 0 { thm_concat(x, p, q, n - 1); assert((p + q)[p.len() + n - 1] == q[n - 1]); }
    else { thm_prefix(x, p, q, p.len() as int); }
}
pub proof fn thm_prefix(x: XKey, p: Seq<ChildNumber>, q: Seq<ChildNumber>, n: int)
    requires 0 <= n <= p.len()
    ensures XPrv::run(x, p + q, n) == XPrv::run(x, p, n), XPub::run(x, p + q, n) == XPub::run(x, p, n)
    decreases n
{ if n > 0 { thm_prefix(x, p, q, n - 1); assert((p + q)[n - 1] == p[n - 1]); } }
pub fn client_concat(k: XPrv, k2: XPrv, p: DerivationPath, q: DerivationPath, pq: DerivationPath)
    requires k.xk() == k2.xk(), pq.path@ == p.path@ + q.path@
{
    let ghost x = k.xk();
    proof { thm_concat(x, p.path@, q.path@, q.path@.len() as int); }
    let a = k2.derive_from_path(&pq);
    match k.derive_from_path(&p) {
        Ok(y) => { let b = y.derive_from_path(&q); assert(a is Ok <==> b is Ok); assert(a matches Ok(z) ==> b->Ok_0.xk() == z.xk()); }
        Err(_) => { assert(a is Err); }
    }
}
pub fn client_concat_pub(k: XPub, k2: XPub, p: DerivationPath, q: DerivationPath, pq: DerivationPath)
    requires k.xk() == k2.xk(), pq.path@ == p.path@ + q.path@
{
    let ghost x = k.xk();
    proof { thm_concat(x, p.path@, q.path@, q.path@.len() as int); }
    let a = k2.derive_from_path(&pq);
    match k.derive_from_path(&p) {
        Ok(y) => { let b = y.derive_from_path(&q); assert(a is Ok <==> b is Ok); assert(a matches Ok(z) ==> b->Ok_0.xk() == z.xk()); }
        Err(_) => { assert(a is Err); }
    }
}
pub fn client_empty(k: XPrv, u: XPub, p: DerivationPath)
    requires p.path@.len() == 0
{
    let ghost x = k.xk(); let ghost y = u.xk();
    let a = k.derive_from_path(&p); let b = u.derive_from_path(&p);
    assert(a is Ok && a->Ok_0.xk() == x && b is Ok && b->Ok_0.xk() == y);
}
pub fn client_step(k: XPrv, k2: XPrv, p: DerivationPath)
    requires p.path@.len() == 1, k.xk() == k2.xk()
{
    let ghost x = k.xk();
    let c = crate::vx::VIter::next(&mut p.vx_iter());
    match c {
        Some(c) => {
            let b = k2.derive_child(c);
            proof { assert(XPrv::run(x, p.path@, 0) == Some(x)); assert(XPrv::run(x, p.path@, 1) == XPrv::ckd(x, p.path@[0].0)); }
            let a = k.derive_from_path(&p);
            assert(a is Ok <==> b is Ok); assert(a matches Ok(y) ==> b->Ok_0.xk() == y.xk());
        }
        None => { assert(false); }
    }
}
/// a path from a seed is the path from the seed's root key
pub fn client_seed(seed: &[u8], p: DerivationPath)
{
    let a = XPrv::new_from_path(seed, &p);
    match XPrv::new(seed) {
        Ok(k) => { let b = k.derive_from_path(&p); assert(a is Ok <==> b is Ok); assert(a matches Ok(y) ==> b->Ok_0.xk() == y.xk()); }
        Err(_) => { assert(a is Err); }
    }
}
#mod thms C13
pub proof fn thm_depth(x: XKey, p: Seq<ChildNumber>, n: int)
    requires 0 <= n <= p.len(), 0 <= x.depth <= 255
    ensures
        XPrv::run(x, p, n) matches Some(y) ==> y.depth == x.depth + n && y.depth <= 255,
        XPub::run(x, p, n) matches Some(y) ==> y.depth == x.depth + n && y.depth <= 255,
    decreases n
{ if n > 0 { thm_depth(x, p, n - 1); } }
pub fn client_depth(k: XPrv, u: XPub, p: DerivationPath, c: ChildNumber)
    requires p.path@.len() > 0
{
    let ghost x = k.xk(); let ghost z = u.xk();
    proof { thm_depth(x, p.path@, p.path@.len() as int); thm_depth(z, p.path@, p.path@.len() as int); }
    let a = k.derive_child(c); let b = u.derive_child(c);
    assert(k.attrs.depth == 255 ==> a == Res::<XPrv>::Err(BErr::Depth));
    assert(u.attrs.depth == 255 ==> b is Err && (!hardened(c.0) ==> b->Err_0 == BErr::Depth));
    assert(a matches Ok(y) ==> y.attrs.depth == k.attrs.depth + 1);
    assert(b matches Ok(y) ==> y.attrs.depth == u.attrs.depth + 1);
    let a = k.derive_from_path(&p); let b = u.derive_from_path(&p);
    assert(a matches Ok(y) ==> y.attrs.depth > x.depth);
    assert(b matches Ok(y) ==> y.attrs.depth > z.depth);
}
#mod thms C19
pub proof fn thm_dec_text(n: nat)
    ensures parse_dec(dec(n)) == Some(n), forall|j: int| 0 <= j < dec(n).len() ==> (#[trigger] dec(n)[j]) != '\'' && dec(n)[j] != '/' && dec(n)[j] != '+'
{
    lemma_dec(n);
    assert forall|j: int| 0 <= j < dec(n).len() implies (#[trigger] dec(n)[j]) != '\'' && dec(n)[j] != '/' && dec(n)[j] != '+' by { assert(is_digit(dec(n)[j])); }
    assert(dec(n)[0] != '+');
}
/// every child number's text reads back as the number
pub proof fn thm_cn_text(c: u32)
    ensures cn_parse(cn_text(c)) == Some(c), forall|j: int| 0 <= j < cn_text(c).len() ==> (#[trigger] cn_text(c)[j]) != '/', cn_text(c).len() > 0
{
    let n = cn_index(c) as nat;
    thm_dec_text(n); lemma_dec(n);
    let q = seq!['\''];
    if hardened(c) {
        let s = cn_text(c);
        assert(s.subrange(s.len() - 1, s.len() as int) =~= q);
        assert(s.drop_last() =~= dec(n));
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]) != '/' by { if j < dec(n).len() { assert(s[j] == dec(n)[j]); } }
    } else {
        let s = dec(n);
        if ends_with(s, q) { assert(s.subrange(s.len() - 1, s.len() as int)[0] == q[0]); assert(s[s.len() - 1] == '\''); }
    }
}
pub fn client_cn(index: u32, h: bool, c: ChildNumber)
{
    match ChildNumber::new(index, h) {
        Ok(d) => {
            assert(index < 0x8000_0000);
            let i = d.index(); let f = d.is_hardened();
            assert(i == index && f == h);
            let v: u32 = crate::vx::VInto::<u32>::vx_into(d);
            assert(v == index + (if h { 0x8000_0000int } else { 0 }));
        }
        Err(_) => { assert(index >= 0x8000_0000); }
    }
    let i = c.index(); let f = c.is_hardened();
    let d = ChildNumber::new(i, f);
    assert(d is Ok && d->Ok_0.0 == c.0);
    let b = c.to_bytes();
    let e = ChildNumber::from_bytes(b);
    assert(e.0 == c.0);
}
pub fn client_cn_text(c: ChildNumber)
{
    let t = crate::vx::VToString::vx_to_string(&c);
    proof { thm_cn_text(c.0); }
    let d = <ChildNumber as crate::vx::VFromStr>::vx_from_str(&t);
    assert(d matches Ok(x) && x.0 == c.0);
}
#mod thms C20
pub open spec fn path_parts(p: Seq<ChildNumber>, k: int) -> Seq<Seq<char>> { Seq::new((k + 1) as nat, |i: int| if i == 0 { seq!['m'] } else { cn_text(p[i - 1].0) }) }
pub proof fn thm_path_split(p: Seq<ChildNumber>, k: int)
    requires 0 <= k <= p.len()
    ensures split_spec(path_pre(p, k), '/') == path_parts(p, k)
    decreases k
{
    let m = Sep::Ch('/');
    if k == 0 {
        let s = seq!['m'];
        assert(!has_sep(s, m));
        lemma_split_nosep(s, m);
        assert(path_parts(p, 0) =~= seq![s]);
    } else {
        thm_path_split(p, k - 1);
        let w = cn_text(p[k - 1].0);
        thm_cn_text(p[k - 1].0);
        assert(!has_sep(w, m));
        lemma_split_nosep(w, m);
        lemma_split_cat(path_pre(p, k - 1), '/', w, m);
        assert(path_parts(p, k) =~= path_parts(p, k - 1) + seq![w]);
    }
}
/// the text of a path is accepted and stands for that path only
pub proof fn thm_path_text(p: Seq<ChildNumber>)
    ensures path_ok(path_text(p)), forall|d: DerivationPath| path_parse(path_text(p), Res::Ok(d)) ==> d.path@ == p, forall|e: BErr| !path_parse(path_text(p), Res::<DerivationPath>::Err(e))
{
    let n = p.len() as int;
    thm_path_split(p, n);
    let parts = path_parts(p, n);
    assert forall|i: int| 1 <= i < parts.len() implies cn_parse(#[trigger] parts[i]) == Some(p[i - 1].0) by { thm_cn_text(p[i - 1].0); }
    assert forall|d: DerivationPath| path_parse(path_text(p), Res::Ok(d)) implies d.path@ == p by {
        assert forall|i: int| 0 <= i < d.path@.len() implies d.path@[i] == p[i] by { assert(cn_parse(parts[i + 1]) == Some(p[i].0)); }
        assert(d.path@ =~= p);
    }
}
pub fn client_path_text(p: DerivationPath)
{
    let t = crate::vx::VToString::vx_to_string(&p);
    proof { thm_path_text(p.path@); }
    let d = <DerivationPath as crate::vx::VFromStr>::vx_from_str(&t);
    assert(d matches Ok(q) && q.path@ == p.path@);
}
pub fn client_path_edit(p: DerivationPath, c: ChildNumber)
    requires p.path@.len() < 1000
{
    let ghost s = p.path@;
    let mut q = p;
    let n = q.vx_len();
    q.push(c);
    let m = q.vx_len();
    assert(m == n + 1);
    assert(q.path@.last() == c && q.path@.drop_last() =~= s);
    match q.parent() { Some(r) => { assert(r.path@ =~= s); let e = r.vx_is_empty(); assert(e == (n == 0)); } None => { assert(false); } }
    assert(path_text(q.path@) == path_text(s) + seq!['/'] + cn_text(c.0)) by { lemma_path_pre(q.path@, s, s.len() as int); }
}
pub proof fn lemma_path_pre(a: Seq<ChildNumber>, b: Seq<ChildNumber>, k: int)
    requires 0 <= k <= b.len(), b.len() <= a.len(), forall|i: int| 0 <= i < b.len() ==> a[i] == b[i]
    ensures path_pre(a, k) == path_pre(b, k)
    decreases k
{ if k > 0 { lemma_path_pre(a, b, k - 1); } }
#mod thms C16
/// prefix and version belong together for the key: the text starts with the prefix
pub open spec fn belongs(x: ExtendedKey) -> bool { ascii_bytes(b58c(xk_bytes(x.prefix.ver(), x.attrs, x.key_bytes@))).subrange(0, 4) == x.prefix.ch() && letters(x.prefix.ch()) }
pub open spec fn same_fields(x: ExtendedKey, y: ExtendedKey) -> bool {
    x.prefix.ver() == y.prefix.ver() && x.prefix.ch() == y.prefix.ch() && x.attrs.depth == y.attrs.depth && x.attrs.parent_fingerprint@ == y.attrs.parent_fingerprint@
    && x.attrs.child_number == y.attrs.child_number && x.attrs.chain_code@ == y.attrs.chain_code@ && x.key_bytes@ == y.key_bytes@
}
pub proof fn thm_xk_bytes(v: u32, a: ExtendedKeyAttrs, k: Seq<u8>)
    requires k.len() == 33
    ensures ({
        let d = xk_bytes(v, a, k);
        d.len() == 78 && d.subrange(0, 4) == be32(v) && d[4] == a.depth && d.subrange(5, 9) == a.parent_fingerprint@ && d.subrange(9, 13) == be32(a.child_number.0)
        && d.subrange(13, 45) == a.chain_code@ && d.subrange(45, 78) == k && un32(d.subrange(0, 4)) == v && un32(d.subrange(9, 13)) == a.child_number.0
    })
{
    let d = xk_bytes(v, a, k);
    lemma_be32(v); lemma_be32(a.child_number.0);
    assert(d.subrange(0, 4) =~= be32(v)); assert(d.subrange(5, 9) =~= a.parent_fingerprint@); assert(d.subrange(9, 13) =~= be32(a.child_number.0));
    assert(d.subrange(13, 45) =~= a.chain_code@); assert(d.subrange(45, 78) =~= k);
}
pub proof fn thm_xk_text(x: ExtendedKey)
    requires belongs(x)
    ensures ({
        let t = b58c(xk_bytes(x.prefix.ver(), x.attrs, x.key_bytes@));
        &&& forall|y: ExtendedKey| xk_parse(t, Res::Ok(y)) ==> same_fields(x, y)
        &&& forall|e: BErr| !xk_parse(t, Res::<ExtendedKey>::Err(e))
    })
{
    let d = xk_bytes(x.prefix.ver(), x.attrs, x.key_bytes@);
    thm_xk_bytes(x.prefix.ver(), x.attrs, x.key_bytes@);
    crate::vx::lemma_b58c7(d);
}
pub fn client_xk_text(x: &ExtendedKey)
    requires belongs(*x)
{
    let t = crate::vx::VToString::vx_to_string(x);
    proof { thm_xk_text(*x); }
    match <ExtendedKey as crate::vx::VFromStr>::vx_from_str(&t) {
        Ok(y) => {
            assert(same_fields(*x, y));
            let u = crate::vx::VToString::vx_to_string(&y);
            proof { assert(xk_bytes(x.prefix.ver(), x.attrs, x.key_bytes@) =~= xk_bytes(y.prefix.ver(), y.attrs, y.key_bytes@)); }
            assert(t@ == u@);
        }
        Err(_) => { assert(false); }
    }
}
/// what is accepted is the Base58Check text of 78 bytes, and re-serialising it gives the text
pub fn client_xk_accepts(s: &str)
{
    match <ExtendedKey as crate::vx::VFromStr>::vx_from_str(s) {
        Ok(y) => {
            let u = crate::vx::VToString::vx_to_string(&y);
            proof {
                let d = b58c_un(utf8(s@))->Some_0;
                assert(d.len() == 78);
                lemma_un32(d.subrange(0, 4)); lemma_un32(d.subrange(9, 13));
                assert(d =~= xk_bytes(y.prefix.ver(), y.attrs, y.key_bytes@));
                ax_b58c_un(utf8(s@)); crate::vx::lemma_b58c7(d);
                crate::vx::lemma_ascii_text(s@); crate::vx::lemma_ascii_text(u@);
            }
            assert(u@ == s@);
        }
        Err(_) => { }
    }
}
#mod thms C17
/// every way to make an extended key gives one whose attributes are consistent
pub fn client_consistent(seed: &[u8], k: &XPrv, u: &XPub, c: ChildNumber, x: ExtendedKey, y: ExtendedKey)
{
    let a = XPrv::new(seed);
    proof { assert(a matches Ok(z) ==> z.xk().depth == 0 && z.xk().fp == zeros(4) && z.xk().child == 0); }
    assert(a matches Ok(z) ==> attrs_ok(z.attrs));
    let b = k.derive_child(c);
    assert(b matches Ok(z) ==> z.attrs.depth > 0 && attrs_ok(z.attrs));
    let b = u.derive_child(c);
    assert(b matches Ok(z) ==> z.attrs.depth > 0 && attrs_ok(z.attrs));
    let d = <XPrv as crate::vx::VTryFrom<ExtendedKey>>::vx_try_from(x);
    assert(d matches Ok(z) ==> attrs_ok(z.attrs));
    let e = <XPub as crate::vx::VTryFrom<ExtendedKey>>::vx_try_from(y);
    assert(e matches Ok(z) ==> attrs_ok(z.attrs));
}
pub fn client_export_prv(k: &XPrv, p: Prefix)
    requires attrs_ok(k.attrs), p.ch().subrange(1, 4) == seq![112u8, 114, 118]
{
    proof { crate::ext::libsecp256k1::ax_sk(k.private_key); }
    let x = k.to_extended_key(p);
    proof { assert(x.key_bytes@.subrange(1, 33) =~= k.private_key.sb()); }
    let r = <XPrv as crate::vx::VTryFrom<ExtendedKey>>::vx_try_from(x);
    assert(r matches Ok(z) && z.attrs == k.attrs && z.xk() == k.xk());
}
pub fn client_export_pub(k: &XPub, p: Prefix)
    requires attrs_ok(k.attrs), p.ch().subrange(1, 4) == seq![112u8, 117, 98]
{
    proof { crate::ext::libsecp256k1::ax_pk(k.public_key); }
    let x = k.to_extended_key(p);
    let r = <XPub as crate::vx::VTryFrom<ExtendedKey>>::vx_try_from(x);
    assert(r matches Ok(z) && z.attrs == k.attrs && z.xk() == k.xk());
}
/// a private key's text is imported as that key, and its public side's as its public key
pub fn client_text_prv(k: &XPrv, p: Prefix)
    requires attrs_ok(k.attrs), p.ch().subrange(1, 4) == seq![112u8, 114, 118],
        ascii_bytes(b58c(xk_bytes(p.ver(), k.attrs, seq![0u8] + k.private_key.sb()))).subrange(0, 4) == p.ch(), letters(p.ch()),
{
    proof { crate::ext::libsecp256k1::ax_sk(k.private_key); }
    let t = k.vx_to_string(p);
    proof {
        let kb = seq![0u8] + k.private_key.sb();
        thm_xk_bytes(p.ver(), k.attrs, kb);
        crate::vx::lemma_b58c7(xk_bytes(p.ver(), k.attrs, kb));
        assert(kb.subrange(1, 33) =~= k.private_key.sb());
        assert forall|x: ExtendedKey| #[trigger] ExtendedKey::parse_post(t.z@, Ok(x)) implies x.prefix.ch() == p.ch() && x.key_bytes@ == kb && x.attrs.depth == k.attrs.depth
            && x.attrs.parent_fingerprint == k.attrs.parent_fingerprint && x.attrs.child_number == k.attrs.child_number && x.attrs.chain_code == k.attrs.chain_code by {
            assert(x.attrs.parent_fingerprint@ =~= k.attrs.parent_fingerprint@); assert(x.attrs.chain_code@ =~= k.attrs.chain_code@);
        }
    }
    let r = <XPrv as crate::vx::VFromStr>::vx_from_str(&t);
    assert(r matches Ok(z) && z.attrs == k.attrs && z.xk() == k.xk());
}
