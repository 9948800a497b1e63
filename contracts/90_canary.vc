#mod canary
// Proofs of false that must fail on every run: were one accepted, the trusted base would be inconsistent.
pub proof fn vx_canary_base(a: &[u8], s: &str, q: Seq<u8>, r: Seq<char>)
    requires q.len() < 100, r.len() < 100
    ensures false
{
    crate::vx::vx_base();
    let x = crate::vx::slice_of(q)@; let y = crate::vx::str_of(r)@;
    crate::vx::ax_utf8_concat(r, r);
    if forall|i: int| 0 <= i < utf8(r).len() ==> (#[trigger] utf8(r)[i]) < 128 { crate::vx::ax_utf8_ascii_rev(r); }
    crate::vx::vx_dep(utf8(r)); crate::vx::vx_dep(a@); crate::vx::vx_dep(s@);
}
pub proof fn vx_canary_spec(k: Seq<u8>, t: Seq<u8>, m: Seq<u8>, v: u32, d: Seq<u8>, w: Seq<char>)
    requires sk_ok(k), sk_ok(t), m.len() == 32
    ensures false
{
    ax_group(k, t); ax_ecdsa(k, m); ax_b58c_un(m); ax_b58c(m);
    crate::vx::vx_dep(gmul(k)); crate::vx::vx_dep(hmac512(k, t)); crate::vx::vx_dep(sha256(m)); crate::vx::vx_dep(ripemd160(m));
    ax_official(0); ax_official(1); ax_official_disjoint(); 
    if !has_sep(w, Sep::Ws) && has_sep(nfkd(w), Sep::Ch(' ')) { ax_nfkd_space(w); }
    if registered(v) is Some && d.len() == 78 && d.subrange(0, 4) == be32(v) { ax_prefix_text(v, d); ax_b58c(d); }
    crate::vx::vx_dep(b58c(m)); crate::vx::vx_dep(secp_n());
}
#end
