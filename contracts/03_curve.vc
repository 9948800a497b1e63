#mod spec
// ---------- the curve y^2 = x^3 + 7 over the field of secp_p elements (SEC 2), points in affine coordinates
 #[verifier::opaque]
pub open spec fn secp_p() -> int { pow_nat(2, 256) - 0x1_0000_03d1 }
pub open spec fn pow_nat(b: int, e: nat) -> int decreases e {
    if e == 0 { 1 } else { let h = pow_nat(b, e / 2); if e % 2 == 0 { h * h } else { h * h * b } }
}
/// b^e mod m
pub open spec fn pow_mod(b: int, e: int, m: int) -> int decreases e {
    if e <= 0 { 1 } else { let h = pow_mod(b, e / 2, m); if e % 2 == 0 { h * h % m } else { h * h % m * b % m } }
}
/// the inverse modulo a prime
pub open spec fn inv_mod(a: int, m: int) -> int { euclid(m, a % m, 0, 1) % m }
/// the coefficient of Euclid's algorithm
pub open spec fn euclid(r0: int, r1: int, t0: int, t1: int) -> int decreases r1 via euclid_dec {
    if r1 <= 0 { t0 } else { euclid(r1, r0 % r1, t1, t0 - r0 / r1 * t1) }
}
 #[via_fn]
proof fn euclid_dec(r0: int, r1: int, t0: int, t1: int) { if r1 > 0 { vstd::arithmetic::div_mod::lemma_mod_bound(r0, r1); } }
/// None is the point at infinity
pub type Pt = Option<(int, int)>;
pub open spec fn pt_add(a: Pt, b: Pt) -> Pt {
    match (a, b) {
        (None, _) => b,
        (_, None) => a,
        (Some((x1, y1)), Some((x2, y2))) => {
            let p = secp_p();
            if x1 == x2 && (y1 + y2) % p == 0 { None } else {
                let l = if x1 == x2 { 3 * x1 * x1 * inv_mod(2 * y1, p) % p } else { (y2 - y1) * inv_mod(x2 - x1, p) % p };
                let x3 = (l * l - x1 - x2) % p;
                Some((x3, (l * (x1 - x3) - y1) % p))
            }
        }
    }
}
pub open spec fn pt_mul(k: nat, a: Pt) -> Pt decreases k {
    if k == 0 { None } else {
        let h = pt_mul(k / 2, a);
        if k % 2 == 0 { pt_add(h, h) } else { pt_add(pt_add(h, h), a) }
    }
}
pub open spec fn secp_gx() -> Seq<u8> { seq![0x79u8, 0xbeu8, 0x66u8, 0x7eu8, 0xf9u8, 0xdcu8, 0xbbu8, 0xacu8, 0x55u8, 0xa0u8, 0x62u8, 0x95u8, 0xceu8, 0x87u8, 0x0bu8, 0x07u8, 0x02u8, 0x9bu8, 0xfcu8, 0xdbu8, 0x2du8, 0xceu8, 0x28u8, 0xd9u8, 0x59u8, 0xf2u8, 0x81u8, 0x5bu8, 0x16u8, 0xf8u8, 0x17u8, 0x98u8] }
pub open spec fn secp_gy() -> Seq<u8> { seq![0x48u8, 0x3au8, 0xdau8, 0x77u8, 0x26u8, 0xa3u8, 0xc4u8, 0x65u8, 0x5du8, 0xa4u8, 0xfbu8, 0xfcu8, 0x0eu8, 0x11u8, 0x08u8, 0xa8u8, 0xfdu8, 0x17u8, 0xb4u8, 0x48u8, 0xa6u8, 0x85u8, 0x54u8, 0x19u8, 0x9cu8, 0x47u8, 0xd0u8, 0x8fu8, 0xfbu8, 0x10u8, 0xd4u8, 0xb8u8] }
pub open spec fn secp_g() -> Pt { Some((be(secp_gx()) as int, be(secp_gy()) as int)) }
/// compressed encoding (SEC 1)
pub open spec fn pt_enc(a: Pt) -> Option<Seq<u8>> {
    match a { Some((x, y)) => Some(seq![(2 + y % 2) as u8] + to_be(x as nat, 32)), None => None }
}
pub open spec fn pt_dec(b: Seq<u8>) -> Pt {
    let x = be(b.skip(1)) as int;
    let p = secp_p();
    let c = (x * x * x + 7) % p;
    let y = pow_mod(c, (p + 1) / 4, p);
    if b.len() == 33 && (b[0] == 2 || b[0] == 3) && x < p && y * y % p == c {
        Some((x, if y % 2 == b[0] - 2 { y } else { p - y }))
    } else { None }
}
/// compressed encoding of k times the generator
 #[verifier::opaque]
pub open spec fn gmul(k: Seq<u8>) -> Seq<u8> { match pt_enc(pt_mul(be(k), secp_g())) { Some(b) => b, None => Seq::empty() } }
/// compressed encoding of p + t * G, None for the point at infinity
 #[verifier::opaque]
pub open spec fn padd(p: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>> { pt_enc(pt_add(pt_dec(p), pt_mul(be(t), secp_g()))) }
/// is a compressed encoding of a curve point
 #[verifier::opaque]
pub open spec fn point_ok(b: Seq<u8>) -> bool { pt_dec(b) is Some }
pub broadcast proof fn ax_point_len(b: Seq<u8>) requires #[trigger] point_ok(b) ensures b.len() == 33 { reveal(point_ok); }
pub broadcast axiom fn ax_gmul_ok(k: Seq<u8>) requires sk_ok(k) ensures point_ok(#[trigger] gmul(k));
/// the group law: the addition above is associative and the generator has order secp_n
pub axiom fn ax_group(k: Seq<u8>, t: Seq<u8>)
    requires sk_ok(k), sk_ok(t)
    ensures padd(gmul(k), t) == (match sk_add(k, t) { Some(s) => Some(gmul(s)), None => None });
/// what public key recovery (SEC 1, 4.1.6) gives for a signature (r, s) of the digest m and a recovery id
 #[verifier::opaque]
pub open spec fn ecdsa_recover(m: Seq<u8>, sig: Seq<u8>, rec: u8) -> Option<Seq<u8>> {
    let n = secp_n() as int;
    let (r, s) = (be(sig.take(32)) as int, be(sig.skip(32)) as int);
    let x = if rec >= 2 { r + n } else { r };
    if sig.len() == 64 && 0 < r < n && 0 < s < n && rec < 4 && x < secp_p() {
        match pt_dec(seq![(2 + rec % 2) as u8] + to_be(x as nat, 32)) {
            Some(q) => {
                let ri = inv_mod(r, n);
                pt_enc(pt_add(pt_mul((s * ri % n) as nat, Some(q)), pt_mul((-be(m) * ri % n) as nat, secp_g())))
            }
            None => None,
        }
    } else { None }
}
#end
