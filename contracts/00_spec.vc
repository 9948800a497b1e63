#mod spec
// ---------- bytes and numbers
pub open spec fn be(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { be(s.drop_last()) * 256 + s.last() as nat }
}
pub open spec fn to_be(x: nat, l: nat) -> Seq<u8> decreases l {
    if l == 0 { Seq::empty() } else { to_be(x / 256, (l - 1) as nat).push((x % 256) as u8) }
}
pub open spec fn p256(l: nat) -> nat decreases l { if l == 0 { 1 } else { 256 * p256((l - 1) as nat) } }
pub proof fn lemma_to_be(x: nat, l: nat)
    requires x < p256(l)
    ensures be(to_be(x, l)) == x, to_be(x, l).len() == l
    decreases l
{
    if l > 0 {
        assert(x / 256 < p256((l - 1) as nat)) by(nonlinear_arith) requires x < 256 * p256((l - 1) as nat);
        lemma_to_be(x / 256, (l - 1) as nat);
        assert(to_be(x, l).drop_last() =~= to_be(x / 256, (l - 1) as nat));
    }
}
pub proof fn lemma_be_inj(a: Seq<u8>, b: Seq<u8>)
    requires a.len() == b.len(), be(a) == be(b)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        assert(a.last() == b.last() && be(a.drop_last()) == be(b.drop_last())) by(nonlinear_arith)
            requires be(a.drop_last()) * 256 + a.last() as nat == be(b.drop_last()) * 256 + b.last() as nat, a.last() < 256, b.last() < 256;
        lemma_be_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
pub open spec fn be32(x: u32) -> Seq<u8> { seq![(x >> 24) as u8, ((x >> 16) & 0xff) as u8, ((x >> 8) & 0xff) as u8, (x & 0xff) as u8] }
pub open spec fn un32(s: Seq<u8>) -> u32 { ((s[0] as u32) << 24) | ((s[1] as u32) << 16) | ((s[2] as u32) << 8) | (s[3] as u32) }
pub proof fn lemma_be32(x: u32) ensures un32(be32(x)) == x, be32(x).len() == 4
{
    assert(((((x >> 24) as u8) as u32) << 24) | (((((x >> 16) & 0xff) as u8) as u32) << 16) | (((((x >> 8) & 0xff) as u8) as u32) << 8) | (((x & 0xff) as u8) as u32) == x) by(bit_vector);
}
pub proof fn lemma_un32(s: Seq<u8>) requires s.len() == 4 ensures be32(un32(s)) == s
{
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    let x = ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32);
    assert((x >> 24) as u8 == a && ((x >> 16) & 0xff) as u8 == b && ((x >> 8) & 0xff) as u8 == c && (x & 0xff) as u8 == d) by(bit_vector)
        requires x == ((a as u32) << 24) | ((b as u32) << 16) | ((c as u32) << 8) | (d as u32);
    assert(be32(un32(s)) =~= s);
}
pub uninterp spec fn csprng(s: Seq<u8>) -> bool;
// ---------- secp256k1
/// the order of the group
 #[verifier::opaque]
pub open spec fn secp_n() -> nat {
    0xffff_ffff_ffff_ffff_ffff_ffff_ffff_fffe_u128 as nat * (0x1_0000_0000_0000_0000_u128 as nat * 0x1_0000_0000_0000_0000_u128 as nat) + 0xbaae_dce6_af48_a03b_bfd2_5e8c_d036_4141_u128 as nat
}
pub broadcast proof fn ax_n() ensures 1 < #[trigger] secp_n() < p256(32) { reveal(secp_n); assert(1 < secp_n() < p256(32)) by(compute); }
pub open spec fn sk_ok(b: Seq<u8>) -> bool { b.len() == 32 && 0 < be(b) < secp_n() }
/// (a + b) mod n, unless that is zero
pub open spec fn sk_add(a: Seq<u8>, b: Seq<u8>) -> Option<Seq<u8>> {
    if (be(a) + be(b)) % secp_n() == 0 { None } else { Some(to_be((be(a) + be(b)) % secp_n(), 32)) }
}
pub open spec fn secp_tweak(a: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>> { if sk_ok(t) { sk_add(a, t) } else { None } }
pub open spec fn secp_ptweak(p: Seq<u8>, t: Seq<u8>) -> Option<Seq<u8>> { if sk_ok(t) { padd(p, t) } else { None } }
pub uninterp spec fn ecdsa_sig(k: Seq<u8>, m: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn ecdsa_rec(k: Seq<u8>, m: Seq<u8>) -> u8;
pub axiom fn ax_ecdsa(k: Seq<u8>, m: Seq<u8>)
    requires sk_ok(k), m.len() == 32
    ensures ecdsa_sig(k, m).len() == 64, ecdsa_recover(m, ecdsa_sig(k, m), ecdsa_rec(k, m)) == Some(gmul(k));
pub proof fn lemma_sk_add_ok(a: Seq<u8>, t: Seq<u8>)
    ensures sk_add(a, t) matches Some(s) ==> sk_ok(s) && s.len() == 32
{
    broadcast use ax_n;
    let x = (be(a) + be(t)) % secp_n();
    if x != 0 { lemma_to_be(x, 32); }
}
/// first four bytes of HASH160
pub open spec fn fp(p: Seq<u8>) -> Seq<u8> { ripemd160(sha256(p)).subrange(0, 4) }
// ---------- text
/// UTF-8 of a character
pub open spec fn utf8_1(c: char) -> Seq<u8> {
    let u = c as u32;
    if u < 0x80 { seq![u as u8] }
    else if u < 0x800 { seq![(0xc0 + u / 0x40) as u8, (0x80 + u % 0x40) as u8] }
    else if u < 0x10000 { seq![(0xe0 + u / 0x1000) as u8, (0x80 + u / 0x40 % 0x40) as u8, (0x80 + u % 0x40) as u8] }
    else { seq![(0xf0 + u / 0x40000) as u8, (0x80 + u / 0x1000 % 0x40) as u8, (0x80 + u / 0x40 % 0x40) as u8, (0x80 + u % 0x40) as u8] }
}
 #[verifier::opaque]
pub open spec fn utf8(s: Seq<char>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { utf8(s.drop_last()) + utf8_1(s.last()) } }
pub open spec fn all_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
pub open spec fn ascii_bytes(s: Seq<char>) -> Seq<u8> { Seq::new(s.len(), |i: int| s[i] as u8) }
/// Unicode White_Space
 #[verifier::opaque]
pub open spec fn is_ws(c: char) -> bool {
    let u = c as u32;
    9 <= u <= 13 || u == 0x20 || u == 0x85 || u == 0xa0 || u == 0x1680 || 0x2000 <= u <= 0x200a || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000
}
pub broadcast proof fn ax_ws() ensures #[trigger] is_ws(' ') { reveal(is_ws); }
pub enum Sep { Ch(char), Ws }
pub open spec fn is_sep(m: Sep, c: char) -> bool { match m { Sep::Ch(x) => x == c, Sep::Ws => is_ws(c) } }
pub open spec fn split_by(s: Seq<char>, m: Sep) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] }
    else {
        let r = split_by(s.skip(1), m);
        if is_sep(m, s[0]) { seq![Seq::<char>::empty()] + r } else { seq![seq![s[0]] + r[0]] + r.skip(1) }
    }
}
pub open spec fn split_spec(s: Seq<char>, c: char) -> Seq<Seq<char>> { split_by(s, Sep::Ch(c)) }
pub open spec fn nonempty(ws: Seq<Seq<char>>) -> Seq<Seq<char>> decreases ws.len() {
    if ws.len() == 0 { Seq::empty() }
    else if ws.last().len() == 0 { nonempty(ws.drop_last()) }
    else { nonempty(ws.drop_last()).push(ws.last()) }
}
pub open spec fn split_ws(s: Seq<char>) -> Seq<Seq<char>> { nonempty(split_by(s, Sep::Ws)) }
pub open spec fn join(ws: Seq<Seq<char>>, glue: Seq<char>) -> Seq<char> decreases ws.len() {
    if ws.len() == 0 { Seq::empty() }
    else if ws.len() == 1 { ws[0] }
    else { join(ws.drop_last(), glue) + glue + ws.last() }
}
pub open spec fn ends_with(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.subrange(s.len() - p.len(), s.len() as int) =~= p }
pub open spec fn lower1(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32) + 32) as char } else { c } }
pub open spec fn lower(s: Seq<char>) -> Seq<char> { Seq::new(s.len(), |i: int| lower1(s[i])) }
pub uninterp spec fn nfkd(s: Seq<char>) -> Seq<char>;
pub open spec fn trim_spec(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && is_ws(s[0]) { trim_spec(s.skip(1)) } else if s.len() > 0 && is_ws(s.last()) { trim_spec(s.drop_last()) } else { s }
}
pub uninterp spec fn gb18030(s: Seq<char>) -> Seq<u8>;
// ---------- decimal and hex
pub open spec fn digit(n: nat) -> char { ((48 + n) as u32) as char }
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) } }
pub open spec fn is_digit(c: char) -> bool { 48 <= (c as u32) <= 57 }
pub open spec fn parse_digits(s: Seq<char>) -> Option<nat> decreases s.len() {
    if s.len() == 0 { None }
    else if !is_digit(s.last()) { None }
    else if s.len() == 1 { Some(((s[0] as u32) - 48) as nat) }
    else { match parse_digits(s.drop_last()) { None => None, Some(v) => Some(v * 10 + ((s.last() as u32) - 48) as nat) } }
}
/// an unsigned decimal number as Rust's integer parser reads it: digits, with an optional leading +
pub open spec fn parse_dec(s: Seq<char>) -> Option<nat> { if s.len() > 0 && s[0] == '+' { parse_digits(s.skip(1)) } else { parse_digits(s) } }
pub open spec fn hexd(n: nat, upper: bool) -> char { if n < 10 { digit(n) } else if upper { ((55 + n) as u32) as char } else { ((87 + n) as u32) as char } }
pub open spec fn hex2(b: u8, upper: bool) -> Seq<char> { seq![hexd((b / 16) as nat, upper), hexd((b % 16) as nat, upper)] }
pub open spec fn hexs(b: Seq<u8>, upper: bool) -> Seq<char> decreases b.len() { if b.len() == 0 { Seq::empty() } else { hexs(b.drop_last(), upper) + hex2(b.last(), upper) } }
/// the text of {:#010x}
pub open spec fn hex8(x: u32) -> Seq<char> { seq!['0', 'x'] + hexs(be32(x), false) }
pub broadcast proof fn lemma_dec(n: nat)
    ensures parse_digits(#[trigger] dec(n)) == Some(n), dec(n).len() > 0, forall|i: int| 0 <= i < dec(n).len() ==> is_digit(#[trigger] dec(n)[i])
    decreases n
{
    lemma_digit();
    if n >= 10 {
        lemma_dec(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
        assert(n == (n / 10) * 10 + n % 10);
    } else {
    }
}
pub proof fn lemma_digit() ensures forall|k: nat| k < 10 ==> is_digit(#[trigger] digit(k)) && (digit(k) as u32) == 48 + k
{
    assert forall|k: nat| k < 10 implies is_digit(#[trigger] digit(k)) && (digit(k) as u32) == 48 + k by {
        let u = (48 + k) as u32;
        assert(u < 128);
    }
}
/// equal contents give equal results: contents assembled piecewise are compared element by element
pub broadcast proof fn lemma_hmac_ext(k: Seq<u8>, a: Seq<u8>, b: Seq<u8>) requires a =~= b ensures #[trigger] hmac512(k, a) == #[trigger] hmac512(k, b) { }
pub broadcast proof fn lemma_hmac_ext_key(k: Seq<u8>, l: Seq<u8>, a: Seq<u8>) requires k =~= l ensures #[trigger] hmac512(k, a) == #[trigger] hmac512(l, a) { }
pub broadcast proof fn lemma_b58c_ext(a: Seq<u8>, b: Seq<u8>) requires a =~= b ensures #[trigger] b58c(a) == #[trigger] b58c(b) { }
pub broadcast proof fn lemma_subsub(s: Seq<u8>, n: int, a: int, b: int)
    requires 0 <= a <= b <= n <= s.len()
    ensures #[trigger] s.subrange(0, n).subrange(a, b) == s.subrange(a, b)
{ assert(s.subrange(0, n).subrange(a, b) =~= s.subrange(a, b)); }
pub open spec fn chars_of(b: Seq<u8>) -> Seq<char> { Seq::new(b.len(), |i: int| b[i] as char) }
pub open spec fn bytes7(b: Seq<u8>) -> bool { forall|i: int| 0 <= i < b.len() ==> (#[trigger] b[i]) < 128 }
pub broadcast group group_spec { lemma_subsub, lemma_hmac_ext, lemma_b58c_ext,  ax_hmac_len, ax_sha256_len, ax_ripemd_len, ax_n, ax_point_len, ax_gmul_ok, ax_b58c, ax_b58c_len, ax_ws }
#end
