// ---------------------------------------------------------------- Base58Check, defined
#mod spec
/// the alphabet 1-9 A-H J-N P-Z a-k m-z
pub open spec fn b58d(n: nat) -> u8 {
    (if n < 9 { 49 + n } else if n < 17 { 56 + n } else if n < 22 { 57 + n } else if n < 33 { 58 + n } else if n < 44 { 64 + n } else { 65 + n }) as u8
}
pub open spec fn digits58(n: nat) -> Seq<u8> decreases n { if n == 0 { Seq::empty() } else { digits58(n / 58).push(b58d(n % 58)) } }
/// a 1 for every leading zero byte, then the number in base 58
pub open spec fn enc58(x: Seq<u8>) -> Seq<u8> decreases x.len() {
    if x.len() > 0 && x[0] == 0 { seq![49u8] + enc58(x.skip(1)) } else { digits58(be(x)) }
}
pub open spec fn check58(d: Seq<u8>) -> Seq<u8> { d + sha256(sha256(d)).subrange(0, 4) }
/// Base58Check text of the bytes (4 checksum bytes appended)
 #[verifier::opaque]
pub open spec fn b58c(d: Seq<u8>) -> Seq<char> { chars_of(enc58(check58(d))) }
/// the payload when the bytes are Base58Check text with a correct checksum
 #[verifier::opaque]
pub open spec fn b58c_un(t: Seq<u8>) -> Option<Seq<u8>> {
    if exists|d: Seq<u8>| #[trigger] ascii_bytes(b58c(d)) == t { Some(choose|d: Seq<u8>| #[trigger] ascii_bytes(b58c(d)) == t) } else { None }
}
pub open spec fn p58(l: nat) -> nat decreases l { if l == 0 { 1 } else { 58 * p58((l - 1) as nat) } }
pub proof fn lemma_b58d(a: nat, b: nat)
    requires a < 58, b < 58, b58d(a) == b58d(b)
    ensures a == b
{ }
pub proof fn lemma_p256_pos(l: nat) ensures p256(l) > 0 decreases l { if l > 0 { lemma_p256_pos((l - 1) as nat); } }
pub proof fn lemma_p58_pos(l: nat) ensures p58(l) > 0 decreases l { if l > 0 { lemma_p58_pos((l - 1) as nat); } }
pub proof fn lemma_digits_inj(a: nat, b: nat)
    requires digits58(a) == digits58(b)
    ensures a == b
    decreases a
{
    if a == 0 || b == 0 {
        if a > 0 { assert(digits58(a).len() == digits58(a / 58).len() + 1); }
        if b > 0 { assert(digits58(b).len() == digits58(b / 58).len() + 1); }
    } else {
        assert(digits58(a).last() == b58d(a % 58) && digits58(b).last() == b58d(b % 58));
        lemma_b58d(a % 58, b % 58);
        assert(digits58(a).drop_last() =~= digits58(a / 58) && digits58(b).drop_last() =~= digits58(b / 58));
        lemma_digits_inj(a / 58, b / 58);
    }
}
pub proof fn lemma_digits_first(n: nat)
    requires n > 0
    ensures digits58(n).len() > 0, digits58(n)[0] != 49
    decreases n
{
    if n >= 58 { lemma_digits_first(n / 58); assert(digits58(n)[0] == digits58(n / 58)[0]); }
    else { assert(digits58(n / 58) =~= Seq::empty()); assert(digits58(n)[0] == b58d(n)); }
}
pub proof fn lemma_digits7(n: nat)
    ensures bytes7(digits58(n))
    decreases n
{ if n > 0 { lemma_digits7(n / 58); } }
pub proof fn lemma_enc7(x: Seq<u8>)
    ensures bytes7(enc58(x))
    decreases x.len()
{ if x.len() > 0 && x[0] == 0 { lemma_enc7(x.skip(1)); } else { lemma_digits7(be(x)); } }
pub proof fn lemma_be_bounds(x: Seq<u8>)
    ensures be(x) < p256(x.len()), x.len() > 0 && x[0] != 0 ==> be(x) >= p256((x.len() - 1) as nat)
    decreases x.len()
{
    if x.len() > 0 {
        let y = x.drop_last();
        lemma_be_bounds(y);
        let (h, l, p) = (be(y), x.last() as nat, p256(y.len()));
        assert(h * 256 + l < 256 * p) by(nonlinear_arith) requires h < p, l < 256;
        if x[0] != 0 && x.len() > 1 {
            assert(y[0] == x[0]);
            let q = p256((y.len() - 1) as nat);
            assert(h * 256 + l >= 256 * q) by(nonlinear_arith) requires h >= q, l >= 0;
        }
    }
}
pub proof fn lemma_be_len(x: Seq<u8>, y: Seq<u8>)
    requires be(x) == be(y), x.len() == 0 || x[0] != 0, y.len() == 0 || y[0] != 0
    ensures x.len() >= y.len()
{
    lemma_be_bounds(x); lemma_be_bounds(y);
    if x.len() < y.len() { lemma_p256_mono(x.len(), (y.len() - 1) as nat); }
}
pub proof fn lemma_p256_mono(a: nat, b: nat)
    requires a <= b
    ensures p256(a) <= p256(b)
    decreases b
{ if a < b { lemma_p256_mono(a, (b - 1) as nat); lemma_p256_pos((b - 1) as nat); } }
pub proof fn lemma_enc_inj(x: Seq<u8>, y: Seq<u8>)
    requires enc58(x) == enc58(y)
    ensures x == y
    decreases x.len()
{
    let (zx, zy) = (x.len() > 0 && x[0] == 0, y.len() > 0 && y[0] == 0);
    if zx && zy {
        assert(enc58(x).skip(1) =~= enc58(x.skip(1)) && enc58(y).skip(1) =~= enc58(y.skip(1)));
        lemma_enc_inj(x.skip(1), y.skip(1));
        assert(x =~= seq![0u8] + x.skip(1) && y =~= seq![0u8] + y.skip(1));
    } else if zx || zy {
        let (z, w) = if zx { (x, y) } else { (y, x) };
        assert(enc58(z)[0] == 49);
        if be(w) > 0 { lemma_digits_first(be(w)); }
    } else {
        lemma_digits_inj(be(x), be(y));
        lemma_be_len(x, y); lemma_be_len(y, x);
        lemma_be_inj(x, y);
    }
}
pub proof fn lemma_b58c_inj(a: Seq<u8>, b: Seq<u8>)
    requires b58c(a) == b58c(b)
    ensures a == b
{
    reveal(b58c); broadcast use ax_sha256_len;
    let (x, y) = (check58(a), check58(b));
    lemma_enc7(x); lemma_enc7(y);
    assert(enc58(x) =~= ascii_bytes(chars_of(enc58(x)))) by { lemma_chars7(enc58(x)); }
    assert(enc58(y) =~= ascii_bytes(chars_of(enc58(y)))) by { lemma_chars7(enc58(y)); }
    lemma_enc_inj(x, y);
    assert(a =~= x.subrange(0, x.len() - 4) && b =~= y.subrange(0, y.len() - 4));
}
pub proof fn lemma_chars7(b: Seq<u8>)
    requires bytes7(b)
    ensures ascii_bytes(chars_of(b)) == b, all_ascii(chars_of(b))
{
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] chars_of(b)[i] as u32) < 128 && chars_of(b)[i] as u8 == b[i] by { assert(b[i] < 128); }
    assert(ascii_bytes(chars_of(b)) =~= b);
}
pub proof fn lemma_digits_lower(n: nat, k: nat)
    requires k > 0 ==> n >= p256((k - 1) as nat)
    ensures digits58(n).len() >= k
    decreases k
{
    if k == 1 { }
    else if k > 1 {
        let q = p256((k - 2) as nat);
        lemma_p256_pos((k - 2) as nat);
        assert(n / 58 >= q) by(nonlinear_arith) requires n >= 256 * q, q > 0;
        lemma_digits_lower(n / 58, (k - 1) as nat);
    }
}
pub proof fn lemma_digits_upper(n: nat, m: nat)
    requires n < p58(m)
    ensures digits58(n).len() <= m
    decreases m
{
    if m > 0 && n > 0 {
        let q = p58((m - 1) as nat);
        assert(n / 58 < q) by(nonlinear_arith) requires n < 58 * q;
        lemma_digits_upper(n / 58, (m - 1) as nat);
    }
}
pub proof fn lemma_p256_p58(k: nat)
    requires k <= 82
    ensures p256(k) <= p58(k + 30)
    decreases 82 - k
{
    if k == 82 { assert(p256(82) <= p58(112)) by(compute); }
    else {
        lemma_p256_p58(k + 1); lemma_p256_pos(k);
        let (a, b) = (p256(k), p58(k + 30));
        assert(p58(k + 31) == 58 * b);
        assert(a <= b) by(nonlinear_arith) requires 256 * a <= 58 * b, a > 0;
    }
}
pub proof fn lemma_enc_len(x: Seq<u8>)
    ensures enc58(x).len() >= x.len(), x.len() <= 82 ==> enc58(x).len() <= x.len() + 30
    decreases x.len()
{
    if x.len() > 0 && x[0] == 0 { lemma_enc_len(x.skip(1)); }
    else {
        lemma_be_bounds(x);
        lemma_digits_lower(be(x), x.len());
        if x.len() <= 82 { lemma_p256_p58(x.len()); lemma_digits_upper(be(x), x.len() + 30); }
    }
}
pub broadcast proof fn ax_b58c(d: Seq<u8>)
    ensures all_ascii(#[trigger] b58c(d)), b58c_un(ascii_bytes(b58c(d))) == Some(d), b58c(d).len() >= d.len() + 4
{
    broadcast use ax_sha256_len;
    let t = ascii_bytes(b58c(d));
    assert(all_ascii(b58c(d)) && b58c(d).len() >= d.len() + 4) by { reveal(b58c); lemma_enc7(check58(d)); lemma_chars7(enc58(check58(d))); lemma_enc_len(check58(d)); }
    reveal(b58c_un);
    assert(ascii_bytes(b58c(d)) == t);
    let e = choose|e: Seq<u8>| #[trigger] ascii_bytes(b58c(e)) == t;
    lemma_b58c_text(d); lemma_b58c_text(e);
    lemma_b58c_inj(d, e);
}
/// the text is what its bytes say
pub proof fn lemma_b58c_text(d: Seq<u8>)
    ensures b58c(d) == chars_of(ascii_bytes(b58c(d)))
{ reveal(b58c); lemma_enc7(check58(d)); lemma_chars7(enc58(check58(d))); }
pub broadcast proof fn ax_b58c_len(d: Seq<u8>)
    requires d.len() <= 78
    ensures (#[trigger] b58c(d)).len() <= 112
{ reveal(b58c); broadcast use ax_sha256_len; lemma_enc_len(check58(d)); }
pub proof fn ax_b58c_un(t: Seq<u8>)
    ensures b58c_un(t) matches Some(d) ==> t == ascii_bytes(b58c(d))
{ reveal(b58c_un); }
pub proof fn lemma_be_split(a: Seq<u8>, b: Seq<u8>)
    ensures be(a + b) == be(a) * p256(b.len()) + be(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(be(a) * 1 == be(a)) by(nonlinear_arith); }
    else {
        let c = b.drop_last();
        lemma_be_split(a, c);
        assert((a + b).drop_last() =~= a + c);
        let (x, p, y, l) = (be(a), p256(c.len()), be(c), b.last() as nat);
        assert((a + b).last() == b.last());
        assert(be(a + b) == (x * p + y) * 256 + l);
        assert((x * p + y) * 256 + l == x * (256 * p) + (y * 256 + l)) by(nonlinear_arith);
    }
}
pub proof fn lemma_digits_top(n: nat, j: nat)
    requires n >= p58(j)
    ensures digits58(n).len() >= j, digits58(n / p58(j)) == digits58(n).subrange(0, digits58(n).len() - j)
    decreases j
{
    lemma_p58_pos(j);
    if j == 0 { assert(digits58(n).subrange(0, digits58(n).len() as int) =~= digits58(n)); }
    else {
        let q = p58((j - 1) as nat);
        lemma_p58_pos((j - 1) as nat);
        assert(n / 58 >= q) by(nonlinear_arith) requires n >= 58 * q;
        lemma_digits_top(n / 58, (j - 1) as nat);
        assert(n / (58 * q) == (n / 58) / q) by { vstd::arithmetic::div_mod::lemma_div_denominator(n as int, 58, q as int); }
        let s = digits58(n / 58);
        assert(digits58(n) == s.push(b58d(n % 58)));
        assert(digits58(n).subrange(0, digits58(n).len() - j) =~= s.subrange(0, s.len() - (j - 1)));
    }
}
#end
