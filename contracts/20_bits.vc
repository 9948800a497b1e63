#mod spec
// ---------- bit sequences, most significant bit first
pub open spec fn bit(v: u64, i: int) -> bool { ((v >> (i as u64)) & 1u64) == 1u64 }
pub open spec fn bits_of(v: u64, n: nat) -> Seq<bool> { Seq::new(n, |i: int| bit(v, n - 1 - i)) }
pub open spec fn val(b: Seq<bool>) -> nat decreases b.len() {
    if b.len() == 0 { 0 } else { val(b.drop_last()) * 2 + (if b.last() { 1nat } else { 0nat }) }
}
/// the n low bits of each value, one after the other
pub open spec fn bflat(v: Seq<u64>, n: nat) -> Seq<bool> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { bflat(v.drop_last(), n) + bits_of(v.last(), n) }
}
pub open spec fn wide8(b: Seq<u8>) -> Seq<u64> { Seq::new(b.len(), |i: int| b[i] as u64) }
pub open spec fn flat8(b: Seq<u8>) -> Seq<bool> { bflat(wide8(b), 8) }
pub open spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }
pub proof fn lemma_p2_vals() ensures p2(8) == 256, p2(11) == 2048, p2(16) == 65536
{ reveal_with_fuel(p2, 18); }
pub proof fn lemma_p2_mono(a: nat, b: nat) requires a <= b ensures p2(a) <= p2(b) decreases b
{ if a < b { lemma_p2_mono(a, (b - 1) as nat); } }
pub proof fn lemma_p2_shl(n: nat) requires n < 64 ensures (1u64 << (n as u64)) as nat == p2(n) decreases n
{
    if n == 0 { assert(1u64 << 0u64 == 1u64) by(bit_vector); }
    else {
        lemma_p2_shl((n - 1) as nat);
        let m = n as u64;
        assert(m < 64 && m > 0 ==> (1u64 << m) == mul(2u64, 1u64 << sub(m, 1))) by(bit_vector);
        assert(m < 64 && m > 0 ==> (1u64 << sub(m, 1u64)) <= 0x4000_0000_0000_0000u64) by(bit_vector);
    }
}
pub proof fn lemma_val_bound(b: Seq<bool>) ensures val(b) < p2(b.len()) decreases b.len()
{ if b.len() > 0 { lemma_val_bound(b.drop_last()); } }
pub proof fn lemma_val_inj(a: Seq<bool>, b: Seq<bool>)
    requires a.len() == b.len(), val(a) == val(b)
    ensures a == b
    decreases a.len()
{
    if a.len() > 0 {
        lemma_val_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else { assert(a =~= b); }
}
pub proof fn lemma_val_bits(v: u64, n: nat)
    requires n <= 63, v < p2(n)
    ensures val(bits_of(v, n)) == v
    decreases n
{
    if n > 0 {
        let h = v >> 1u64;
        assert(h == v / 2) by(bit_vector) requires h == v >> 1u64;
        lemma_val_bits(h, (n - 1) as nat);
        assert forall|i: int| 0 <= i < n - 1 implies #[trigger] bits_of(v, n)[i] == bits_of(h, (n - 1) as nat)[i] by {
            let k = (n - 2 - i) as u64;
            assert((v >> add(k, 1u64)) & 1 == (h >> k) & 1) by(bit_vector) requires h == v >> 1u64, k < 62;
        }
        assert(bits_of(v, n).drop_last() =~= bits_of(h, (n - 1) as nat));
        assert((v >> 0u64) & 1 == v % 2) by(bit_vector);
        assert(bits_of(v, n).last() == bit(v, 0));
        assert(v == (v / 2) * 2 + v % 2);
    }
}
/// the bits of a value of n bits determine it
pub proof fn lemma_bits_val(b: Seq<bool>)
    requires b.len() <= 63
    ensures val(b) < p2(b.len()), val(b) <= u64::MAX, bits_of(val(b) as u64, b.len()) == b
{
    lemma_val_bound(b);
    lemma_p2_mono(b.len(), 63);
    lemma_p2_shl(63);
    lemma_val_bits(val(b) as u64, b.len());
    lemma_val_inj(bits_of(val(b) as u64, b.len()), b);
}
pub proof fn lemma_bflat_len(v: Seq<u64>, n: nat) ensures bflat(v, n).len() == v.len() * n decreases v.len()
{
    if v.len() > 0 {
        lemma_bflat_len(v.drop_last(), n);
        assert(v.len() * n == (v.len() - 1) * n + n) by(nonlinear_arith) requires v.len() > 0;
    } else { assert(v.len() * n == 0) by(nonlinear_arith) requires v.len() == 0; }
}
pub proof fn lemma_bflat_push(v: Seq<u64>, x: u64, n: nat) ensures bflat(v.push(x), n) == bflat(v, n) + bits_of(x, n)
{ assert(v.push(x).drop_last() =~= v); }
pub proof fn lemma_bflat_add(a: Seq<u64>, b: Seq<u64>, n: nat) ensures bflat(a + b, n) == bflat(a, n) + bflat(b, n) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(bflat(a, n) + bflat(b, n) =~= bflat(a, n)); }
    else {
        lemma_bflat_add(a, b.drop_last(), n);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(bflat(a, n) + bflat(b, n) =~= (bflat(a, n) + bflat(b.drop_last(), n)) + bits_of(b.last(), n));
    }
}
pub proof fn lemma_bflat_one(x: u64, n: nat) ensures bflat(seq![x], n) == bits_of(x, n)
{
    lemma_bflat_push(Seq::empty(), x, n);
    assert(Seq::<u64>::empty().push(x) =~= seq![x]);
    assert(bflat(Seq::empty(), n) + bits_of(x, n) =~= bits_of(x, n));
}
pub proof fn lemma_bflat_front(v: Seq<u64>, n: nat)
    requires v.len() > 0
    ensures bflat(v, n) == bits_of(v[0], n) + bflat(v.subrange(1, v.len() as int), n)
{
    lemma_bflat_add(seq![v[0]], v.subrange(1, v.len() as int), n);
    lemma_bflat_one(v[0], n);
    assert(seq![v[0]] + v.subrange(1, v.len() as int) =~= v);
}
pub proof fn lemma_bflat_win(v: Seq<u64>, n: nat, i: int)
    requires 0 <= i < v.len()
    ensures i * n >= 0, (i + 1) * n <= bflat(v, n).len(), (i + 1) * n == i * n + n, bflat(v, n).subrange(i * n, (i + 1) * n) == bits_of(v[i], n)
{
    lemma_bflat_len(v, n);
    let a = v.subrange(0, i); let b = v.subrange(i, v.len() as int);
    assert(v =~= a + b);
    lemma_bflat_add(a, b, n);
    lemma_bflat_len(a, n);
    lemma_bflat_front(b, n);
    assert((i + 1) * n == i * n + n) by(nonlinear_arith);
    assert(i * n >= 0) by(nonlinear_arith) requires i >= 0, n >= 0;
    assert((i + 1) * n <= v.len() * n) by(nonlinear_arith) requires i + 1 <= v.len(), n >= 0;
    assert(bflat(v, n).subrange(i * n, (i + 1) * n) =~= bits_of(v[i], n));
}
pub proof fn lemma_flat8_push(b: Seq<u8>, x: u8) ensures flat8(b.push(x)) == flat8(b) + bits_of(x as u64, 8)
{
    assert(wide8(b.push(x)) =~= wide8(b).push(x as u64));
    lemma_bflat_push(wide8(b), x as u64, 8);
}
pub proof fn lemma_flat8_take(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len()
    ensures flat8(b).len() == 8 * b.len(), flat8(b.subrange(0, k)) == flat8(b).subrange(0, 8 * k)
{
    let c = b.subrange(0, k); let d = b.subrange(k, b.len() as int);
    assert(wide8(b) =~= wide8(c) + wide8(d));
    lemma_bflat_add(wide8(c), wide8(d), 8);
    lemma_bflat_len(wide8(c), 8);
    lemma_bflat_len(wide8(b), 8);
    assert(flat8(b).subrange(0, 8 * k) =~= flat8(c));
}
pub proof fn lemma_flat8_win(b: Seq<u8>, i: int)
    requires 0 <= i < b.len()
    ensures flat8(b).len() == 8 * b.len(), flat8(b).subrange(8 * i, 8 * i + 8) == bits_of(b[i] as u64, 8), val(bits_of(b[i] as u64, 8)) == b[i]
{
    lemma_bflat_len(wide8(b), 8);
    lemma_bflat_win(wide8(b), 8, i);
    lemma_p2_vals();
    lemma_val_bits(b[i] as u64, 8);
}
/// the bytes a sequence of bits stands for
pub open spec fn bytes_of(b: Seq<bool>) -> Seq<u8> { Seq::new(b.len() / 8, |i: int| val(b.subrange(8 * i, 8 * i + 8)) as u8) }
pub proof fn lemma_bytes_of(b: Seq<u8>) ensures bytes_of(flat8(b)) == b
{
    lemma_bflat_len(wide8(b), 8);
    assert forall|i: int| 0 <= i < b.len() implies #[trigger] bytes_of(flat8(b))[i] == b[i] by { lemma_flat8_win(b, i); }
    assert(bytes_of(flat8(b)) =~= b);
}
/// taking n bits and keeping the rest: the two ways of counting groups agree
pub proof fn lemma_shift_or(rem: u32, off: u32, s: u32, v: u32, r2: u32)
    requires off < 8, 1 <= s <= 16, v < (1u32 << s), rem << off == 0, r2 == rem | ((v << sub(32, s)) >> off)
    ensures
        bits_of(r2 as u64, 32).subrange(0, off + s) == bits_of(rem as u64, 32).subrange(0, off as int) + bits_of(v as u64, s as nat),
        r2 << add(off, s) == 0,
{
    assert(r2 << add(off, s) == 0) by(bit_vector)
        requires off < 8, 1 <= s, s <= 16, v < (1u32 << s), rem << off == 0, r2 == rem | ((v << sub(32, s)) >> off);
    let l = bits_of(r2 as u64, 32).subrange(0, off + s);
    let r = bits_of(rem as u64, 32).subrange(0, off as int) + bits_of(v as u64, s as nat);
    assert forall|j: int| 0 <= j < off + s implies l[j] == r[j] by {
        let k = (31 - j) as u64;
        if j < off {
            assert((((r2 as u64) >> k) & 1u64) == (((rem as u64) >> k) & 1u64)) by(bit_vector)
                requires off < 8, 1 <= s, s <= 16, v < (1u32 << s), k <= 31, k > sub(31u64, off as u64), r2 == rem | ((v << sub(32, s)) >> off);
        } else {
            let q = (s - 1 - (j - off)) as u64;
            assert((((r2 as u64) >> k) & 1u64) == (((v as u64) >> q) & 1u64)) by(bit_vector)
                requires off < 8, 1 <= s, s <= 16, v < (1u32 << s), rem << off == 0, k <= 31, q < s as u64,
                    k == sub(add(32u64, q), add(off as u64, s as u64)), r2 == rem | ((v << sub(32, s)) >> off);
        }
    }
    assert(l =~= r);
}
pub proof fn lemma_byte_out(rem: u32, off: u32)
    requires 8 <= off <= 24, rem << off == 0
    ensures
        bits_of(rem as u64, 32).subrange(0, off as int) == bits_of(((rem >> 24) as u8) as u64, 8) + bits_of((rem << 8) as u64, 32).subrange(0, off - 8),
        (rem << 8) << sub(off, 8) == 0,
{
    assert((rem << 8) << sub(off, 8) == 0) by(bit_vector) requires 8 <= off, off <= 24, rem << off == 0;
    let l = bits_of(rem as u64, 32).subrange(0, off as int);
    let r = bits_of(((rem >> 24) as u8) as u64, 8) + bits_of((rem << 8) as u64, 32).subrange(0, off - 8);
    assert forall|j: int| 0 <= j < off implies l[j] == r[j] by {
        let k = (31 - j) as u64;
        if j < 8 {
            let q = (7 - j) as u64;
            assert((((rem as u64) >> k) & 1u64) == (((((rem >> 24) as u8) as u64) >> q) & 1u64)) by(bit_vector) requires k == add(q, 24u64), q < 8;
        } else {
            let q = (39 - j) as u64;
            assert((((rem as u64) >> k) & 1u64) == ((((rem << 8) as u64) >> q) & 1u64)) by(bit_vector) requires q == add(k, 8u64), q < 32;
        }
    }
    assert(l =~= r);
}
pub proof fn lemma_last_byte(rem: u32, off: u32)
    requires 0 < off < 8, rem << off == 0
    ensures bits_of(((rem >> 24) as u8) as u64, 8) == bits_of(rem as u64, 32).subrange(0, off as int) + Seq::new((8 - off) as nat, |i: int| false)
{
    let l = bits_of(((rem >> 24) as u8) as u64, 8);
    let r = bits_of(rem as u64, 32).subrange(0, off as int) + Seq::new((8 - off) as nat, |i: int| false);
    assert forall|j: int| 0 <= j < 8 implies l[j] == r[j] by {
        let q = (7 - j) as u64;
        if j < off {
            let k = (31 - j) as u64;
            assert((((rem as u64) >> k) & 1u64) == (((((rem >> 24) as u8) as u64) >> q) & 1u64)) by(bit_vector) requires k == add(q, 24u64), q < 8;
        } else {
            assert((((((rem >> 24) as u8) as u64) >> q) & 1u64) == 0) by(bit_vector) requires 0 < off, off < 8, rem << off == 0, add(q, off as u64) <= 7u64, q <= 7u64;
        }
    }
    assert(l =~= r);
}
/// reading s more bits into a 64-bit buffer that holds n of them
pub proof fn lemma_absorb(buf: u64, n: u64, s: u64, v: u64, b2: u64)
    requires n < 32, 1 <= s <= 16, v < (1u64 << s), buf << n == 0, b2 == buf | (v << sub(64, add(n, s)))
    ensures
        bits_of(b2, 64).subrange(0, n + s) == bits_of(buf, 64).subrange(0, n as int) + bits_of(v, s as nat),
        b2 << add(n, s) == 0,
{
    assert(b2 << add(n, s) == 0) by(bit_vector)
        requires n < 32, 1 <= s, s <= 16, v < (1u64 << s), buf << n == 0, b2 == buf | (v << sub(64, add(n, s)));
    let l = bits_of(b2, 64).subrange(0, n + s);
    let r = bits_of(buf, 64).subrange(0, n as int) + bits_of(v, s as nat);
    assert forall|j: int| 0 <= j < n + s implies l[j] == r[j] by {
        let k = (63 - j) as u64;
        if j < n {
            assert(((b2 >> k) & 1u64) == ((buf >> k) & 1u64)) by(bit_vector)
                requires n < 32, 1 <= s, s <= 16, v < (1u64 << s), k <= 63, k > sub(63, n), b2 == buf | (v << sub(64, add(n, s)));
        } else {
            let q = (s - 1 - (j - n)) as u64;
            assert(((b2 >> k) & 1u64) == ((v >> q) & 1u64)) by(bit_vector)
                requires n < 32, 1 <= s, s <= 16, v < (1u64 << s), buf << n == 0, q < s, k == sub(add(64, q), add(n, s)), b2 == buf | (v << sub(64, add(n, s)));
        }
    }
    assert(l =~= r);
}
/// taking o bits off the top of the buffer
pub proof fn lemma_emit(buf: u64, n: u64, o: u64)
    requires 1 <= o <= 16, o <= n <= 48, buf << n == 0
    ensures
        val(bits_of(buf, 64).subrange(0, o as int)) == ((buf >> sub(64, o)) as u16) as nat,
        (((buf >> sub(64, o)) as u16) as nat) < p2(o as nat),
        bits_of(buf << o, 64).subrange(0, n - o) == bits_of(buf, 64).subrange(o as int, n as int),
        (buf << o) << sub(n, o) == 0,
{
    assert((buf << o) << sub(n, o) == 0) by(bit_vector) requires 1 <= o, o <= 16, o <= n, n <= 48, buf << n == 0;
    let t = buf >> sub(64, o);
    assert(t < (1u64 << o) && t == (t as u16) as u64) by(bit_vector) requires t == buf >> sub(64, o), 1 <= o, o <= 16;
    lemma_p2_shl(o as nat);
    lemma_val_bits(t, o as nat);
    assert forall|j: int| 0 <= j < o implies #[trigger] bits_of(buf, 64)[j] == bits_of(t, o as nat)[j] by {
        let k = (63 - j) as u64; let q = (o - 1 - j) as u64;
        assert(((buf >> k) & 1u64) == ((t >> q) & 1u64)) by(bit_vector) requires t == buf >> sub(64, o), 1 <= o, o <= 16, q < o, k == sub(add(64, q), o);
    }
    assert(bits_of(buf, 64).subrange(0, o as int) =~= bits_of(t, o as nat));
    let b2 = buf << o;
    assert forall|j: int| 0 <= j < n - o implies #[trigger] bits_of(b2, 64)[j] == bits_of(buf, 64)[j + o] by {
        let k = (63 - j) as u64; let q = (63 - (j + o)) as u64;
        assert(((b2 >> k) & 1u64) == ((buf >> q) & 1u64)) by(bit_vector) requires b2 == buf << o, 1 <= o, o <= 16, k <= 63, k >= o, q == sub(k, o);
    }
    assert(bits_of(b2, 64).subrange(0, n - o) =~= bits_of(buf, 64).subrange(o as int, n as int));
}
/// the leading bits of a byte
pub proof fn lemma_top_bits(b: u8, n: u8)
    requires 1 <= n <= 8
    ensures bits_of((b >> sub(8, n)) as u64, n as nat) == bits_of(b as u64, 8).subrange(0, n as int), ((b >> sub(8, n)) as nat) < p2(n as nat)
{
    let t = b >> sub(8, n);
    assert((t as u64) < (1u64 << (n as u64))) by(bit_vector) requires t == b >> sub(8, n), 1 <= n, n <= 8;
    lemma_p2_shl(n as nat);
    assert forall|j: int| 0 <= j < n implies #[trigger] bits_of(t as u64, n as nat)[j] == bits_of(b as u64, 8)[j] by {
        let k = (7 - j) as u64; let q = (n - 1 - j) as u64;
        assert((((t as u64) >> q) & 1u64) == (((b as u64) >> k) & 1u64)) by(bit_vector) requires t == b >> sub(8, n), 1 <= n, n <= 8, q < n as u64, k == sub(add(8, q), n as u64);
    }
    assert(bits_of(t as u64, n as nat) =~= bits_of(b as u64, 8).subrange(0, n as int));
}
#end
