// ---------------------------------------------------------------- bit packing
#trait Bits
    /// the value written, in SIZE bits
    spec fn bval(self) -> u64;
    proof fn bits_ok() ensures 1 <= Self::SIZE <= 16;
#fn Bits::bits
#ensures C01 C02
        vx_r as u64 == self.bval(),
#impl u8 as Bits
    open spec fn bval(self) -> u64 { self as u64 }
    proof fn bits_ok() { }
#fn <u8 as Bits>::bits
#prop C01
#impl &u8 as Bits
    open spec fn bval(self) -> u64 { *self as u64 }
    proof fn bits_ok() { assert(<&u8 as Bits>::SIZE == 8); }
#fn <&u8 as Bits>::bits
#prop C01
#impl Bits11 as Bits
    open spec fn bval(self) -> u64 { self.0 as u64 }
    proof fn bits_ok() { assert(<Bits11 as Bits>::SIZE == 11); }
#fn <Bits11 as Bits>::bits
#prop C01 C02
#impl Bits11 as From<u16>
    open spec fn from_post(x: u16, r: Self) -> bool { r.0 == x }
#fn <Bits11 as From<u16>>::from
#prop C01 C04
#impl u16 as From<Bits11>
    open spec fn from_post(x: Bits11, r: Self) -> bool { r == x.0 }
#fn <u16 as From<Bits11>>::from
#prop C04
#mod bip39::util
pub open spec fn no_bits(r: u32, off: nat) -> bool { off < 32 && r << (off as u32) == 0 }
impl BitWriter {
    /// every bit written so far
    pub open spec fn all(&self) -> Seq<bool> { flat8(self.inner@) + bits_of(self.remainder as u64, 32).subrange(0, self.offset as int) }
    pub open spec fn ok(&self) -> bool { self.offset < 8 && no_bits(self.remainder, self.offset as nat) }
}
pub proof fn lemma_push(rem: u32, off: nat, s: nat, v: u32, r2: u32)
    requires off < 8, 1 <= s <= 16, (v as nat) < p2(s), no_bits(rem, off), r2 == rem | ((v << ((32 - s) as u32)) >> (off as u32))
    ensures
        bits_of(r2 as u64, 32).subrange(0, (off + s) as int) == bits_of(rem as u64, 32).subrange(0, off as int) + bits_of(v as u64, s),
        no_bits(r2, off + s),
{
    lemma_p2_shl(s);
    let su = s as u32; let sl = s as u64;
    assert(v < (1u32 << su)) by(bit_vector) requires (v as u64) < (1u64 << sl), sl == su as u64, su <= 16;
    lemma_shift_or(rem, off as u32, s as u32, v, r2);
}
pub proof fn lemma_out(inner: Seq<u8>, rem: u32, off: nat)
    requires 8 <= off <= 24, no_bits(rem, off)
    ensures
        flat8(inner) + bits_of(rem as u64, 32).subrange(0, off as int) == flat8(inner.push((rem >> 24) as u8)) + bits_of((rem << 8) as u64, 32).subrange(0, off - 8),
        no_bits(rem << 8, (off - 8) as nat),
{
    lemma_byte_out(rem, off as u32);
    lemma_flat8_push(inner, (rem >> 24) as u8);
    let b = bits_of(((rem >> 24) as u8) as u64, 8); let c = bits_of((rem << 8) as u64, 32).subrange(0, off - 8);
    assert(flat8(inner) + (b + c) =~= (flat8(inner) + b) + c);
}
pub proof fn lemma_sizes()
    ensures <Bits11 as Bits>::SIZE == 11, <u8 as Bits>::SIZE == 8, <&u8 as Bits>::SIZE == 8
{ }
#fn BitWriter::with_capacity
#ensures C02
        vx_r.ok(), vx_r.all() == Seq::<bool>::empty(),
#pre
proof {
    assert(0u32 << 0u32 == 0u32) by(bit_vector);
    assert(flat8(Seq::empty()) + bits_of(0, 32).subrange(0, 0) =~= Seq::<bool>::empty()) by { assert(wide8(Seq::empty()) =~= Seq::empty()); }
    assert(Seq::<u8>::empty() =~= seq![]);
}
#fn BitWriter::push
#params source
#requires
        old(self).ok(), source.bval() < p2(B::SIZE as nat),
#ensures C02
        final(self).ok(), final(self).all() == old(self).all() + bits_of(source.bval(), B::SIZE as nat),
#pre
let ghost vx_w = *self;
let ghost vx_v = source.bval();
proof { B::bits_ok(); lemma_p2_vals(); lemma_p2_mono(B::SIZE as nat, 16); }
#entry 0
proof {
    lemma_push(vx_w.remainder, vx_w.offset as nat, B::SIZE as nat, vx_v as u32, self.remainder);
    let a = flat8(vx_w.inner@); let b = bits_of(vx_w.remainder as u64, 32).subrange(0, vx_w.offset as int); let c = bits_of(vx_v, B::SIZE as nat);
    assert((a + b) + c =~= a + (b + c));
}
#loop 0
            invariant
                self.offset <= 24, no_bits(self.remainder, self.offset as nat), self.all() == vx_w.all() + bits_of(vx_v, B::SIZE as nat),
            decreases self.offset,
#body 0
proof { lemma_out(self.inner@, self.remainder, self.offset as nat); }
#fn BitWriter::len
#requires
        self.ok(), self.all().len() <= usize::MAX,
#ensures C02
        vx_r == self.all().len(),
#pre
proof { lemma_bflat_len(wide8(self.inner@), 8); }
#fn BitWriter::into_bytes
#requires
        self.ok(),
#ensures C02
        packed(self.all(), vx_r@), flat8(vx_r@) == self.all() + Seq::new((if self.offset == 0 { 0int } else { 8 - self.offset }) as nat, |i: int| false),
#pre
proof {
    assert forall|v: Seq<bool>| #[trigger] (self.all() + v) == self.all() + v implies self.all() == (self.all() + v).subrange(0, self.all().len() as int) by { assert(self.all() =~= (self.all() + v).subrange(0, self.all().len() as int)); }
    if self.offset != 0 { lemma_last_byte(self.remainder, self.offset as u32); }
    lemma_flat8_push(self.inner@, (self.remainder >> 24) as u8);
    let a = flat8(self.inner@); let b = bits_of(self.remainder as u64, 32).subrange(0, self.offset as int);
    let z = Seq::new((8 - self.offset) as nat, |i: int| false);
    assert((a + b) + z =~= a + (b + z));
    if self.offset == 0 { assert((a + b) + Seq::new(0 as nat, |i: int| false) =~= a); }
}
#mod bip39::util
/// the values of a sequence of items
pub open spec fn bvals<B: Bits>(s: Seq<B>) -> Seq<u64> { Seq::new(s.len(), |i: int| s[i].bval()) }
/// 2^57: more items than fit in memory
pub open spec fn many() -> int { 0x200_0000_0000_0000 }
pub open spec fn from16<Out: VFrom<u16>>(x: u16) -> Out { choose|o: Out| Out::from_post(x, o) }
/// the conversion from u16 is a function
pub open spec fn from16_ok<Out: VFrom<u16>>() -> bool {
    forall|x: u16, a: Out, b: Out| #[trigger] Out::from_post(x, a) && #[trigger] Out::from_post(x, b) ==> a == b
}
use crate::vx::VFrom;
/// the groups of n bits of a bit sequence (a last incomplete group is dropped)
pub open spec fn groups<Out: Bits + VFrom<u16>>(t: Seq<bool>) -> Seq<Out> {
    Seq::new(t.len() / (Out::SIZE as nat), |i: int| from16::<Out>(val(t.subrange(i * Out::SIZE, (i + 1) * Out::SIZE)) as u16))
}
impl<In: Bits, Out: Bits, I: VIter<Item = In>> BitIter<In, Out, I> {
    pub open spec fn rest(&self) -> Seq<bool> { bits_of(self.buffer, 64).subrange(0, self.read as int) + bflat(bvals(self.source.seq()), In::SIZE as nat) }
    pub open spec fn ok(&self) -> bool {
        &&& self.source.wf() && self.source.seq().len() <= many() && self.source.hi() <= many()
        &&& self.read <= 48 && self.buffer << (self.read as u64) == 0
        &&& forall|i: int| 0 <= i < self.source.seq().len() ==> (#[trigger] self.source.seq()[i]).bval() < p2(In::SIZE as nat)
    }
}
use crate::vx::VIter;
pub proof fn lemma_absorb2(buf: u64, n: nat, s: nat, v: u64, b2: u64)
    requires n < 32, 1 <= s <= 16, v < p2(s), buf << (n as u64) == 0, b2 == buf | (v << ((64 - (n + s)) as u64))
    ensures bits_of(b2, 64).subrange(0, (n + s) as int) == bits_of(buf, 64).subrange(0, n as int) + bits_of(v, s), b2 << ((n + s) as u64) == 0
{ lemma_p2_shl(s); lemma_absorb(buf, n as u64, s as u64, v, b2); }
pub proof fn lemma_emit2(buf: u64, n: nat, o: nat)
    requires 1 <= o <= 16, o <= n <= 48, buf << (n as u64) == 0
    ensures
        val(bits_of(buf, 64).subrange(0, o as int)) == ((buf >> ((64 - o) as u64)) as u16) as nat,
        bits_of(buf << (o as u64), 64).subrange(0, n - o) == bits_of(buf, 64).subrange(o as int, n as int),
        (buf << (o as u64)) << ((n - o) as u64) == 0,
{ lemma_emit(buf, n as u64, o as u64); }
/// the groups after the first
pub proof fn lemma_groups_tail<Out: Bits + VFrom<u16>>(t: Seq<bool>)
    requires t.len() >= Out::SIZE
    ensures
        Out::SIZE >= 1,
        groups::<Out>(t).len() > 0,
        groups::<Out>(t)[0] == from16::<Out>(val(t.subrange(0, Out::SIZE as int)) as u16),
        groups::<Out>(t.subrange(Out::SIZE as int, t.len() as int)) == groups::<Out>(t).subrange(1, groups::<Out>(t).len() as int),
{
    Out::bits_ok();
    let n = Out::SIZE as int; let l = t.len() as int;
    let u = t.subrange(n, l);
    assert((l - n) / n == l / n - 1 && l / n >= 1) by(nonlinear_arith) requires l >= n, n >= 1;
    let g = groups::<Out>(u); let h = groups::<Out>(t).subrange(1, groups::<Out>(t).len() as int);
    assert forall|i: int| 0 <= i < g.len() implies g[i] == h[i] by {
        assert((i + 1) * n <= l - n && i * n >= 0 && (i + 1) * n == i * n + n && (i + 2) * n == i * n + n + n) by(nonlinear_arith)
            requires 0 <= i < (l - n) / n, n >= 1;
        assert(u.subrange(i * n, (i + 1) * n) =~= t.subrange((i + 1) * n, (i + 2) * n));
    }
    assert(g =~= h);
    assert(0 * n == 0 && (0 + 1) * n == n) by(nonlinear_arith);
}
pub proof fn lemma_groups_none<Out: Bits + VFrom<u16>>(t: Seq<bool>)
    requires t.len() < Out::SIZE
    ensures groups::<Out>(t).len() == 0
{ let l = t.len() as int; let n = Out::SIZE as int; assert(l / n == 0) by(nonlinear_arith) requires 0 <= l < n; }
pub proof fn lemma_bvals_front<B: Bits>(s: Seq<B>)
    requires s.len() > 0
    ensures bflat(bvals(s), B::SIZE as nat) == bits_of(s[0].bval(), B::SIZE as nat) + bflat(bvals(s.subrange(1, s.len() as int)), B::SIZE as nat)
{
    lemma_bflat_front(bvals(s), B::SIZE as nat);
    assert(bvals(s).subrange(1, s.len() as int) =~= bvals(s.subrange(1, s.len() as int)));
}
pub proof fn lemma_hint(lo: nat, n: nat, l: nat, i: nat, o: nat, k: nat)
    requires l <= n, n <= many(), 1 <= i <= 16, 1 <= o <= 16
    ensures l * i <= usize::MAX, (l * i) / o <= (k + n * i) / o, (l * i) / o <= (n * i) / o
{
    assert(l * i <= n * i && n * i <= many() * 16) by(nonlinear_arith) requires l <= n, n <= many(), 1 <= i <= 16;
    assert((l * i) / o <= (k + n * i) / o && (l * i) / o <= (n * i) / o) by(nonlinear_arith) requires l * i <= n * i, o >= 1, k >= 0;
}
/// how many items of o bits n items of i bits make
pub open spec fn hint(n: nat, i: nat, o: nat) -> nat { (n * i) / o }
pub proof fn lemma_hi_mono(a: nat, b: nat, i: nat, o: nat)
    requires a <= b, 1 <= o
    ensures hint(a, i, o) <= hint(b, i, o)
{
    assert(a * i <= b * i) by(nonlinear_arith) requires a <= b;
    assert((a * i) / o <= (b * i) / o) by(nonlinear_arith) requires a * i <= b * i, o >= 1;
}
#fn BitIter::new
#params source
#requires
        source.wf(),
#ensures C01
        vx_r.source.seq() == source.seq(), vx_r.source.hi() == source.hi(), vx_r.source.wf(), vx_r.read == 0, vx_r.buffer == 0,
#impl BitIter as Iterator
    open spec fn seq(&self) -> Seq<Out> { groups::<Out>(self.rest()) }
    open spec fn wf(&self) -> bool { self.ok() && from16_ok::<Out>() }
    open spec fn hi(&self) -> nat { hint(self.source.hi(), In::SIZE as nat, Out::SIZE as nat) }
#fn <BitIter as Iterator>::next
#prop C01
#pre
let ghost vx_w = *self;
let ghost mut vx_e = *self;
proof { In::bits_ok(); Out::bits_ok(); }
#loop 0
            invariant
                vx_w == *old(self), self.ok(), self.rest() == vx_w.rest(), self.source.hi() <= vx_w.source.hi(),
                1 <= In::SIZE <= 16, 1 <= Out::SIZE <= 16, vx_w.wf(), from16_ok::<Out>(),
                self.source.seq().len() <= vx_w.source.seq().len(),
            decreases self.source.seq().len(),
#body 0
let ghost vx_b = *self;
proof {
    assert forall|a: nat| a <= vx_w.source.hi() implies #[trigger] hint(a, In::SIZE as nat, Out::SIZE as nat) <= hint(vx_w.source.hi(), In::SIZE as nat, Out::SIZE as nat)
    by { lemma_hi_mono(a, vx_w.source.hi(), In::SIZE as nat, Out::SIZE as nat); }
    if self.source.seq().len() == 0 {
        assert(bvals(self.source.seq()).len() == 0);
        assert(self.rest() =~= bits_of(self.buffer, 64).subrange(0, self.read as int));
        lemma_groups_none::<Out>(self.rest());
    } else {
        lemma_bvals_front(self.source.seq());
    }
}
#tail 0
proof {
    lemma_absorb2(vx_b.buffer, vx_b.read as nat, In::SIZE as nat, vx_b.source.seq()[0].bval(), self.buffer);
    let a = bits_of(vx_b.buffer, 64).subrange(0, vx_b.read as int); let b = bits_of(vx_b.source.seq()[0].bval(), In::SIZE as nat);
    let c = bflat(bvals(self.source.seq()), In::SIZE as nat);
    assert(a + (b + c) =~= (a + b) + c);
    assert(self.source.seq() =~= vx_b.source.seq().subrange(1, vx_b.source.seq().len() as int));
}
#exit 0
proof {
    vx_e = *self;
    let o = Out::SIZE as int;
    lemma_emit2(self.buffer, self.read as nat, Out::SIZE as nat);
    let x = bits_of(self.buffer, 64); let c = bflat(bvals(self.source.seq()), In::SIZE as nat);
    let t = self.rest();
    assert(t.subrange(0, o) =~= x.subrange(0, o));
    assert(t.subrange(o, t.len() as int) =~= x.subrange(o, self.read as int) + c);
    lemma_groups_tail::<Out>(t);
    lemma_hi_mono(self.source.hi(), vx_w.source.hi(), In::SIZE as nat, Out::SIZE as nat);
}
#post
proof {
    let o = Out::SIZE as int;
    assert(self.rest() =~= vx_e.rest().subrange(o, vx_e.rest().len() as int));
    assert(<Out as VFrom<u16>>::from_post((vx_e.buffer >> ((64 - Out::SIZE) as u64)) as u16, vx_ret->Some_0));
}
#fn <BitIter as Iterator>::size_hint
#prop C01
#pre
proof {
    In::bits_ok(); Out::bits_ok();
    lemma_bflat_len(bvals(self.source.seq()), In::SIZE as nat);
    assert forall|l: nat, n: nat| l <= n && n <= many() implies #[trigger] (l * In::SIZE) <= usize::MAX && #[trigger] (n * In::SIZE) <= usize::MAX
        && (l * In::SIZE) / (Out::SIZE as int) <= (self.read + n * In::SIZE) / (Out::SIZE as int) && (l * In::SIZE) / (Out::SIZE as int) <= (n * In::SIZE) / (Out::SIZE as int)
    by { lemma_hint(l, n, l, In::SIZE as nat, Out::SIZE as nat, self.read as nat); lemma_hint(n, n, n, In::SIZE as nat, Out::SIZE as nat, self.read as nat); }
}
#closure 0 |n: usize| -> (r: usize)
            requires n <= many(), 1 <= In::SIZE <= 16, 1 <= Out::SIZE <= 16,
            ensures r == ((n as nat) * (In::SIZE as nat)) / (Out::SIZE as nat),
#fn checksum
#params source, bits
#requires
        1 <= bits <= 8,
#ensures C01 C02
        bits_of(vx_r as u64, bits as nat) == bits_of(source as u64, 8).subrange(0, bits as int), vx_r as nat == top(source, bits as nat),
#pre
proof {
    lemma_top_bits(source, bits);
    assert forall|r: u8| (r as nat) < p2(bits as nat) implies val(#[trigger] bits_of(r as u64, bits as nat)) == r by { lemma_val_bits(r as u64, bits as nat); }
}
#end
