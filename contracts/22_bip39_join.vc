// ---------------------------------------------------------------- joining
#trait Joinable
    /// the text written
    spec fn jt(self) -> Seq<char>;
#fn Joinable::write_into
#params buf
#ensures C01 C02
        final(buf)@ =~= old(buf)@ + self.jt(),
#impl &str as Joinable
    open spec fn jt(self) -> Seq<char> { self@ }
#fn <&str as Joinable>::write_into
#prop C01 C02
#impl Decompositions as Joinable
    open spec fn jt(self) -> Seq<char> { self.seq() }
#fn <Decompositions as Joinable>::write_into
#prop C02
#mod bip39::util
/// the texts of a sequence of items
pub open spec fn jts<T: Joinable>(s: Seq<T>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].jt()) }
pub proof fn lemma_join_push<T: Joinable>(s: Seq<T>, k: int, glue: Seq<char>)
    requires 1 <= k < s.len()
    ensures join(jts(s.subrange(0, k + 1)), glue) == join(jts(s.subrange(0, k)), glue) + glue + s[k].jt()
{
    let a = jts(s.subrange(0, k + 1));
    assert(a.drop_last() =~= jts(s.subrange(0, k)));
    assert(a.last() == s[k].jt());
}
#fn IterExt::join
#params glue
#requires
        old(self).wf(), old(self).seq().len() * (10 + utf8(glue@).len()) <= isize::MAX,
#ensures C01 C02
        exists|t: String| #[trigger] R::from_post(t, vx_r) && t@ == join(jts(old(self).seq()), glue@),
#pre
let ghost vx_all = self.seq();
proof {
    assert forall|l: int| 0 <= l <= vx_all.len() implies 0 <= #[trigger] (l * (10 + utf8(glue@).len())) <= isize::MAX by {
        let g = 10 + utf8(glue@).len();
        assert(l * g <= vx_all.len() * g) by(nonlinear_arith) requires l <= vx_all.len(), g >= 0;
        assert(0 <= l * g) by(nonlinear_arith) requires l >= 0, g >= 0;
    }
    reveal_strlit("");
    assert(jts(vx_all).len() == vx_all.len());
}
#entry 0
proof {
    assert(jts(vx_all.subrange(0, 1)).len() == 1);
    assert(buffer@ =~= join(jts(vx_all.subrange(0, 1)), glue@));
}
#loop 0
            invariant
                vx_all.len() >= 1, $S =~= vx_all.subrange(1, vx_all.len() as int),
                buffer@ == join(jts(vx_all.subrange(0, vx_all.len() - self.seq().len())), glue@),
#body 0
let ghost vx_k = vx_all.len() - self.seq().len();
proof { if self.seq().len() > 0 { lemma_join_push(vx_all, vx_k, glue@); assert(self.seq()[0] == vx_all[vx_k]); } }
#tail 0
proof { assert(vx_all.len() - self.seq().len() == vx_k + 1); }
#exit 0
proof { assert(vx_all.subrange(0, vx_all.len() as int) =~= vx_all); }
#fn IterExt::bits
#requires
        self.wf(), self.seq().len() <= many(), self.hi() <= many(),
        forall|i: int| 0 <= i < self.seq().len() ==> (#[trigger] self.seq()[i]).bval() < p2(Self::Item::SIZE as nat),
#ensures C01
        vx_r.source.seq() == self.seq(), vx_r.source.hi() == self.hi(), vx_r.source.wf(), vx_r.read == 0, vx_r.buffer == 0,
#end
