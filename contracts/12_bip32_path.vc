#mod spec
/// m, then / and the child number for each step
pub open spec fn path_text(p: Seq<ChildNumber>) -> Seq<char> { path_pre(p, p.len() as int) }
pub open spec fn path_pre(p: Seq<ChildNumber>, k: int) -> Seq<char> decreases k {
    if k <= 0 { seq!['m'] } else { path_pre(p, k - 1) + seq!['/'] + cn_text(p[k - 1].0) }
}
pub open spec fn path_ok(s: Seq<char>) -> bool {
    let parts = split_spec(s, '/');
    parts[0] == seq!['m'] && forall|i: int| 1 <= i < parts.len() ==> cn_parse(#[trigger] parts[i]) is Some
}
/// the path a text stands for
pub open spec fn path_parse(s: Seq<char>, r: core::result::Result<DerivationPath, BErr>) -> bool {
    let parts = split_spec(s, '/');
    match r {
        Ok(d) => path_ok(s) && d.path@.len() == parts.len() - 1
            && forall|i: int| 0 <= i < d.path@.len() ==> cn_parse(parts[i + 1]) == Some((#[trigger] d.path@[i]).0),
        Err(e) => !path_ok(s) && e == (if parts[0] == seq!['m'] { BErr::ChildNumber } else { BErr::Decode }),
    }
}
pub proof fn lemma_split_nonempty(s: Seq<char>, m: Sep) ensures split_by(s, m).len() >= 1 decreases s.len()
{ if s.len() > 0 { lemma_split_nonempty(s.skip(1), m); } }
#fn DerivationPath::iter
#ensures C12 C20
        vx_r.wf(), vx_r.seq() =~= self.path@,
#fn DerivationPath::is_empty
#ensures C20
        vx_r == (self.path@.len() == 0),
#fn DerivationPath::len
#ensures C20
        vx_r == self.path@.len(),
#fn DerivationPath::parent
#ensures C20
        match vx_r { Some(p) => self.path@.len() > 0 && p.path@ =~= self.path@.drop_last(), None => self.path@.len() == 0 },
#fn DerivationPath::push
#params child_number
#ensures C20
        final(self).path@ =~= old(self).path@.push(child_number),
#impl DerivationPath as AsRef<[ChildNumber]>
    open spec fn as_ref_spec(&self) -> &[ChildNumber] { crate::vx::slice_of(self.path@) }
#fn <DerivationPath as AsRef<[ChildNumber]>>::as_ref
#prop C20
#ensures C20
        vx_r@ == self.path@,
#impl DerivationPath as Display
    open spec fn disp(&self) -> Seq<char> { path_text(self.path@) }
#fn <DerivationPath as Display>::fmt
#params f
#prop C20
#pre
let ghost vx_f0 = f.out();
proof { reveal_strlit("m"); assert("m"@ =~= seq!['m']); reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
#loop 0
            invariant
                crate::vx::vals::<ChildNumber, _>($S) =~= self.path@, "/"@ =~= seq!['/'],
                f.alt() == old(f).alt(), f.infallible() == old(f).infallible(),
                f.out() =~= vx_f0 + path_pre(self.path@, $K),
#impl DerivationPath as Extend<ChildNumber>
    open spec fn ext_post(a: &Self, s: Seq<ChildNumber>, b: &Self) -> bool { b.path@ =~= a.path@ + s }
#fn <DerivationPath as Extend<ChildNumber>>::extend
#prop C20
#impl DerivationPath as IntoIterator
    open spec fn into_seq(self) -> Seq<ChildNumber> { self.path@ }
    open spec fn into_hi(self) -> nat { self.path@.len() }
    open spec fn into_wf(self) -> bool { true }
#fn <DerivationPath as IntoIterator>::into_iter
#prop C20
#impl DerivationPath as FromStr
    open spec fn parse_post(s: Seq<char>, r: core::result::Result<DerivationPath, BErr>) -> bool { path_parse(s, r) }
#fn <DerivationPath as FromStr>::from_str
#params path
#prop C20
#pre
let ghost vx_txt = path@;
proof {
    reveal_strlit("m"); assert("m"@ =~= seq!['m']); lemma_split_nonempty(vx_txt, Sep::Ch('/'));
}
#closure 0 |vx_a: &str| -> (vx_cr: core::result::Result<ChildNumber, BErr>)
            ensures match vx_cr { Ok(c) => cn_parse(vx_a@) == Some(c.0), Err(e) => cn_parse(vx_a@) is None && e == BErr::ChildNumber },
#end
