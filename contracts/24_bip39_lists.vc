// ---------------------------------------------------------------- word lists
#mod spec
/// the official BIP39 lists: 0 English, 1 Chinese (simplified)
pub uninterp spec fn official(l: int) -> Seq<Seq<char>>;
pub open spec fn word_ok(w: Seq<char>) -> bool {
    0 < w.len() && utf8(w).len() <= 8 && nfkd(w) == w && forall|j: int| 0 <= j < w.len() ==> !is_ws(#[trigger] w[j])
}
pub open spec fn words_ok(ws: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ws.len() ==> word_ok(#[trigger] ws[i]) }
pub open spec fn distinct(ws: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < ws.len() ==> #[trigger] ws[i] != #[trigger] ws[j] }
/// words that share the prefix are adjacent
pub open spec fn contig(ws: Seq<Seq<char>>, p: Seq<char>) -> bool {
    forall|i: int, j: int, k: int| 0 <= i <= j <= k < ws.len() && #[trigger] p.is_prefix_of(ws[i]) && #[trigger] p.is_prefix_of(ws[k]) ==> #[trigger] p.is_prefix_of(ws[j])
}
pub open spec fn is_lang(l: int) -> bool { l == 0 || l == 1 }
// ground facts about the two published lists; evaluated on the lists themselves on every run
pub axiom fn ax_official(l: int)
    requires is_lang(l)
    ensures official(l).len() == 2048, distinct(official(l)), words_ok(official(l)), forall|p: Seq<char>| #[trigger] contig(official(l), p);
pub axiom fn ax_official_disjoint()
    ensures forall|i: int, j: int| 0 <= i < 2048 && 0 <= j < 2048 ==> #[trigger] official(0)[i] != #[trigger] official(1)[j];
/// the words that start with p, in order
pub open spec fn matching(ws: Seq<Seq<char>>, p: Seq<char>) -> Seq<Seq<char>> decreases ws.len() {
    if ws.len() == 0 { Seq::empty() }
    else if p.is_prefix_of(ws.last()) { matching(ws.drop_last(), p).push(ws.last()) }
    else { matching(ws.drop_last(), p) }
}
pub proof fn lemma_matching(ws: Seq<Seq<char>>, p: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= ws.len(), forall|i: int| 0 <= i < ws.len() ==> (#[trigger] p.is_prefix_of(ws[i]) <==> a <= i < b)
    ensures matching(ws, p) == ws.subrange(a, b)
    decreases ws.len()
{
    if ws.len() > 0 {
        let n = ws.len() - 1;
        let v = ws.drop_last();
        assert(forall|i: int| 0 <= i < v.len() ==> v[i] == ws[i]);
        assert(p.is_prefix_of(ws[n]) <==> a <= n < b);
        if a <= n < b {
            lemma_matching(v, p, a, b - 1);
            assert(ws.subrange(a, b) =~= v.subrange(a, b - 1).push(ws[n]));
        } else if b <= n {
            lemma_matching(v, p, a, b);
            assert(ws.subrange(a, b) =~= v.subrange(a, b));
        } else {
            lemma_matching(v, p, n, n);
            assert(ws.subrange(a, b) =~= v.subrange(n, n));
        }
    } else { assert(ws.subrange(a, b) =~= Seq::empty()); }
}
/// the map from each word to its position
pub open spec fn index_map(m: Map<Seq<char>, crate::bip39::util::Bits11>, ws: Seq<Seq<char>>) -> bool {
    &&& forall|w: Seq<char>| #[trigger] m.dom().contains(w) <==> ws.contains(w)
    &&& forall|i: int| 0 <= i < ws.len() ==> m[#[trigger] ws[i]].0 == i
}
#mod bip39::language
impl WordList { pub open spec fn ws(&self) -> Seq<Seq<char>> { crate::vx::views(self.inner@) } }
impl Language { pub open spec fn li(&self) -> int { match *self { Language::English => 0, Language::ChineseSimplified => 1 } } }
/// the word's position, if it is in the list
pub proof fn lemma_index(m: Map<Seq<char>, Bits11>, ws: Seq<Seq<char>>, w: Seq<char>)
    requires index_map(m, ws)
    ensures ws.contains(w) ==> 0 <= m[w].0 < ws.len() && ws[m[w].0 as int] == w
{
    if ws.contains(w) { let i = choose|i: int| 0 <= i < ws.len() && ws[i] == w; assert(ws[i] == w); }
}
#fn WordMap::get_bits
#params word
#ensures C02 C04 C25
        match vx_r { Ok(b) => self.inner.m().dom().contains(word@) && b == self.inner.m()[word@], Err(e) => e == ErrorKind::InvalidWord && !self.inner.m().dom().contains(word@) },
#fn WordList::get_word
#params bits
#requires
        bits.0 < self.inner@.len(),
#ensures C01 C04
        vx_r@ == self.ws()[bits.0 as int],
#fn WordList::get_words_by_prefix
#params prefix
#ensures C04
        contig(self.ws(), prefix@) ==> crate::vx::views(vx_r@) == matching(self.ws(), prefix@),
#closure 0 |word: &&str| -> (vx_b: bool)
            ensures vx_b == prefix@.is_prefix_of(word@),
#closure 1 |word: &&&str| -> (vx_b: bool)
            ensures vx_b == prefix@.is_prefix_of(word@),
#pre
proof {
    assert((forall|j: int| 0 <= j < self.inner@.len() ==> !prefix@.is_prefix_of((#[trigger] crate::vx::refs(self.inner@)[j])@)) ==> matching(self.ws(), prefix@) =~= Seq::<Seq<char>>::empty()) by {
        if forall|j: int| 0 <= j < self.inner@.len() ==> !prefix@.is_prefix_of((#[trigger] crate::vx::refs(self.inner@)[j])@) { lemma_none(self.inner@, prefix@); }
    }
}
#post
proof {
    if contig(self.ws(), prefix@) {
        assert forall|a: int, b: int| 0 <= a <= b <= self.inner@.len() && runs(self.inner@, prefix@, a, b) && (a < self.inner@.len() ==> b > a) && vx_ret@ == #[trigger] self.inner@.subrange(a, b)
            implies crate::vx::views(vx_ret@) == matching(self.ws(), prefix@) by { lemma_runs(self.inner@, prefix@, a, b); }
    }
}
#mod bip39::language
/// the first word that matches is a, and b is the first after it that does not
pub open spec fn runs(v: Seq<&'static str>, p: Seq<char>, a: int, b: int) -> bool {
    let t = crate::vx::refs(v.subrange(a, v.len() as int));
    &&& forall|j: int| 0 <= j < a ==> !p.is_prefix_of((#[trigger] crate::vx::refs(v)[j])@)
    &&& forall|j: int| 0 <= j < b - a ==> p.is_prefix_of((#[trigger] t[j])@)
    &&& b - a < t.len() ==> !p.is_prefix_of(t[b - a]@)
}
pub proof fn lemma_none(v: Seq<&'static str>, p: Seq<char>)
    requires forall|j: int| 0 <= j < v.len() ==> !p.is_prefix_of((#[trigger] crate::vx::refs(v)[j])@)
    ensures matching(crate::vx::views(v), p) =~= Seq::<Seq<char>>::empty()
{
    let ws = crate::vx::views(v);
    assert forall|i: int| 0 <= i < ws.len() implies (#[trigger] p.is_prefix_of(ws[i]) <==> 0 <= i < 0) by { assert(ws[i] == v[i]@ && crate::vx::refs(v)[i] == v[i]); }
    lemma_matching(ws, p, 0, 0);
    assert(ws.subrange(0, 0) =~= Seq::<Seq<char>>::empty());
}
pub proof fn lemma_runs(v: Seq<&'static str>, p: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= v.len(), runs(v, p, a, b), contig(crate::vx::views(v), p), a < v.len() ==> b > a
    ensures crate::vx::views(v.subrange(a, b)) == matching(crate::vx::views(v), p)
{
    let ws = crate::vx::views(v); let refsv = crate::vx::refs(v.subrange(a, v.len() as int));
    assert forall|i: int| 0 <= i < ws.len() implies (#[trigger] p.is_prefix_of(ws[i]) <==> a <= i < b) by {
        assert(ws[i] == v[i]@ && crate::vx::refs(v)[i] == v[i]);
        if i >= a { assert(crate::vx::refs(v.subrange(a, v.len() as int))[i - a] == v[i]); }
        if i >= b {
            assert(refsv[b - a] == v[b] && ws[b] == v[b]@ && refsv[0] == v[a] && ws[a] == v[a]@);
        }
        if i >= b && p.is_prefix_of(ws[i]) { assert(p.is_prefix_of(ws[a]) && !p.is_prefix_of(ws[b])); }
    }
    lemma_matching(ws, p, a, b);
    assert(crate::vx::views(v.subrange(a, b)) =~= ws.subrange(a, b));
}
#fn gen_wordlist
#params lang_words
#requires [C04]
        split_ws(lang_words@).len() == 2048,
#ensures C04
        vx_r.ws() =~= split_ws(lang_words@),
#fn gen_wordmap
#params wordlist
#requires
        wordlist.ws().len() == 2048, distinct(wordlist.ws()),
#ensures C04
        index_map(vx_r.inner.m(), wordlist.ws()),
#closure 0 |vx_c0_0: (usize, &&'static str)| -> (vx_b: (&'static str, Bits11))
            ensures vx_b.0@ == vx_c0_0.1@, vx_b.1.0 == vx_c0_0.0 as u16,
#post
proof {
    assert forall|s: Seq<(&'static str, Bits11)>| super::numbered(s, wordlist.ws()) implies index_map(#[trigger] crate::ext::rustc_hash::pairs_map(s), wordlist.ws()) by {
        super::lemma_pairs(s, wordlist.ws());
    }
}
#mod bip39::language
pub open spec fn numbered(s: Seq<(&'static str, Bits11)>, ws: Seq<Seq<char>>) -> bool {
    &&& s.len() == ws.len() && ws.len() <= 65536 && distinct(ws)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == ws[i] && s[i].1.0 == i
}
pub proof fn lemma_pairs(s: Seq<(&'static str, Bits11)>, ws: Seq<Seq<char>>)
    requires numbered(s, ws)
    ensures index_map(crate::ext::rustc_hash::pairs_map(s), ws)
    decreases s.len()
{
    let m = crate::ext::rustc_hash::pairs_map(s);
    if s.len() > 0 {
        let n = s.len() - 1;
        let s1 = s.drop_last(); let w1 = ws.drop_last();
        lemma_pairs(s1, w1);
        let m1 = crate::ext::rustc_hash::pairs_map(s1);
        assert(s[n].0@ == ws[n]);
        assert forall|w: Seq<char>| #[trigger] m.dom().contains(w) <==> ws.contains(w) by {
            if ws.contains(w) && w != ws[n] { let i = choose|i: int| 0 <= i < ws.len() && ws[i] == w; assert(w1[i] == w); }
            if w1.contains(w) { let i = choose|i: int| 0 <= i < w1.len() && w1[i] == w; assert(ws[i] == w); }
            assert(m.dom().contains(w) <==> m1.dom().contains(w) || w == ws[n]);
        }
        assert forall|i: int| 0 <= i < ws.len() implies m[#[trigger] ws[i]].0 == i by {
            if i < n { assert(w1[i] == ws[i] && ws[i] != ws[n]); }
        }
    }
}
#fn WORDLIST_ENGLISH
#ensures C01 C04
        vx_r.ws() == official(0),
#pre
proof { ax_official(0); }
#fn WORDLIST_CHINESE_SIMPLIFIED
#ensures C01 C04
        vx_r.ws() == official(1),
#pre
proof { ax_official(1); }
#fn WORDMAP_ENGLISH
#ensures C02 C04 C25
        index_map(vx_r.inner.m(), official(0)),
#pre
proof { ax_official(0); }
#fn WORDMAP_CHINESE_SIMPLIFIED
#ensures C02 C04 C25
        index_map(vx_r.inner.m(), official(1)),
#pre
proof { ax_official(1); }
#fn Language::wordlist
#ensures C01 C04
        vx_r.ws() == official(self.li()),
#fn Language::wordmap
#ensures C02 C04
        index_map(vx_r.inner.m(), official(self.li())),
#fn Language::from_language_code
#params language_code
#ensures C25
        vx_r == (if lower(language_code@) == "en"@ { Some(Language::English) } else if lower(language_code@) == "zh-cn"@ { Some(Language::ChineseSimplified) } else { None }),
#pre
proof { reveal_strlit("en"); reveal_strlit("zh-cn"); assert(lower("en"@) =~= "en"@); assert(lower("zh-cn"@) =~= "zh-cn"@); }
#fn Language::from_phrase
#params phrase
#ensures C25
        match vx_r {
            Some(l) => split_ws(phrase@).len() > 0 && official(l.li()).contains(split_ws(phrase@)[0]),
            None => split_ws(phrase@).len() == 0 || (!official(0).contains(split_ws(phrase@)[0]) && !official(1).contains(split_ws(phrase@)[0])),
        },
#impl Language as Default
    open spec fn default_post(r: Self) -> bool { r == Language::English }
#fn <Language as Default>::default
#prop C25
#end
