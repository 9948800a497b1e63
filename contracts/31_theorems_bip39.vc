#mod spec
pub use crate::bip39::{Mnemonic, MnemonicType, Language, Seed, ErrorKind as B39Kind};
/// the eight registered versions and their texts
pub open spec fn registered(v: u32) -> Option<Seq<u8>> {
    if v == 0x0488ade4 { Some(seq![120u8, 112, 114, 118]) } else if v == 0x0488b21e { Some(seq![120u8, 112, 117, 98]) }
    else if v == 0x04358394 { Some(seq![116u8, 112, 114, 118]) } else if v == 0x043587cf { Some(seq![116u8, 112, 117, 98]) }
    else if v == 0x049d7878 { Some(seq![121u8, 112, 114, 118]) } else if v == 0x049d7cb2 { Some(seq![121u8, 112, 117, 98]) }
    else if v == 0x04b2430c { Some(seq![122u8, 112, 114, 118]) } else if v == 0x04b24746 { Some(seq![122u8, 112, 117, 98]) }
    else { None }
}
/// the text of any payload of a registered version starts with the version's text
pub proof fn ax_prefix_text(v: u32, d: Seq<u8>)
    requires registered(v) is Some, d.len() == 78, d.subrange(0, 4) == be32(v)
    ensures ascii_bytes(b58c(d)).subrange(0, 4) == registered(v)->Some_0
{
    broadcast use ax_sha256_len;
    let x = check58(d);
    let h = be32(v); let r = x.subrange(4, 82);
    assert(x =~= h + r);
    lemma_be_split(h, r); lemma_be_bounds(r);
    assert(be(h) == v) by { lemma_be_be32(v); }
    let n = be(x);
    let (p, q) = (p256(78), p58(107));
    assert(v as nat * p <= n < (v as nat + 1) * p) by(nonlinear_arith) requires n == v as nat * p + be(r), be(r) < p;
    lemma_top4(v);
    lemma_p58_pos(107);
    let m = (v as nat * p) / q;
    assert(n / q == m) by {
        vstd::arithmetic::div_mod::lemma_div_is_ordered((v as nat * p) as int, n as int, q as int);
        vstd::arithmetic::div_mod::lemma_div_is_ordered(n as int, ((v as nat + 1) * p - 1) as int, q as int);
    }
    assert(n >= q) by { if n < q { vstd::arithmetic::div_mod::lemma_basic_div(n as int, q as int); } }
    lemma_digits_top(n, 107);
    assert(x[0] != 0) by { assert(x[0] == h[0]); assert(be32(v)[0] == 4u8) by { assert((v >> 24) as u8 == 4u8) by(bit_vector) requires v >= 0x0400_0000u32, v < 0x0500_0000u32; } }
    assert(enc58(x) == digits58(n));
    assert(ascii_bytes(b58c(d)) == enc58(x)) by { reveal(b58c); lemma_enc7(x); lemma_chars7(enc58(x)); }
    assert(digits58(n).len() - 107 == 4);
}
pub proof fn lemma_be_be32(v: u32) ensures be(be32(v)) == v
{
    let s = be32(v);
    let (a, b, c, d) = (s[0], s[1], s[2], s[3]);
    assert(s.drop_last() =~= seq![a, b, c] && seq![a, b, c].drop_last() =~= seq![a, b] && seq![a, b].drop_last() =~= seq![a] && seq![a].drop_last() =~= Seq::<u8>::empty());
    assert(be(Seq::<u8>::empty()) == 0);
    assert(be(seq![a]) == a); assert(be(seq![a, b]) == a * 256 + b); assert(be(seq![a, b, c]) == (a * 256 + b) * 256 + c);
    assert(a as u32 * 0x100_0000 + b as u32 * 0x1_0000 + c as u32 * 0x100 + d as u32 == v) by {
        assert(add(add(add(mul((v >> 24) as u8 as u32, 0x100_0000u32), mul(((v >> 16) & 0xff) as u8 as u32, 0x1_0000u32)), mul(((v >> 8) & 0xff) as u8 as u32, 0x100u32)), (v & 0xff) as u8 as u32) == v) by(bit_vector);
    }
}
/// the four leading base-58 digits of the largest and the smallest payload of a registered version
pub proof fn lemma_top4(v: u32)
    requires registered(v) is Some
    ensures ({
        let m = (v as nat * p256(78)) / p58(107);
        m > 0 && m == (((v as nat + 1) * p256(78) - 1) as nat) / p58(107) && digits58(m) == registered(v)->Some_0 && digits58(m).len() == 4
    })
{
    if v == 0x0488ade4 { assert((0x0488ade4u32 as nat * p256(78)) / p58(107) == 10892163 && (((0x0488ade4u32 as nat + 1) * p256(78) - 1) as nat) / p58(107) == 10892163) by(compute); }
    if v == 0x0488ade4 { lemma_dig4(55, 47, 49, 53); assert(digits58(10892163) =~= seq![120u8, 112u8, 114u8, 118u8]); }
    if v == 0x0488b21e { assert((0x0488b21eu32 as nat * p256(78)) / p58(107) == 10892318 && (((0x0488b21eu32 as nat + 1) * p256(78) - 1) as nat) / p58(107) == 10892318) by(compute); }
    if v == 0x0488b21e { lemma_dig4(55, 47, 52, 34); assert(digits58(10892318) =~= seq![120u8, 112u8, 117u8, 98u8]); }
    if v == 0x04358394 { assert((0x04358394u32 as nat * p256(78)) / p58(107) == 10111715 && (((0x04358394u32 as nat + 1) * p256(78) - 1) as nat) / p58(107) == 10111715) by(compute); }
    if v == 0x04358394 { lemma_dig4(51, 47, 49, 53); assert(digits58(10111715) =~= seq![116u8, 112u8, 114u8, 118u8]); }
    if v == 0x043587cf { assert((0x043587cfu32 as nat * p256(78)) / p58(107) == 10111870 && (((0x043587cfu32 as nat + 1) * p256(78) - 1) as nat) / p58(107) == 10111870) by(compute); }
    if v == 0x043587cf { lemma_dig4(51, 47, 52, 34); assert(digits58(10111870) =~= seq![116u8, 112u8, 117u8, 98u8]); }
    if v == 0x049d7878 { assert((0x049d7878u32 as nat * p256(78)) / p58(107) == 11087275 && (((0x049d7878u32 as nat + 1) * p256(78) - 1) as nat) / p58(107) == 11087275) by(compute); }
    if v == 0x049d7878 { lemma_dig4(56, 47, 49, 53); assert(digits58(11087275) =~= seq![121u8, 112u8, 114u8, 118u8]); }
    if v == 0x049d7cb2 { assert((0x049d7cb2u32 as nat * p256(78)) / p58(107) == 11087430 && (((0x049d7cb2u32 as nat + 1) * p256(78) - 1) as nat) / p58(107) == 11087430) by(compute); }
    if v == 0x049d7cb2 { lemma_dig4(56, 47, 52, 34); assert(digits58(11087430) =~= seq![121u8, 112u8, 117u8, 98u8]); }
    if v == 0x04b2430c { assert((0x04b2430cu32 as nat * p256(78)) / p58(107) == 11282387 && (((0x04b2430cu32 as nat + 1) * p256(78) - 1) as nat) / p58(107) == 11282387) by(compute); }
    if v == 0x04b2430c { lemma_dig4(57, 47, 49, 53); assert(digits58(11282387) =~= seq![122u8, 112u8, 114u8, 118u8]); }
    if v == 0x04b24746 { assert((0x04b24746u32 as nat * p256(78)) / p58(107) == 11282542 && (((0x04b24746u32 as nat + 1) * p256(78) - 1) as nat) / p58(107) == 11282542) by(compute); }
    if v == 0x04b24746 { lemma_dig4(57, 47, 52, 34); assert(digits58(11282542) =~= seq![122u8, 112u8, 117u8, 98u8]); }
}
pub proof fn lemma_dig4(a: nat, b: nat, c: nat, d: nat)
    requires 0 < a < 58, b < 58, c < 58, d < 58
    ensures digits58(((a * 58 + b) * 58 + c) * 58 + d) =~= seq![b58d(a), b58d(b), b58d(c), b58d(d)]
{
    let (x, y, z) = (a * 58 + b, (a * 58 + b) * 58 + c, ((a * 58 + b) * 58 + c) * 58 + d);
    assert(z / 58 == y && z % 58 == d && y / 58 == x && y % 58 == c && x / 58 == a && x % 58 == b && a / 58 == 0 && a % 58 == a);
    assert(digits58(0) =~= Seq::<u8>::empty());
    assert(digits58(a) =~= seq![b58d(a)]); assert(digits58(x) =~= seq![b58d(a), b58d(b)]); assert(digits58(y) =~= seq![b58d(a), b58d(b), b58d(c)]);
}
#mod thms C01
pub fn client_encode(e: Vec<u8>, lang: Language)
{
    let ghost x = e@;
    match Mnemonic::from_entropy(e.as_slice(), lang) {
        Ok(m) => {
            assert(ent_ok(x));
            let b = m.entropy(); let l = m.language(); let t = m.phrase();
            assert(b@ == x && l == lang && t@ == phrase_spec(lang.li(), x));
        }
        Err(_) => { assert(!ent_ok(x)); }
    }
}
/// the groups are the 11-bit groups of entropy and checksum, three for every four bytes
pub proof fn thm_encoding(l: int, e: Seq<u8>)
    requires is_lang(l), ent_ok(e)
    ensures
        cbits(e).len() == 8 * e.len() + e.len() / 4,
        cbits(e).subrange(0, 8 * e.len() as int) == flat8(e),
        phrase_words(l, e).len() * 4 == e.len() * 3,
        phrase_words(l, e).len() * 11 == cbits(e).len(),
        forall|i: int| 0 <= i < phrase_words(l, e).len() ==> #[trigger] phrase_words(l, e)[i] == official(l)[val(cbits(e).subrange(11 * i, 11 * i + 11)) as int],
{
    lemma_cbits(e); lemma_bflat_len(wide8(e), 8);
    assert(cbits(e).subrange(0, 8 * e.len() as int) =~= flat8(e));
}
#mod thms C02
pub fn client_accepts(t: &str, lang: Language)
{
    let r = Mnemonic::from_phrase(t, lang);
    assert(r is Ok <==> exists|e: Seq<u8>| decodes(lang.li(), norm(t@), e)) by { if let Ok(m) = r { assert(decodes(lang.li(), norm(t@), m.entropy.z@)); } }
    match r {
        Ok(m) => {
            let b = m.entropy();
            assert forall|e: Seq<u8>| decodes(lang.li(), norm(t@), e) implies e == b@ by { lemma_decodes_inj(lang.li(), norm(t@), e, b@); }
        }
        Err(e) => {
            let ghost ws = norm(t@);
            assert(match e.kind@ {
                B39Kind::InvalidWord => ws.len() == 0 || !in_list(lang.li(), ws),
                B39Kind::InvalidWordLength(n) => n == ws.len() && !count_ok(ws.len() as int) && in_list(lang.li(), ws),
                B39Kind::InvalidChecksum => in_list(lang.li(), ws) && count_ok(ws.len() as int),
                _ => false,
            });
        }
    }
}
pub fn client_validate(t: &str, lang: Language)
{
    let r = Mnemonic::validate(t, lang);
    let ghost ws = split_spec(t@, ' ');
    assert(r is Ok <==> exists|e: Seq<u8>| decodes(lang.li(), ws, e));
    match Mnemonic::from_phrase(t, lang) {
        Ok(m) => {
            let q = m.phrase();
            proof {
                ax_official(lang.li());
                lemma_decodes_words(lang.li(), norm(t@), m.entropy.z@);
                lemma_phrase_split(lang.li(), m.entropy.z@);
            }
            let v = Mnemonic::validate(q, lang);
            assert(v is Ok) by { assert(decodes(lang.li(), split_spec(q@, ' '), m.entropy.z@)); }
        }
        Err(_) => { }
    }
}
#mod thms C03
pub fn client_roundtrip(e: &[u8], lang: Language, t: &str)
    requires ent_ok(e@), split_ws(t@) == phrase_words(lang.li(), e@)
{
    proof { lemma_reads(lang.li(), e@, t@); }
    let m = Mnemonic::from_phrase(t, lang);
    assert(m is Ok) by { if m is Err { assert(decodes(lang.li(), norm(t@), e@)); } }
    match m {
        Ok(m) => {
            proof { lemma_decodes_inj(lang.li(), norm(t@), e@, m.entropy.z@); }
            let b = m.entropy(); let q = m.phrase(); let l = m.language();
            assert(b@ == e@ && q@ == phrase_spec(lang.li(), e@) && l == lang);
        }
        Err(_) => { }
    }
}
/// the phrase itself, and however its words are spread over white space
pub fn client_phrase_reads(e: &[u8], lang: Language)
    requires ent_ok(e@)
{
    match Mnemonic::from_entropy(e, lang) {
        Ok(m) => {
            proof { lemma_phrase_split(lang.li(), e@); lemma_reads(lang.li(), e@, m.phrase.z@); }
            let q = m.phrase();
            match Mnemonic::from_phrase(q, lang) {
                Ok(n) => {
                    proof { lemma_decodes_inj(lang.li(), norm(q@), e@, n.entropy.z@); }
                    assert(n.entropy.z@ == m.entropy.z@ && n.phrase.z@ == m.phrase.z@ && n.lang == m.lang);
                }
                Err(_) => { assert(decodes(lang.li(), norm(q@), e@)); assert(false); }
            }
        }
        Err(_) => { assert(false); }
    }
}
pub proof fn lemma_reads(l: int, e: Seq<u8>, t: Seq<char>)
    requires is_lang(l), ent_ok(e), split_ws(t) == phrase_words(l, e)
    ensures norm(t) == phrase_words(l, e), decodes(l, norm(t), e)
{
    lemma_phrase_split(l, e); lemma_encode_decodes(l, e);
    assert forall|i: int| 0 <= i < phrase_words(l, e).len() implies norm(t)[i] == phrase_words(l, e)[i] by { assert(nfkd(phrase_words(l, e)[i]) == phrase_words(l, e)[i]); }
    assert(norm(t) =~= phrase_words(l, e));
}
/// rebuilding from the entropy of an accepted phrase gives the normalised phrase
pub fn client_rebuild(t: &str, lang: Language)
{
    match Mnemonic::from_phrase(t, lang) {
        Ok(m) => {
            proof { lemma_decodes_words(lang.li(), norm(t@), m.entropy.z@); }
            let r = Mnemonic::from_entropy(m.entropy(), lang);
            assert(r matches Ok(n) && n.phrase.z@ == join(norm(t@), sp()) && n.phrase.z@ == m.phrase.z@ && n.entropy.z@ == m.entropy.z@);
        }
        Err(_) => { }
    }
}
pub open spec fn all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
/// words with white space around and between them: gaps[i] stands before word i, gaps[n] at the end
pub open spec fn spread(ws: Seq<Seq<char>>, gaps: Seq<Seq<char>>) -> Seq<char> decreases ws.len() {
    if ws.len() == 0 { gaps[0] } else { spread(ws.drop_last(), gaps.drop_last()) + ws.last() + gaps.last() }
}
pub proof fn lemma_nonempty_cat(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures nonempty(a + b) == nonempty(a) + nonempty(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(nonempty(a) + nonempty(b) =~= nonempty(a)); }
    else {
        lemma_nonempty_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        if b.last().len() > 0 { assert((nonempty(a) + nonempty(b.drop_last())).push(b.last()) =~= nonempty(a) + nonempty(b.drop_last()).push(b.last())); }
    }
}
/// white space after a text adds no word
pub proof fn lemma_gap_after(a: Seq<char>, g: Seq<char>)
    requires all_ws(g)
    ensures split_ws(a + g) == split_ws(a)
    decreases g.len()
{
    let m = Sep::Ws;
    reveal_with_fuel(nonempty, 3);
    if g.len() == 0 { assert(a + g =~= a); }
    else {
        let c = g.last(); let h = g.drop_last();
        assert(is_ws(g[g.len() - 1]));
        assert(all_ws(h)) by { assert forall|i: int| 0 <= i < h.len() implies is_ws(#[trigger] h[i]) by { assert(h[i] == g[i]); } }
        lemma_gap_after(a, h);
        let z = Seq::<char>::empty();
        assert(a + g =~= (a + h) + seq![c] + z);
        lemma_split_cat(a + h, c, z, m);
        assert(split_by(z, m) =~= seq![z]);
        lemma_nonempty_cat(split_by(a + h, m), split_by(z, m));
        assert(seq![z].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(nonempty(seq![z]) =~= Seq::<Seq<char>>::empty());
        assert(nonempty(split_by(a + h, m)) + nonempty(seq![z]) =~= nonempty(split_by(a + h, m)));
    }
}
/// a word that follows white space, or starts the text, is one more word
pub proof fn lemma_word_after(a: Seq<char>, w: Seq<char>)
    requires w.len() > 0, !has_sep(w, Sep::Ws), a.len() > 0 ==> is_ws(a.last())
    ensures split_ws(a + w) == split_ws(a).push(w)
{
    let m = Sep::Ws; let z = Seq::<char>::empty();
    reveal_with_fuel(nonempty, 3);
    lemma_split_nosep(w, m);
    assert(seq![w].drop_last() =~= Seq::<Seq<char>>::empty());
    assert(nonempty(seq![w]) =~= seq![w]);
    if a.len() == 0 {
        assert(a + w =~= w);
        assert(split_by(a, m) =~= seq![z]);
        assert(seq![z].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(split_ws(a) =~= Seq::<Seq<char>>::empty());
        assert(split_ws(a).push(w) =~= seq![w]);
    } else {
        let b = a.drop_last(); let c = a.last();
        assert(a + w =~= b + seq![c] + w);
        assert(a =~= b + seq![c] + z);
        lemma_split_cat(b, c, w, m); lemma_split_cat(b, c, z, m);
        lemma_nonempty_cat(split_by(b, m), seq![w]);
        assert(split_by(z, m) =~= seq![z]);
        lemma_nonempty_cat(split_by(b, m), seq![z]);
        assert(seq![z].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(nonempty(seq![z]) =~= Seq::<Seq<char>>::empty());
        assert(nonempty(split_by(b, m)) + seq![w] =~= nonempty(split_by(b, m)).push(w));
        assert(nonempty(split_by(b, m)) + Seq::<Seq<char>>::empty() =~= nonempty(split_by(b, m)));
    }
}
/// any white space around the words and any non-empty white space between them leaves the same words
pub proof fn thm_spread(ws: Seq<Seq<char>>, gaps: Seq<Seq<char>>)
    requires
        gaps.len() == ws.len() + 1,
        forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).len() > 0 && !has_sep(ws[i], Sep::Ws),
        forall|i: int| 0 <= i < gaps.len() ==> all_ws(#[trigger] gaps[i]),
        forall|i: int| 0 < i < ws.len() ==> (#[trigger] gaps[i]).len() > 0,
    ensures split_ws(spread(ws, gaps)) == ws
    decreases ws.len()
{
    let n = ws.len() as int; let z = Seq::<char>::empty();
    reveal_with_fuel(nonempty, 3);
    if n == 0 {
        assert(all_ws(gaps[0]));
        lemma_gap_after(z, gaps[0]);
        assert(z + gaps[0] =~= gaps[0]);
        assert(split_by(z, Sep::Ws) =~= seq![z]);
        assert(seq![z].drop_last() =~= Seq::<Seq<char>>::empty());
        assert(split_ws(z) =~= ws);
    } else {
        let v = ws.drop_last(); let h = gaps.drop_last();
        assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).len() > 0 && !has_sep(v[i], Sep::Ws) by { assert(v[i] == ws[i]); }
        assert forall|i: int| 0 <= i < h.len() implies all_ws(#[trigger] h[i]) by { assert(h[i] == gaps[i]); }
        assert forall|i: int| 0 < i < v.len() implies (#[trigger] h[i]).len() > 0 by { assert(h[i] == gaps[i]); }
        thm_spread(v, h);
        let a = spread(v, h);
        assert(ws[n - 1].len() > 0 && !has_sep(ws[n - 1], Sep::Ws) && all_ws(gaps[n]));
        if a.len() > 0 {
            assert(is_ws(a.last())) by {
                assert(h.last() == gaps[n - 1]);
                assert(all_ws(gaps[n - 1]));
                if n - 1 > 0 { assert(gaps[n - 1].len() > 0); assert(a.last() == h.last().last()); assert(is_ws(gaps[n - 1][gaps[n - 1].len() - 1])); }
                else { assert(a == h[0]); assert(is_ws(gaps[0][gaps[0].len() - 1])); }
            }
        }
        lemma_word_after(a, ws.last());
        lemma_gap_after(a + ws.last(), gaps.last());
        assert(v.push(ws.last()) =~= ws);
    }
}
#mod thms C04
pub fn client_lookup(lang: Language, i: u16, w: &str)
    requires i < 2048
{
    let ghost l = lang.li();
    let list = lang.wordlist(); let map = lang.wordmap();
    proof { ax_official(l); }
    let b = <crate::bip39::util::Bits11 as crate::vx::VFrom<u16>>::vx_from(i);
    let word = list.get_word(b);
    assert(word@ == official(l)[i as int]);
    proof { assert(official(l).contains(official(l)[i as int])); }
    match map.get_bits(word) { Ok(c) => { assert(c.0 == i); } Err(_) => { assert(false); } }
    match map.get_bits(w) {
        Ok(c) => {
            assert(official(l).contains(w@));
            let ghost j = official(l).index_of(w@);
            assert(official(l)[j] == w@);
            let v = list.get_word(c);
            assert(v@ == w@);
        }
        Err(_) => { assert(!official(l).contains(w@)); }
    }
}
pub fn client_prefix(lang: Language, p: &str)
{
    let ghost l = lang.li();
    let list = lang.wordlist();
    proof { ax_official(l); }
    let r = list.get_words_by_prefix(p);
    assert(crate::vx::views(r@) == matching(official(l), p@));
}
/// the words that match are those of the list that start with the prefix, each once, in list order
pub proof fn thm_matching(ws: Seq<Seq<char>>, p: Seq<char>)
    ensures forall|w: Seq<char>| #[trigger] matching(ws, p).contains(w) <==> ws.contains(w) && p.is_prefix_of(w)
    decreases ws.len()
{
    if ws.len() > 0 {
        let v = ws.drop_last(); let x = ws.last();
        thm_matching(v, p);
        assert forall|w: Seq<char>| #[trigger] matching(ws, p).contains(w) <==> ws.contains(w) && p.is_prefix_of(w) by {
            assert(ws.contains(w) <==> v.contains(w) || w == x) by {
                if ws.contains(w) { let i = choose|i: int| 0 <= i < ws.len() && ws[i] == w; if i < v.len() { assert(v[i] == w); } }
                if v.contains(w) { let i = choose|i: int| 0 <= i < v.len() && v[i] == w; assert(ws[i] == w); }
                assert(ws[ws.len() - 1] == x);
            }
            let m = matching(v, p);
            if p.is_prefix_of(x) {
                let q = m.push(x);
                assert(q.contains(w) <==> m.contains(w) || w == x) by {
                    if q.contains(w) { let i = choose|i: int| 0 <= i < q.len() && q[i] == w; if i < m.len() { assert(m[i] == w); } }
                    if m.contains(w) { let i = choose|i: int| 0 <= i < m.len() && m[i] == w; assert(q[i] == w); }
                    assert(q[q.len() - 1] == x);
                }
            }
        }
    } else { assert(!ws.contains(p)); }
}
#mod thms C05
pub fn client_seed_bytes(m: &Mnemonic, pw: &str)
{
    let a = Seed::new(m, pw); let b = Seed::new(m, pw);
    let x = a.vx_as_bytes(); let y = b.vx_as_bytes();
    assert(x@ == y@ && x@.len() == 64 && x@ == pbkdf2_spec(512, m.mbytes(), utf8(nfkd("mnemonic"@ + pw@)), 2048, 64));
}
/// the seed is a function of the phrase's bytes: the same phrase gives the same seed
pub fn client_seed_same(m: &Mnemonic, n: &Mnemonic, pw: &str)
    requires m.phrase.z@ == n.phrase.z@, m.lang == n.lang
{
    let a = Seed::new(m, pw); let b = Seed::new(n, pw);
    assert(a.bytes@ == b.bytes@);
}
#mod thms C06
pub fn client_fresh(t: MnemonicType, lang: Language)
{
    let m = Mnemonic::new(t, lang);
    assert(csprng(m.entropy.z@) && m.entropy.z@.len() * 8 == 32 * t.k() && m.lang == lang);
    proof { lemma_phrase_split(lang.li(), m.entropy.z@); lemma_encode_decodes(lang.li(), m.entropy.z@); }
    let q = m.phrase();
    let v = Mnemonic::validate(q, lang);
    assert(v is Ok) by { if v is Err { assert(decodes(lang.li(), split_spec(q@, ' '), m.entropy.z@)); } }
    let s = MnemonicType::for_phrase(q);
    assert(s matches Ok(u) && u == t) by { lemma_k(t); if let Ok(u) = s { lemma_k(u); } }
}
pub proof fn lemma_k(t: MnemonicType) ensures is_k_spec(t.k() as int), forall|u: MnemonicType| u.k() == t.k() ==> u == t { }
pub open spec fn is_k_spec(k: int) -> bool { 4 <= k <= 8 }
#mod thms C07
pub fn client_sizes(t: MnemonicType, n: usize)
{
    let (a, b, c, d) = (t.word_count(), t.entropy_bits(), t.checksum_bits(), t.total_bits());
    assert(b == 32 * c && a == 3 * c && d == b + c && 4 <= c <= 8);
    let u = MnemonicType::for_word_count(a); let v = MnemonicType::for_key_size(b);
    assert(u matches Ok(x) && x == t);
    assert(v matches Ok(x) && x == t);
    assert((n == 12 || n == 15 || n == 18 || n == 21 || n == 24) || forall|x: MnemonicType| n != 3 * #[trigger] x.k());
    match MnemonicType::for_word_count(n) {
        Ok(x) => { let y = x.word_count(); assert(y == n); }
        Err(e) => { assert(!(n == 12 || n == 15 || n == 18 || n == 21 || n == 24) && e.kind@ == B39Kind::InvalidWordLength(n)); }
    }
    match MnemonicType::for_key_size(n) {
        Ok(x) => { let y = x.entropy_bits(); assert(y == n); }
        Err(e) => { assert(!(n == 128 || n == 160 || n == 192 || n == 224 || n == 256) && e.kind@ == B39Kind::InvalidKeysize(n)); }
    }
}
pub fn client_size_of_phrase(e: &[u8], lang: Language)
    requires ent_ok(e@)
{
    match Mnemonic::from_entropy(e, lang) {
        Ok(m) => {
            proof { lemma_phrase_split(lang.li(), e@); }
            let s = MnemonicType::for_phrase(m.phrase());
            match s { Ok(t) => { let b = t.entropy_bits(); assert(b == 8 * e@.len()); } Err(_) => { assert(false); } }
        }
        Err(_) => { assert(false); }
    }
}
#mod thms C18
pub fn client_builtin()
{
    let ps = [Prefix::XPRV(), Prefix::XPUB(), Prefix::TPRV(), Prefix::TPUB(), Prefix::YPRV(), Prefix::YPUB(), Prefix::ZPRV(), Prefix::ZPUB()];
    let mut i: usize = 0;
    while i < 8
        invariant i <= 8, ps@.len() == 8, forall|j: int| 0 <= j < 8 ==> registered((#[trigger] ps@[j]).ver()) == Some(ps@[j].ch()),
        decreases 8 - i
    {
        let p = ps[i];
        let v = p.version();
        let r = Prefix::from_version(v);
        proof {
            let d = be32(v) + zeros(74);
            lemma_be32(v);
            assert(d.subrange(0, 4) =~= be32(v));
            ax_prefix_text(v, d);
            assert(registered(ps@[i as int].ver()) == Some(ps@[i as int].ch()));
        }
        assert(r matches Ok(q) ==> q.ver() == p.ver() && q.ch() == p.ch());
        assert(r is Ok) by { lemma_registered(v); }
        let b = p.is_private(); let c = p.is_public();
        assert(b != c) by { lemma_registered(v); }
        let w = p.to_bytes();
        let s = Prefix::from_bytes(w);
        proof { lemma_be32(v); }
        assert(s matches Ok(q) ==> q.ver() == p.ver() && q.ch() == p.ch());
        i = i + 1;
    }
}
pub proof fn lemma_registered(v: u32)
    requires registered(v) is Some
    ensures letters(registered(v)->Some_0), (registered(v)->Some_0.subrange(1, 4) == seq![112u8, 114, 118]) != (registered(v)->Some_0.subrange(1, 4) == seq![112u8, 117, 98])
{
    let t = registered(v)->Some_0;
    assert(t.subrange(1, 4)[1] == t[2] && t.subrange(1, 4)[2] == t[3] && t.subrange(1, 4)[0] == t[1]);
    if t[2] == 114 { assert(t.subrange(1, 4) =~= seq![112u8, 114, 118]); } else { assert(t.subrange(1, 4) =~= seq![112u8, 117, 98]); }
}
/// text, number and bytes of a prefix agree
pub fn client_prefix_forms(p: Prefix, v: u32)
{
    let n = p.version(); let b = p.to_bytes(); let t = p.as_str();
    assert(n == p.ver() && b@ == be32(n) && utf8(t@) == p.ch());
    proof { lemma_be32(n); lemma_be32(v); }
    let x: u32 = crate::vx::VInto::<u32>::vx_into(p);
    assert(x == n);
    let r = Prefix::from_version(v);
    let q = <Prefix as crate::vx::VTryFrom<u32>>::vx_try_from(v);
    match (r, q) { (Ok(r), Ok(q)) => { assert(r.ver() == v && q.ver() == v && r.ch() == q.ch()); } (Err(_), Err(_)) => { } _ => { assert(false); } }
    let y = p.is_private(); let z = p.is_public();
    assert(y <==> p.ch().subrange(1, 4) == seq![112u8, 114, 118]);
    assert(z <==> p.ch().subrange(1, 4) == seq![112u8, 117, 98]);
    assert(!(y && z)) by { assert(seq![112u8, 114, 118][1] != seq![112u8, 117, 98][1]); }
}
#mod thms C16
/// under every built-in prefix, prefix text and version belong together for every key
pub proof fn thm_builtin_belongs(x: ExtendedKey)
    requires registered(x.prefix.ver()) == Some(x.prefix.ch())
    ensures belongs(x)
{
    let d = xk_bytes(x.prefix.ver(), x.attrs, x.key_bytes@);
    thm_xk_bytes(x.prefix.ver(), x.attrs, x.key_bytes@);
    ax_prefix_text(x.prefix.ver(), d);
    lemma_registered(x.prefix.ver());
}
#mod thms C21
pub fn client_equal(a: &XPrv, b: &XPrv)
{
    let e = crate::vx::VEq::veq(a, b);
    let c = crate::ext::subtle::ConstantTimeEq::vx_ct_eq(a, b);
    let c: bool = crate::vx::VInto::<bool>::vx_into(c);
    assert(e == c);
    assert(e <==> (a.private_key.sb() == b.private_key.sb() && a.attrs.depth == b.attrs.depth && a.attrs.parent_fingerprint@ == b.attrs.parent_fingerprint@
        && a.attrs.child_number == b.attrs.child_number && a.attrs.chain_code@ == b.attrs.chain_code@));
}
pub fn client_equal_pub(a: &XPub, b: &XPub)
{
    let e = crate::vx::VEq::veq(a, b);
    assert(e <==> (a.public_key.pb() == b.public_key.pb() && a.attrs.depth == b.attrs.depth && a.attrs.parent_fingerprint@ == b.attrs.parent_fingerprint@
        && a.attrs.child_number == b.attrs.child_number && a.attrs.chain_code@ == b.attrs.chain_code@));
}
#mod thms C22
/// keys that differ only in the private key have the same debug text
pub proof fn thm_debug(a: XPrv, b: XPrv)
    requires a.attrs == b.attrs
    ensures crate::vx::Debug::dbg(&a) == crate::vx::Debug::dbg(&b)
{ }
#mod thms C23
pub fn client_sign(k: &crate::ext::libsecp256k1::SecretKey, d: &[u8])
{
    match crate::ecdsa_sign(k, d) {
        Ok(o) => {
            proof { crate::ext::libsecp256k1::ax_sk(*k); ax_ecdsa(k.b(), d@); }
            assert(d@.len() == 32 && o.0@.len() == 64 && ecdsa_recover(d@, o.0@, o.1) == Some(gmul(k.b())));
        }
        Err(_) => { assert(d@.len() != 32); }
    }
}
#mod thms C24
/// two digits per byte, from which the byte can be read
pub proof fn thm_hex(b: Seq<u8>, upper: bool, i: int)
    requires 0 <= i < b.len()
    ensures hexs(b, upper).len() == 2 * b.len(), hexs(b, upper).subrange(2 * i, 2 * i + 2) == hex2(b[i], upper)
    decreases b.len()
{
    let c = b.drop_last(); let h = hexs(c, upper); let x = hex2(b.last(), upper); let n = c.len() as int;
    assert(hexs(b, upper) == h + x && x.len() == 2);
    if n > 0 { thm_hex(c, upper, 0); } else { assert(h.len() == 0); }
    if i < n {
        thm_hex(c, upper, i);
        assert(c[i] == b[i]);
        assert((h + x).subrange(2 * i, 2 * i + 2) =~= h.subrange(2 * i, 2 * i + 2));
    } else { assert((h + x).subrange(2 * n, 2 * n + 2) =~= x); }
}
pub proof fn thm_hex2(a: u8, b: u8, upper: bool)
    requires hex2(a, upper) == hex2(b, upper)
    ensures a == b
{
    assert(hex2(a, upper)[0] == hexd((a / 16) as nat, upper) && hex2(a, upper)[1] == hexd((a % 16) as nat, upper));
    assert(hex2(b, upper)[0] == hexd((b / 16) as nat, upper) && hex2(b, upper)[1] == hexd((b % 16) as nat, upper));
    lemma_hexd((a / 16) as nat, upper); lemma_hexd((b / 16) as nat, upper); lemma_hexd((a % 16) as nat, upper); lemma_hexd((b % 16) as nat, upper);
    assert(a == (a / 16) * 16 + a % 16 && b == (b / 16) * 16 + b % 16);
}
pub proof fn lemma_hexd(n: nat, upper: bool)
    requires n < 16
    ensures hexd(n, upper) as u32 == (if n < 10 { 48 + n } else if upper { 55 + n } else { 87 + n })
{ let u = (if n < 10 { 48 + n } else if upper { 55 + n } else { 87 + n }) as u32; assert(u < 128); }
#mod thms C25
pub fn client_detect(e: &[u8], lang: Language)
    requires ent_ok(e@)
{
    match Mnemonic::from_entropy(e, lang) {
        Ok(m) => {
            proof {
                lemma_phrase_split(lang.li(), e@); ax_official_disjoint(); ax_official(0); ax_official(1);
                let w = phrase_words(lang.li(), e@)[0];
                assert(official(lang.li()).contains(w));
                assert(!(official(0).contains(w) && official(1).contains(w))) by {
                    if official(0).contains(w) && official(1).contains(w) {
                        let i = choose|i: int| 0 <= i < official(0).len() && official(0)[i] == w;
                        let j = choose|j: int| 0 <= j < official(1).len() && official(1)[j] == w;
                        assert(official(0)[i] != official(1)[j]);
                    }
                }
            }
            let d = Language::from_phrase(m.phrase());
            assert(d == Some(lang));
        }
        Err(_) => { assert(false); }
    }
}
#end
