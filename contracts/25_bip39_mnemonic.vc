// ---------------------------------------------------------------- splitting and joining
#mod spec
pub open spec fn sp() -> Seq<char> { seq![' '] }
pub open spec fn has_sep(w: Seq<char>, m: Sep) -> bool { exists|j: int| 0 <= j < w.len() && is_sep(m, #[trigger] w[j]) }
pub proof fn lemma_split_len(s: Seq<char>, m: Sep) ensures 1 <= split_by(s, m).len() <= s.len() + 1 decreases s.len()
{ if s.len() > 0 { lemma_split_len(s.skip(1), m); } }
pub proof fn lemma_nonempty_len(ws: Seq<Seq<char>>) ensures nonempty(ws).len() <= ws.len() decreases ws.len()
{ if ws.len() > 0 { lemma_nonempty_len(ws.drop_last()); } }
pub proof fn lemma_split_nosep(w: Seq<char>, m: Sep)
    requires !has_sep(w, m)
    ensures split_by(w, m) == seq![w]
    decreases w.len()
{
    if w.len() == 0 { assert(w =~= Seq::empty()); assert(seq![w] =~= seq![Seq::<char>::empty()]); }
    else {
        assert(!is_sep(m, w[0]));
        let v = w.skip(1);
        assert(forall|j: int| 0 <= j < v.len() ==> v[j] == w[j + 1]);
        lemma_split_nosep(v, m);
        assert(seq![w[0]] + v =~= w);
        assert(seq![seq![w[0]] + seq![v][0]] + seq![v].skip(1) =~= seq![w]);
    }
}
pub proof fn lemma_split_cat(a: Seq<char>, c: char, b: Seq<char>, m: Sep)
    requires is_sep(m, c)
    ensures split_by(a + seq![c] + b, m) == split_by(a, m) + split_by(b, m)
    decreases a.len()
{
    let s = a + seq![c] + b;
    if a.len() == 0 {
        assert(s.skip(1) =~= b); assert(s[0] == c);
        assert(seq![Seq::<char>::empty()] + split_by(b, m) =~= split_by(a, m) + split_by(b, m));
    } else {
        let v = a.skip(1);
        assert(s.skip(1) =~= v + seq![c] + b);
        assert(s[0] == a[0]);
        lemma_split_cat(v, c, b, m);
        lemma_split_len(v, m);
        let r = split_by(v, m); let q = split_by(b, m);
        assert((r + q)[0] == r[0]);
        assert((r + q).skip(1) =~= r.skip(1) + q);
        assert((seq![Seq::<char>::empty()] + r) + q =~= seq![Seq::<char>::empty()] + (r + q));
        assert((seq![seq![a[0]] + r[0]] + r.skip(1)) + q =~= seq![seq![a[0]] + r[0]] + (r.skip(1) + q));
    }
}
/// the pieces of the words, one after the other
pub open spec fn pieces(ws: Seq<Seq<char>>, m: Sep) -> Seq<Seq<char>> decreases ws.len() {
    if ws.len() == 0 { Seq::empty() } else { pieces(ws.drop_last(), m) + split_by(ws.last(), m) }
}
pub proof fn lemma_split_join(ws: Seq<Seq<char>>, m: Sep)
    requires ws.len() > 0, is_sep(m, ' ')
    ensures split_by(join(ws, sp()), m) == pieces(ws, m)
    decreases ws.len()
{
    if ws.len() == 1 {
        assert(pieces(ws.drop_last(), m) =~= Seq::empty());
        assert(pieces(ws, m) =~= split_by(ws[0], m));
    } else {
        lemma_split_join(ws.drop_last(), m);
        lemma_split_cat(join(ws.drop_last(), sp()), ' ', ws.last(), m);
    }
}
pub proof fn lemma_pieces_nosep(ws: Seq<Seq<char>>, m: Sep)
    requires forall|i: int| 0 <= i < ws.len() ==> !has_sep(#[trigger] ws[i], m)
    ensures pieces(ws, m) == ws
    decreases ws.len()
{
    if ws.len() > 0 {
        let v = ws.drop_last();
        assert(forall|i: int| 0 <= i < v.len() ==> v[i] == ws[i]);
        lemma_pieces_nosep(v, m);
        assert(!has_sep(ws[ws.len() - 1], m));
        lemma_split_nosep(ws.last(), m);
        assert(v + seq![ws.last()] =~= ws);
    } else { assert(ws =~= Seq::empty()); }
}
pub proof fn lemma_pieces_has(ws: Seq<Seq<char>>, m: Sep, i: int, x: Seq<char>)
    requires 0 <= i < ws.len(), split_by(ws[i], m).contains(x)
    ensures pieces(ws, m).contains(x)
    decreases ws.len()
{
    let v = ws.drop_last();
    let p = pieces(v, m); let q = split_by(ws.last(), m);
    if i == ws.len() - 1 { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert((p + q)[p.len() + j] == x); }
    else { lemma_pieces_has(v, m, i, x); let j = choose|j: int| 0 <= j < p.len() && p[j] == x; assert((p + q)[j] == x); }
}
pub proof fn lemma_nonempty_id(ws: Seq<Seq<char>>)
    requires forall|i: int| 0 <= i < ws.len() ==> (#[trigger] ws[i]).len() > 0
    ensures nonempty(ws) == ws
    decreases ws.len()
{
    if ws.len() > 0 {
        let v = ws.drop_last();
        assert(forall|i: int| 0 <= i < v.len() ==> v[i] == ws[i]);
        lemma_nonempty_id(v);
        assert(ws[ws.len() - 1].len() > 0);
        assert(v.push(ws.last()) =~= ws);
    } else { assert(ws =~= Seq::empty()); }
}
/// the pieces between separators contain no separator
pub proof fn lemma_split_clean(s: Seq<char>, m: Sep)
    ensures forall|i: int| 0 <= i < split_by(s, m).len() ==> !has_sep(#[trigger] split_by(s, m)[i], m)
    decreases s.len()
{
    if s.len() > 0 {
        lemma_split_clean(s.skip(1), m);
        lemma_split_len(s.skip(1), m);
        let r = split_by(s.skip(1), m); let t = split_by(s, m);
        assert forall|i: int| 0 <= i < t.len() implies !has_sep(#[trigger] t[i], m) by {
            if is_sep(m, s[0]) { if i > 0 { assert(t[i] == r[i - 1]); } }
            else if i == 0 {
                assert(!has_sep(r[0], m));
                assert forall|j: int| 0 <= j < t[0].len() implies !is_sep(m, #[trigger] t[0][j]) by { if j > 0 { assert(t[0][j] == r[0][j - 1]); } }
            } else { assert(t[i] == r[i]); }
        }
    }
}
pub proof fn lemma_nonempty_sub(ws: Seq<Seq<char>>)
    ensures forall|i: int| 0 <= i < nonempty(ws).len() ==> (#[trigger] nonempty(ws)[i]).len() > 0 && ws.contains(nonempty(ws)[i])
    decreases ws.len()
{
    if ws.len() > 0 {
        let v = ws.drop_last();
        lemma_nonempty_sub(v);
        let n = nonempty(ws);
        assert forall|i: int| 0 <= i < n.len() implies (#[trigger] n[i]).len() > 0 && ws.contains(n[i]) by {
            if i < nonempty(v).len() { assert(n[i] == nonempty(v)[i]); let j = choose|j: int| 0 <= j < v.len() && v[j] == n[i]; assert(ws[j] == n[i]); }
            else { assert(ws[ws.len() - 1] == n[i]); }
        }
    }
}
/// words that white space separates: none is empty, none contains white space
pub proof fn lemma_split_ws(s: Seq<char>)
    ensures split_ws(s).len() <= s.len() + 1, forall|i: int| 0 <= i < split_ws(s).len() ==> (#[trigger] split_ws(s)[i]).len() > 0 && !has_sep(split_ws(s)[i], Sep::Ws)
{
    let t = split_by(s, Sep::Ws);
    lemma_split_len(s, Sep::Ws); lemma_nonempty_len(t); lemma_nonempty_sub(t); lemma_split_clean(s, Sep::Ws);
    assert forall|i: int| 0 <= i < split_ws(s).len() implies (#[trigger] split_ws(s)[i]).len() > 0 && !has_sep(split_ws(s)[i], Sep::Ws) by {
        assert(nonempty(t)[i].len() > 0);
        let j = choose|j: int| 0 <= j < t.len() && t[j] == nonempty(t)[i]; assert(!has_sep(t[j], Sep::Ws));
    }
}
// ---------------------------------------------------------------- the BIP39 encoding
/// entropy bits, then the leading bits of its SHA-256: one per 32 bits of entropy
pub open spec fn cbits(e: Seq<u8>) -> Seq<bool> { flat8(e) + bits_of(sha256(e)[0] as u64, 8).subrange(0, e.len() as int / 4) }
pub open spec fn ent_ok(e: Seq<u8>) -> bool { e.len() == 16 || e.len() == 20 || e.len() == 24 || e.len() == 28 || e.len() == 32 }
pub open spec fn group11(t: Seq<bool>, i: int) -> nat { val(t.subrange(11 * i, 11 * i + 11)) }
/// the words of an entropy: its bits with checksum in groups of 11, each a position in the list
pub open spec fn phrase_words(l: int, e: Seq<u8>) -> Seq<Seq<char>> { Seq::new(cbits(e).len() / 11, |i: int| official(l)[group11(cbits(e), i) as int]) }
pub open spec fn phrase_spec(l: int, e: Seq<u8>) -> Seq<char> { join(phrase_words(l, e), sp()) }
pub open spec fn in_list(l: int, ws: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ws.len() ==> official(l).contains(#[trigger] ws[i]) }
/// the bits that words stand for
pub open spec fn wbits(l: int, ws: Seq<Seq<char>>) -> Seq<bool> { bflat(Seq::new(ws.len(), |i: int| official(l).index_of(ws[i]) as u64), 11) }
pub open spec fn count_ok(n: int) -> bool { n == 12 || n == 15 || n == 18 || n == 21 || n == 24 }
/// the words are a valid mnemonic and e is the entropy it encodes
pub open spec fn decodes(l: int, ws: Seq<Seq<char>>, e: Seq<u8>) -> bool {
    in_list(l, ws) && count_ok(ws.len() as int) && e.len() * 3 == ws.len() * 4 && wbits(l, ws) == cbits(e)
}
pub open spec fn top(b: u8, k: nat) -> nat { val(bits_of(b as u64, 8).subrange(0, k as int)) }
/// the bytes b hold the bits t, with less than a byte more
pub open spec fn packed(t: Seq<bool>, b: Seq<u8>) -> bool { t.len() <= flat8(b).len() < t.len() + 8 && t == flat8(b).subrange(0, t.len() as int) }
pub open spec fn verdict(l: int, ws: Seq<Seq<char>>, b: Seq<u8>, k: nat) -> bool {
    let e = b.subrange(0, 4 * (k as int));
    &&& b.len() == 4 * k + 1
    &&& top(b[4 * (k as int)], k) == top(sha256(e)[0], k) ==> decodes(l, ws, e)
    &&& top(b[4 * (k as int)], k) != top(sha256(e)[0], k) ==> forall|x: Seq<u8>| !decodes(l, ws, x)
}
/// what a checksum that matches, or does not, says about whole bit strings
pub proof fn lemma_check(e: Seq<u8>, c: Seq<bool>, k: nat)
    requires 4 <= k <= 8, e.len() == 4 * k, c.len() == k
    ensures
        val(c) == top(sha256(e)[0], k) ==> flat8(e) + c == cbits(e),
        val(c) != top(sha256(e)[0], k) ==> forall|x: Seq<u8>| x.len() == 4 * k ==> flat8(e) + c != #[trigger] cbits(x),
{
    let ki = k as int;
    let d = bits_of(sha256(e)[0] as u64, 8).subrange(0, ki);
    assert(e.len() as int / 4 == ki);
    assert(cbits(e) == flat8(e) + d);
    lemma_bflat_len(wide8(e), 8);
    if val(c) == top(sha256(e)[0], k) { lemma_val_inj(c, d); }
    else {
        assert forall|x: Seq<u8>| x.len() == 4 * k implies flat8(e) + c != #[trigger] cbits(x) by {
            if flat8(e) + c == cbits(x) {
                assert(x.len() as int / 4 == ki);
                lemma_bflat_len(wide8(x), 8);
                lemma_bytes_of(x); lemma_bytes_of(e);
                let t = cbits(x);
                assert(t.subrange(0, 32 * ki) =~= flat8(x));
                assert((flat8(e) + c).subrange(0, 32 * ki) =~= flat8(e));
                assert(x == e);
                assert(t.subrange(32 * ki, 33 * ki) =~= d);
                assert((flat8(e) + c).subrange(32 * ki, 33 * ki) =~= c);
            }
        }
    }
}
pub proof fn lemma_verdict(l: int, ws: Seq<Seq<char>>, b: Seq<u8>, k: nat)
    requires in_list(l, ws), 4 <= k <= 8, ws.len() == 3 * k, packed(wbits(l, ws), b)
    ensures verdict(l, ws, b, k)
{
    let t = wbits(l, ws);
    let ki = k as int;
    lemma_bflat_len(Seq::new(ws.len(), |i: int| official(l).index_of(ws[i]) as u64), 11);
    lemma_bflat_len(wide8(b), 8);
    assert(t.len() == 33 * k);
    assert(b.len() == 4 * k + 1);
    let e = b.subrange(0, 4 * ki);
    lemma_flat8_take(b, 4 * ki);
    lemma_flat8_win(b, 4 * ki);
    let f = flat8(b);
    assert(flat8(e) =~= t.subrange(0, 32 * ki));
    let c = bits_of(b[4 * ki] as u64, 8).subrange(0, ki);
    assert(t.subrange(32 * ki, 33 * ki) =~= c) by { assert(f.subrange(32 * ki, 32 * ki + 8).subrange(0, ki) =~= f.subrange(32 * ki, 33 * ki)); }
    assert(t =~= flat8(e) + c);
    lemma_check(e, c, k);
    assert(val(c) == top(b[4 * ki], k));
    if val(c) != top(sha256(e)[0], k) {
        assert forall|x: Seq<u8>| !decodes(l, ws, x) by { if decodes(l, ws, x) { assert(x.len() == 4 * k); assert(cbits(x) == t); } }
    }
}
/// 33 bits for every 4 bytes of entropy, in whole groups
pub proof fn lemma_cbits(e: Seq<u8>)
    requires ent_ok(e)
    ensures cbits(e).len() == 33 * (e.len() / 4), cbits(e).len() / 11 == 3 * (e.len() / 4),
        forall|i: int| 0 <= i < 3 * (e.len() / 4) ==> #[trigger] group11(cbits(e), i) < 2048
{
    lemma_bflat_len(wide8(e), 8);
    lemma_p2_vals();
    assert forall|i: int| 0 <= i < 3 * (e.len() / 4) implies #[trigger] group11(cbits(e), i) < 2048 by { lemma_val_bound(cbits(e).subrange(11 * i, 11 * i + 11)); }
}
/// appending the whole checksum byte and dropping the last incomplete group leaves the same groups
pub proof fn lemma_groups_eq(e: Seq<u8>, c: u8)
    requires ent_ok(e), c == sha256(e)[0]
    ensures
        flat8(e.push(c)).len() == 8 * e.len() + 8,
        flat8(e.push(c)).len() / 11 == cbits(e).len() / 11,
        cbits(e).len() / 11 <= 24,
        forall|i: int| 0 <= i < cbits(e).len() / 11 ==> #[trigger] group11(flat8(e.push(c)), i) == group11(cbits(e), i) && group11(cbits(e), i) < 2048,
{
    let t = flat8(e.push(c));
    lemma_flat8_push(e, c);
    lemma_bflat_len(wide8(e), 8);
    lemma_cbits(e);
    let k = e.len() / 4;
    assert(t.len() == 32 * k + 8);
    assert((32 * k + 8) / 11 == 3 * k) by { assert(4 <= k <= 8); }
    assert forall|i: int| 0 <= i < cbits(e).len() / 11 implies #[trigger] group11(t, i) == group11(cbits(e), i) && group11(cbits(e), i) < 2048 by {
        assert(t.subrange(11 * i, 11 * i + 11) =~= cbits(e).subrange(11 * i, 11 * i + 11));
        assert(group11(cbits(e), i) < 2048);
    }
}
pub proof fn lemma_index_of(l: int, i: int)
    requires is_lang(l), 0 <= i < 2048
    ensures official(l).contains(official(l)[i]), official(l).index_of(official(l)[i]) == i
{
    ax_official(l);
    let s = official(l);
    assert(s.contains(s[i]));
    let j = s.index_of(s[i]);
    assert(0 <= j < s.len() && s[j] == s[i]);
    if j < i { assert(s[j] != s[i]); } else if i < j { assert(s[i] != s[j]); }
}
/// the bits of a whole number of groups are those of its groups
pub proof fn lemma_regroup(t: Seq<bool>, n: int)
    requires 0 <= n, t.len() == 11 * n
    ensures bflat(Seq::new(n as nat, |i: int| group11(t, i) as u64), 11) == t
    decreases n
{
    let v = Seq::new(n as nat, |i: int| group11(t, i) as u64);
    lemma_bflat_len(v, 11);
    if n > 0 {
        let u = t.subrange(0, 11 * n - 11);
        lemma_regroup(u, n - 1);
        let w = Seq::new((n - 1) as nat, |i: int| group11(u, i) as u64);
        assert(v.drop_last() =~= w) by {
            assert forall|i: int| 0 <= i < n - 1 implies w[i] == v[i] by { assert(u.subrange(11 * i, 11 * i + 11) =~= t.subrange(11 * i, 11 * i + 11)); }
        }
        let g = t.subrange(11 * (n - 1), 11 * (n - 1) + 11);
        lemma_bits_val(g);
        assert(u + g =~= t);
    } else { assert(bflat(v, 11) =~= t); }
}
/// the words of an entropy decode to it
pub proof fn lemma_encode_decodes(l: int, e: Seq<u8>)
    requires is_lang(l), ent_ok(e)
    ensures decodes(l, phrase_words(l, e), e)
{
    lemma_cbits(e);
    let ws = phrase_words(l, e);
    let k = (e.len() / 4) as int;
    assert forall|i: int| 0 <= i < ws.len() implies official(l).contains(#[trigger] ws[i]) && official(l).index_of(ws[i]) == group11(cbits(e), i) by {
        assert(group11(cbits(e), i) < 2048);
        lemma_index_of(l, group11(cbits(e), i) as int);
    }
    lemma_regroup(cbits(e), 3 * k);
    assert(Seq::new(ws.len(), |i: int| official(l).index_of(ws[i]) as u64) =~= Seq::new((3 * k) as nat, |i: int| group11(cbits(e), i) as u64));
}
/// words decode to at most one entropy
pub proof fn lemma_decodes_inj(l: int, ws: Seq<Seq<char>>, a: Seq<u8>, b: Seq<u8>)
    requires decodes(l, ws, a), decodes(l, ws, b)
    ensures a == b
{
    lemma_bflat_len(wide8(a), 8); lemma_bflat_len(wide8(b), 8);
    lemma_bytes_of(a); lemma_bytes_of(b);
    assert(cbits(a).subrange(0, 8 * a.len() as int) =~= flat8(a));
    assert(cbits(b).subrange(0, 8 * b.len() as int) =~= flat8(b));
}
/// valid words are the words of the entropy they decode to
pub proof fn lemma_decodes_words(l: int, ws: Seq<Seq<char>>, e: Seq<u8>)
    requires is_lang(l), decodes(l, ws, e)
    ensures ent_ok(e), ws == phrase_words(l, e)
{
    ax_official(l);
    lemma_cbits(e);
    lemma_p2_vals();
    let v = Seq::new(ws.len(), |i: int| official(l).index_of(ws[i]) as u64);
    assert forall|i: int| 0 <= i < ws.len() implies ws[i] == phrase_words(l, e)[i] by {
        assert(official(l).contains(ws[i]));
        let j = official(l).index_of(ws[i]);
        assert(0 <= j < 2048 && official(l)[j] == ws[i]);
        lemma_bflat_win(v, 11, i);
        lemma_val_bits(v[i], 11);
        assert(cbits(e).subrange(11 * i, 11 * i + 11) == bits_of(v[i], 11)) by { assert(i * 11 == 11 * i); }
    }
    assert(ws =~= phrase_words(l, e));
}
/// the words of an entropy, joined by spaces, split into the same words
pub proof fn lemma_phrase_split(l: int, e: Seq<u8>)
    requires is_lang(l), ent_ok(e)
    ensures
        split_ws(phrase_spec(l, e)) == phrase_words(l, e), split_spec(phrase_spec(l, e), ' ') == phrase_words(l, e),
        forall|i: int| 0 <= i < phrase_words(l, e).len() ==> nfkd(#[trigger] phrase_words(l, e)[i]) == phrase_words(l, e)[i] && official(l).contains(phrase_words(l, e)[i]),
        phrase_words(l, e).len() == 3 * (e.len() / 4),
{
    broadcast use ax_ws;
    ax_official(l); lemma_cbits(e);
    let ws = phrase_words(l, e);
    assert forall|i: int| 0 <= i < ws.len() implies word_ok(#[trigger] ws[i]) && official(l).contains(ws[i]) by {
        assert(group11(cbits(e), i) < 2048);
        assert(word_ok(official(l)[group11(cbits(e), i) as int]));
    }
    assert forall|i: int| 0 <= i < ws.len() implies !has_sep(#[trigger] ws[i], Sep::Ws) && !has_sep(ws[i], Sep::Ch(' ')) && ws[i].len() > 0 by { assert(word_ok(ws[i])); }
    lemma_split_join(ws, Sep::Ws); lemma_split_join(ws, Sep::Ch(' '));
    lemma_pieces_nosep(ws, Sep::Ws); lemma_pieces_nosep(ws, Sep::Ch(' '));
    lemma_nonempty_id(ws);
}
// evaluated over all characters on every run: an NFKD decomposition brings in a space only together with a piece that is no list word
pub axiom fn ax_nfkd_space(w: Seq<char>)
    requires !has_sep(w, Sep::Ws), has_sep(nfkd(w), Sep::Ch(' '))
    ensures exists|i: int| 0 <= i < split_spec(nfkd(w), ' ').len() && !official(0).contains(#[trigger] split_spec(nfkd(w), ' ')[i]) && !official(1).contains(split_spec(nfkd(w), ' ')[i]);
pub open spec fn norm(t: Seq<char>) -> Seq<Seq<char>> { Seq::new(split_ws(t).len(), |i: int| nfkd(split_ws(t)[i])) }
/// joining the normalised words by single spaces and splitting again changes nothing that decides validity
pub proof fn lemma_norm(l: int, t: Seq<char>)
    requires is_lang(l)
    ensures ({
        let ws = norm(t); let vs = split_spec(join(norm(t), sp()), ' ');
        vs == ws || (!in_list(l, vs) && (!in_list(l, ws) || ws.len() == 0))
    })
{
    ax_official(l);
    let s = split_ws(t); let ws = norm(t); let m = Sep::Ch(' ');
    lemma_split_ws(t);
    if ws.len() == 0 {
        let vs = split_spec(join(ws, sp()), ' ');
        assert(vs[0].len() == 0);
        if in_list(l, vs) {
            assert(official(l).contains(vs[0]));
            let i = choose|i: int| 0 <= i < official(l).len() && official(l)[i] == vs[0];
            assert(word_ok(official(l)[i]));
        }
    } else {
        lemma_split_join(ws, m);
        if exists|i: int| 0 <= i < ws.len() && has_sep(#[trigger] ws[i], m) {
            let i = choose|i: int| 0 <= i < ws.len() && has_sep(#[trigger] ws[i], m);
            assert(s[i].len() > 0);
            ax_nfkd_space(s[i]);
            let q = split_spec(ws[i], ' ');
            let j = choose|j: int| 0 <= j < q.len() && !official(0).contains(#[trigger] q[j]) && !official(1).contains(q[j]);
            assert(q.contains(q[j]));
            lemma_pieces_has(ws, m, i, q[j]);
            let vs = pieces(ws, m);
            let h = choose|h: int| 0 <= h < vs.len() && vs[h] == q[j];
            if in_list(l, vs) { assert(official(l).contains(vs[h])); }
            if in_list(l, ws) {
                assert(official(l).contains(ws[i]));
                let g = choose|g: int| 0 <= g < official(l).len() && official(l)[g] == ws[i];
                assert(word_ok(official(l)[g]));
                let c = choose|c: int| 0 <= c < ws[i].len() && is_sep(m, #[trigger] ws[i][c]);
                assert(is_ws(ws[i][c])) by { broadcast use ax_ws; }
            }
        } else { lemma_pieces_nosep(ws, m); }
    }
}
pub proof fn lemma_wbits_push(l: int, ws: Seq<Seq<char>>, k: int)
    requires 0 <= k < ws.len()
    ensures wbits(l, ws.subrange(0, k + 1)) == wbits(l, ws.subrange(0, k)) + bits_of(official(l).index_of(ws[k]) as u64, 11)
{
    let f = |i: int| official(l).index_of(ws.subrange(0, k + 1)[i]) as u64;
    let a = Seq::new((k + 1) as nat, |i: int| official(l).index_of(ws.subrange(0, k + 1)[i]) as u64);
    let b = Seq::new(k as nat, |i: int| official(l).index_of(ws.subrange(0, k)[i]) as u64);
    assert(a =~= b.push(official(l).index_of(ws[k]) as u64));
    lemma_bflat_push(b, official(l).index_of(ws[k]) as u64, 11);
    assert(Seq::new(ws.subrange(0, k + 1).len(), |i: int| official(l).index_of(ws.subrange(0, k + 1)[i]) as u64) =~= a);
    assert(Seq::new(ws.subrange(0, k).len(), |i: int| official(l).index_of(ws.subrange(0, k)[i]) as u64) =~= b);
}
#mod bip39::mnemonic
pub open spec fn lang_li(l: Language) -> int { l.li() }
/// a rejected phrase: the error names a true reason
pub open spec fn bad_words(l: int, ws: Seq<Seq<char>>, e: Error) -> bool {
    &&& forall|x: Seq<u8>| !decodes(l, ws, x)
    &&& match e.kind@ {
        ErrorKind::InvalidWord => !in_list(l, ws),
        ErrorKind::InvalidWordLength(n) => in_list(l, ws) && n == ws.len() && !count_ok(ws.len() as int),
        ErrorKind::InvalidChecksum => in_list(l, ws) && count_ok(ws.len() as int),
        _ => false,
    }
}
/// what parsing a phrase gives
pub open spec fn parsed(t: Seq<char>, lang: Language, r: core::result::Result<Mnemonic, Error>) -> bool {
    let ws = norm(t);
    match r {
        Ok(m) => decodes(lang.li(), ws, m.entropy.z@) && m.phrase.z@ == join(ws, sp()) && m.lang == lang,
        Err(e) => bad_words(lang.li(), ws, e) || (ws.len() == 0 && e.kind@ == ErrorKind::InvalidWord),
    }
}
/// the mnemonic of an entropy
pub open spec fn encoded(e: Seq<u8>, lang: Language, m: Mnemonic) -> bool {
    m.lang == lang && m.entropy.z@ == e && m.phrase.z@ == phrase_spec(lang.li(), e)
}
pub open spec fn nfkds(s: Seq<crate::ext::unicode_normalization::Decompositions<crate::vx::VAdapt<char>>>, t: Seq<char>) -> bool {
    &&& s.len() == split_ws(t).len()
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).seq() == nfkd(split_ws(t)[i])
}
pub proof fn lemma_utf8_sp()
    ensures utf8(sp()).len() == 1
{ crate::vx::ax_utf8_ascii(sp()); }
pub type Bi11<'a> = crate::bip39::util::BitIter<&'a u8, crate::bip39::util::Bits11, crate::vx::VAdapt<&'a u8>>;
/// an iterator about to read e and its checksum byte
pub open spec fn bit_start(b: Bi11, e: Seq<u8>) -> bool {
    let s = crate::vx::VIter::seq(&b.source);
    &&& s.len() == e.len() + 1 && crate::vx::VIter::wf(&b.source) && crate::vx::VIter::hi(&b.source) <= 100 && b.read == 0 && b.buffer == 0 && ent_ok(e)
    &&& forall|i: int| 0 <= i < e.len() ==> *s[i] == e[i]
    &&& *s[e.len() as int] == sha256(e)[0]
}
/// gives the groups of the entropy
pub open spec fn bit_end(b: Bi11, e: Seq<u8>) -> bool {
    let s = crate::vx::VIter::seq(&b);
    &&& s.len() == cbits(e).len() / 11 && s.len() <= 24 && crate::vx::VIter::wf(&b)
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == group11(cbits(e), i) && s[i].0 < 2048
}
pub open spec fn strs_of(s: Seq<&'static str>, l: int, e: Seq<u8>) -> bool {
    &&& s.len() == cbits(e).len() / 11
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i])@ == official(l)[group11(cbits(e), i) as int]
}
pub proof fn lemma_bit(b: Bi11, e: Seq<u8>)
    requires bit_start(b, e)
    ensures bit_end(b, e)
{
    let c = sha256(e)[0];
    let f = crate::vx::VIter::seq(&b.source);
    crate::bip39::util::lemma_sizes(); lemma_p2_vals();
    assert(0u64 << 0u64 == 0) by(bit_vector);
    assert(crate::bip39::util::bvals(f) =~= wide8(e.push(c)));
    assert(b.rest() =~= flat8(e.push(c)));
    lemma_groups_eq(e, c);
    let t = flat8(e.push(c));
    assert(crate::bip39::util::from16_ok::<crate::bip39::util::Bits11>());
    assert forall|x: u16| (#[trigger] crate::bip39::util::from16::<crate::bip39::util::Bits11>(x)).0 == x by {
        assert(<crate::bip39::util::Bits11 as crate::vx::VFrom<u16>>::from_post(x, crate::bip39::util::Bits11(x)));
    }
    let s = crate::vx::VIter::seq(&b);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).0 == group11(cbits(e), i) && s[i].0 < 2048 by {
        assert(group11(t, i) == group11(cbits(e), i));
        assert(i * 11 == 11 * i && (i + 1) * 11 == 11 * i + 11);
    }
}
#fn Mnemonic::phrase_to_entropy
#params phrase, lang
#ensures C02 C03
        vx_r matches Ok(e) ==> decodes(lang.li(), split_spec(phrase@, ' '), e@),
        vx_r matches Err(e) ==> bad_words(lang.li(), split_spec(phrase@, ' '), e),
#pre
let ghost vx_l = lang.li();
let ghost vx_ws = split_spec(phrase@, ' ');
proof {
    reveal_strlit(" ");
    ax_official(vx_l); lemma_p2_vals(); lemma_split_len(phrase@, Sep::Ch(' '));
    assert(vx_ws.subrange(0, 0) =~= Seq::empty());
    assert(wbits(vx_l, vx_ws.subrange(0, 0)) =~= Seq::empty()) by { lemma_bflat_len(Seq::new(vx_ws.subrange(0, 0).len(), |i: int| official(vx_l).index_of(vx_ws.subrange(0, 0)[i]) as u64), 11); }
    lemma_bflat_len(Seq::new(vx_ws.len(), |i: int| official(vx_l).index_of(vx_ws[i]) as u64), 11);
}
#loop 0
            invariant
                vx_l == lang.li(), is_lang(vx_l), vx_ws == split_spec(phrase@, ' '), crate::vx::strs($S, vx_ws),
                index_map(wordmap.inner.m(), official(vx_l)), official(vx_l).len() == 2048, p2(11) == 2048, distinct(official(vx_l)),
                bits.ok(), bits.all() == wbits(vx_l, vx_ws.subrange(0, $K)), in_list(vx_l, vx_ws.subrange(0, $K)),
#body 0
let ghost mut vx_c = 0int;
proof {
    if $IT.seq().len() > 0 {
        let w = vx_ws[$K];
        assert($IT.seq()[0] == $S[$K]);
        lemma_wbits_push(vx_l, vx_ws, $K);
        crate::bip39::language::lemma_index(wordmap.inner.m(), official(vx_l), w);
        if official(vx_l).contains(w) { lemma_index_of(vx_l, wordmap.inner.m()[w].0 as int); }
        else { assert(!in_list(vx_l, vx_ws)); }
        vx_c = $K;
        assert(official(vx_l).contains(w) ==> wordmap.inner.m()[w].0 < 2048);
        crate::bip39::util::lemma_sizes();
    }
}
#tail 0
proof {
    assert($K == vx_c + 1);
    assert forall|i: int| 0 <= i < vx_c + 1 implies official(vx_l).contains(#[trigger] vx_ws.subrange(0, vx_c + 1)[i]) by {
        if i < vx_c { assert(vx_ws.subrange(0, vx_c)[i] == vx_ws[i]); }
    }
}
#exit 0
proof {
    assert(vx_ws.subrange(0, vx_ws.len() as int) =~= vx_ws);
    assert forall|b: Seq<u8>| vx_ws.len() % 3 == 0 && 4 <= vx_ws.len() / 3 <= 8 && #[trigger] packed(bits.all(), b) implies verdict(vx_l, vx_ws, b, vx_ws.len() / 3) by { lemma_verdict(vx_l, vx_ws, b, vx_ws.len() / 3); }
    lemma_bflat_len(Seq::new(vx_ws.len(), |i: int| official(vx_l).index_of(vx_ws[i]) as u64), 11);
    assert(wbits(vx_l, vx_ws).len() == 11 * vx_ws.len());
}
#fn Mnemonic::from_phrase
#params phrase, lang
#ensures C02 C03
        parsed(phrase@, lang, vx_r),
#pre
let ghost vx_t = phrase@;
proof {
    reveal_strlit(" ");
    assert(" "@ =~= sp());
    lemma_utf8_sp();
    lemma_split_ws(vx_t);
    lemma_norm(lang.li(), vx_t);
    crate::vx::ax_str_size(phrase); crate::vx::ax_utf8_len(phrase@);
    assert forall|n: int| 0 <= n <= phrase@.len() + 1 implies #[trigger] (n * (10 + utf8(" "@).len())) <= isize::MAX by { assert(n * 11 <= (phrase@.len() + 1) * 11); }
    assert forall|s: Seq<crate::ext::unicode_normalization::Decompositions<crate::vx::VAdapt<char>>>| nfkds(s, vx_t) implies #[trigger] crate::bip39::util::jts(s) == norm(vx_t) by {
        assert(crate::bip39::util::jts(s) =~= norm(vx_t));
    }
}
#closure 0 |w: &str| -> (r: crate::ext::unicode_normalization::Decompositions<crate::vx::VAdapt<char>>)
            ensures r.seq() == nfkd(w@),
#fn Mnemonic::validate
#params phrase, lang
#ensures C02
        vx_r is Ok ==> exists|e: Seq<u8>| decodes(lang.li(), split_spec(phrase@, ' '), e),
        vx_r matches Err(e) ==> bad_words(lang.li(), split_spec(phrase@, ' '), e),
#fn Mnemonic::from_entropy
#params entropy, lang
#ensures C01 C03
        match vx_r {
            Ok(m) => ent_ok(entropy@) && encoded(entropy@, lang, m),
            Err(e) => !ent_ok(entropy@) && e.kind@ == ErrorKind::InvalidKeysize((8 * entropy@.len()) as usize),
        },
#fn Mnemonic::from_entropy_unchecked
#params entropy, lang
#requires
        forall|v: Vec<u8>| <E as crate::vx::VInto<Vec<u8>>>::into_post(entropy, v) ==> ent_ok(v@),
#ensures C01 C03 C06
        exists|v: Vec<u8>| #[trigger] <E as crate::vx::VInto<Vec<u8>>>::into_post(entropy, v) && encoded(v@, lang, vx_r),
#pre
let ghost vx_l = lang.li();
proof {
    reveal_strlit(" ");
    assert(" "@ =~= sp());
    lemma_utf8_sp(); ax_official(vx_l); lemma_p2_vals(); crate::bip39::util::lemma_sizes();
    assert forall|v: Vec<u8>, b: Bi11| #[trigger] <E as crate::vx::VInto<Vec<u8>>>::into_post(entropy, v) && bit_start(b, v@) && #[trigger] crate::vx::VIter::seq(&b.source) == crate::vx::VIter::seq(&b.source) implies bit_end(b, v@) by { lemma_bit(b, v@); }
    assert forall|n: int| 0 <= n <= 24 implies #[trigger] (n * (10 + utf8(" "@).len())) <= isize::MAX by { assert(n * 11 <= 24 * 11); }
    assert forall|v: Vec<u8>, s: Seq<&'static str>| #[trigger] <E as crate::vx::VInto<Vec<u8>>>::into_post(entropy, v) && strs_of(s, vx_l, v@) implies #[trigger] crate::bip39::util::jts(s) == phrase_words(vx_l, v@) by {
        assert(crate::bip39::util::jts(s) =~= phrase_words(vx_l, v@));
    }
}
#closure 0 |bits: crate::bip39::util::Bits11| -> (w: &'static str)
            requires bits.0 < wordlist.inner@.len(),
            ensures w@ == wordlist.ws()[bits.0 as int],
#fn Mnemonic::new
#params mtype, lang
#ensures C06
        vx_r.entropy.z@.len() == 4 * mtype.k(), csprng(vx_r.entropy.z@), encoded(vx_r.entropy.z@, lang, vx_r),
#end
