//! Evaluation of the ground facts that the contracts assume as axioms (ax_official, ax_official_disjoint, ax_nfkd_space),
//! on the reference lists and with the Unicode tables the library itself links, and of the specification's definitions
//! against the libraries they stand for.
use crate::oracle::{words, Lang};
use std::collections::{HashMap, HashSet};
use unicode_normalization::char::{canonical_combining_class, decompose_compatible};
use unicode_normalization::UnicodeNormalization;

fn fail(m: String) -> ! { println!("FACT-FALSE {}", m); std::process::exit(1) }
pub fn run() {
    let mut chars = HashSet::new();
    for l in [Lang::En, Lang::Zh] {
        let ws = &words(l).list;
        if ws.len() != 2048 || ws.iter().collect::<HashSet<_>>().len() != 2048 { fail(format!("{:?}: not 2048 distinct words", l)) }
        let mut at: HashMap<String, Vec<usize>> = HashMap::new();
        for (i, w) in ws.iter().enumerate() {
            if w.is_empty() || w.len() > 8 || w.chars().any(char::is_whitespace) || w.nfkd().collect::<String>() != *w { fail(format!("word {}", w)) }
            chars.extend(w.chars());
            let mut p = String::new();
            at.entry(p.clone()).or_default().push(i);
            for c in w.chars() { p.push(c); at.entry(p.clone()).or_default().push(i); }
        }
        for (p, v) in &at { if v.windows(2).any(|x| x[0] + 1 != x[1]) { fail(format!("prefix {:?} not contiguous", p)) } }
    }
    if words(Lang::Zh).list.iter().any(|w| words(Lang::En).map.contains_key(w)) { fail("lists share a word".into()) }
    println!("FACT each list: 2048 distinct non-empty words of at most 8 bytes, no white space, NFKD-stable; words sharing a prefix are adjacent");
    println!("FACT the two lists share no word");
    // canonical reordering only moves characters of non-zero combining class; no list character has one
    for c in &chars { if canonical_combining_class(*c) != 0 { fail(format!("{:?} has a combining class", c)) } }
    if canonical_combining_class(' ') != 0 || !' '.is_whitespace() { fail("space".into()) }
    let mut n = 0;
    for c in '\0'..=char::MAX {
        if c.is_whitespace() { continue }
        let mut d = vec![];
        decompose_compatible(c, |x| d.push(x));
        if let Some(i) = d.iter().position(|x| *x == ' ') {
            n += 1;
            match d.get(i + 1) { Some(x) if *x != ' ' && !chars.contains(x) => {} _ => fail(format!("{:?} decomposes to {:?}", c, d)) }
        }
    }
    println!("FACT each of the {} characters outside white space whose NFKD has a space puts, right after the first one, a character of no list word", n);
    definitions();
}

// the specification's own definitions (contracts/00_spec.vc, 01_base58.vc), transcribed
fn is_ws(u: u32) -> bool {
    (9..=13).contains(&u) || u == 0x20 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000..=0x200a).contains(&u) || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000
}
fn utf8_1(u: u32) -> Vec<u8> {
    let v = if u < 0x80 { vec![u] } else if u < 0x800 { vec![0xc0 + u / 0x40, 0x80 + u % 0x40] }
        else if u < 0x10000 { vec![0xe0 + u / 0x1000, 0x80 + u / 0x40 % 0x40, 0x80 + u % 0x40] }
        else { vec![0xf0 + u / 0x40000, 0x80 + u / 0x1000 % 0x40, 0x80 + u / 0x40 % 0x40, 0x80 + u % 0x40] };
    v.into_iter().map(|x| x as u8).collect()
}
fn split_by(s: &[char], sep: &dyn Fn(char) -> bool) -> Vec<Vec<char>> {
    if s.is_empty() { return vec![vec![]] }
    let mut r = split_by(&s[1..], sep);
    if sep(s[0]) { r.insert(0, vec![]) } else { r[0].insert(0, s[0]) }
    r
}
fn texts(v: Vec<Vec<char>>) -> Vec<String> { v.into_iter().map(|x| x.into_iter().collect()).collect() }
fn trim_spec(s: &[char]) -> &[char] {
    if !s.is_empty() && is_ws(s[0] as u32) { trim_spec(&s[1..]) } else if !s.is_empty() && is_ws(s[s.len() - 1] as u32) { trim_spec(&s[..s.len() - 1]) } else { s }
}
fn parse_digits(s: &[char]) -> Option<u128> {
    let (l, r) = s.split_last()?;
    let d = (*l as u32).checked_sub(48).filter(|d| *d <= 9)? as u128;
    if r.is_empty() { Some(d) } else { parse_digits(r)?.checked_mul(10)?.checked_add(d) }
}
fn parse_dec(s: &[char]) -> Option<u128> { if s.first() == Some(&'+') { parse_digits(&s[1..]) } else { parse_digits(s) } }
fn dec(n: u64) -> String { if n < 10 { ((48 + n) as u8 as char).to_string() } else { dec(n / 10) + &((48 + n % 10) as u8 as char).to_string() } }
fn hexd(n: u8, up: bool) -> char { (if n < 10 { 48 + n } else if up { 55 + n } else { 87 + n }) as char }
fn lower1(c: char) -> char { if c.is_ascii() && ('A'..='Z').contains(&c) { (c as u8 + 32) as char } else { c } }
fn text_definitions(rng: &mut crate::src::Src) {
    let odd = ['/', '\'', ' ', ' ', '\u{3000}', '\t', '\u{a0}', 'm', 'a', 'A', 'Z', '0', '9', '+', '-', 'é', '\u{130}', '的', '\u{200b}', '\u{1f600}'];
    let mut k = 0;
    for _ in 0..4000 {
        let s: Vec<char> = (0..rng.below(12)).map(|_| rng.pick(&odd)).collect();
        let t: String = s.iter().collect();
        let c = rng.pick(&odd);
        let ok = texts(split_by(&s, &|x| x == c)) == t.split(c).collect::<Vec<_>>()
            && texts(split_by(&s, &|x| is_ws(x as u32)).into_iter().filter(|x| !x.is_empty()).collect()) == t.split_whitespace().collect::<Vec<_>>()
            && trim_spec(&s).iter().collect::<String>() == t.trim()
            && t.to_ascii_lowercase() == s.iter().map(|x| lower1(*x)).collect::<String>()
            && t.strip_suffix(c).map(|x| x.to_string()) == (if s.last() == Some(&c) { Some(s[..s.len() - 1].iter().collect()) } else { None });
        if !ok { fail(format!("text operations on {:?}", t)) }
        let ds = ['0', '1', '2', '4', '6', '7', '8', '9', '+', '-', ' ', '\'', '٣', ':'];
        let s: Vec<char> = (0..rng.below(13)).map(|_| { let w = if rng.chance(1, 12) { ds.len() } else { 8 }; ds[rng.below(w)] }).collect();
        let t: String = s.iter().collect();
        if t.parse::<u32>().ok().map(|x| x as u128) != parse_dec(&s).filter(|x| *x <= u32::MAX as u128) { fail(format!("parsing {:?}", t)) }
        let n = rng.int(u32::MAX as u64);
        if dec(n) != n.to_string() || dec(n) != format!("{}", n) { fail(format!("decimal of {}", n)) }
        k += 1;
    }
    for b in 0..=255u8 {
        let h = |up| [hexd(b / 16, up), hexd(b % 16, up)].iter().collect::<String>();
        if format!("{:02x}", b) != h(false) || format!("{:02X}", b) != h(true) { fail(format!("hex of {}", b)) }
    }
    println!("FACT sampled: split, split_whitespace, trim, strip_suffix, to_ascii_lowercase, integer parsing, decimal and hex output are as specified on {} texts", k);
}
fn b58d(n: u32) -> u8 { (if n < 9 { 49 + n } else if n < 17 { 56 + n } else if n < 22 { 57 + n } else if n < 33 { 58 + n } else if n < 44 { 64 + n } else { 65 + n }) as u8 }
fn digits58(mut x: Vec<u8>) -> Vec<u8> {
    let mut out = vec![];
    while x.iter().any(|b| *b != 0) {
        let mut r = 0u32;
        for b in x.iter_mut() { let v = r * 256 + *b as u32; *b = (v / 58) as u8; r = v % 58; }
        out.push(b58d(r));
    }
    out.reverse();
    out
}
fn enc58(x: &[u8]) -> Vec<u8> { if !x.is_empty() && x[0] == 0 { [vec![49], enc58(&x[1..])].concat() } else { digits58(x.to_vec()) } }
const N: &str = "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141";
fn hex(s: &str) -> [u8; 32] { let mut o = [0; 32]; for i in 0..32 { o[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap(); } o }
/// (a + b) mod n
fn add_n(a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    let n = hex(N);
    let mut s = [0u8; 33];
    let mut c = 0u32;
    for i in (0..32).rev() { let v = a[i] as u32 + b[i] as u32 + c; s[i + 1] = v as u8; c = v >> 8; }
    s[0] = c as u8;
    let mut nn = [0u8; 33];
    nn[1..].copy_from_slice(&n);
    while s >= nn {
        let mut br = 0i32;
        for i in (0..33).rev() { let v = s[i] as i32 - nn[i] as i32 - br; s[i] = v as u8; br = (v < 0) as i32; }
    }
    let mut o = [0; 32];
    o.copy_from_slice(&s[1..]);
    o
}
fn definitions() {
    for c in '\0'..=char::MAX {
        if is_ws(c as u32) != c.is_whitespace() { fail(format!("white space {:?}", c)) }
        if utf8_1(c as u32) != c.to_string().into_bytes() { fail(format!("UTF-8 of {:?}", c)) }
    }
    println!("FACT the specification's white space and UTF-8 are those of the standard library for every character");
    let mut rng = crate::src::Src::new(20, Default::default());
    text_definitions(&mut rng);
    let mut k = 0;
    for len in 0..83usize {
        for z in [0, 1, 2, len] {
            let mut b = (0..len).map(|_| rng.byte()).collect::<Vec<u8>>();
            for x in b.iter_mut().take(z) { *x = 0; }
            let mut d = b.clone();
            d.extend(&crate::oracle::sha256(&crate::oracle::sha256(&b))[..4]);
            let t = bs58::encode(&b).with_check().into_string();
            if enc58(&d) != t.as_bytes() { fail(format!("Base58Check of {:02x?}", b)) }
            if bs58::decode(&t).with_check(None).into_vec().ok() != Some(b.clone()) { fail(format!("Base58Check text {}", t)) }
            let mut u = t.clone().into_bytes();
            let at = rng.below(u.len());
            u[at] = if u[at] == b'2' { b'3' } else { b'2' };
            if bs58::decode(&u).with_check(None).into_vec().is_ok() { fail(format!("Base58Check text {:?}", u)) }
            k += 2;
        }
    }
    println!("FACT sampled: the specification's Base58Check is the bs58 crate's on {} payloads and damaged texts of 0 to 82 bytes", k);
    use libsecp256k1::{Message, PublicKey, SecretKey};
    let n = hex(N);
    let mut lo = n; lo[31] -= 1;
    let mut hi = n; hi[31] += 1;
    let mut one = [0; 32]; one[31] = 1;
    for (b, ok) in [(n, false), (lo, true), (hi, false), ([0; 32], false), (one, true), ([255; 32], false)] {
        if SecretKey::parse(&b).is_ok() != ok { fail(format!("scalar {:02x?}", b)) }
    }
    for i in 0..40 {
        let (mut a, mut t) = ([0; 32], [0; 32]);
        a.copy_from_slice(&(0..32).map(|_| rng.byte()).collect::<Vec<u8>>());
        t.copy_from_slice(&(0..32).map(|_| rng.byte()).collect::<Vec<u8>>());
        if i < 4 { a = lo; t = if i == 0 { one } else if i == 1 { lo } else { t } }
        let (Ok(sa), Ok(st)) = (SecretKey::parse(&a), SecretKey::parse(&t)) else { continue };
        let sum = add_n(&a, &t);
        let mut x = sa.clone();
        let r = x.tweak_add_assign(&st);
        let mut p = PublicKey::from_secret_key(&sa);
        let q = p.tweak_add_assign(&st);
        if sum == [0; 32] { if r.is_ok() || q.is_ok() { fail("tweak to zero".into()) } continue }
        if r.is_err() || x.serialize() != sum { fail(format!("tweak {:02x?} + {:02x?}", a, t)) }
        if q.is_err() || p != PublicKey::from_secret_key(&x) { fail(format!("point tweak {:02x?} + {:02x?}", a, t)) }
        if PublicKey::parse_compressed(&p.serialize_compressed()).ok() != Some(p.clone()) { fail("point encoding".into()) }
        let m = Message::parse(&t);
        let (sig, rec) = libsecp256k1::sign(&m, &sa);
        if libsecp256k1::recover(&m, &sig, &rec).ok() != Some(PublicKey::from_secret_key(&sa)) { fail("recovery".into()) }
    }
    println!("FACT sampled: the order n, addition mod n, the group law and ECDSA recovery are libsecp256k1's on boundary and random scalars");
    hashes_and_curve(&mut rng);
}
fn hashes_and_curve(rng: &mut crate::src::Src) {
    use hmac::{Hmac, Mac};
    use sha2::Digest;
    let t = crate::refs::tables();
    let mut any = |n: usize| (0..n).map(|_| rng.byte()).collect::<Vec<u8>>();
    for len in (0..300).chain([1000, 5000]) {
        let (m, k) = (any(len), any(len * 7 % 200));
        if t.sha256(&m) != sha2::Sha256::digest(&m)[..] || t.sha512(&m) != sha2::Sha512::digest(&m)[..] || t.ripemd160(&m) != ripemd::Ripemd160::digest(&m)[..] { fail(format!("hash of {:02x?}", m)) }
        if t.hmac512(&k, &m) != Hmac::<sha2::Sha512>::new_from_slice(&k).unwrap().chain_update(&m).finalize().into_bytes()[..] { fail(format!("HMAC of {:02x?}", m)) }
    }
    for (len, rounds) in [(64, 1), (64, 2), (64, 2048), (20, 3), (130, 5)] {
        let (pw, salt) = (any(len + 17), any(rounds as usize % 40 + 1));
        let mut o = vec![0; len];
        pbkdf2::pbkdf2::<Hmac<sha2::Sha512>>(&pw, &salt, rounds, &mut o);
        if t.pbkdf2(&pw, &salt, rounds, len) != o { fail(format!("PBKDF2 of {:02x?}", pw)) }
    }
    println!("FACT sampled: the specification's SHA-256, SHA-512, RIPEMD-160, HMAC and PBKDF2 are those of the sha2, ripemd, hmac and pbkdf2 crates on messages of 0 to 5000 bytes");
    use libsecp256k1::{Message, PublicKey, SecretKey};
    let c = crate::refs::Curve::new();
    let n = crate::refs::num(&hex(N));
    for i in 0..3 {
        let mut k = [0; 32];
        let mut d = [0; 32];
        if i == 0 { k[31] = 2; } else { k.copy_from_slice(&any(32)); }
        d.copy_from_slice(&any(32));
        if i == 2 { d = k; }
        let (Ok(sk), Ok(st)) = (SecretKey::parse(&k), SecretKey::parse(&d)) else { continue };
        let mut p = PublicKey::from_secret_key(&sk);
        let e = p.serialize_compressed();
        if c.gmul(&k) != e { fail(format!("generator times {:02x?}", k)) }
        if p.tweak_add_assign(&st).is_err() || c.padd(&e, &d) != Some(p.serialize_compressed().to_vec()) { fail(format!("point tweak {:02x?} + {:02x?}", k, d)) }
        let (sig, rec) = libsecp256k1::sign(&Message::parse(&d), &sk);
        if rec.serialize() < 2 && c.recover(&n, &d, &sig.serialize(), rec.serialize()) != Some(e.to_vec()) { fail(format!("recovery {:02x?}", d)) }
    }
    for i in 0..60u8 {
        let mut b = [0; 33];
        b.copy_from_slice(&any(33));
        b[0] = i % 5;
        if i > 50 { for x in b[1..29].iter_mut() { *x = 255; } b[28] = 254 + i % 2; }
        if PublicKey::parse_compressed(&b).is_ok() != c.point_ok(&b) { fail(format!("point {:02x?}", b)) }
    }
    println!("FACT sampled: the specification's curve is libsecp256k1's on random scalars, tweaks, signatures and encodings");
}
