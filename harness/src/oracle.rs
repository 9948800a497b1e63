//! What the standards say, written directly from BIP32 / BIP39.
use hmac::{Hmac, Mac};
use sha2::{Digest, Sha256, Sha512};
use std::collections::HashMap;
use unicode_normalization::UnicodeNormalization;

pub const ENGLISH: &str = include_str!("../lists/english.txt");
pub const CHINESE: &str = include_str!("../lists/chinese_simplified.txt");

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lang { En, Zh }
pub struct Words { pub list: Vec<&'static str>, pub map: HashMap<&'static str, usize> }
pub fn words(l: Lang) -> &'static Words {
    use std::sync::OnceLock;
    static EN: OnceLock<Words> = OnceLock::new();
    static ZH: OnceLock<Words> = OnceLock::new();
    let (c, t) = match l { Lang::En => (&EN, ENGLISH), Lang::Zh => (&ZH, CHINESE) };
    c.get_or_init(|| {
        let list: Vec<&'static str> = t.lines().map(|x| x.trim()).filter(|x| !x.is_empty()).collect();
        assert_eq!(list.len(), 2048);
        let map: HashMap<_, _> = list.iter().enumerate().map(|(i, w)| (*w, i)).collect();
        assert_eq!(map.len(), 2048);
        Words { list, map }
    })
}
pub fn sha256(b: &[u8]) -> Vec<u8> { Sha256::digest(b).to_vec() }
fn to_bits(b: &[u8]) -> Vec<bool> { b.iter().flat_map(|x| (0..8).map(move |i| x >> (7 - i) & 1 == 1)).collect() }
fn from_bits(b: &[bool]) -> usize { b.iter().fold(0, |a, x| a * 2 + *x as usize) }
/// word indices of the BIP39 encoding
pub fn encode(e: &[u8]) -> Vec<usize> {
    let mut bits = to_bits(e);
    let cs = e.len() * 8 / 32;
    bits.extend(to_bits(&sha256(e)).into_iter().take(cs));
    bits.chunks(11).map(from_bits).collect()
}
pub fn phrase(e: &[u8], l: Lang) -> String { encode(e).iter().map(|i| words(l).list[*i]).collect::<Vec<_>>().join(" ") }
#[derive(Debug, PartialEq, Clone)]
pub struct Bad { pub word: bool, pub count: bool, pub sum: bool, pub n: usize }
/// the entropy a list of words encodes, or what is wrong
pub fn decode(ws: &[&str], l: Lang) -> Result<Vec<u8>, Bad> {
    let idx: Vec<Option<usize>> = ws.iter().map(|w| words(l).map.get(w).copied()).collect();
    let word = idx.iter().any(|x| x.is_none());
    let n = ws.len();
    let count = ![12, 15, 18, 21, 24].contains(&n);
    if word || count { return Err(Bad { word, count, sum: false, n }); }
    let bits: Vec<bool> = idx.iter().flat_map(|i| { let i = i.unwrap(); (0..11).map(move |k| i >> (10 - k) & 1 == 1) }).collect();
    let ent = n * 32 / 3;
    let e: Vec<u8> = bits[..ent].chunks(8).map(|c| from_bits(c) as u8).collect();
    if to_bits(&sha256(&e))[..n / 3] != bits[ent..] { return Err(Bad { word: false, count: false, sum: true, n }); }
    Ok(e)
}
pub fn nfkd(s: &str) -> String { s.nfkd().collect() }
pub fn normalised(s: &str) -> String { s.split_whitespace().map(nfkd).collect::<Vec<_>>().join(" ") }
pub fn hmac512(k: &[u8], m: &[u8]) -> Vec<u8> { let mut h = Hmac::<Sha512>::new_from_slice(k).unwrap(); h.update(m); h.finalize().into_bytes().to_vec() }
/// PBKDF2-HMAC-SHA512, one 64-byte block, from its definition
pub fn pbkdf2_64(pw: &[u8], salt: &[u8]) -> Vec<u8> {
    let mac = Hmac::<Sha512>::new_from_slice(pw).unwrap();
    let one = |m: &[u8]| { let mut h = mac.clone(); h.update(m); h.finalize().into_bytes().to_vec() };
    let mut u = one(&[salt, &[0, 0, 0, 1]].concat());
    let mut t = u.clone();
    for _ in 1..2048 { u = one(&u); for (a, b) in t.iter_mut().zip(&u) { *a ^= b; } }
    t
}
pub fn gb18030(s: &str) -> Vec<u8> {
    use encoding::{all::GB18030, EncoderTrap, Encoding};
    GB18030.encode(s, EncoderTrap::Strict).unwrap_or_default()
}
pub fn seed(phrase: &str, l: Lang, pass: &str) -> Vec<u8> {
    let pw = match l { Lang::Zh => gb18030(phrase), Lang::En => phrase.as_bytes().to_vec() };
    pbkdf2_64(&pw, nfkd(&format!("mnemonic{}", pass)).as_bytes())
}
// ---- BIP32
pub const N: [u8; 32] = [0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41];
pub fn scalar_ok(b: &[u8]) -> bool { b.len() == 32 && b.iter().any(|x| *x != 0) && b < &N[..] }
/// (a + b) mod n
pub fn add_mod(a: &[u8], b: &[u8]) -> Vec<u8> {
    let mut s = vec![0u16; 33];
    for i in (0..32).rev() { let t = a[i] as u16 + b[i] as u16 + s[i + 1]; s[i + 1] = t & 255; s[i] += t >> 8; }
    let ge = |s: &Vec<u16>| { if s[0] > 0 { return true; } for i in 0..32 { if s[i + 1] != N[i] as u16 { return s[i + 1] > N[i] as u16; } } true };
    while ge(&s) {
        let mut bor = 0i32;
        for i in (0..32).rev() { let t = s[i + 1] as i32 - N[i] as i32 - bor; s[i + 1] = (t & 255) as u16; bor = (t < 0) as i32; }
        s[0] = (s[0] as i32 - bor) as u16;
    }
    s[1..].iter().map(|x| *x as u8).collect()
}
/// n - a
pub fn neg(a: &[u8]) -> Vec<u8> {
    let mut r = vec![0u8; 32];
    let mut bor = 0i32;
    for i in (0..32).rev() { let t = N[i] as i32 - a[i] as i32 - bor; r[i] = (t & 255) as u8; bor = (t < 0) as i32; }
    r
}
fn a32(b: &[u8]) -> [u8; 32] { let mut a = [0; 32]; a.copy_from_slice(b); a }
pub fn pubkey(k: &[u8]) -> Vec<u8> { libsecp256k1::PublicKey::from_secret_key(&libsecp256k1::SecretKey::parse(&a32(k)).unwrap()).serialize_compressed().to_vec() }
pub fn point_ok(b: &[u8]) -> bool { if b.len() != 33 { return false; } let mut a = [0; 33]; a.copy_from_slice(b); libsecp256k1::PublicKey::parse_compressed(&a).is_ok() && (b[0] == 2 || b[0] == 3) }
pub fn padd(p: &[u8], t: &[u8]) -> Option<Vec<u8>> {
    let mut a = [0; 33]; a.copy_from_slice(p);
    let q = libsecp256k1::PublicKey::parse_compressed(&a).ok()?;
    let r = libsecp256k1::PublicKey::from_secret_key(&libsecp256k1::SecretKey::parse(&a32(t)).ok()?);
    libsecp256k1::PublicKey::combine(&[q, r]).ok().map(|x| x.serialize_compressed().to_vec())
}
pub fn fingerprint(p: &[u8]) -> [u8; 4] { let d = ripemd::Ripemd160::digest(sha256(p)); [d[0], d[1], d[2], d[3]] }
#[derive(Clone, PartialEq, Debug)]
pub struct XKey { pub key: Vec<u8>, pub depth: u8, pub fp: [u8; 4], pub child: u32, pub chain: [u8; 32] }
pub fn master(seed: &[u8]) -> Option<XKey> {
    let i = hmac512(b"Bitcoin seed", seed);
    if scalar_ok(&i[..32]) { Some(XKey { key: i[..32].to_vec(), depth: 0, fp: [0; 4], child: 0, chain: a32(&i[32..]) }) } else { None }
}
pub fn ckd_priv(x: &XKey, c: u32) -> Option<XKey> {
    let p = pubkey(&x.key);
    let data = if c >= 1 << 31 { [&[0u8][..], &x.key, &c.to_be_bytes()].concat() } else { [&p[..], &c.to_be_bytes()].concat() };
    let i = hmac512(&x.chain, &data);
    if x.depth == 255 || !scalar_ok(&i[..32]) { return None; }
    let k = add_mod(&x.key, &i[..32]);
    if !scalar_ok(&k) { return None; }
    Some(XKey { key: k, depth: x.depth + 1, fp: fingerprint(&p), child: c, chain: a32(&i[32..]) })
}
pub fn ckd_pub(x: &XKey, c: u32) -> Option<XKey> {
    if c >= 1 << 31 || x.depth == 255 { return None; }
    let i = hmac512(&x.chain, &[&x.key[..], &c.to_be_bytes()].concat());
    if !scalar_ok(&i[..32]) { return None; }
    Some(XKey { key: padd(&x.key, &i[..32])?, depth: x.depth + 1, fp: fingerprint(&x.key), child: c, chain: a32(&i[32..]) })
}
pub fn payload(version: u32, x: &XKey) -> Vec<u8> {
    let mut v = version.to_be_bytes().to_vec();
    v.push(x.depth);
    v.extend(x.fp);
    v.extend(x.child.to_be_bytes());
    v.extend(x.chain);
    if x.key.len() == 32 { v.push(0); }
    v.extend(&x.key);
    v
}
const B58: &[u8] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
/// Base58Check from its definition
pub fn b58check(d: &[u8]) -> String {
    let mut v = d.to_vec();
    v.extend(&sha256(&sha256(d))[..4]);
    b58(&v)
}
pub fn b58(v: &[u8]) -> String {
    let zeros = v.iter().take_while(|x| **x == 0).count();
    let mut digits: Vec<u8> = vec![];
    for b in v.iter() {
        let mut c = *b as u32;
        for d in digits.iter_mut() { c += (*d as u32) << 8; *d = (c % 58) as u8; c /= 58; }
        while c > 0 { digits.push((c % 58) as u8); c /= 58; }
    }
    let mut s: Vec<u8> = vec![b'1'; zeros];
    s.extend(digits.iter().rev().map(|d| B58[*d as usize]));
    String::from_utf8(s).unwrap()
}
pub fn un_b58check(t: &str) -> Option<Vec<u8>> {
    let zeros = t.bytes().take_while(|x| *x == b'1').count();
    let mut bytes: Vec<u8> = vec![];
    for ch in t.bytes() {
        let mut c = B58.iter().position(|x| *x == ch)? as u32;
        for b in bytes.iter_mut() { c += *b as u32 * 58; *b = c as u8; c >>= 8; }
        while c > 0 { bytes.push(c as u8); c >>= 8; }
    }
    let mut v = vec![0u8; zeros];
    v.extend(bytes.iter().rev());
    if v.len() < 4 { return None; }
    let p = v[..v.len() - 4].to_vec();
    if sha256(&sha256(&p))[..4] == v[v.len() - 4..] { Some(p) } else { None }
}
/// child number text: decimal as Rust's integer parser reads it, optional '
pub fn child(s: &str) -> Option<u32> {
    let (t, h) = match s.strip_suffix('\'') { Some(t) => (t, true), None => (s, false) };
    let d = t.strip_prefix('+').unwrap_or(t);
    if d.is_empty() || !d.bytes().all(|b| b.is_ascii_digit()) { return None; }
    let d = d.trim_start_matches('0');
    if d.len() > 10 { return None; }
    let v: u64 = if d.is_empty() { 0 } else { d.bytes().fold(0, |a, b| a * 10 + (b - b'0') as u64) };
    if v >= 1 << 31 { return None; }
    Some(v as u32 | if h { 1 << 31 } else { 0 })
}
pub fn path(s: &str) -> Option<Vec<u32>> {
    let mut it = s.split('/');
    if it.next() != Some("m") { return None; }
    it.map(child).collect()
}
pub fn child_text(c: u32) -> String { if c >= 1 << 31 { format!("{}'", c - (1 << 31)) } else { format!("{}", c) } }
pub fn path_text(p: &[u32]) -> String { let mut s = "m".to_string(); for c in p { s.push('/'); s.push_str(&child_text(*c)); } s }
