//! contracts/02_hash.vc and 03_curve.vc transcribed (the tables are read from those files), to compare with the libraries.
fn table(name: &str) -> Vec<u64> {
    let root = std::env::var("KMS_VERIF").unwrap_or("/verif".into());
    let t = ["02_hash", "03_curve"].iter().map(|f| std::fs::read_to_string(format!("{}/contracts/{}.vc", root, f)).unwrap()).collect::<String>();
    let at = t.find(&format!("spec fn {}() ", name)).unwrap();
    let l = &t[at + t[at..].find("seq![").unwrap() + 5..];
    l[..l.find(']').unwrap()].split(',').map(|x| {
        let x = x.trim();
        let x = ["u8", "u32", "u64", "int"].iter().find_map(|s| x.strip_suffix(s)).unwrap();
        match x.strip_prefix("0x") { Some(h) => u64::from_str_radix(h, 16).unwrap(), None => x.parse().unwrap() }
    }).collect()
}
pub struct Tables { k256: Vec<u64>, h256: Vec<u64>, k512: Vec<u64>, h512: Vec<u64>, rl: Vec<u64>, rr: Vec<u64>, sl: Vec<u64>, sr: Vec<u64>, kl: Vec<u64>, kr: Vec<u64> }
pub fn tables() -> Tables {
    Tables { k256: table("sha256_k"), h256: table("sha256_h"), k512: table("sha512_k"), h512: table("sha512_h"), rl: table("rmd_rl"), rr: table("rmd_rr"),
        sl: table("rmd_sl"), sr: table("rmd_sr"), kl: table("rmd_kl"), kr: table("rmd_kr") }
}
fn w32(x: u64) -> u32 { (x % 0x1_0000_0000) as u32 }
fn w64(x: u128) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }
fn rotr(x: u32, n: u32) -> u32 { (x >> n) | (x << (32 - n)) }
fn rotr64(x: u64, n: u32) -> u64 { (x >> n) | (x << (64 - n)) }
fn md_pad(m: &[u8], block: usize, len_size: usize) -> Vec<u8> {
    let z = (block as i64 - ((m.len() + 1 + len_size) % block) as i64) as usize % block;
    [m.to_vec(), vec![0x80], vec![0; z]].concat()
}
fn un(b: &[u8]) -> u64 { b.iter().fold(0, |a, x| a << 8 | *x as u64) }
impl Tables {
    pub fn sha256(&self, m: &[u8]) -> Vec<u8> {
        let mut p = md_pad(m, 64, 8);
        p.extend((8 * m.len() as u64).to_be_bytes());
        let mut s: Vec<u32> = self.h256.iter().map(|x| *x as u32).collect();
        for b in p.chunks(64) {
            let mut w: Vec<u32> = vec![];
            for t in 0..64 {
                if t < 16 { w.push(un(&b[4 * t..4 * t + 4]) as u32); continue }
                let s0 = rotr(w[t - 15], 7) ^ rotr(w[t - 15], 18) ^ (w[t - 15] >> 3);
                let s1 = rotr(w[t - 2], 17) ^ rotr(w[t - 2], 19) ^ (w[t - 2] >> 10);
                w.push(w32(w[t - 16] as u64 + s0 as u64 + w[t - 7] as u64 + s1 as u64));
            }
            let mut v = s.clone();
            for t in 0..64 {
                let s1 = rotr(v[4], 6) ^ rotr(v[4], 11) ^ rotr(v[4], 25);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7] as u64 + s1 as u64 + ch as u64 + self.k256[t] + w[t] as u64;
                let s0 = rotr(v[0], 2) ^ rotr(v[0], 13) ^ rotr(v[0], 22);
                let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                v = vec![w32(t1 + s0 as u64 + maj as u64), v[0], v[1], v[2], w32(v[3] as u64 + t1), v[4], v[5], v[6]];
            }
            for i in 0..8 { s[i] = w32(s[i] as u64 + v[i] as u64); }
        }
        s.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    pub fn sha512(&self, m: &[u8]) -> Vec<u8> {
        let mut p = md_pad(m, 128, 16);
        p.extend([0; 8]);
        p.extend((8 * m.len() as u64).to_be_bytes());
        let mut s = self.h512.clone();
        for b in p.chunks(128) {
            let mut w: Vec<u64> = vec![];
            for t in 0..80 {
                if t < 16 { w.push(un(&b[8 * t..8 * t + 8])); continue }
                let s0 = rotr64(w[t - 15], 1) ^ rotr64(w[t - 15], 8) ^ (w[t - 15] >> 7);
                let s1 = rotr64(w[t - 2], 19) ^ rotr64(w[t - 2], 61) ^ (w[t - 2] >> 6);
                w.push(w64(w[t - 16] as u128 + s0 as u128 + w[t - 7] as u128 + s1 as u128));
            }
            let mut v = s.clone();
            for t in 0..80 {
                let s1 = rotr64(v[4], 14) ^ rotr64(v[4], 18) ^ rotr64(v[4], 41);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7] as u128 + s1 as u128 + ch as u128 + self.k512[t] as u128 + w[t] as u128;
                let s0 = rotr64(v[0], 28) ^ rotr64(v[0], 34) ^ rotr64(v[0], 39);
                let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                v = vec![w64(t1 + s0 as u128 + maj as u128), v[0], v[1], v[2], w64(v[3] as u128 + t1), v[4], v[5], v[6]];
            }
            for i in 0..8 { s[i] = w64(s[i] as u128 + v[i] as u128); }
        }
        s.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    pub fn ripemd160(&self, m: &[u8]) -> Vec<u8> {
        let mut p = md_pad(m, 64, 8);
        p.extend((8 * m.len() as u64).to_le_bytes());
        let f = |j: usize, x: u32, y: u32, z: u32| match j { 0 => x ^ y ^ z, 1 => (x & y) | (!x & z), 2 => (x | !y) ^ z, 3 => (x & z) | (y & !z), _ => x ^ (y | !z) };
        let mut h = vec![0x67452301u32, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
        for b in p.chunks(64) {
            let line = |right: bool, r: &[u64], rot: &[u64], k: &[u64]| {
                let mut v = h.clone();
                for t in 0..80 {
                    let j = t / 16;
                    let at = 4 * r[t] as usize;
                    let x = u32::from_le_bytes([b[at], b[at + 1], b[at + 2], b[at + 3]]);
                    let g = f(if right { 4 - j } else { j }, v[1], v[2], v[3]);
                    v = vec![v[4], w32(rotr(w32(v[0] as u64 + g as u64 + x as u64 + k[j]), 32 - rot[t] as u32) as u64 + v[4] as u64), v[1], rotr(v[2], 22), v[3]];
                }
                v
            };
            let (l, r) = (line(false, &self.rl, &self.sl, &self.kl), line(true, &self.rr, &self.sr, &self.kr));
            let a = |x: u32, y: u32, z: u32| w32(x as u64 + y as u64 + z as u64);
            h = vec![a(h[1], l[2], r[3]), a(h[2], l[3], r[4]), a(h[3], l[4], r[0]), a(h[4], l[0], r[1]), a(h[0], l[1], r[2])];
        }
        h.iter().flat_map(|x| x.to_le_bytes()).collect()
    }
    pub fn hmac512(&self, key: &[u8], msg: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > 128 { self.sha512(key) } else { key.to_vec() };
        k.resize(128, 0);
        let x = |b: u8| k.iter().map(|c| c ^ b).collect::<Vec<u8>>();
        self.sha512(&[x(0x5c), self.sha512(&[x(0x36), msg.to_vec()].concat())].concat())
    }
    pub fn pbkdf2(&self, pw: &[u8], salt: &[u8], rounds: u32, len: usize) -> Vec<u8> {
        let mut o = vec![];
        for i in 1..=(len as u32 + 63) / 64 {
            let mut u = self.hmac512(pw, &[salt, &i.to_be_bytes()[..]].concat());
            let mut f = u.clone();
            for _ in 1..rounds { u = self.hmac512(pw, &u); for (a, b) in f.iter_mut().zip(&u) { *a ^= b; } }
            o.extend(f);
        }
        o.truncate(len);
        o
    }
}
// ---- 256-bit numbers as little-endian u64 words
pub type U = [u64; 4];
const ZERO: U = [0; 4];
fn lt(a: &U, b: &U) -> bool { for i in (0..4).rev() { if a[i] != b[i] { return a[i] < b[i] } } false }
fn sub(a: &U, b: &U) -> U { let mut r = ZERO; let mut c = false; for i in 0..4 { let (x, p) = a[i].overflowing_sub(b[i]); let (x, q) = x.overflowing_sub(c as u64); r[i] = x; c = p || q; } r }
fn addm(a: &U, b: &U, m: &U) -> U {
    let mut r = ZERO;
    let mut c = false;
    for i in 0..4 { let (x, p) = a[i].overflowing_add(b[i]); let (x, q) = x.overflowing_add(c as u64); r[i] = x; c = p || q; }
    if c || !lt(&r, m) { sub(&r, m) } else { r }
}
fn subm(a: &U, b: &U, m: &U) -> U { if lt(a, b) { sub(m, &sub(b, a)) } else { sub(a, b) } }
fn bit(a: &U, i: usize) -> bool { a[i / 64] >> (i % 64) & 1 == 1 }
fn mulm(a: &U, b: &U, m: &U) -> U {
    if m[1] == u64::MAX { return mulp(a, b, m) }
    let mut r = ZERO; for i in (0..256).rev() { r = addm(&r, &r, m); if bit(b, i) { r = addm(&r, a, m); } }
    r
}
/// modulo 2^256 - c: the upper half of the product counts c times
fn mulp(a: &U, b: &U, m: &U) -> U {
    let c = sub(&ZERO, m)[0] as u128;
    let mut t = [0u64; 8];
    for i in 0..4 {
        let mut k = 0u128;
        for j in 0..4 { let v = a[i] as u128 * b[j] as u128 + t[i + j] as u128 + k; t[i + j] = v as u64; k = v >> 64; }
        t[i + 4] = k as u64;
    }
    let mut r = ZERO;
    let mut k = 0u128;
    for i in 0..4 { let v = t[i + 4] as u128 * c + t[i] as u128 + k; r[i] = v as u64; k = v >> 64; }
    let k = k * c;
    let over = [k as u64, (k >> 64) as u64, 0, 0];
    let r = if lt(&r, m) { r } else { sub(&r, m) };
    addm(&r, &over, m)
}
fn powm(a: &U, e: &U, m: &U) -> U { let mut r = [1, 0, 0, 0]; for i in (0..256).rev() { r = mulm(&r, &r, m); if bit(e, i) { r = mulm(&r, a, m); } } r }
fn inv(a: &U, m: &U) -> U { powm(a, &sub(m, &[2, 0, 0, 0]), m) }
pub fn num(b: &[u8]) -> U { let mut r = ZERO; for (i, x) in b.iter().rev().enumerate() { r[i / 8] |= (*x as u64) << (8 * (i % 8)); } r }
fn bytes(a: &U) -> Vec<u8> { a.iter().rev().flat_map(|x| x.to_be_bytes()).collect() }
pub type Pt = Option<(U, U)>;
pub struct Curve { p: U, g: Pt }
impl Curve {
    pub fn new() -> Curve {
        let b = |n: &str| num(&table(n).iter().map(|x| *x as u8).collect::<Vec<u8>>());
        Curve { p: sub(&ZERO, &[0x1_0000_03d1, 0, 0, 0]), g: Some((b("secp_gx"), b("secp_gy"))) }
    }
    fn add(&self, a: &Pt, b: &Pt) -> Pt {
        let p = &self.p;
        let (Some((x1, y1)), Some((x2, y2))) = (a, b) else { return a.or(*b) };
        if x1 == x2 && addm(y1, y2, p) == ZERO { return None }
        let l = if x1 == x2 { mulm(&mulm(&[3, 0, 0, 0], &mulm(x1, x1, p), p), &inv(&addm(y1, y1, p), p), p) } else { mulm(&subm(y2, y1, p), &inv(&subm(x2, x1, p), p), p) };
        let x3 = subm(&subm(&mulm(&l, &l, p), x1, p), x2, p);
        Some((x3, subm(&mulm(&l, &subm(x1, &x3, p), p), y1, p)))
    }
    fn mul(&self, k: &U, a: &Pt) -> Pt {
        let mut r = None;
        for i in (0..256).rev() { r = self.add(&r, &r); if bit(k, i) { r = self.add(&r, a); } }
        r
    }
    fn enc(a: &Pt) -> Option<Vec<u8>> { a.map(|(x, y)| [vec![2 + (y[0] & 1) as u8], bytes(&x)].concat()) }
    fn dec(&self, b: &[u8]) -> Pt {
        let p = &self.p;
        if b.len() != 33 || b[0] != 2 && b[0] != 3 { return None }
        let x = num(&b[1..]);
        if !lt(&x, p) { return None }
        let c = addm(&mulm(&mulm(&x, &x, p), &x, p), &[7, 0, 0, 0], p);
        let mut e = ZERO; // (p + 1) / 4
        let p1 = addm(p, &[1, 0, 0, 0], &[u64::MAX; 4]);
        for i in 0..254 { if bit(&p1, i + 2) { e[i / 64] |= 1 << (i % 64); } }
        let y = powm(&c, &e, p);
        if mulm(&y, &y, p) != c { return None }
        Some((x, if (y[0] & 1) as u8 == b[0] - 2 { y } else { sub(p, &y) }))
    }
    pub fn gmul(&self, k: &[u8]) -> Vec<u8> { Self::enc(&self.mul(&num(k), &self.g)).unwrap_or_default() }
    pub fn padd(&self, b: &[u8], t: &[u8]) -> Option<Vec<u8>> { Self::enc(&self.add(&self.dec(b), &self.mul(&num(t), &self.g))) }
    pub fn point_ok(&self, b: &[u8]) -> bool { self.dec(b).is_some() }
    pub fn recover(&self, n: &U, m: &[u8], sig: &[u8], rec: u8) -> Option<Vec<u8>> {
        let (r, s) = (num(&sig[..32]), num(&sig[32..]));
        if r == ZERO || s == ZERO || !lt(&r, n) || !lt(&s, n) || rec > 1 { return None }
        let q = self.dec(&[vec![2 + rec % 2], bytes(&r)].concat());
        q?;
        let ri = inv(&r, n);
        let z = num(m);
        let z = if lt(&z, n) { z } else { sub(&z, n) };
        Self::enc(&self.add(&self.mul(&mulm(&s, &ri, n), &q), &self.mul(&mulm(&subm(&ZERO, &z, n), &ri, n), &self.g)))
    }
}
