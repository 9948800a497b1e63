#mod spec
// The hash functions, as FIPS 180-4, the RIPEMD-160 paper, RFC 2104 and RFC 8018 define them. The solver sees them as
// opaque; the proofs need only the lengths, which are proved here.
pub open spec fn sha256_k() -> Seq<u32> {
    seq![0x428a2f98u32, 0x71374491u32, 0xb5c0fbcfu32, 0xe9b5dba5u32, 0x3956c25bu32, 0x59f111f1u32, 0x923f82a4u32, 0xab1c5ed5u32, 0xd807aa98u32, 0x12835b01u32, 0x243185beu32, 0x550c7dc3u32, 0x72be5d74u32, 0x80deb1feu32, 0x9bdc06a7u32, 0xc19bf174u32, 0xe49b69c1u32, 0xefbe4786u32, 0xfc19dc6u32, 0x240ca1ccu32, 0x2de92c6fu32, 0x4a7484aau32, 0x5cb0a9dcu32, 0x76f988dau32, 0x983e5152u32, 0xa831c66du32, 0xb00327c8u32, 0xbf597fc7u32, 0xc6e00bf3u32, 0xd5a79147u32, 0x6ca6351u32, 0x14292967u32, 0x27b70a85u32, 0x2e1b2138u32, 0x4d2c6dfcu32, 0x53380d13u32, 0x650a7354u32, 0x766a0abbu32, 0x81c2c92eu32, 0x92722c85u32, 0xa2bfe8a1u32, 0xa81a664bu32, 0xc24b8b70u32, 0xc76c51a3u32, 0xd192e819u32, 0xd6990624u32, 0xf40e3585u32, 0x106aa070u32, 0x19a4c116u32, 0x1e376c08u32, 0x2748774cu32, 0x34b0bcb5u32, 0x391c0cb3u32, 0x4ed8aa4au32, 0x5b9cca4fu32, 0x682e6ff3u32, 0x748f82eeu32, 0x78a5636fu32, 0x84c87814u32, 0x8cc70208u32, 0x90befffau32, 0xa4506cebu32, 0xbef9a3f7u32, 0xc67178f2u32]
}
pub open spec fn sha256_h() -> Seq<u32> {
    seq![0x6a09e667u32, 0xbb67ae85u32, 0x3c6ef372u32, 0xa54ff53au32, 0x510e527fu32, 0x9b05688cu32, 0x1f83d9abu32, 0x5be0cd19u32]
}
pub open spec fn sha512_k() -> Seq<u64> {
    seq![0x428a2f98d728ae22u64, 0x7137449123ef65cdu64, 0xb5c0fbcfec4d3b2fu64, 0xe9b5dba58189dbbcu64, 0x3956c25bf348b538u64, 0x59f111f1b605d019u64, 0x923f82a4af194f9bu64, 0xab1c5ed5da6d8118u64, 0xd807aa98a3030242u64, 0x12835b0145706fbeu64, 0x243185be4ee4b28cu64, 0x550c7dc3d5ffb4e2u64, 0x72be5d74f27b896fu64, 0x80deb1fe3b1696b1u64, 0x9bdc06a725c71235u64, 0xc19bf174cf692694u64, 0xe49b69c19ef14ad2u64, 0xefbe4786384f25e3u64, 0xfc19dc68b8cd5b5u64, 0x240ca1cc77ac9c65u64, 0x2de92c6f592b0275u64, 0x4a7484aa6ea6e483u64, 0x5cb0a9dcbd41fbd4u64, 0x76f988da831153b5u64, 0x983e5152ee66dfabu64, 0xa831c66d2db43210u64, 0xb00327c898fb213fu64, 0xbf597fc7beef0ee4u64, 0xc6e00bf33da88fc2u64, 0xd5a79147930aa725u64, 0x6ca6351e003826fu64, 0x142929670a0e6e70u64, 0x27b70a8546d22ffcu64, 0x2e1b21385c26c926u64, 0x4d2c6dfc5ac42aedu64, 0x53380d139d95b3dfu64, 0x650a73548baf63deu64, 0x766a0abb3c77b2a8u64, 0x81c2c92e47edaee6u64, 0x92722c851482353bu64, 0xa2bfe8a14cf10364u64, 0xa81a664bbc423001u64, 0xc24b8b70d0f89791u64, 0xc76c51a30654be30u64, 0xd192e819d6ef5218u64, 0xd69906245565a910u64, 0xf40e35855771202au64, 0x106aa07032bbd1b8u64, 0x19a4c116b8d2d0c8u64, 0x1e376c085141ab53u64, 0x2748774cdf8eeb99u64, 0x34b0bcb5e19b48a8u64, 0x391c0cb3c5c95a63u64, 0x4ed8aa4ae3418acbu64, 0x5b9cca4f7763e373u64, 0x682e6ff3d6b2b8a3u64, 0x748f82ee5defb2fcu64, 0x78a5636f43172f60u64, 0x84c87814a1f0ab72u64, 0x8cc702081a6439ecu64, 0x90befffa23631e28u64, 0xa4506cebde82bde9u64, 0xbef9a3f7b2c67915u64, 0xc67178f2e372532bu64, 0xca273eceea26619cu64, 0xd186b8c721c0c207u64, 0xeada7dd6cde0eb1eu64, 0xf57d4f7fee6ed178u64, 0x6f067aa72176fbau64, 0xa637dc5a2c898a6u64, 0x113f9804bef90daeu64, 0x1b710b35131c471bu64, 0x28db77f523047d84u64, 0x32caab7b40c72493u64, 0x3c9ebe0a15c9bebcu64, 0x431d67c49c100d4cu64, 0x4cc5d4becb3e42b6u64, 0x597f299cfc657e2au64, 0x5fcb6fab3ad6faecu64, 0x6c44198c4a475817u64]
}
pub open spec fn sha512_h() -> Seq<u64> {
    seq![0x6a09e667f3bcc908u64, 0xbb67ae8584caa73bu64, 0x3c6ef372fe94f82bu64, 0xa54ff53a5f1d36f1u64, 0x510e527fade682d1u64, 0x9b05688c2b3e6c1fu64, 0x1f83d9abfb41bd6bu64, 0x5be0cd19137e2179u64]
}
pub open spec fn rmd_rl() -> Seq<int> {
    seq![0int, 1int, 2int, 3int, 4int, 5int, 6int, 7int, 8int, 9int, 10int, 11int, 12int, 13int, 14int, 15int, 7int, 4int, 13int, 1int, 10int, 6int, 15int, 3int, 12int, 0int, 9int, 5int, 2int, 14int, 11int, 8int, 3int, 10int, 14int, 4int, 9int, 15int, 8int, 1int, 2int, 7int, 0int, 6int, 13int, 11int, 5int, 12int, 1int, 9int, 11int, 10int, 0int, 8int, 12int, 4int, 13int, 3int, 7int, 15int, 14int, 5int, 6int, 2int, 4int, 0int, 5int, 9int, 7int, 12int, 2int, 10int, 14int, 1int, 3int, 8int, 11int, 6int, 15int, 13int]
}
pub open spec fn rmd_rr() -> Seq<int> {
    seq![5int, 14int, 7int, 0int, 9int, 2int, 11int, 4int, 13int, 6int, 15int, 8int, 1int, 10int, 3int, 12int, 6int, 11int, 3int, 7int, 0int, 13int, 5int, 10int, 14int, 15int, 8int, 12int, 4int, 9int, 1int, 2int, 15int, 5int, 1int, 3int, 7int, 14int, 6int, 9int, 11int, 8int, 12int, 2int, 10int, 0int, 4int, 13int, 8int, 6int, 4int, 1int, 3int, 11int, 15int, 0int, 5int, 12int, 2int, 13int, 9int, 7int, 10int, 14int, 12int, 15int, 10int, 4int, 1int, 5int, 8int, 7int, 6int, 2int, 13int, 14int, 0int, 3int, 9int, 11int]
}
pub open spec fn rmd_sl() -> Seq<u32> {
    seq![11u32, 14u32, 15u32, 12u32, 5u32, 8u32, 7u32, 9u32, 11u32, 13u32, 14u32, 15u32, 6u32, 7u32, 9u32, 8u32, 7u32, 6u32, 8u32, 13u32, 11u32, 9u32, 7u32, 15u32, 7u32, 12u32, 15u32, 9u32, 11u32, 7u32, 13u32, 12u32, 11u32, 13u32, 6u32, 7u32, 14u32, 9u32, 13u32, 15u32, 14u32, 8u32, 13u32, 6u32, 5u32, 12u32, 7u32, 5u32, 11u32, 12u32, 14u32, 15u32, 14u32, 15u32, 9u32, 8u32, 9u32, 14u32, 5u32, 6u32, 8u32, 6u32, 5u32, 12u32, 9u32, 15u32, 5u32, 11u32, 6u32, 8u32, 13u32, 12u32, 5u32, 12u32, 13u32, 14u32, 11u32, 8u32, 5u32, 6u32]
}
pub open spec fn rmd_sr() -> Seq<u32> {
    seq![8u32, 9u32, 9u32, 11u32, 13u32, 15u32, 15u32, 5u32, 7u32, 7u32, 8u32, 11u32, 14u32, 14u32, 12u32, 6u32, 9u32, 13u32, 15u32, 7u32, 12u32, 8u32, 9u32, 11u32, 7u32, 7u32, 12u32, 7u32, 6u32, 15u32, 13u32, 11u32, 9u32, 7u32, 15u32, 11u32, 8u32, 6u32, 6u32, 14u32, 12u32, 13u32, 5u32, 14u32, 13u32, 13u32, 7u32, 5u32, 15u32, 5u32, 8u32, 11u32, 14u32, 14u32, 6u32, 14u32, 6u32, 9u32, 12u32, 9u32, 12u32, 5u32, 15u32, 8u32, 8u32, 5u32, 12u32, 9u32, 12u32, 5u32, 14u32, 6u32, 8u32, 13u32, 6u32, 5u32, 15u32, 13u32, 11u32, 11u32]
}
pub open spec fn rmd_kl() -> Seq<u32> {
    seq![0x0u32, 0x5a827999u32, 0x6ed9eba1u32, 0x8f1bbcdcu32, 0xa953fd4eu32]
}
pub open spec fn rmd_kr() -> Seq<u32> {
    seq![0x50a28be6u32, 0x5c4dd124u32, 0x6d703ef3u32, 0x7a6d76e9u32, 0x0u32]
}
pub open spec fn w32(x: int) -> u32 { (x % 0x1_0000_0000) as u32 }
pub open spec fn w64(x: int) -> u64 { (x % 0x1_0000_0000_0000_0000) as u64 }
pub open spec fn rotr32(x: u32, n: u32) -> u32 { (x >> n) | (x << ((32 - n) as u32)) }
pub open spec fn rotl32(x: u32, n: u32) -> u32 { rotr32(x, (32 - n) as u32) }
pub open spec fn rotr64(x: u64, n: u64) -> u64 { (x >> n) | (x << ((64 - n) as u64)) }
pub open spec fn lo(x: u32) -> u8 { (x & 0xff) as u8 }
pub open spec fn le32(x: u32) -> Seq<u8> { seq![lo(x), lo(x >> 8), lo(x >> 16), lo(x >> 24)] }
pub open spec fn o32(x: u32) -> Seq<u8> { seq![lo(x >> 24), lo(x >> 16), lo(x >> 8), lo(x)] }
pub open spec fn ule32(s: Seq<u8>) -> u32 { ((s[3] as u32) << 24) | ((s[2] as u32) << 16) | ((s[1] as u32) << 8) | (s[0] as u32) }
pub open spec fn be64(x: u64) -> Seq<u8> { o32((x >> 32) as u32) + o32((x & 0xffff_ffff) as u32) }
pub open spec fn un64(s: Seq<u8>) -> u64 { ((un32(s.subrange(0, 4)) as u64) << 32) | (un32(s.subrange(4, 8)) as u64) }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
/// the message, a one bit, zeros up to `len_size` bytes before the end of a block of `block` bytes
pub open spec fn md_pad(m: Seq<u8>, block: int, len_size: int) -> Seq<u8> {
    m.push(0x80) + zeros(((-(m.len() + 1 + len_size)) % block) as nat)
}
// ---- SHA-256
pub open spec fn sha256_w(b: Seq<u8>, n: nat) -> Seq<u32> decreases n {
    if n == 0 { Seq::empty() } else {
        let w = sha256_w(b, (n - 1) as nat);
        let t = n - 1;
        if t < 16 { w.push(un32(b.subrange(4 * t, 4 * t + 4))) } else {
            let s0 = rotr32(w[t - 15], 7) ^ rotr32(w[t - 15], 18) ^ (w[t - 15] >> 3u32);
            let s1 = rotr32(w[t - 2], 17) ^ rotr32(w[t - 2], 19) ^ (w[t - 2] >> 10u32);
            w.push(w32(w[t - 16] + s0 + w[t - 7] + s1))
        }
    }
}
pub open spec fn sha256_rounds(s: Seq<u32>, w: Seq<u32>, k: Seq<u32>, t: nat) -> Seq<u32> decreases t {
    if t == 0 { s } else {
        let v = sha256_rounds(s, w, k, (t - 1) as nat);
        let s1 = rotr32(v[4], 6) ^ rotr32(v[4], 11) ^ rotr32(v[4], 25);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7] + s1 + ch + k[t - 1] + w[t - 1];
        let s0 = rotr32(v[0], 2) ^ rotr32(v[0], 13) ^ rotr32(v[0], 22);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        seq![w32(t1 + s0 + maj), v[0], v[1], v[2], w32(v[3] + t1), v[4], v[5], v[6]]
    }
}
pub open spec fn add8_32(a: Seq<u32>, b: Seq<u32>) -> Seq<u32> {
    seq![w32(a[0] + b[0]), w32(a[1] + b[1]), w32(a[2] + b[2]), w32(a[3] + b[3]), w32(a[4] + b[4]), w32(a[5] + b[5]), w32(a[6] + b[6]), w32(a[7] + b[7])]
}
pub open spec fn sha256_blocks(m: Seq<u8>, n: nat) -> Seq<u32> decreases n {
    if n == 0 { sha256_h() } else {
        let s = sha256_blocks(m, (n - 1) as nat);
        add8_32(s, sha256_rounds(s, sha256_w(m.subrange(64 * (n - 1), 64 * n as int), 64), sha256_k(), 64))
    }
}
 #[verifier::opaque]
pub open spec fn sha256(m: Seq<u8>) -> Seq<u8> {
    let p = md_pad(m, 64, 8) + be64((8 * m.len()) as u64);
    let s = sha256_blocks(p, p.len() / 64);
    o32(s[0]) + o32(s[1]) + o32(s[2]) + o32(s[3]) + o32(s[4]) + o32(s[5]) + o32(s[6]) + o32(s[7])
}
// ---- SHA-512
pub open spec fn sha512_w(b: Seq<u8>, n: nat) -> Seq<u64> decreases n {
    if n == 0 { Seq::empty() } else {
        let w = sha512_w(b, (n - 1) as nat);
        let t = n - 1;
        if t < 16 { w.push(un64(b.subrange(8 * t, 8 * t + 8))) } else {
            let s0 = rotr64(w[t - 15], 1) ^ rotr64(w[t - 15], 8) ^ (w[t - 15] >> 7u64);
            let s1 = rotr64(w[t - 2], 19) ^ rotr64(w[t - 2], 61) ^ (w[t - 2] >> 6u64);
            w.push(w64(w[t - 16] + s0 + w[t - 7] + s1))
        }
    }
}
pub open spec fn sha512_rounds(s: Seq<u64>, w: Seq<u64>, k: Seq<u64>, t: nat) -> Seq<u64> decreases t {
    if t == 0 { s } else {
        let v = sha512_rounds(s, w, k, (t - 1) as nat);
        let s1 = rotr64(v[4], 14) ^ rotr64(v[4], 18) ^ rotr64(v[4], 41);
        let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
        let t1 = v[7] + s1 + ch + k[t - 1] + w[t - 1];
        let s0 = rotr64(v[0], 28) ^ rotr64(v[0], 34) ^ rotr64(v[0], 39);
        let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
        seq![w64(t1 + s0 + maj), v[0], v[1], v[2], w64(v[3] + t1), v[4], v[5], v[6]]
    }
}
pub open spec fn add8_64(a: Seq<u64>, b: Seq<u64>) -> Seq<u64> {
    seq![w64(a[0] + b[0]), w64(a[1] + b[1]), w64(a[2] + b[2]), w64(a[3] + b[3]), w64(a[4] + b[4]), w64(a[5] + b[5]), w64(a[6] + b[6]), w64(a[7] + b[7])]
}
pub open spec fn sha512_blocks(m: Seq<u8>, n: nat) -> Seq<u64> decreases n {
    if n == 0 { sha512_h() } else {
        let s = sha512_blocks(m, (n - 1) as nat);
        add8_64(s, sha512_rounds(s, sha512_w(m.subrange(128 * (n - 1), 128 * n as int), 80), sha512_k(), 80))
    }
}
 #[verifier::opaque]
pub open spec fn sha512(m: Seq<u8>) -> Seq<u8> {
    let p = md_pad(m, 128, 16) + zeros(8) + be64((8 * m.len()) as u64);
    let s = sha512_blocks(p, p.len() / 128);
    be64(s[0]) + be64(s[1]) + be64(s[2]) + be64(s[3]) + be64(s[4]) + be64(s[5]) + be64(s[6]) + be64(s[7])
}
// ---- RIPEMD-160
pub open spec fn rmd_f(j: int, x: u32, y: u32, z: u32) -> u32 {
    if j == 0 { x ^ y ^ z } else if j == 1 { (x & y) | (!x & z) } else if j == 2 { (x | !y) ^ z } else if j == 3 { (x & z) | (y & !z) } else { x ^ (y | !z) }
}
/// one of the two lines; the right one takes the functions in the opposite order
pub open spec fn rmd_line(s: Seq<u32>, b: Seq<u8>, right: bool, r: Seq<int>, rot: Seq<u32>, k: Seq<u32>, t: nat) -> Seq<u32> decreases t {
    if t == 0 { s } else {
        let v = rmd_line(s, b, right, r, rot, k, (t - 1) as nat);
        let j = (t - 1) / 16;
        let x = ule32(b.subrange(4 * r[t - 1], 4 * r[t - 1] + 4));
        let f = rmd_f(if right { 4 - j } else { j }, v[1], v[2], v[3]);
        seq![v[4], w32(rotl32(w32(v[0] + f + x + k[j]), rot[t - 1]) + v[4]), v[1], rotl32(v[2], 10), v[3]]
    }
}
pub open spec fn rmd_blocks(m: Seq<u8>, n: nat) -> Seq<u32> decreases n {
    if n == 0 { seq![0x67452301u32, 0xefcdab89u32, 0x98badcfeu32, 0x10325476u32, 0xc3d2e1f0u32] } else {
        let h = rmd_blocks(m, (n - 1) as nat);
        let b = m.subrange(64 * (n - 1), 64 * n as int);
        let l = rmd_line(h, b, false, rmd_rl(), rmd_sl(), rmd_kl(), 80);
        let r = rmd_line(h, b, true, rmd_rr(), rmd_sr(), rmd_kr(), 80);
        seq![w32(h[1] + l[2] + r[3]), w32(h[2] + l[3] + r[4]), w32(h[3] + l[4] + r[0]), w32(h[4] + l[0] + r[1]), w32(h[0] + l[1] + r[2])]
    }
}
 #[verifier::opaque]
pub open spec fn ripemd160(m: Seq<u8>) -> Seq<u8> {
    let n = (8 * m.len()) as u64;
    let p = md_pad(m, 64, 8) + le32((n & 0xffff_ffff) as u32) + le32((n >> 32) as u32);
    let s = rmd_blocks(p, p.len() / 64);
    le32(s[0]) + le32(s[1]) + le32(s[2]) + le32(s[3]) + le32(s[4])
}
// ---- HMAC and PBKDF2
pub open spec fn hmac_key(k: Seq<u8>, kh: Seq<u8>, block: nat) -> Seq<u8> {
    if k.len() > block { kh + zeros((block - kh.len()) as nat) } else { k + zeros((block - k.len()) as nat) }
}
pub open spec fn xor_each(k: Seq<u8>, b: u8) -> Seq<u8> { Seq::new(k.len(), |i: int| k[i] ^ b) }
 #[verifier::opaque]
pub open spec fn hmac512(key: Seq<u8>, msg: Seq<u8>) -> Seq<u8> {
    let k = hmac_key(key, sha512(key), 128);
    sha512(xor_each(k, 0x5c) + sha512(xor_each(k, 0x36) + msg))
}
 #[verifier::opaque]
pub open spec fn hmac256(key: Seq<u8>, msg: Seq<u8>) -> Seq<u8> {
    let k = hmac_key(key, sha256(key), 64);
    sha256(xor_each(k, 0x5c) + sha256(xor_each(k, 0x36) + msg))
}
/// the pseudo random functions of PBKDF2: 512 is HMAC-SHA512, anything else HMAC-SHA256
pub open spec fn prf(id: int, key: Seq<u8>, msg: Seq<u8>) -> Seq<u8> { if id == 512 { hmac512(key, msg) } else { hmac256(key, msg) } }
pub open spec fn prf_len(id: int) -> nat { if id == 512 { 64 } else { 32 } }
pub open spec fn xor2(a: Seq<u8>, b: Seq<u8>) -> Seq<u8> { Seq::new(a.len(), |i: int| a[i] ^ b[i]) }
/// U_c
pub open spec fn pb_u(id: int, pw: Seq<u8>, salt: Seq<u8>, i: nat, c: nat) -> Seq<u8> decreases c {
    if c <= 1 { prf(id, pw, salt + be32(i as u32)) } else { prf(id, pw, pb_u(id, pw, salt, i, (c - 1) as nat)) }
}
/// U_1 ^ ... ^ U_c
pub open spec fn pb_f(id: int, pw: Seq<u8>, salt: Seq<u8>, i: nat, c: nat) -> Seq<u8> decreases c {
    if c <= 1 { pb_u(id, pw, salt, i, 1) } else { xor2(pb_f(id, pw, salt, i, (c - 1) as nat), pb_u(id, pw, salt, i, c)) }
}
/// T_1 T_2 ... T_n
pub open spec fn pb_t(id: int, pw: Seq<u8>, salt: Seq<u8>, c: nat, n: nat) -> Seq<u8> decreases n {
    if n == 0 { Seq::empty() } else { pb_t(id, pw, salt, c, (n - 1) as nat) + pb_f(id, pw, salt, n, c) }
}
 #[verifier::opaque]
pub open spec fn pbkdf2_spec(id: int, pw: Seq<u8>, salt: Seq<u8>, rounds: nat, len: nat) -> Seq<u8> {
    pb_t(id, pw, salt, rounds, ((len + prf_len(id) - 1) / prf_len(id) as int) as nat).take(len as int)
}
pub broadcast proof fn ax_sha256_len(m: Seq<u8>) ensures (#[trigger] sha256(m)).len() == 32 { reveal(sha256); }
pub broadcast proof fn ax_sha512_len(m: Seq<u8>) ensures (#[trigger] sha512(m)).len() == 64 { reveal(sha512); }
pub broadcast proof fn ax_ripemd_len(m: Seq<u8>) ensures (#[trigger] ripemd160(m)).len() == 20 { reveal(ripemd160); }
pub broadcast proof fn ax_hmac_len(k: Seq<u8>, m: Seq<u8>) ensures (#[trigger] hmac512(k, m)).len() == 64
{ reveal(hmac512); let x = hmac_key(k, sha512(k), 128); ax_sha512_len(xor_each(x, 0x5c) + sha512(xor_each(x, 0x36) + m)); }
#end
