//! A recorded source of choices: every generated case is replayable from its choice list.
use std::cell::RefCell;

pub struct Src {
    state: [u64; 4],
    replay: Option<Vec<u64>>,
    pub log: Vec<u64>,
    pos: usize,
    pub notes: Vec<String>,
    pub dict: Dict,
}
#[derive(Clone, Default)]
pub struct Dict { pub ints: Vec<u64>, pub strs: Vec<String>, pub fresh: Vec<String> }

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
impl Src {
    pub fn new(seed: u64, dict: Dict) -> Src {
        let mut s = seed;
        Src { state: [splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)], replay: None, log: vec![], pos: 0, notes: vec![], dict }
    }
    pub fn replay(choices: Vec<u64>, dict: Dict) -> Src {
        Src { state: [1; 4], replay: Some(choices), log: vec![], pos: 0, notes: vec![], dict }
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.state;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    pub fn u64(&mut self) -> u64 {
        let v = match &self.replay {
            Some(r) => r.get(self.pos).copied().unwrap_or(0),
            None => self.next(),
        };
        self.pos += 1;
        self.log.push(v);
        v
    }
    /// a value worked out from earlier cases: recorded as it is, so that the case replays on its own
    fn give(&mut self, v: u64) -> u64 {
        let v = match &self.replay { Some(r) => r.get(self.pos).copied().unwrap_or(0), None => v };
        self.pos += 1;
        self.log.push(v);
        v
    }
    pub fn give_bytes(&mut self, v: Option<Vec<u8>>) -> Option<Vec<u8>> {
        let k = self.give(v.as_ref().map_or(0, |v| v.len() as u64 + 1));
        if k == 0 { return None; }
        Some((0..k as usize - 1).map(|i| { let b = v.as_ref().map_or(0, |v| v[i]); self.give(b as u64) as u8 }).collect())
    }
    pub fn give_text(&mut self, v: Option<String>) -> Option<String> {
        let v: Option<Vec<char>> = v.map(|v| v.chars().collect());
        let k = self.give(v.as_ref().map_or(0, |v| v.len() as u64 + 1));
        if k == 0 { return None; }
        Some((0..k as usize - 1).map(|i| { let c = v.as_ref().map_or(0, |v| v[i] as u64); char::from_u32(self.give(c) as u32).unwrap_or('?') }).collect())
    }
    /// choices that are not recorded
    fn free(&mut self, n: usize) -> usize { if n == 0 || self.replay.is_some() { 0 } else { (self.next() % n as u64) as usize } }
    fn recent<T: Clone>(&mut self, xs: &[T]) -> Option<T> { if xs.is_empty() { return None; } let k = match self.free(3) { 0 => self.free(xs.len()), 1 => self.free(xs.len().min(3)), _ => 0 }; Some(xs[xs.len() - 1 - k].clone()) }
    /// bytes that agree in part with earlier ones: a result kept from an earlier call must not be used for them
    fn like(&mut self, n: usize) -> Option<Vec<u8>> {
        if self.replay.is_some() { return None; }
        let pool = POOL.with(|p| p.borrow().bytes.clone());
        let same: Vec<Vec<u8>> = pool.iter().filter(|v| v.len() == n).cloned().collect();
        let p = if same.is_empty() || self.free(4) == 0 { self.recent(&pool)? } else { self.recent(&same)? };
        let mut v = p.clone();
        if v.len() != n {
            match self.free(3) {
                0 => { while v.len() < n { let b = self.free(256) as u8; v.push(b); } v.truncate(n); }
                1 => { while v.len() < n { v.insert(0, 0); } let k = v.len() - n; v.drain(..k); }
                _ => { while v.len() < n { v.push(0); } v.truncate(n); }
            }
        } else if n > 0 {
            let (i, j) = (self.free(n), self.free(n));
            match self.free(9) {
                0 => { let b = self.free(256) as u8; v[i] = b; }
                1 => { let k = self.free(8); v[i] ^= 1 << k; }
                2 => { let b = self.free(256) as u8; v[n - 1] = b; }
                3 => { let b = self.free(256) as u8; v[0] = b; }
                4 => v.swap(i, j),
                5 => for x in v.iter_mut().skip(n / 2) { *x = self.free(256) as u8; },
                6 => for x in v.iter_mut().take(n / 2) { *x = self.free(256) as u8; },
                _ => {}
            }
        }
        Some(v)
    }
    fn like_text(&mut self) -> Option<String> {
        if self.replay.is_some() { return None; }
        let pool = POOL.with(|p| p.borrow().texts.clone());
        let p = self.recent(&pool)?;
        let mut c: Vec<char> = p.chars().collect();
        let n = c.len();
        let i = self.free(n);
        let x = (0x61 + self.free(26)) as u8 as char;
        match self.free(10) {
            0 if n > 0 => c[i] = x,
            1 => c.push(x),
            2 => c.truncate(i),
            3 if n > 0 => { c.remove(i); }
            4 => { let u = self.free(2) == 0; c = p.chars().map(|c| if u { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect(); }
            5 if n > 0 => c[n - 1] = x,
            6 if n > 0 => c[0] = x,
            7 if n > 0 => { let j = self.free(n); c.swap(i, j); }
            _ => {}
        }
        Some(c.into_iter().collect())
    }
    /// with some probability, one of the last things kept under this name
    pub fn kept(&mut self, name: &'static str) -> Option<Vec<u8>> {
        if !self.chance(1, 5) { return None; }
        let v = if self.replay.is_some() { None } else { let p: Vec<Vec<u8>> = POOL.with(|p| p.borrow().kept.iter().filter(|k| k.0 == name).map(|k| k.1.clone()).collect()); self.recent(&p) };
        self.give_bytes(v)
    }
    pub fn keep(&mut self, name: &'static str, v: Vec<u8>) {
        POOL.with(|p| { let p = &mut p.borrow_mut().kept; p.push((name, v)); if p.len() > 24 { p.remove(0); } });
    }
    pub fn keep_text(&mut self, t: &str) {
        if t.len() < 4000 { POOL.with(|p| { let p = &mut p.borrow_mut().texts; p.push(t.to_string()); if p.len() > 8 { p.remove(0); } }); }
    }
    fn keep_bytes(v: &[u8]) {
        if v.len() < 200 && !v.is_empty() { POOL.with(|p| { let p = &mut p.borrow_mut().bytes; p.push(v.to_vec()); if p.len() > 16 { p.remove(0); } }); }
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.u64() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn byte(&mut self) -> u8 { self.u64() as u8 }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T { let i = self.below(xs.len()); xs[i].clone() }
    pub fn note(&mut self, k: &str, v: impl std::fmt::Display) { self.notes.push(format!("{k}={v}")); }
    /// integers of interest: boundaries, powers of two, numbers in the source, random
    pub fn int(&mut self, max: u64) -> u64 {
        let v = match self.below(8) {
            0 => self.below(4) as u64,
            1 => max.wrapping_sub(self.below(4) as u64),
            2 => { let k = self.below(64); let d = self.below(3) as u64; (1u64 << k).wrapping_add(d).wrapping_sub(1) }
            3 | 4 if !self.dict.ints.is_empty() => {
                let i = self.below(self.dict.ints.len());
                let d = self.below(3) as u64;
                self.dict.ints[i].wrapping_add(d).wrapping_sub(1)
            }
            5 => self.below(300) as u64,
            _ => self.u64(),
        };
        if max == u64::MAX { v } else if v <= max { v } else { v % (max + 1) }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut v = vec![0u8; n];
        if self.chance(1, 4) {
            let l = self.like(n);
            if let Some(mut l) = self.give_bytes(l) { l.resize(n, 0); Self::keep_bytes(&l); return l; }
        }
        match self.below(10) {
            0 => {}
            1 => v.iter_mut().for_each(|b| *b = 0xff),
            2 => { let b = self.byte(); v.iter_mut().for_each(|x| *x = b); }
            3 => { let k = self.below(n + 1); for x in v.iter_mut().skip(k) { *x = self.byte(); } }
            4 => { let k = self.below(n + 1); for x in v.iter_mut().take(k) { *x = self.byte(); } }
            5 => { for i in 0..n { v[i] = self.byte(); } if n > 0 { let i = self.below(n); v[i] = *[0u8, 0xff, 0x80, 0x7f, 1].get(self.below(5)).unwrap(); } }
            6 => { for i in 0..n { v[i] = self.byte(); } if n > 0 { let i = self.below(n); v[i] = self.int(255) as u8; } }
            _ => for i in 0..n { v[i] = self.byte(); },
        }
        Self::keep_bytes(&v);
        v
    }
    pub fn arr<const N: usize>(&mut self) -> [u8; N] { let v = self.bytes(N); let mut a = [0u8; N]; a.copy_from_slice(&v); a }
    /// a short text that does not belong: white space, marks, signs, a text of the source
    pub fn odd(&mut self) -> String {
        const POOL: &[&str] = &[" ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{feff}", "\u{200b}", "\u{200d}", "\u{ad}", "\u{0}", "\u{301}", "\u{fe0f}", ".", ",", ";", ":", "-", "_", "/", "\\", "'", "\"", "`", "’", "#", "0x", "+", "m", "h", "H", "*", "?", "=", "%20", "&", "$", "(", ")", "[", "]", "<", ">", "{", "}", "|", "~", "^", "@", "!"];
        if !self.dict.fresh.is_empty() && self.chance(1, 3) { let i = self.below(self.dict.fresh.len()); return self.dict.fresh[i].clone(); }
        if self.chance(1, 2) || self.dict.strs.is_empty() { POOL[self.below(POOL.len())].to_string() } else { let i = self.below(self.dict.strs.len()); self.dict.strs[i].clone() }
    }
    /// the text with something small changed
    pub fn twist(&mut self, t: &str) -> String {
        let v: Vec<char> = t.chars().collect();
        let k = self.below(v.len() + 1);
        let cut = |a: &[char]| a.iter().collect::<String>();
        match self.below(8) {
            0 => { let o = self.odd(); format!("{}{}", o, t) }
            1 => { let o = self.odd(); format!("{}{}", t, o) }
            2 | 3 => { let o = self.odd(); format!("{}{}{}", cut(&v[..k]), o, cut(&v[k..])) }
            4 => { let o = self.odd(); let j = if k < v.len() { k + 1 } else { k }; format!("{}{}{}", cut(&v[..k]), o, cut(&v[j..])) }
            5 => { let o = self.odd(); let p = self.odd(); t.replace(&p, &o) }
            6 => { let o = self.odd(); format!("{}{}{}", o, t, o) }
            _ => if self.chance(1, 2) { t.to_uppercase() } else { t.chars().rev().collect() },
        }
    }
    /// text: unicode of many kinds, short or long
    pub fn text(&mut self) -> String {
        const POOL: &[&str] = &["", " ", "  ", "\t", "\n", "\r\n", "\u{a0}", "\u{3000}", "\u{2003}", "\u{200b}", "a", "Z", "0", "m", "/", "'", "TREZOR", "é", "e\u{301}", "ﬁ", "Å", "\u{212b}",
            "각", "ｆｕｌｌ", "¹", "ſ", "㍍ガバヴァぱばぐゞちぢ十人十色", "的", "\u{f900}", "\u{1F600}", "\u{10ffff}", "\u{0}", "\u{7f}", "ß", "İ", "ǆ", "½", "Ⅷ", "ﷺ", "1234567890", "password", "\u{308}\u{323}"];
        if self.chance(1, 5) {
            let l = self.like_text();
            if let Some(l) = self.give_text(l) { self.keep_text(&l); return l; }
        }
        let k = match self.below(6) { 0 => 0, 1 => 1, 2 => 2, 3 => self.below(8), 4 => self.below(40), _ => 1 };
        let mut s = String::new();
        for _ in 0..k {
            match self.below(6) {
                0 | 1 => s.push_str(POOL[self.below(POOL.len())]),
                2 if !self.dict.strs.is_empty() => { let i = self.below(self.dict.strs.len()); let t = self.dict.strs[i].clone(); s.push_str(&t); }
                3 => s.push((0x20 + self.below(95)) as u8 as char),
                4 => { let c = char::from_u32(self.below(0x110000) as u32).unwrap_or('x'); s.push(c); }
                _ => { let c = char::from_u32(0x21 + self.below(0x2fff) as u32).unwrap_or('x'); s.push(c); }
            }
        }
        if self.chance(1, 20) { let n = self.below(300); s = s.chars().cycle().take(if s.is_empty() { 0 } else { n }).collect(); }
        self.keep_text(&s);
        s
    }
}
#[derive(Default)]
struct Pool { bytes: Vec<Vec<u8>>, texts: Vec<String>, kept: Vec<(&'static str, Vec<u8>)> }
thread_local! { static POOL: RefCell<Pool> = RefCell::new(Pool::default()); }
thread_local! { pub static PANIC: RefCell<String> = RefCell::new(String::new()); }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
