use crate::oracle::{self as o, Lang, XKey};
use crate::src::{hex, Src};
use kms::bip32::{self, ChildNumber, DerivationPath, ExtendedKey, ExtendedKeyAttrs, Prefix, PrivateKey as _, PublicKey as _, XPrv, XPub};
use kms::bip39::{ErrorKind, Language, Mnemonic, MnemonicType, Seed};
use std::convert::TryFrom;
use subtle::ConstantTimeEq;

pub type R = Result<(), String>;
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } } }

pub fn lang(l: Lang) -> Language { match l { Lang::En => Language::English, Lang::Zh => Language::ChineseSimplified } }
fn langs(s: &mut Src) -> Lang { let l = if s.chance(2, 3) { Lang::En } else { Lang::Zh }; s.note("lang", format!("{:?}", l)); l }
fn entropy(s: &mut Src) -> Vec<u8> {
    let n = s.pick(&[16usize, 20, 24, 28, 32]);
    let mut e = s.bytes(n);
    // sometimes pick the words: one word throughout, the longest, the shortest, the ends of the list
    if s.chance(1, 5) {
        let k = s.below(4);
        let one = s.below(2048);
        let w = &o::words(Lang::En).list;
        let mut bits = vec![];
        while bits.len() < 8 * n {
            let i = match k {
                0 => one,
                1 => loop { let i = s.below(2048); if w[i].len() == 8 { break i; } },
                2 => loop { let i = s.below(2048); if w[i].len() == 3 { break i; } },
                _ => [0, 1, 2047, 2046, 1023, 1024][s.below(6)],
            };
            for b in (0..11).rev() { bits.push((i >> b & 1) as u8); }
        }
        for (j, x) in e.iter_mut().enumerate() { *x = bits[8 * j..8 * j + 8].iter().fold(0, |a, b| a << 1 | b); }
    }
    // sometimes pick a checksum: search for a hash byte of interest
    if s.chance(1, 4) {
        let want = s.int(255) as u8;
        for k in 0..2000u32 { e[n - 1] = k as u8; e[n - 2] = (k >> 8) as u8; if o::sha256(&e)[0] == want { break; } }
    }
    s.note("entropy", hex(&e));
    e
}
fn kind(e: &anyhow::Error) -> Option<&ErrorKind> { e.downcast_ref::<ErrorKind>() }

// ---------------------------------------------------------------- BIP39
pub fn c01_encode(s: &mut Src) -> R {
    let l = langs(s);
    let e = entropy(s);
    let m = Mnemonic::from_entropy(&e, lang(l)).map_err(|x| format!("entropy {} rejected: {}", hex(&e), x))?;
    ensure!(m.phrase() == o::phrase(&e, l), "entropy {} in {:?}: phrase {:?}, BIP39 says {:?}", hex(&e), l, m.phrase(), o::phrase(&e, l));
    ensure!(m.entropy() == &e[..], "entropy {} kept as {}", hex(&e), hex(m.entropy()));
    ensure!(m.language() == lang(l), "language changed to {:?}", m.language());
    Ok(())
}
pub fn c01_lengths(s: &mut Src) -> R {
    let l = langs(s);
    let n = match s.below(4) { 0 => s.below(70), 1 => s.int(5000) as usize, 2 => { let k = s.below(40); s.pick(&[16usize, 20, 24, 28, 32]) + k * 32 } _ => s.below(40) };
    s.note("len", n);
    let ok = [16, 20, 24, 28, 32].contains(&n);
    let e = s.bytes(n);
    let r = Mnemonic::from_entropy(&e, lang(l));
    ensure!(r.is_ok() == ok, "entropy of {} bytes: accepted={}", n, r.is_ok());
    Ok(())
}
/// a word list text, valid or damaged
fn wordseq(s: &mut Src, l: Lang) -> Vec<String> {
    let w = o::words(l);
    let old = s.kept("words").and_then(|v| String::from_utf8(v).ok()).map(|t| t.split('\u{1}').map(|x| x.to_string()).collect::<Vec<String>>());
    let mut v: Vec<String> = if let Some(v) = old { v } else { match s.below(8) {
        0 | 1 | 2 => { let e = entropy(s); o::encode(&e).iter().map(|i| w.list[*i].to_string()).collect() }
        3 => { let n = s.pick(&[12usize, 15, 18, 21, 24]); (0..n).map(|_| { let i = s.below(2048); w.list[i].to_string() }).collect() }
        4 => { let n = if s.chance(1, 6) { s.pick(&[12usize, 15, 18, 21, 24]) + (1usize << (3 + s.below(9))) } else { s.below(52) }; (0..n).map(|_| { let i = s.below(2048); w.list[i].to_string() }).collect() }
        5 => { let i = s.below(2048); let n = s.pick(&[12usize, 15, 18, 21, 24]); vec![w.list[i].to_string(); n] }
        6 => { // right checksum for the wrong number of words
            let n = [1usize, 3, 6, 9, 27, 30, 33, 36, 48][s.below(9)]; let e = s.bytes(n * 4 / 3); o::encode(&e).iter().map(|i| w.list[*i].to_string()).collect() }
        _ => { let e = entropy(s); o::encode(&e).iter().map(|i| w.list[*i].to_string()).collect() }
    } };
    s.keep("words", v.join("\u{1}").into_bytes());
    if v.is_empty() { return v; }
    let k = s.below(v.len());
    match s.below(12) {
        0 => { let i = s.below(2048); v[k] = w.list[i].to_string(); }
        1 => { let j = s.below(v.len()); v.swap(k, j); }
        2 => { v[k] = v[k].to_uppercase(); }
        3 => { v[k].push('x'); }
        4 => { v.remove(k); }
        5 => { let x = v[k].clone(); v.insert(k, x); }
        6 => { let i = s.below(2048); v[k] = o::words(if l == Lang::En { Lang::Zh } else { Lang::En }).list[i].to_string(); }
        7 => { v[k] = v[k].chars().map(|c| if c.is_ascii_lowercase() { char::from_u32(c as u32 - 0x61 + 0xff41).unwrap() } else { c }).collect(); }
        8 => { let n = v.len() - 1; let i = w.map.get(v[n].as_str()).copied().unwrap_or(0) ^ (1 << s.below(11)); v[n] = w.list[i & 2047].to_string(); }
        9 => { v[k] = s.text().split_whitespace().collect(); if v[k].is_empty() { v[k] = "?".into(); } }
        _ => {}
    }
    v
}
fn glue(s: &mut Src, v: &[String]) -> String {
    const WS: &[&str] = &[" ", "  ", "\t", "\n", "\r\n", "\u{3000}", "\u{a0}", "\u{2003}", " \t ", "\u{85}", "\u{2028}"];
    let plain = s.chance(1, 2);
    let mut t = String::new();
    if !plain && s.chance(1, 2) { t.push_str(WS[s.below(WS.len())]); }
    for (i, w) in v.iter().enumerate() {
        if i > 0 { t.push_str(if plain { " " } else { WS[s.below(WS.len())] }); }
        t.push_str(w);
    }
    if !plain && s.chance(1, 2) { t.push_str(WS[s.below(WS.len())]); }
    t
}
fn reason_ok(k: Option<&ErrorKind>, b: &o::Bad) -> bool {
    match k {
        Some(ErrorKind::InvalidWord) => b.word,
        Some(ErrorKind::InvalidWordLength(n)) => b.count && *n == b.n,
        Some(ErrorKind::InvalidChecksum) => b.sum,
        _ => false,
    }
}
pub fn c02_accept(s: &mut Src) -> R {
    let l = langs(s);
    let v = wordseq(s, l);
    let t = glue(s, &v);
    let t = if s.chance(1, 6) { s.twist(&t) } else { t };
    s.note("phrase", format!("{:?}", t));
    let norm = o::normalised(&t);
    // the words of the normalised text
    let ws: Vec<&str> = norm.split(' ').collect();
    let want = o::decode(&ws, l);
    match (Mnemonic::from_phrase(&t, lang(l)), &want) {
        (Ok(m), Ok(e)) => {
            ensure!(m.entropy() == &e[..], "phrase {:?}: entropy {}, encoded is {}", t, hex(m.entropy()), hex(e));
            ensure!(m.phrase() == norm, "phrase {:?} kept as {:?}, normalised is {:?}", t, m.phrase(), norm);
            ensure!(m.language() == lang(l), "language changed");
        }
        (Ok(_), Err(b)) => return Err(format!("phrase {:?} ({:?}) accepted although {:?}", t, l, b)),
        (Err(x), Ok(_)) => return Err(format!("valid phrase {:?} ({:?}) rejected: {}", t, l, x)),
        (Err(x), Err(b)) => ensure!(reason_ok(kind(&x), b), "phrase {:?}: error {} although {:?}", t, x, b),
    }
    Ok(())
}
pub fn c02_validate(s: &mut Src) -> R {
    let l = langs(s);
    let v = wordseq(s, l);
    let t = if s.chance(3, 4) { v.join(" ") } else { glue(s, &v) };
    let t = if s.chance(1, 6) { s.twist(&t) } else { t };
    s.note("phrase", format!("{:?}", t));
    let ws: Vec<&str> = t.split(' ').collect();
    let want = o::decode(&ws, l);
    match (Mnemonic::validate(&t, lang(l)), &want) {
        (Ok(()), Ok(_)) => Ok(()),
        (Ok(()), Err(b)) => Err(format!("validate({:?}, {:?}) passes although {:?}", t, l, b)),
        (Err(x), Ok(_)) => Err(format!("validate({:?}, {:?}) fails: {}", t, l, x)),
        (Err(x), Err(b)) => { ensure!(reason_ok(kind(&x), b), "validate({:?}): error {} although {:?}", t, x, b); Ok(()) }
    }
}
pub fn c03_round(s: &mut Src) -> R {
    let l = langs(s);
    let e = entropy(s);
    let m = Mnemonic::from_entropy(&e, lang(l)).map_err(|x| x.to_string())?;
    let v: Vec<String> = m.phrase().split(' ').map(|x| x.to_string()).collect();
    let t = glue(s, &v);
    s.note("text", format!("{:?}", t));
    let p = Mnemonic::from_phrase(&t, lang(l)).map_err(|x| format!("phrase of entropy {} given as {:?} rejected: {}", hex(&e), t, x))?;
    ensure!(p.entropy() == m.entropy() && p.entropy() == &e[..] && p.phrase() == m.phrase() && p.language() == m.language(), "entropy {} -> phrase {:?} -> entropy {} phrase {:?}", hex(&e), m.phrase(), hex(p.entropy()), p.phrase());
    Ok(())
}
pub fn c03_back(s: &mut Src) -> R {
    let l = langs(s);
    let v = wordseq(s, l);
    let t = glue(s, &v);
    s.note("text", format!("{:?}", t));
    if let Ok(p) = Mnemonic::from_phrase(&t, lang(l)) {
        let m = Mnemonic::from_entropy(p.entropy(), lang(l)).map_err(|x| format!("entropy of accepted phrase {:?} rejected: {}", t, x))?;
        ensure!(m.phrase() == o::normalised(&t) && m.phrase() == p.phrase(), "accepted {:?}, rebuilt as {:?}", t, m.phrase());
    }
    Ok(())
}
pub fn c04_index(s: &mut Src) -> R {
    let l = langs(s);
    let i = s.below(2048);
    s.note("index", i);
    let w = o::words(l);
    let got = lang(l).wordlist().get_word((i as u16).into());
    ensure!(got == w.list[i], "word {} of {:?} is {:?}, officially {:?}", i, l, got, w.list[i]);
    let b = lang(l).wordmap().get_bits(w.list[i]).map_err(|e| format!("{:?} has no index: {}", w.list[i], e))?;
    ensure!(u16::from(b) as usize == i, "index of {:?} is {}, should be {}", w.list[i], u16::from(b), i);
    Ok(())
}
pub fn c04_all(_: &mut Src) -> R {
    for l in [Lang::En, Lang::Zh] {
        for i in 0..2048 {
            let w = o::words(l);
            let got = lang(l).wordlist().get_word((i as u16).into());
            ensure!(got == w.list[i], "word {} of {:?} is {:?}, officially {:?}", i, l, got, w.list[i]);
            let b = lang(l).wordmap().get_bits(w.list[i]).map_err(|e| format!("{:?} has no index: {}", w.list[i], e))?;
            ensure!(u16::from(b) as usize == i, "index of {:?} is {}, should be {}", w.list[i], u16::from(b), i);
        }
        let all = lang(l).wordlist().get_words_by_prefix("");
        ensure!(all == &o::words(l).list[..], "the words with the empty prefix are not the whole list of {:?}", l);
    }
    Ok(())
}
fn wordlike(s: &mut Src, l: Lang) -> String {
    if let Some(w) = s.kept("word") { return String::from_utf8_lossy(&w).into_owned(); }
    let w = newword(s, l);
    s.keep("word", w.clone().into_bytes());
    w
}
fn newword(s: &mut Src, l: Lang) -> String {
    let i = s.below(2048);
    let w = o::words(l).list[i].to_string();
    match s.below(7) {
        0 => s.text(),
        1 => w.to_uppercase(),
        2 => format!("{}{}", w, s.text()),
        3 => { let k = s.below(w.chars().count() + 1); w.chars().take(k).collect() }
        4 => format!(" {}", w),
        5 => { let k = s.below(w.chars().count() + 1); w.chars().skip(k).collect() }
        _ => w,
    }
}
/// a lookup in one list must not depend on lookups in the other
pub fn c04_turns(_: &mut Src) -> R {
    for (l, m) in [(Lang::En, Lang::Zh), (Lang::Zh, Lang::En)] {
        for (i, w) in o::words(l).list.iter().enumerate() {
            for (x, want) in [(m, None), (l, Some(i)), (m, None), (l, Some(i))] {
                let got = lang(x).wordmap().get_bits(w).ok().map(|b| u16::from(b) as usize);
                ensure!(got == want, "index of {:?} in {:?} after lookups in the other list: {:?}, should be {:?}", w, x, got, want);
            }
        }
    }
    Ok(())
}
pub fn c04_words(s: &mut Src) -> R {
    let l = langs(s);
    let t = wordlike(s, l);
    s.note("word", format!("{:?}", t));
    let got = lang(l).wordmap().get_bits(&t).ok().map(|b| u16::from(b) as usize);
    let want = o::words(l).map.get(t.as_str()).copied();
    ensure!(got == want, "index of {:?} in {:?}: {:?}, should be {:?}", t, l, got, want);
    Ok(())
}
pub fn c04_prefix(s: &mut Src) -> R {
    let l = langs(s);
    let t = wordlike(s, l);
    s.note("prefix", format!("{:?}", t));
    let got: Vec<&str> = lang(l).wordlist().get_words_by_prefix(&t).to_vec();
    let want: Vec<&str> = o::words(l).list.iter().copied().filter(|w| w.starts_with(t.as_str())).collect();
    ensure!(got == want, "words of {:?} with prefix {:?}: {:?}, should be {:?}", l, t, got, want);
    Ok(())
}
pub fn c04_prefix_all(_: &mut Src) -> R {
    for l in [Lang::En, Lang::Zh] {
        let mut seen = std::collections::HashSet::new();
        for w in &o::words(l).list {
            for k in 1..=w.chars().count() {
                let t: String = w.chars().take(k).collect();
                if k > 3 && k != w.chars().count() || !seen.insert(t.clone()) { continue; }
                let got = lang(l).wordlist().get_words_by_prefix(&t);
                let want: Vec<&str> = o::words(l).list.iter().copied().filter(|w| w.starts_with(t.as_str())).collect();
                ensure!(got == &want[..], "words of {:?} with prefix {:?}: {:?}, should be {:?}", l, t, got, want);
            }
        }
    }
    Ok(())
}
pub fn c05_seed(s: &mut Src) -> R {
    let l = langs(s);
    let e = entropy(s);
    let pass = s.text();
    let pass = if s.chance(1, 6) { s.twist(&pass) } else { pass };
    s.note("passphrase", format!("{:?}", pass));
    let m = Mnemonic::from_entropy(&e, lang(l)).map_err(|x| x.to_string())?;
    let m2;
    let m = if s.chance(1, 3) { m2 = Mnemonic::from_phrase(m.phrase(), lang(l)).map_err(|x| x.to_string())?; &m2 } else { &m };
    let got = Seed::new(m, &pass);
    let want = o::seed(m.phrase(), l, &pass);
    ensure!(got.as_bytes() == &want[..], "seed of {:?} with passphrase {:?} is {}, should be {}", m.phrase(), pass, hex(got.as_bytes()), hex(&want));
    if s.chance(1, 4) { ensure!(Seed::new(m, &pass).as_bytes() == got.as_bytes(), "two seeds of the same mnemonic differ"); }
    Ok(())
}
fn types() -> [(MnemonicType, usize); 5] { [(MnemonicType::Words12, 12), (MnemonicType::Words15, 15), (MnemonicType::Words18, 18), (MnemonicType::Words21, 21), (MnemonicType::Words24, 24)] }
/// every 8 bytes of fresh entropy this process has seen: none comes twice, whichever thread asked
fn unseen(e: &[u8]) -> R {
    use std::collections::HashMap;
    static SEEN: std::sync::Mutex<Option<HashMap<u64, Vec<u8>>>> = std::sync::Mutex::new(None);
    let mut g = SEEN.lock().unwrap_or_else(|e| e.into_inner());
    let m = g.get_or_insert_with(HashMap::new);
    if m.len() > 1_500_000 { m.clear(); }
    for w in e.windows(8).step_by(4) {
        let k = u64::from_be_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]);
        if let Some(o) = m.get(&k) { return Err(format!("entropy {} shares eight bytes with entropy made before: {}", hex(e), hex(o))); }
    }
    for w in e.windows(8).step_by(4) { m.insert(u64::from_be_bytes([w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7]]), w.to_vec()); }
    Ok(())
}
pub fn c06_valid(s: &mut Src) -> R {
    let l = langs(s);
    let (t, n) = types()[s.below(5)];
    s.note("words", n);
    let m = Mnemonic::new(t, lang(l));
    ensure!(m.entropy().len() == n * 4 / 3, "new {} word mnemonic has {} bytes of entropy", n, m.entropy().len());
    ensure!(m.phrase() == o::phrase(m.entropy(), l), "new mnemonic with entropy {} has phrase {:?}", hex(m.entropy()), m.phrase());
    ensure!(m.language() == lang(l), "new mnemonic has language {:?}", m.language());
    unseen(m.entropy())
}
pub fn c06_random(s: &mut Src) -> R {
    const K: usize = 200;
    for l in [Lang::En, Lang::Zh] {
        for (t, n) in types() {
            let es: Vec<Vec<u8>> = (0..K).map(|_| Mnemonic::new(t, lang(l)).entropy().to_vec()).collect();
            let len = n * 4 / 3;
            ensure!(es.iter().all(|e| e.len() == len), "new {} word mnemonic has the wrong entropy length", n);
            for i in 0..len {
                for b in 0..8 {
                    let c = es.iter().filter(|e| e[i] >> b & 1 == 1).count();
                    ensure!(c > 0 && c < K, "{} word mnemonics: bit {} of entropy byte {} never changes over {} samples", n, b, i, K);
                }
                for j in 0..i { ensure!(es.iter().any(|e| e[i] != e[j]), "{} word mnemonics: entropy byte {} always repeats byte {}", n, i, j); }
            }
            for i in 0..K { for j in 0..i { ensure!(es[i] != es[j], "two new {} word mnemonics share their entropy {}", n, hex(&es[i])); } }
            for i in 1..K { let k = es[i - 1].iter().zip(&es[i]).filter(|(a, b)| a == b).count(); ensure!(k < len / 2 + 2, "consecutive {} word mnemonics share {} entropy bytes", n, k); }
        }
    }
    let _ = s;
    Ok(())
}
pub fn c06_process(_: &mut Src) -> R {
    let exe = std::env::current_exe().map_err(|e| e.to_string())?;
    let run = || std::process::Command::new(&exe).arg("fresh").output().map(|o| String::from_utf8_lossy(&o.stdout).to_string()).map_err(|e| e.to_string());
    let (a, b) = (run()?, run()?);
    ensure!(a.len() > 60 && b.len() > 60, "could not sample fresh processes");
    ensure!(a != b, "two processes generate the same mnemonic: {}", a);
    Ok(())
}
pub fn c06_threads(_: &mut Src) -> R {
    let h: Vec<_> = (0..8).map(|_| std::thread::spawn(|| { (0..4).map(|_| Mnemonic::new(MnemonicType::Words24, Language::English).entropy().to_vec()).collect::<Vec<_>>() })).collect();
    let mut all: Vec<Vec<u8>> = vec![];
    for t in h { all.extend(t.join().map_err(|_| "thread panicked".to_string())?); }
    for i in 0..all.len() { for j in 0..i { ensure!(all[i] != all[j], "two threads generate the same entropy {}", hex(&all[i])); } }
    let go = std::sync::Barrier::new(8);
    let all: Vec<Vec<Vec<u8>>> = std::thread::scope(|sc| {
        let h: Vec<_> = (0..8).map(|t| { let go = &go; sc.spawn(move || { go.wait(); (0..1500).map(|_| Mnemonic::new(types()[t % 5].0, Language::English).entropy().to_vec()).collect::<Vec<_>>() }) }).collect();
        h.into_iter().map(|h| h.join().unwrap_or_default()).collect()
    });
    for e in all.iter().flatten() { unseen(e)?; }
    Ok(())
}
pub fn c07_table(_: &mut Src) -> R {
    for (t, n) in types() {
        let k = n / 3;
        ensure!(t.entropy_bits() == 32 * k, "{} words: {} entropy bits", n, t.entropy_bits());
        ensure!(t.checksum_bits() as usize == k, "{} words: {} checksum bits", n, t.checksum_bits());
        ensure!(t.word_count() == n, "{} words: word count {}", n, t.word_count());
        ensure!(t.total_bits() == 33 * k, "{} words: {} bits in total", n, t.total_bits());
        ensure!(format!("{}", t) == format!("{} words ({}bits)", n, 32 * k), "{} words: described as {:?}", n, format!("{}", t));
    }
    Ok(())
}
fn same_type(t: &MnemonicType, n: usize) -> bool { t.word_count() == n && t.entropy_bits() == n / 3 * 32 && *t as usize == types().iter().find(|x| x.1 == n).unwrap().0 as usize }
pub fn c07_lookup(s: &mut Src) -> R {
    let n = match s.below(3) { 0 => s.below(400), 1 => s.int(1 << 20) as usize, _ => s.int(u64::MAX) as usize };
    s.note("n", n);
    match MnemonicType::for_word_count(n) {
        Ok(t) => ensure!([12, 15, 18, 21, 24].contains(&n) && same_type(&t, n), "for_word_count({}) = {:?}", n, t),
        Err(e) => ensure!(![12, 15, 18, 21, 24].contains(&n) && matches!(kind(&e), Some(ErrorKind::InvalidWordLength(k)) if *k == n), "for_word_count({}): {}", n, e),
    }
    match MnemonicType::for_key_size(n) {
        Ok(t) => ensure!([128, 160, 192, 224, 256].contains(&n) && same_type(&t, n / 32 * 3), "for_key_size({}) = {:?}", n, t),
        Err(e) => ensure!(![128, 160, 192, 224, 256].contains(&n) && matches!(kind(&e), Some(ErrorKind::InvalidKeysize(k)) if *k == n), "for_key_size({}): {}", n, e),
    }
    Ok(())
}
pub fn c07_small(_: &mut Src) -> R {
    for n in 0..2000usize {
        ensure!(MnemonicType::for_word_count(n).is_ok() == [12, 15, 18, 21, 24].contains(&n), "for_word_count({})", n);
        ensure!(MnemonicType::for_key_size(n).is_ok() == [128, 160, 192, 224, 256].contains(&n), "for_key_size({})", n);
    }
    Ok(())
}
pub fn c07_phrase(s: &mut Src) -> R {
    let mut t = match s.below(3) { 0 => s.text(), 1 => { let v = wordseq(s, Lang::En); glue(s, &v) } _ => { let n = s.below(40); vec!["x"; n].join(" ") } };
    if s.chance(1, 6) { t = s.twist(&t); }
    if s.chance(1, 5) { t.push(' '); }
    s.note("phrase", format!("{:?}", t));
    let n = t.matches(' ').count() + 1;
    match MnemonicType::for_phrase(&t) {
        Ok(k) => ensure!([12, 15, 18, 21, 24].contains(&n) && same_type(&k, n), "for_phrase({:?}) with {} words = {:?}", t, n, k),
        Err(e) => ensure!(![12, 15, 18, 21, 24].contains(&n) && matches!(kind(&e), Some(ErrorKind::InvalidWordLength(k)) if *k == n), "for_phrase({:?}) with {} words: {}", t, n, e),
    }
    Ok(())
}
pub fn c24_hex(s: &mut Src) -> R {
    let l = langs(s);
    let e = entropy(s);
    let m = Mnemonic::from_entropy(&e, lang(l)).map_err(|x| x.to_string())?;
    let up = |b: &[u8]| b.iter().map(|x| format!("{:02X}", x)).collect::<String>();
    ensure!(format!("{:x}", m) == hex(&e), "{{:x}} of mnemonic with entropy {} is {}", hex(&e), format!("{:x}", m));
    ensure!(format!("{:X}", m) == up(&e), "{{:X}} of mnemonic with entropy {} is {}", hex(&e), format!("{:X}", m));
    ensure!(format!("{:#x}", m) == format!("0x{}", hex(&e)), "{{:#x}} of mnemonic with entropy {} is {}", hex(&e), format!("{:#x}", m));
    ensure!(format!("{:#X}", m) == format!("0x{}", up(&e)), "{{:#X}} of mnemonic with entropy {} is {}", hex(&e), format!("{:#X}", m));
    ensure!(format!("{}", m) == m.phrase(), "display of mnemonic is {:?}", format!("{}", m));
    let r: &str = m.as_ref();
    ensure!(r == m.phrase(), "as_ref of mnemonic is {:?}", r);
    let ph = m.phrase().to_string();
    let mb = m.as_bytes();
    let want = if l == Lang::Zh { o::gb18030(&ph) } else { ph.as_bytes().to_vec() };
    ensure!(mb == want, "bytes of mnemonic {:?} are {}", ph, hex(&mb));
    let seed = Seed::new(&m, "");
    let b = seed.as_bytes().to_vec();
    ensure!(format!("{:x}", seed) == hex(&b) && format!("{:X}", seed) == up(&b), "hex of seed {} is {}", hex(&b), format!("{:x}", seed));
    ensure!(format!("{:#x}", seed) == format!("0x{}", hex(&b)) && format!("{:#X}", seed) == format!("0x{}", up(&b)), "alternate hex of seed {} is {}", hex(&b), format!("{:#x}", seed));
    let r: &[u8] = seed.as_ref();
    ensure!(r == &b[..], "as_ref of seed differs");
    let st: String = if s.chance(1, 2) { m.into() } else { m.into_phrase() };
    ensure!(st == ph, "phrase turned into {:?}", st);
    Ok(())
}
pub fn c24_hash(s: &mut Src) -> R {
    use ripemd::Digest;
    let n = if s.chance(1, 20) { s.int(70000) as usize } else { s.int(400) as usize };
    let b = s.bytes(n);
    s.note("msg", hex(&b));
    let want = hex(&ripemd::Ripemd160::digest(&b));
    let got = kms::crypto::ripemd(&b);
    ensure!(got == want, "ripemd({}) = {}, should be {}", hex(&b), got, want);
    Ok(())
}
pub fn c25_code(s: &mut Src) -> R {
    let t = match s.below(4) { 0 => s.text(), 1 => s.pick(&["en", "zh-cn"]).to_string(), 2 => s.pick(&["zh", "cn", "zh-tw", "zh_cn", "zh-hans", "eng", "e", "", "en ", " en", "en-us", "fr", "it", "ja", "ko", "es", "chinese", "english", "zhcn", "\u{ff45}\u{ff4e}", "EN\u{0}", "zh\u{2010}cn"]).to_string(), _ => { let mut t = s.pick(&["en", "zh-cn"]).to_string(); t.push_str(&s.text()); t } };
    let t = if s.chance(1, 4) { s.twist(&t) } else { t };
    let t: String = t.chars().map(|c| if s.chance(1, 2) { c.to_ascii_uppercase() } else { c }).collect();
    s.note("code", format!("{:?}", t));
    let want = match t.to_ascii_lowercase().as_str() { "en" => Some(Language::English), "zh-cn" => Some(Language::ChineseSimplified), _ => None };
    ensure!(Language::from_language_code(&t) == want, "from_language_code({:?}) = {:?}", t, Language::from_language_code(&t));
    Ok(())
}
pub fn c25_detect(s: &mut Src) -> R {
    let l = langs(s);
    let t = match s.below(3) { 0 => { let v = wordseq(s, l); glue(s, &v) } 1 => { let a = wordlike(s, l); let l2 = langs(s); let b = wordlike(s, l2); let sp = s.pick(&[" ", "\t", "\u{3000}", "\n"]); format!("{}{}{}", a, sp, b) } _ => s.text() };
    let t = if s.chance(1, 6) { s.twist(&t) } else { t };
    s.note("phrase", format!("{:?}", t));
    let w = t.split_whitespace().next();
    let want = w.and_then(|w| if o::words(Lang::En).map.contains_key(w) { Some(Language::English) } else if o::words(Lang::Zh).map.contains_key(w) { Some(Language::ChineseSimplified) } else { None });
    ensure!(Language::from_phrase(&t) == want, "language of {:?} detected as {:?}, should be {:?}", t, Language::from_phrase(&t), want);
    Ok(())
}
pub fn c25_own(s: &mut Src) -> R {
    let l = langs(s);
    let e = entropy(s);
    let m = Mnemonic::from_entropy(&e, lang(l)).map_err(|x| x.to_string())?;
    ensure!(Language::from_phrase(m.phrase()) == Some(lang(l)), "language of {:?} detected as {:?}", m.phrase(), Language::from_phrase(m.phrase()));
    Ok(())
}

// ---------------------------------------------------------------- BIP32
fn scalar(s: &mut Src) -> Vec<u8> {
    loop {
        let k = match s.below(6) {
            0 => { let mut k = vec![0u8; 32]; let n = 1 + s.below(4); for i in 0..n { k[31 - i] = s.byte(); } k }
            1 => { let mut k = o::N.to_vec(); k[31] -= 1 + s.below(0x40) as u8; k }
            2 => { let mut k: Vec<u8> = s.bytes(32); k[0] = 0; if s.chance(1, 2) { k[1] = 0; } k }
            _ => s.bytes(32),
        };
        if o::scalar_ok(&k) { return k; }
        if s.chance(1, 8) { let mut k = vec![0u8; 32]; k[31] = 1; return k; }
    }
}
fn child(s: &mut Src) -> u32 {
    if let Some(v) = s.kept("child") {
        if v.len() == 4 { let c = u32::from_be_bytes([v[0], v[1], v[2], v[3]]); return match s.below(6) { 0 => c ^ 1 << 31, 1 => c ^ 1 << s.below(32), _ => c }; }
    }
    let c = newchild(s);
    s.keep("child", c.to_be_bytes().to_vec());
    c
}
fn newchild(s: &mut Src) -> u32 {
    match s.below(6) {
        0 => s.below(8) as u32,
        1 => (1u32 << 31) + s.below(8) as u32,
        2 => (1u32 << 31) - 1 - s.below(3) as u32,
        3 => u32::MAX - s.below(3) as u32,
        _ => s.int(u32::MAX as u64) as u32,
    }
}
fn soft(s: &mut Src) -> u32 { child(s) & 0x7fff_ffff }
fn pack(x: &XKey) -> Vec<u8> { [&x.key[..], &[x.depth], &x.fp, &x.child.to_be_bytes(), &x.chain].concat() }
fn unpack(v: &[u8]) -> Option<XKey> {
    if v.len() != 73 || !o::scalar_ok(&v[..32]) { return None; }
    let (mut fp, mut chain) = ([0u8; 4], [0u8; 32]);
    fp.copy_from_slice(&v[33..37]); chain.copy_from_slice(&v[41..]);
    Some(XKey { key: v[..32].to_vec(), depth: v[32], fp, child: u32::from_be_bytes([v[37], v[38], v[39], v[40]]), chain })
}
fn xkey(s: &mut Src) -> XKey {
    // sometimes an earlier key, with at most one part of it changed
    let mut x = match s.kept("xkey").and_then(|v| unpack(&v)) { Some(x) => change(s, &x).0, None => newkey(s) };
    if x.depth == 0 { x.fp = [0; 4]; x.child = 0; }
    s.keep("xkey", pack(&x));
    s.note("key", hex(&x.key)); s.note("depth", x.depth); s.note("fp", hex(&x.fp)); s.note("childnum", x.child); s.note("chain", hex(&x.chain));
    x
}
fn newkey(s: &mut Src) -> XKey {
    let key = scalar(s);
    let depth = match s.below(5) { 0 => 0, 1 => 255 - s.below(3) as u8, 2 => s.int(255) as u8, _ => s.byte() };
    XKey { key, depth, fp: s.arr::<4>(), child: child(s), chain: s.arr::<32>() }
}
pub fn neuter(x: &XKey) -> XKey { XKey { key: o::pubkey(&x.key), ..x.clone() } }
fn attrs(x: &XKey) -> ExtendedKeyAttrs { ExtendedKeyAttrs { depth: x.depth, parent_fingerprint: x.fp, child_number: ChildNumber(x.child), chain_code: x.chain } }
fn kb(x: &XKey) -> [u8; 33] { let mut b = [0u8; 33]; if x.key.len() == 32 { b[1..].copy_from_slice(&x.key) } else { b.copy_from_slice(&x.key) } b }
fn xprv(x: &XKey) -> Result<XPrv, String> { XPrv::try_from(ExtendedKey { prefix: Prefix::XPRV, attrs: attrs(x), key_bytes: kb(x) }).map_err(|e| format!("extended private key {:?} rejected: {}", x, e)) }
fn xpub(x: &XKey) -> Result<XPub, String> { XPub::try_from(ExtendedKey { prefix: Prefix::XPUB, attrs: attrs(x), key_bytes: kb(x) }).map_err(|e| format!("extended public key {:?} rejected: {}", x, e)) }
fn of_attrs(key: Vec<u8>, a: &ExtendedKeyAttrs) -> XKey { XKey { key, depth: a.depth, fp: a.parent_fingerprint, child: a.child_number.0, chain: a.chain_code } }
pub fn of_prv(k: &XPrv) -> XKey { of_attrs(k.to_bytes().to_vec(), k.attrs()) }
pub fn of_pub(k: &XPub) -> XKey { of_attrs(k.to_bytes().to_vec(), k.attrs()) }
fn show(x: &XKey) -> String { format!("(key {} depth {} fp {} child {} chain {})", hex(&x.key), x.depth, hex(&x.fp), x.child, hex(&x.chain)) }
fn eqx(what: &str, got: Option<XKey>, want: Option<XKey>) -> R {
    ensure!(got == want, "{}: {} but should be {}", what, got.map(|x| show(&x)).unwrap_or("error".into()), want.map(|x| show(&x)).unwrap_or("an error".into()));
    Ok(())
}
pub fn c08_master(s: &mut Src) -> R {
    let n = s.pick(&[16usize, 32, 64, 128]);
    let b = s.bytes(n);
    s.note("seed", hex(&b));
    eqx(&format!("master key of seed {}", hex(&b)), XPrv::new(&b).ok().map(|k| of_prv(&k)), o::master(&b))
}
pub fn c08_lengths(s: &mut Src) -> R {
    let n = match s.below(3) { 0 => s.below(140), 1 => s.int(4096) as usize, _ => [15, 17, 31, 33, 63, 65, 127, 129, 0, 256, 512][s.below(11)] };
    s.note("len", n);
    let b = s.bytes(n);
    match XPrv::new(&b) {
        Ok(_) => ensure!([16, 32, 64, 128].contains(&n), "seed of {} bytes accepted", n),
        Err(e) => ensure!(![16, 32, 64, 128].contains(&n) && e == bip32::Error::SeedLength, "seed of {} bytes: {:?}", n, e),
    }
    Ok(())
}
// keys of another type: the derivation rules hold for whatever the key type answers
#[derive(Clone, Debug, PartialEq)]
pub struct Toy { k: [u8; 32], fail: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct ToyPub { k: [u8; 33], fail: bool }
impl bip32::PrivateKey for Toy {
    type PublicKey = ToyPub;
    fn from_bytes(b: &[u8; 32]) -> bip32::Result<Self> { if b[31] & 3 == 0 { Err(bip32::Error::Crypto) } else { Ok(Toy { k: *b, fail: b[31] & 4 == 0 }) } }
    fn to_bytes(&self) -> [u8; 32] { self.k }
    fn derive_child(&self, t: [u8; 32]) -> bip32::Result<Self> { if self.fail { return Err(bip32::Error::Crypto); } let mut k = self.k; for i in 0..32 { k[i] ^= t[i]; } Ok(Toy { k, fail: t[0] & 1 == 0 }) }
    fn public_key(&self) -> ToyPub { let mut k = [7u8; 33]; k[1..].copy_from_slice(&self.k); k[1] ^= 0x5a; ToyPub { k, fail: self.fail } }
}
impl bip32::PublicKey for ToyPub {
    fn from_bytes(b: [u8; 33]) -> bip32::Result<Self> { if b[0] != 7 { Err(bip32::Error::Crypto) } else { Ok(ToyPub { k: b, fail: b[32] & 4 == 0 }) } }
    fn to_bytes(&self) -> [u8; 33] { self.k }
    fn derive_child(&self, t: [u8; 32]) -> bip32::Result<Self> { if self.fail { return Err(bip32::Error::Crypto); } let mut k = self.k; for i in 0..32 { k[i + 1] ^= t[i]; } Ok(ToyPub { k, fail: t[0] & 1 == 0 }) }
}
type ToyPrv = bip32::ExtendedPrivateKey<Toy>;
pub fn c09_toy(s: &mut Src) -> R {
    let n = s.pick(&[16usize, 32, 64, 128]);
    let b = s.bytes(n);
    s.note("seed", hex(&b));
    let i = o::hmac512(b"Bitcoin seed", &b);
    let mut k32 = [0u8; 32]; k32.copy_from_slice(&i[..32]);
    let want = <Toy as bip32::PrivateKey>::from_bytes(&k32).ok();
    let got = ToyPrv::new(&b);
    ensure!(got.is_ok() == want.is_some(), "master key: key type answers {:?}, library {:?}", want.is_some(), got.is_ok());
    let (mut g, mut w) = match (got, want) { (Ok(g), Some(w)) => (g, w), _ => return Ok(()) };
    let mut chain = i[32..].to_vec();
    for _ in 0..s.below(4) {
        let c = child(s);
        s.note("child", c);
        let data = if c >= 1 << 31 { [&[0u8][..], &w.k, &c.to_be_bytes()].concat() } else { [&w.public_key().k[..], &c.to_be_bytes()].concat() };
        let i = o::hmac512(&chain, &data);
        let mut t = [0u8; 32]; t.copy_from_slice(&i[..32]);
        let want = w.derive_child(t);
        let gp = g.public_key();
        let pwant = w.public_key().derive_child(t);
        let pgot = gp.derive_child(ChildNumber(c));
        if c < 1 << 31 { ensure!(pgot.is_ok() == pwant.is_ok() && pgot.as_ref().map_or(true, |q| q.to_bytes() == pwant.as_ref().unwrap().k && q.attrs().chain_code[..] == i[32..]), "public child {} of a key whose type answers {:?}", c, pwant.is_ok()); } else { ensure!(pgot.is_err(), "hardened public child"); }
        let got = g.derive_child(ChildNumber(c));
        ensure!(got.is_ok() == want.is_ok(), "child {}: key type answers {}, library {}", c, want.is_ok(), got.is_ok());
        match (got, want) {
            (Ok(a), Ok(b)) => { ensure!(a.to_bytes() == b.k && a.attrs().chain_code[..] == i[32..] && a.attrs().depth == g.attrs().depth + 1 && a.attrs().child_number.0 == c && a.attrs().parent_fingerprint == o::fingerprint(&w.public_key().k), "child {} of a custom key is wrong", c); g = a; w = b; chain = i[32..].to_vec(); }
            _ => return Ok(()),
        }
    }
    Ok(())
}
pub fn c09_child(s: &mut Src) -> R {
    let x = xkey(s);
    let c = child(s);
    s.note("child", c);
    let k = xprv(&x)?;
    let got = k.derive_child(ChildNumber(c));
    ensure!(of_prv(&k) == x, "the parent changed to {}", show(&of_prv(&k)));
    eqx(&format!("child {} of {}", c, show(&x)), got.ok().map(|k| of_prv(&k)), o::ckd_priv(&x, c))
}
pub fn c09_tweak(s: &mut Src) -> R {
    let k = scalar(s);
    let t = match s.below(6) { 0 => o::neg(&k), 1 => { let mut t = o::N.to_vec(); t[31] = t[31].wrapping_add(s.below(3) as u8); t } 2 => vec![0u8; 32], 3 => vec![0xff; 32], 4 => k.clone(), _ => s.bytes(32) };
    s.note("key", hex(&k)); s.note("tweak", hex(&t));
    let mut a = [0u8; 32]; a.copy_from_slice(&k);
    let mut b = [0u8; 32]; b.copy_from_slice(&t);
    let sk = libsecp256k1::SecretKey::parse(&a).unwrap();
    let sum = o::add_mod(&k, &t);
    let want = if o::scalar_ok(&t) && o::scalar_ok(&sum) { Some(sum) } else { None };
    let got = <libsecp256k1::SecretKey as bip32::PrivateKey>::derive_child(&sk, b).ok().map(|x| x.serialize().to_vec());
    ensure!(got == want, "key {} tweaked by {}: {:?}, should be {:?}", hex(&k), hex(&t), got.map(|x| hex(&x)), want.map(|x| hex(&x)));
    let pk = libsecp256k1::PublicKey::from_secret_key(&sk);
    let pgot = bip32::PublicKey::derive_child(&pk, b).ok().map(|x| x.serialize_compressed().to_vec());
    let pwant = want.map(|x| o::pubkey(&x));
    ensure!(pgot == pwant, "public key of {} tweaked by {}: {:?}, should be {:?}", hex(&k), hex(&t), pgot.map(|x| hex(&x)), pwant.map(|x| hex(&x)));
    Ok(())
}
pub fn c09_keys(s: &mut Src) -> R {
    let b: [u8; 32] = match s.below(5) { 0 => [0; 32], 1 => { let mut t = o::N; t[31] = t[31].wrapping_add(s.below(3) as u8).wrapping_sub(1); t } 2 => [0xff; 32], 3 => { let v = scalar(s); let mut a = [0; 32]; a.copy_from_slice(&v); a } _ => s.arr::<32>() };
    s.note("bytes", hex(&b));
    let got = <libsecp256k1::SecretKey as bip32::PrivateKey>::from_bytes(&b);
    ensure!(got.is_ok() == o::scalar_ok(&b), "private key {}: accepted={}", hex(&b), got.is_ok());
    if let Ok(k) = got {
        ensure!(bip32::PrivateKey::to_bytes(&k) == b, "private key {} kept as {}", hex(&b), hex(&bip32::PrivateKey::to_bytes(&k)));
        let p = bip32::PrivateKey::public_key(&k);
        ensure!(bip32::PublicKey::to_bytes(&p)[..] == o::pubkey(&b)[..], "public key of {}", hex(&b));
        ensure!(p.fingerprint() == o::fingerprint(&o::pubkey(&b)), "fingerprint of {}", hex(&b));
        let x = XKey { key: b.to_vec(), depth: 3, fp: [1; 4], child: 9, chain: [5; 32] };
        let xp = xprv(&x)?;
        let sk: libsecp256k1::SecretKey = (&xp).into();
        let pk: libsecp256k1::PublicKey = (&xp.public_key()).into();
        ensure!(sk.serialize() == b && pk.serialize_compressed()[..] == o::pubkey(&b)[..], "conversion of the extended key of {}", hex(&b));
        let sk: libsecp256k1::SecretKey = xp.clone().into();
        let pk: libsecp256k1::PublicKey = xp.public_key().into();
        ensure!(sk.serialize() == b && pk.serialize_compressed()[..] == o::pubkey(&b)[..], "conversion of the extended key of {}", hex(&b));
        ensure!(xp.private_key().serialize() == b && xp.to_bytes() == b, "key of the extended key of {}", hex(&b));
        ensure!(xp.public_key().fingerprint() == o::fingerprint(&o::pubkey(&b)), "fingerprint of the extended key of {}", hex(&b));
    }
    Ok(())
}
pub fn c10_child(s: &mut Src) -> R {
    let x = neuter(&xkey(s));
    let c = child(s);
    s.note("child", c);
    let k = xpub(&x)?;
    let got = k.derive_child(ChildNumber(c));
    ensure!(of_pub(&k) == x, "the parent changed to {}", show(&of_pub(&k)));
    if c >= 1 << 31 { ensure!(got.is_err(), "hardened child {} of public key {} derived", c, show(&x)); }
    eqx(&format!("public child {} of {}", c, show(&x)), got.ok().map(|k| of_pub(&k)), o::ckd_pub(&x, c))
}
pub fn c11_agree(s: &mut Src) -> R {
    let x = xkey(s);
    let c = soft(s);
    s.note("child", c);
    let k = xprv(&x)?;
    let a = k.derive_child(ChildNumber(c)).ok().map(|k| of_pub(&k.public_key()));
    let b = k.public_key().derive_child(ChildNumber(c)).ok().map(|k| of_pub(&k));
    eqx(&format!("child {} of {}: public derivation", c, show(&x)), b, a.clone())?;
    eqx("public part", a, o::ckd_priv(&x, c).map(|y| neuter(&y)))?;
    eqx("public part of the key", Some(of_pub(&k.public_key())), Some(neuter(&x)))?;
    eqx("public part by conversion", Some(of_pub(&XPub::from(&k))), Some(neuter(&x)))
}
fn dpath(v: &[u32]) -> DerivationPath { let mut p = DerivationPath::default(); for c in v { p.push(ChildNumber(*c)); } p }
fn long_steps(s: &mut Src) -> Vec<u32> { if s.chance(1, 8) { let n = match s.below(3) { 0 => s.below(2000), 1 => (1 << s.below(12)) + s.below(3), _ => 250 + s.below(20) }; (0..n).map(|_| child(s)).collect() } else { steps(s, true) } }
fn steps(s: &mut Src, hard: bool) -> Vec<u32> {
    // sometimes an earlier path: as it was, cut, longer, one step changed, turned round
    let mut v = match s.kept("path") { Some(v) => v.chunks_exact(4).map(|c| u32::from_be_bytes([c[0], c[1], c[2], c[3]])).collect::<Vec<_>>(), None => return newsteps(s, hard) };
    let k = s.below(v.len().max(1));
    match s.below(6) { 0 => v.truncate(k), 1 => { let c = child(s); v.push(c); } 2 if !v.is_empty() => { v[k] = child(s); } 3 => v.reverse(), 4 if !v.is_empty() => v[k] ^= 1 << 31, _ => {} }
    v.truncate(12);
    if !hard { for c in v.iter_mut() { *c &= 0x7fff_ffff; } }
    s.note("path", format!("{:?}", v));
    v
}
fn newsteps(s: &mut Src, hard: bool) -> Vec<u32> { let n = match s.below(4) { 0 => 0, 1 => 1, 2 => s.below(5), _ => s.below(12) }; let v: Vec<u32> = (0..n).map(|_| if hard { child(s) } else { soft(s) }).collect(); s.note("path", format!("{:?}", v)); s.keep("path", v.iter().flat_map(|c| c.to_be_bytes()).collect()); v }
pub fn c11_paths(s: &mut Src) -> R {
    let x = xkey(s);
    let v = steps(s, false);
    let k = xprv(&x)?;
    let a = k.clone().derive_from_path(&dpath(&v)).ok().map(|k| of_pub(&k.public_key()));
    let b = k.public_key().derive_from_path(&dpath(&v)).ok().map(|k| of_pub(&k));
    eqx(&format!("path {:?} of {}: public derivation", v, show(&x)), b, a)
}
pub fn c12_prv(s: &mut Src) -> R {
    let x = xkey(s);
    let v = steps(s, true);
    let k = xprv(&x)?;
    let mut want = Some(x.clone());
    for c in &v { want = want.and_then(|y| o::ckd_priv(&y, *c)); }
    let mut one = Ok(k.clone());
    for c in &v { one = one.and_then(|y| y.derive_child(ChildNumber(*c))); }
    let got = k.clone().derive_from_path(&dpath(&v));
    ensure!(got.as_ref().err() == one.as_ref().err(), "path {:?} of {}: {:?}, step by step {:?}", v, show(&x), got.err(), one.err());
    let j = s.below(v.len() + 1);
    let two = k.clone().derive_from_path(&dpath(&v[..j])).and_then(|y| y.derive_from_path(&dpath(&v[j..])));
    eqx(&format!("path {:?} of {} split at {}", v, show(&x), j), two.ok().map(|k| of_prv(&k)), want.clone())?;
    eqx(&format!("path {:?} of {}", v, show(&x)), got.ok().map(|k| of_prv(&k)), want)
}
pub fn c12_pub(s: &mut Src) -> R {
    let x = neuter(&xkey(s));
    let hard = s.chance(1, 5);
    let v = steps(s, hard);
    let k = xpub(&x)?;
    let mut want = Some(x.clone());
    for c in &v { want = want.and_then(|y| o::ckd_pub(&y, *c)); }
    let mut one = Ok(k.clone());
    for c in &v { one = one.and_then(|y| y.derive_child(ChildNumber(*c))); }
    let got = k.clone().derive_from_path(&dpath(&v));
    ensure!(got.as_ref().err() == one.as_ref().err(), "public path {:?} of {}: {:?}, step by step {:?}", v, show(&x), got.err(), one.err());
    eqx(&format!("public path {:?} of {}", v, show(&x)), got.ok().map(|k| of_pub(&k)), want)
}
pub fn c12_seed(s: &mut Src) -> R {
    let n = if s.chance(1, 8) { s.below(140) } else { s.pick(&[16usize, 32, 64, 128]) };
    let b = s.bytes(n);
    s.note("seed", hex(&b));
    let v = steps(s, true);
    let mut want = if [16, 32, 64, 128].contains(&n) { o::master(&b) } else { None };
    for c in &v { want = want.and_then(|y| o::ckd_priv(&y, *c)); }
    let got = XPrv::new_from_path(&b, &dpath(&v));
    if ![16, 32, 64, 128].contains(&n) { ensure!(got.as_ref().err() == Some(&bip32::Error::SeedLength), "seed of {} bytes along {:?}: {:?}", n, v, got.as_ref().err()); }
    eqx(&format!("path {:?} from seed {}", v, hex(&b)), got.ok().map(|k| of_prv(&k)), want)
}
/// long paths, on keys that are cheap to derive
pub fn c12_far(s: &mut Src) -> R {
    let n = match s.below(6) { 0 => 250 + s.below(10), 1 => s.int(600) as usize, _ => s.below(40) };
    let seed: [u8; 16] = s.arr::<16>();
    let k = bip32::ExtendedPrivateKey::<Any1>::new(seed).map_err(|e| format!("master key: {:?}", e))?;
    let v: Vec<u32> = (0..n.min(1000)).map(|_| child(s)).collect();
    s.note("steps", v.len());
    let mut one = Ok(k.clone());
    for c in &v { one = one.and_then(|y| y.derive_child(ChildNumber(*c))); }
    let (got, other) = (k.clone().derive_from_path(&dpath(&v)), bip32::ExtendedPrivateKey::<Any1>::new_from_path(seed, &dpath(&v)));
    let show = |r: &bip32::Result<bip32::ExtendedPrivateKey<Any1>>| r.as_ref().map(|k| (k.attrs().depth, k.to_bytes(), k.attrs().chain_code)).map_err(|e| *e);
    ensure!(show(&got) == show(&one), "{} steps at once: {:?}, one by one {:?}", v.len(), show(&got), show(&one));
    ensure!(show(&other) == show(&one), "{} steps from the seed: {:?}, one by one {:?}", v.len(), show(&other), show(&one));
    let w: Vec<u32> = v.iter().map(|c| c & 0x7fff_ffff).collect();
    let q = k.public_key();
    let mut one = Ok(q.clone());
    for c in &w { one = one.and_then(|y| y.derive_child(ChildNumber(*c))); }
    let got = q.derive_from_path(&dpath(&w));
    let show = |r: &bip32::Result<bip32::ExtendedPublicKey<Any2>>| r.as_ref().map(|k| (k.attrs().depth, k.to_bytes(), k.attrs().chain_code)).map_err(|e| *e);
    ensure!(show(&got) == show(&one), "{} public steps at once: {:?}, one by one {:?}", w.len(), show(&got), show(&one));
    Ok(())
}
pub fn c13_depth(s: &mut Src) -> R {
    let x = xkey(s);
    let k = xprv(&x)?;
    let c = soft(s);
    for (what, got) in [("private", k.derive_child(ChildNumber(c)).map(|y| y.attrs().depth)), ("public", k.public_key().derive_child(ChildNumber(c)).map(|y| y.attrs().depth)), ("hardened", k.derive_child(ChildNumber(c | 1 << 31)).map(|y| y.attrs().depth))] {
        let want = if x.depth == 255 { Err(bip32::Error::Depth) } else { Ok(x.depth + 1) };
        ensure!(got == want, "{} child of a key at depth {}: {:?}", what, x.depth, got);
    }
    Ok(())
}
pub fn c13_long(s: &mut Src) -> R {
    let mut x = xkey(s);
    x.depth = 250 + s.below(6) as u8;
    let k = xprv(&x)?;
    let n = s.below(9);
    let v: Vec<u32> = (0..n).map(|_| soft(s)).collect();
    s.note("from", x.depth); s.note("steps", n);
    let want = if x.depth as usize + n > 255 { Err(bip32::Error::Depth) } else { Ok(x.depth + n as u8) };
    let a = k.clone().derive_from_path(&dpath(&v)).map(|y| y.attrs().depth);
    ensure!(a == want, "{} steps from depth {}: {:?}", n, x.depth, a);
    let b = k.public_key().derive_from_path(&dpath(&v)).map(|y| y.attrs().depth);
    ensure!(b == want, "{} public steps from depth {}: {:?}", n, x.depth, b);
    Ok(())
}
pub fn c13_all(_: &mut Src) -> R {
    let mut k = ToyLong::new();
    for d in 0..255u32 { k = k.step().map_err(|e| format!("deriving at depth {}: {:?}", d, e))?; ensure!(k.0.attrs().depth as u32 == d + 1 && k.1.attrs().depth as u32 == d + 1, "depth {} after {} steps", k.0.attrs().depth, d + 1); }
    ensure!(matches!(k.0.derive_child(ChildNumber(0)), Err(bip32::Error::Depth)), "child at depth 255 derived");
    ensure!(matches!(k.1.derive_child(ChildNumber(0)), Err(bip32::Error::Depth)), "public child at depth 255 derived");
    Ok(())
}
#[derive(Clone, Debug, PartialEq)] pub struct Any1([u8; 32]);
#[derive(Clone, Debug, PartialEq)] pub struct Any2([u8; 33]);
impl bip32::PrivateKey for Any1 {
    type PublicKey = Any2;
    fn from_bytes(b: &[u8; 32]) -> bip32::Result<Self> { Ok(Any1(*b)) }
    fn to_bytes(&self) -> [u8; 32] { self.0 }
    fn derive_child(&self, t: [u8; 32]) -> bip32::Result<Self> { Ok(Any1(t)) }
    fn public_key(&self) -> Any2 { let mut k = [3u8; 33]; k[1..].copy_from_slice(&self.0); Any2(k) }
}
impl bip32::PublicKey for Any2 {
    fn from_bytes(b: [u8; 33]) -> bip32::Result<Self> { Ok(Any2(b)) }
    fn to_bytes(&self) -> [u8; 33] { self.0 }
    fn derive_child(&self, t: [u8; 32]) -> bip32::Result<Self> { let mut k = [2u8; 33]; k[1..].copy_from_slice(&t); Ok(Any2(k)) }
}
struct ToyLong(bip32::ExtendedPrivateKey<Any1>, bip32::ExtendedPublicKey<Any2>);
impl ToyLong {
    fn new() -> Self { let a = bip32::ExtendedPrivateKey::<Any1>::new([9u8; 16]).unwrap(); let b = a.public_key(); ToyLong(a, b) }
    fn step(&self) -> bip32::Result<Self> { Ok(ToyLong(self.0.derive_child(ChildNumber(1 << 31))?, self.1.derive_child(ChildNumber(7))?)) }
}
fn letters(s: &mut Src) -> String { (0..4).map(|_| { let i = s.below(52); b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"[i] as char }).collect() }
fn builtin() -> [(Prefix, &'static str, u32); 8] {
    [(Prefix::TPRV, "tprv", 0x04358394), (Prefix::TPUB, "tpub", 0x043587cf), (Prefix::XPRV, "xprv", 0x0488ade4), (Prefix::XPUB, "xpub", 0x0488b21e),
     (Prefix::YPRV, "yprv", 0x049d7878), (Prefix::YPUB, "ypub", 0x049d7cb2), (Prefix::ZPRV, "zprv", 0x04b2430c), (Prefix::ZPUB, "zpub", 0x04b24746)]
}
fn prefix(s: &mut Src) -> Prefix {
    match s.below(3) {
        0 => { let t = letters(s); let v = s.int(u32::MAX as u64) as u32; s.note("prefix", format!("{} {:#x}", t, v)); Prefix::from_parts_unchecked(&t, v) }
        _ => { let p = builtin()[s.below(8)]; s.note("prefix", p.1); p.0 }
    }
}
pub fn c15_text(s: &mut Src) -> R {
    let mut x = xkey(s);
    if s.chance(1, 3) { x.fp = s.arr::<4>(); x.child = child(s); }
    let p = prefix(s);
    let prv = s.chance(1, 2);
    let free: [u8; 33] = s.arr::<33>();
    let arb = s.chance(1, 4);
    let consistent = x.depth != 0 || (x.fp == [0; 4] && x.child == 0);
    let y = if prv { x.clone() } else { neuter(&x) };
    let ek = ExtendedKey { prefix: p, attrs: attrs(&y), key_bytes: if arb { free } else { kb(&y) } };
    let mut want = o::payload(p.version(), &y);
    if arb { want.truncate(45); want.extend(free); }
    let want = o::b58check(&want);
    let got = ek.to_string();
    ensure!(got == want, "text of {} under {:#x}: {}, should be {}", show(&y), p.version(), got, want);
    let mut buf = [b'#'; ExtendedKey::MAX_BASE58_SIZE];
    let w = ek.write_base58(&mut buf).map(|t| t.to_string());
    ensure!(w.as_deref() == Ok(want.as_str()), "write_base58 of {}: {:?}, should be {}", show(&y), w, want);
    ensure!(format!("{:>150}", ek).trim() == want && format!("{}", &ek) == want, "formatted text of {} differs", show(&y));
    if consistent && !arb {
        let (a, e) = if prv { let k = xprv(&y)?; (k.to_string(p).to_string(), k.to_extended_key(p)) } else { let k = xpub(&y)?; (k.to_string(p), k.to_extended_key(p)) };
        ensure!(a == want, "to_string of {}: {}, should be {}", show(&y), a, want);
        ensure!(e.key_bytes == kb(&y) && e.attrs == attrs(&y) && e.prefix == p, "to_extended_key of {} differs", show(&y));
    }
    Ok(())
}
fn damaged(s: &mut Src, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let n = v.len();
    let k = s.below(n.max(1));
    match s.below(14) {
        9 => { let t = s.odd(); return format!("{}{}", t, v.into_iter().collect::<String>()); }
        10 => { let t = s.odd(); return format!("{}{}", v.into_iter().collect::<String>(), t); }
        11 => { let t = s.odd(); return format!("{}{}{}", v[..k].iter().collect::<String>(), t, v[k..].iter().collect::<String>()); }
        0 if n > 0 => { let i = s.below(58); v[k] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"[i] as char; }
        1 if n > 0 => { v.remove(k); }
        2 => { v.insert(k, 'A'); }
        3 if n > 0 => { v[k] = char::from_u32(s.below(0x300) as u32).unwrap_or('0'); }
        4 if n > 1 => { let j = s.below(n); v.swap(k, j); }
        5 => { v.truncate(k); }
        6 => { v.insert(0, '1'); }
        7 => { v.push(' '); }
        _ => {}
    }
    v.into_iter().collect()
}
fn anytext(s: &mut Src) -> String {
    if let Some(t) = s.kept("keytext").and_then(|v| String::from_utf8(v).ok()) { let t = damaged(s, &t); s.note("text", format!("{:?}", t)); return t; }
    let t = newtext(s);
    s.keep("keytext", t.clone().into_bytes());
    t
}
fn newtext(s: &mut Src) -> String {
    let n = if s.chance(3, 4) { 78 } else { s.below(90) };
    let mut b = match s.below(4) {
        0 => s.bytes(n),
        _ => { let x = xkey(s); let pub_ = s.chance(1, 2); let y = if pub_ { neuter(&x) } else { x }; let mut y = y; if s.chance(1, 4) { y.fp = s.arr::<4>(); } let v = if s.chance(1, 4) { s.int(u32::MAX as u64) as u32 } else { builtin()[s.below(8)].2 }; let mut b = o::payload(v, &y); if n != 78 { b.resize(n, 7); } b }
    };
    if !b.is_empty() && s.chance(1, 3) { let k = match s.below(3) { 0 if b.len() > 46 => 45, 1 if b.len() > 46 => 46 + s.below(b.len() - 46), _ => s.below(b.len()) }; b[k] = s.int(255) as u8; }
    if b.len() == 78 && s.chance(1, 10) { let t = match s.below(4) { 0 => [0u8; 32], 1 => o::N, 2 => [0xff; 32], _ => { let mut t = o::N; t[31] -= 1; t } }; b[46..].copy_from_slice(&t); }
    let t = o::b58check(&b);
    let t = if s.chance(1, 4) { damaged(s, &t) } else if s.chance(1, 30) { s.text() } else { t };
    s.note("text", format!("{:?}", t));
    t
}
pub fn c16_parse(s: &mut Src) -> R {
    let t = anytext(s);
    let want = o::un_b58check(&t).filter(|d| d.len() == 78 && t.as_bytes()[..4].iter().all(|b| b.is_ascii_alphabetic()));
    match (t.parse::<ExtendedKey>(), want) {
        (Ok(k), Some(d)) => {
            let a = of_attrs(k.key_bytes.to_vec(), &k.attrs);
            let w = XKey { key: d[45..].to_vec(), depth: d[4], fp: [d[5], d[6], d[7], d[8]], child: u32::from_be_bytes([d[9], d[10], d[11], d[12]]), chain: { let mut c = [0; 32]; c.copy_from_slice(&d[13..45]); c } };
            ensure!(a == w, "{:?} parsed as {}, holds {}", t, show(&a), show(&w));
            ensure!(k.prefix.to_bytes() == d[..4] && k.prefix.as_str() == &t[..4], "{:?} parsed with prefix {:?} {:#x}", t, k.prefix.as_str(), k.prefix.version());
            ensure!(k.to_string() == t, "{:?} printed again as {:?}", t, k.to_string());
        }
        (Ok(_), None) => return Err(format!("{:?} accepted", t)),
        (Err(e), Some(_)) => return Err(format!("{:?} rejected: {:?}", t, e)),
        (Err(_), None) => {}
    }
    Ok(())
}
pub fn c16_round(s: &mut Src) -> R {
    let x = xkey(s);
    let (p, pt, _) = builtin()[s.below(8)];
    let y = if pt.ends_with("prv") { x } else { neuter(&x) };
    let ek = ExtendedKey { prefix: p, attrs: attrs(&y), key_bytes: kb(&y) };
    let t = ek.to_string();
    let k: ExtendedKey = t.parse().map_err(|e| format!("{} rejected: {:?}", t, e))?;
    ensure!(k.prefix == p && k.attrs == ek.attrs && k.key_bytes == ek.key_bytes && k.to_string() == t, "{} does not round-trip", t);
    Ok(())
}
pub fn c17_import(s: &mut Src) -> R {
    let t = anytext(s);
    let ek = match t.parse::<ExtendedKey>() { Ok(k) => k, Err(_) => { ensure!(t.parse::<XPrv>().is_err() && t.parse::<XPub>().is_err(), "{:?} imported", t); return Ok(()); } };
    import(&t, ek)
}
fn import(t: &str, ek: ExtendedKey) -> R {
    let p = ek.prefix.as_str().to_string();
    let a = of_attrs(ek.key_bytes.to_vec(), &ek.attrs);
    let consistent = a.depth != 0 || (a.fp == [0; 4] && a.child == 0);
    let prv_ok = p.ends_with("prv") && a.key[0] == 0 && o::scalar_ok(&a.key[1..]) && consistent;
    let pub_ok = p.ends_with("pub") && o::point_ok(&a.key) && consistent;
    let r1 = XPrv::try_from(ek.clone());
    let r2 = XPub::try_from(ek.clone());
    ensure!(r1.is_ok() == prv_ok, "{} ({}) as a private key: accepted={}", t, show(&a), r1.is_ok());
    ensure!(r2.is_ok() == pub_ok, "{} ({}) as a public key: accepted={}", t, show(&a), r2.is_ok());
    if ek.to_string() == t { ensure!(t.parse::<XPrv>().is_ok() == prv_ok && t.parse::<XPub>().is_ok() == pub_ok, "{} from text: private {}, public {}", t, t.parse::<XPrv>().is_ok(), t.parse::<XPub>().is_ok()); }
    if let Ok(k) = r1 { let g = of_prv(&k); ensure!(g == XKey { key: a.key[1..].to_vec(), ..a.clone() }, "{} imported as {}", t, show(&g)); let e = k.to_extended_key(ek.prefix); ensure!(e.key_bytes == ek.key_bytes && e.attrs == ek.attrs && e.prefix == ek.prefix && (ek.to_string() != t || k.to_string(ek.prefix).as_str() == t), "{} exported as {}", t, e); }
    if let Ok(k) = r2 { let g = of_pub(&k); ensure!(g == a, "{} imported as {}", t, show(&g)); let e = k.to_extended_key(ek.prefix); ensure!(e.key_bytes == ek.key_bytes && e.attrs == ek.attrs && e.prefix == ek.prefix, "{} exported as {}", t, e); }
    Ok(())
}
pub fn c17_direct(s: &mut Src) -> R {
    let x = xkey(s);
    let mut y = if s.chance(1, 2) { neuter(&x) } else { x };
    if s.chance(1, 3) { y.depth = 0; if s.chance(1, 2) { y.fp = [0; 4]; } else { y.fp = s.arr::<4>(); } y.child = if s.chance(1, 2) { 0 } else { child(s) }; }
    let mut b = kb(&y);
    match s.below(8) { 0 => b[0] = s.int(255) as u8, 1 => b[1..].copy_from_slice(&o::N), 2 => b[1..].copy_from_slice(&[0; 32]), 3 => { let k = s.below(33); b[k] ^= 1 << s.below(8); } 4 => b[1..].copy_from_slice(&[0xff; 32]), _ => {} }
    let p = prefix(s);
    let t = p.as_str().to_string();
    s.note("keybytes", hex(&b));
    import(&format!("{} key", t), ExtendedKey { prefix: p, attrs: attrs(&y), key_bytes: b })
}
pub fn c18_builtin(_: &mut Src) -> R {
    for (p, t, v) in builtin() {
        ensure!(p.as_str() == t && p.version() == v && p.to_bytes() == v.to_be_bytes() && u32::from(p) == v && u32::from(&p) == v && p.to_string() == t, "built-in prefix {} is {:?} {:#x}", t, p.as_str(), p.version());
        ensure!(p.is_private() == t.ends_with("prv") && p.is_public() == t.ends_with("pub"), "{} private={} public={}", t, p.is_private(), p.is_public());
        ensure!(Prefix::try_from(v) == Ok(p), "{:#x} gives {:?}", v, Prefix::try_from(v));
    }
    Ok(())
}
pub fn c18_version(s: &mut Src) -> R {
    let v = match s.below(4) { 0 => { let v = builtin()[s.below(8)].2; v.wrapping_add(s.below(5) as u32).wrapping_sub(2) } 1 => { let d = s.u64() as u32 & 0xff_ffff; 0x0400_0000 | d } _ => s.int(u32::MAX as u64) as u32 };
    s.note("version", format!("{:#x}", v));
    let mut d = v.to_be_bytes().to_vec();
    d.resize(78, 0);
    let t = o::b58check(&d)[..4].to_string();
    let ok = t.bytes().all(|b| b.is_ascii_alphabetic());
    for (what, r) in [("number", Prefix::try_from(v)), ("bytes", Prefix::from_bytes(v.to_be_bytes())), ("slice", Prefix::try_from(&v.to_be_bytes()[..]))] {
        match r {
            Ok(p) => ensure!(ok && p.version() == v && p.as_str() == t && p.to_bytes() == v.to_be_bytes() && p.is_private() == t.ends_with("prv") && p.is_public() == t.ends_with("pub"), "prefix from {} {:#x}: {:?} {:#x}, should be {:?}", what, v, p.as_str(), p.version(), t),
            Err(e) => ensure!(!ok, "prefix from {} {:#x}: {:?}, should be {:?}", what, v, e, t),
        }
    }
    Ok(())
}
pub fn c18_parts(s: &mut Src) -> R {
    let t = match s.below(3) { 0 => letters(s), 1 => { let c = letters(s); format!("{}{}", &c[..1], s.pick(&["prv", "pub", "PRV", "Pub", "rpv", "pvr"])) } _ => s.text() };
    let v = s.int(u32::MAX as u64) as u32;
    s.note("chars", format!("{:?}", t));
    let ok = t.len() == 4 && t.bytes().all(|b| b.is_ascii_alphabetic());
    if ok {
        let p = Prefix::from_parts_unchecked(&t, v);
        let r: &str = p.as_ref();
        ensure!(p.as_str() == t && r == t && p.to_string() == t && p.version() == v && p.to_bytes() == v.to_be_bytes() && u32::from(p) == v && u32::from(&p) == v, "prefix made from {:?} {:#x}: {:?} {:#x}", t, v, p.as_str(), p.version());
        ensure!(p.is_private() == t.ends_with("prv") && p.is_public() == t.ends_with("pub"), "{} private={} public={}", t, p.is_private(), p.is_public());
    }
    let n = s.below(9);
    let b = s.bytes(n);
    let r = Prefix::try_from(&b[..]);
    if n != 4 { ensure!(r.is_err(), "prefix from {} bytes", n); }
    Ok(())
}
pub fn c19_new(s: &mut Src) -> R {
    let i = child(s);
    let h = s.chance(1, 2);
    s.note("index", i); s.note("hardened", h);
    match ChildNumber::new(i, h) {
        Ok(c) => ensure!(i < 1 << 31 && c.index() == i && c.is_hardened() == h && c.0 == if h { i + (1 << 31) } else { i }, "ChildNumber::new({}, {}) = {}", i, h, c.0),
        Err(_) => ensure!(i >= 1 << 31, "ChildNumber::new({}, {}) fails", i, h),
    }
    let c = ChildNumber(i);
    ensure!(c.index() == i & 0x7fff_ffff && c.is_hardened() == (i >= 1 << 31), "child number {}: index {} hardened {}", i, c.index(), c.is_hardened());
    ensure!(ChildNumber::from(i) == c && u32::from(c) == i && c.to_bytes() == i.to_be_bytes() && ChildNumber::from_bytes(i.to_be_bytes()) == c, "child number {} by number or bytes", i);
    ensure!(c.to_string() == o::child_text(i), "child number {} printed as {:?}", i, c.to_string());
    ensure!(c.to_string().parse() == Ok(c), "child number {} printed as {:?} does not parse back", i, c.to_string());
    Ok(())
}
fn childtext(s: &mut Src) -> String {
    let mut t = match s.below(6) { 0 => s.text(), 1 => o::child_text(child(s)), 2 => format!("{}", child(s)), 3 => format!("{}", s.int(1 << 40)), 4 => format!("0{}", child(s)), _ => o::child_text(child(s)) };
    match s.below(16) { 0 => t.push('\''), 1 => t.insert(0, '+'), 2 => t.insert(0, '-'), 3 => t.push('h'), 4 => t.insert(0, ' '), 5 => t.push(' '), 6 => t.push('H'), 7 => t = t.replace('\'', ""), 8 => t.push('’'), 9 => t.insert(0, '\''), 10 => t = t.chars().map(|c| if c.is_ascii_digit() { char::from_u32(c as u32 - 48 + 0x660).unwrap() } else { c }).collect(), 11 => { let k = s.below(t.len() + 1); if t.is_char_boundary(k) { t.insert(k, '_') } } _ => {} }
    t
}
pub fn c19_text(s: &mut Src) -> R {
    let t = childtext(s);
    let t = if s.chance(1, 4) { s.twist(&t) } else { t };
    s.note("text", format!("{:?}", t));
    let got = t.parse::<ChildNumber>().ok().map(|c| c.0);
    ensure!(got == o::child(&t), "{:?} parsed as {:?}, should be {:?}", t, got, o::child(&t));
    Ok(())
}
pub fn c20_path(s: &mut Src) -> R {
    let v = long_steps(s);
    let p = dpath(&v);
    let t = p.to_string();
    ensure!(t == o::path_text(&v), "path {:?} printed as {:?}", v, t);
    let q: DerivationPath = t.parse().map_err(|e| format!("{:?} does not parse: {:?}", t, e))?;
    let st = |p: &DerivationPath| p.iter().map(|c| c.0).collect::<Vec<_>>();
    ensure!(st(&q) == v && q == p, "{:?} parsed as {:?}", t, q.to_string());
    ensure!(p.len() == v.len() && p.is_empty() == v.is_empty() && st(&p) == v, "path {:?}: len {} empty {} steps {:?}", v, p.len(), p.is_empty(), st(&p));
    let r: &[ChildNumber] = p.as_ref();
    ensure!(r.iter().map(|c| c.0).collect::<Vec<_>>() == v && p.clone().into_iter().map(|c| c.0).collect::<Vec<_>>() == v, "steps of {:?}", v);
    match p.parent() { Some(q) => ensure!(!v.is_empty() && st(&q) == v[..v.len() - 1], "parent of {:?} is {:?}", v, q.to_string()), None => ensure!(v.is_empty(), "{:?} has no parent", v) }
    let c = child(s);
    let mut q = p.clone();
    q.push(ChildNumber(c));
    let mut w = v.clone(); w.push(c);
    ensure!(st(&q) == w, "{:?} with {} pushed is {:?}", v, c, q.to_string());
    ensure!(q.parent().as_ref() == Some(&p), "parent of {:?}", w);
    let more = steps(s, true);
    q.extend(more.iter().map(|c| ChildNumber(*c)));
    w.extend(&more);
    ensure!(st(&q) == w, "{:?} extended by {:?} is {:?}", v, more, q.to_string());
    Ok(())
}
pub fn c20_text(s: &mut Src) -> R {
    let v = long_steps(s);
    let mut t = o::path_text(&v);
    match s.below(14) { 0 => t = t.replacen('m', "M", 1), 1 => t.push('/'), 2 => t.insert(0, '/'), 3 => t = t[1..].to_string(), 4 => { t.push('/'); t.push_str(&childtext(s)); } 5 => t = t.replace('/', "//"), 6 => t.insert(0, ' '), 7 => t.push(' '), 8 => t = s.text(), 9 => t = t.replacen('m', "mm", 1), 10 => t = t.replacen("m/", "m", 1), 11 => t = t.replacen("m", "", 1), 12 => { let c = childtext(s); t = format!("m/{}{}", c, &t[1..]); } _ => {} }
    let t = if s.chance(1, 4) { s.twist(&t) } else { t };
    s.note("text", format!("{:?}", t));
    let got = t.parse::<DerivationPath>().ok().map(|p| p.iter().map(|c| c.0).collect::<Vec<_>>());
    ensure!(got == o::path(&t), "{:?} parsed as {:?}, should be {:?}", t, got, o::path(&t));
    Ok(())
}
fn change(s: &mut Src, x: &XKey) -> (XKey, bool) {
    let mut y = x.clone();
    match s.below(8) {
        0 => { y.key = scalar(s); }
        1 => { y.depth = y.depth.wrapping_add(1 + s.below(255) as u8); }
        2 => { let k = s.below(4); y.fp[k] ^= 1 << s.below(8); }
        3 => { y.child ^= 1 << s.below(32); }
        4 => { let k = s.below(32); y.chain[k] ^= 1 << s.below(8); }
        5 => { let k = s.below(32); let mut z = y.key.clone(); z[k] ^= 1 << s.below(8); if o::scalar_ok(&z) { y.key = z; } }
        _ => {}
    }
    let eq = y == *x;
    (y, eq)
}
pub fn c21_eq(s: &mut Src) -> R {
    let mut x = xkey(s);
    if x.depth == 0 { x.depth = 1; }
    let (mut y, _) = change(s, &x);
    if y.depth == 0 { y.depth = 2; }
    let (a, b) = (xprv(&x)?, xprv(&y)?);
    s.note("other", show(&y));
    let eq = x == y;
    ensure!((a == b) == eq, "{} == {} is {}", show(&x), show(&y), a == b);
    ensure!(bool::from(a.ct_eq(&b)) == eq, "constant-time {} == {} is {}", show(&x), show(&y), bool::from(a.ct_eq(&b)));
    ensure!((b == a) == eq && (a != b) == !eq && bool::from(b.ct_eq(&a)) == eq, "comparison of {} and {} is not symmetric", show(&x), show(&y));
    let (p, q) = (a.public_key(), b.public_key());
    let eq = neuter(&x) == neuter(&y);
    ensure!((p == q) == eq && (q == p) == eq, "public {} == {} is {}", show(&neuter(&x)), show(&neuter(&y)), p == q);
    ensure!(a.clone() == a && p.clone() == p, "a key differs from its clone");
    Ok(())
}
pub fn c21_negated(s: &mut Src) -> R {
    let mut x = xkey(s);
    if x.depth == 0 { x.depth = 1; }
    let y = XKey { key: o::neg(&x.key), ..x.clone() };
    let (a, b) = (xprv(&x)?, xprv(&y)?);
    ensure!(a != b && !bool::from(a.ct_eq(&b)), "{} equals its negation", show(&x));
    ensure!(a.public_key() != b.public_key(), "public key of {} equals that of its negation", show(&x));
    Ok(())
}
pub fn c22_debug(s: &mut Src) -> R {
    let x = xkey(s);
    let y = XKey { key: scalar(s), ..x.clone() };
    let (a, b) = (xprv(&x)?, xprv(&y)?);
    ensure!(format!("{:?}", a) == format!("{:?}", b) && format!("{:#?}", a) == format!("{:#?}", b), "debug output depends on the key: {:?} {:?}", a, b);
    let d = format!("{:?}{:#?}", a, a).to_lowercase();
    let k = &x.key;
    // the chain code is shown, so an equal key's bytes are there without being leaked
    if k.iter().filter(|b| **b != 0).count() > 8 && *k != x.chain { ensure!(!d.contains(&hex(k)) && !d.contains(&format!("{:?}", &k[..])), "debug output shows the key: {}", d); }
    Ok(())
}
pub fn c22_mnemonic(s: &mut Src) -> R {
    let l = langs(s);
    let mut e = entropy(s);
    let at = s.below(6);
    if e.iter().all(|b| *b == 0) { e[0] = 1; }
    for (what, pat) in [("phrase", o::phrase(&e, l).into_bytes()), ("entropy", e.clone())] {
        for way in 0..4 {
            if way == 3 && what == "phrase" { continue; }
            let m = if way == 1 { Mnemonic::from_phrase(&o::phrase(&e, l), lang(l)) } else { Mnemonic::from_entropy(&e, lang(l)) }.map_err(|x| x.to_string())?;
            let (m, keep) = if way == 2 { let c = m.clone(); (c, Some(m)) } else { (m, None) };
            let found = if way == 3 { crate::alloc::watch(&pat, move || { let p = m.into_phrase(); std::mem::forget(p); }) } else { crate::alloc::watch_drop(&pat, at, m) };
            drop(keep);
            ensure!(!found, "the {} {} of a mnemonic dropped in situation {} (1: unwinding, 2: another thread, 3-5: collections) was left in memory", what, hex(&pat), at);
        }
    }
    Ok(())
}
pub fn c22_seed(s: &mut Src) -> R {
    let l = langs(s);
    let e = entropy(s);
    let m = Mnemonic::from_entropy(&e, lang(l)).map_err(|x| x.to_string())?;
    let seed = Seed::new(&m, "");
    let c = seed.clone();
    let pat = seed.as_bytes().to_vec();
    let at = s.below(6);
    ensure!(!crate::alloc::watch_drop(&pat, at, seed), "the seed {} was left in memory when dropped in situation {} (1: unwinding, 2: another thread, 3-5: collections)", hex(&pat), at);
    ensure!(!crate::alloc::watch_drop(&pat, at, c), "the cloned seed {} was left in memory when dropped", hex(&pat));
    Ok(())
}
pub fn c22_seed_tail(s: &mut Src) -> R {
    // every byte is overwritten, not only the first ones
    let l = langs(s);
    let e = entropy(s);
    let m = Mnemonic::from_entropy(&e, lang(l)).map_err(|x| x.to_string())?;
    let seed = Seed::new(&m, "");
    let k = s.below(64 - 8);
    let pat = seed.as_bytes()[k..k + 8].to_vec();
    ensure!(!crate::alloc::watch(&pat, move || drop(seed)), "bytes {} of a seed were left in memory when dropped", hex(&pat));
    let e = entropy(s);
    let m = Mnemonic::from_entropy(&e, lang(l)).map_err(|x| x.to_string())?;
    let k = s.below(e.len() - 8);
    if e[k..k + 8].iter().collect::<std::collections::HashSet<_>>().len() < 5 { return Ok(()); }
    let ph = m.phrase().as_bytes().to_vec();
    let j = s.below(ph.len() - 10);
    let (p1, p2) = (e[k..k + 8].to_vec(), ph[j..j + 10].to_vec());
    let m2 = m.clone();
    ensure!(!crate::alloc::watch(&p1, move || drop(m)), "entropy bytes {} were left in memory when dropped", hex(&p1));
    ensure!(!crate::alloc::watch(&p2, move || drop(m2)), "phrase bytes {} were left in memory when dropped", hex(&p2));
    Ok(())
}
pub fn c22_key(s: &mut Src) -> R {
    let x = xkey(s);
    let mut kbytes = kb(&x);
    if s.chance(1, 2) { for b in kbytes.iter_mut() { *b |= 1; } }
    let p = prefix(s);
    let ek = ExtendedKey { prefix: if s.chance(1, 2) { Prefix::XPRV } else { p }, attrs: attrs(&x), key_bytes: kbytes };
    let text = ek.to_string().parse::<ExtendedKey>().is_ok();
    let ek = match s.below(3) { 0 => ek.clone(), 1 if text => { let t = ek.to_string(); t.parse().map_err(|e| format!("{} rejected: {:?}", t, e))? } _ => ek };
    let left = crate::alloc::after_drop(ek, |k| (k.key_bytes.as_ptr(), k.key_bytes.len()));
    ensure!(left.iter().all(|b| *b == 0), "key bytes after drop: {}", hex(&left));
    let k = xprv(&x)?;
    let e2 = if s.chance(1, 2) { k.to_extended_key(p) } else { k.public_key().to_extended_key(p) };
    let left = crate::alloc::after_drop_unwinding(e2, |k| (k.key_bytes.as_ptr(), k.key_bytes.len()));
    ensure!(left.iter().all(|b| *b == 0), "key bytes after drop while unwinding: {}", hex(&left));
    let t = k.to_string(Prefix::XPRV);
    let pat = t.as_bytes().to_vec();
    ensure!(!crate::alloc::watch_drop(&pat[60..], s.below(6), t), "the text of a private key was left in memory when dropped");
    Ok(())
}
pub fn c23_sign(s: &mut Src) -> R {
    let k = scalar(s);
    let n = if s.chance(2, 3) { 32 } else { match s.below(3) { 0 => s.below(70), 1 => s.int(1000) as usize, _ => [31usize, 33, 0, 64][s.below(4)] } };
    let d = s.bytes(n);
    s.note("key", hex(&k)); s.note("digest", hex(&d));
    let mut a = [0u8; 32]; a.copy_from_slice(&k);
    let sk = libsecp256k1::SecretKey::parse(&a).unwrap();
    match kms::ecdsa_sign(&sk, &d) {
        Ok((sig, rec)) => {
            ensure!(n == 32, "digest of {} bytes signed", n);
            let m = libsecp256k1::Message::parse_slice(&d).unwrap();
            let (w, wr) = libsecp256k1::sign(&m, &sk);
            ensure!(sig == w.serialize() && rec == wr.serialize(), "signature of {} under {} is {} rec {}, should be {} rec {}", hex(&d), hex(&k), hex(&sig), rec, hex(&w.serialize()), wr.serialize());
            let ps = libsecp256k1::Signature::parse_standard(&sig).map_err(|e| format!("{:?}", e))?;
            let p = libsecp256k1::recover(&m, &ps, &libsecp256k1::RecoveryId::parse(rec).map_err(|e| format!("recovery id {}: {:?}", rec, e))?).map_err(|e| format!("{:?}", e))?;
            ensure!(p == libsecp256k1::PublicKey::from_secret_key(&sk), "signature of {} under {} recovers another key", hex(&d), hex(&k));
        }
        Err(_) => ensure!(n != 32, "digest {} not signed", hex(&d)),
    }
    Ok(())
}
pub fn c14_fmt(s: &mut Src) -> R {
    let x = xkey(s);
    let k = xprv(&x)?;
    let p = k.public_key();
    let _ = format!("{:?} {:#?} {:?} {:#?} {:?} {:?}", k, k, p, p, Prefix::XPRV, ChildNumber(x.child));
    let _ = format!("{:>10} {:<40} {:^5} {:.2}", ChildNumber(x.child), dpath(&[x.child]), Prefix::XPUB, k.to_extended_key(Prefix::XPRV));
    for e in [bip32::Error::Base58, bip32::Error::Bip39, bip32::Error::ChildNumber, bip32::Error::Crypto, bip32::Error::Decode, bip32::Error::Depth, bip32::Error::SeedLength] { let _ = format!("{} {:?}", e, e); }
    let _ = format!("{:?} {:?}", Language::default(), MnemonicType::default());
    Ok(())
}
pub type Check = (&'static str, fn(&mut Src) -> R, usize);
/// (name, function, weight); weight 0: run once
pub fn table(p: &str) -> Vec<Check> {
    macro_rules! t { ($($f:ident $w:expr),*) => { vec![$((stringify!($f), $f as fn(&mut Src) -> R, $w)),*] } }
    match p {
        "C01" => t![c01_encode 3, c01_lengths 1],
        "C02" => t![c02_accept 2, c02_validate 1],
        "C03" => t![c03_round 2, c03_back 1],
        "C04" => t![c04_all 0, c04_turns 0, c04_prefix_all 0, c04_index 1, c04_words 2, c04_prefix 2],
        "C05" => t![c05_seed 1],
        "C06" => t![c06_random 0, c06_process 0, c06_threads 0, c06_valid 1],
        "C07" => t![c07_table 0, c07_small 0, c07_lookup 1, c07_phrase 1],
        "C08" => t![c08_master 2, c08_lengths 1, c09_toy 1],
        "C09" => t![c09_child 4, c09_tweak 1, c09_keys 1, c09_toy 1],
        "C10" => t![c10_child 4, c09_tweak 1, c09_toy 1],
        "C11" => t![c11_agree 3, c11_paths 1, c09_tweak 1],
        "C12" => t![c12_prv 1, c12_pub 1, c12_seed 1, c12_far 1],
        "C13" => t![c13_all 0, c13_depth 2, c13_long 1],
        "C15" => t![c15_text 1],
        "C16" => t![c16_parse 3, c16_round 1],
        "C17" => t![c17_import 1, c17_direct 2],
        "C18" => t![c18_builtin 0, c18_version 2, c18_parts 1],
        "C19" => t![c19_new 1, c19_text 2],
        "C20" => t![c20_path 1, c20_text 2],
        "C21" => t![c21_eq 4, c21_negated 1],
        "C22" => t![c22_debug 1, c22_mnemonic 1, c22_seed 1, c22_seed_tail 2, c22_key 3],
        "C23" => t![c23_sign 1],
        "C24" => t![c24_hex 1, c24_hash 2],
        "C25" => t![c25_code 1, c25_detect 2, c25_own 1],
        "C14" => {
            let mut v = vec![];
            for i in 1..=25 { if i != 14 && i != 6 { for c in table(&format!("C{:02}", i)) { if !v.iter().any(|d: &Check| d.0 == c.0) && !c.0.starts_with("c22_") { v.push((c.0, c.1, c.2.min(1))); } } } }
            v.extend(t![c06_valid 1, c22_debug 1, c14_fmt 2]);
            v
        }
        _ => vec![],
    }
}
