mod alloc;
mod checks;
mod facts;
mod refs;
mod oracle;
mod src;
use src::{Dict, Src, PANIC};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Watch = alloc::Watch;

fn load_dict(path: &str) -> Dict {
    let mut d = Dict::default();
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        if let Some(x) = l.strip_prefix("i ") { if let Ok(v) = x.parse() { d.ints.push(v); } }
        if let Some(x) = l.strip_prefix("s ") { d.strs.push(x.replace("\\n", "\n").replace("\\r", "\r")); }
        if let Some(x) = l.strip_prefix("S ") { d.fresh.push(x.replace("\\n", "\n").replace("\\r", "\r")); }
    }
    d
}
/// Some((message, panicked)) when the check fails
fn run1(f: fn(&mut Src) -> checks::R, s: &mut Src) -> Option<(String, bool)> {
    PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(|| f(s))) {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some((e, false)),
        Err(_) => Some((format!("panicked: {}", PANIC.with(|p| p.borrow().clone())), true)),
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| { let m = i.to_string(); let _ = PANIC.try_with(|p| *p.borrow_mut() = m); }));
    match a.get(1).map(|x| x.as_str()) {
        Some("fresh") => {
            for _ in 0..4 { println!("{}", kms::bip39::Mnemonic::new(kms::bip39::MnemonicType::Words24, kms::bip39::Language::English).phrase()); }
        }
        Some("facts") => facts::run(),
        // search PROP SEED SECONDS DICT OUT
        Some("search") => {
            let (prop, seed, secs, dict, out) = (&a[2], a[3].parse::<u64>().unwrap_or(1), a[4].parse::<f64>().unwrap_or(10.0), load_dict(&a[5]), &a[6]);
            let t0 = Instant::now();
            let table = checks::table(prop);
            let mut counts = vec![0u64; table.len()];
            let fail = |name: &str, s: &Src, msg: &str| -> ! {
                let mut f = std::fs::File::create(out).unwrap();
                let _ = writeln!(f, "check {}", name);
                let _ = writeln!(f, "property {}", prop);
                let _ = writeln!(f, "choices {}", s.log.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
                for n in &s.notes { let _ = writeln!(f, "input {}", n.replace('\n', "\\n")); }
                let _ = writeln!(f, "failure {}", msg.replace('\n', "\\n"));
                println!("WITNESS {} {}", name, msg.replace('\n', " "));
                std::process::exit(1);
            };
            let only_panics = prop == "C14";
            // a case is non-trivial when it drew at least one input; distinct by its list of choices
            let mut seen = std::collections::HashSet::new();
            let mut samples: Vec<String> = vec![];
            let mut round = 0u64;
            let mut repeats = Duration::ZERO;
            // other operations in between, whatever they answer: what they leave behind must not matter
            let noise: Vec<checks::Check> = if prop == "C22" || prop == "C06" { vec![] } else { checks::table("C14").into_iter().filter(|c| c.2 > 0).collect() };
            let threads = std::env::var("KMS_THREADS").ok().and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            if threads > 0 && prop != "C22" {
                // the same checks from several threads at once
                let one = std::sync::Mutex::new(());
                let table: Vec<_> = table.iter().filter(|c| c.2 > 0).cloned().collect();
                std::thread::scope(|sc| for t in 0..threads {
                    let (table, dict, one, fail) = (&table, &dict, &one, &fail);
                    sc.spawn(move || {
                        let mut round = 0u64;
                        while t0.elapsed() <= Duration::from_secs_f64(secs) {
                            for (k, (name, f, _)) in table.iter().enumerate() {
                                let mut s = Src::new(seed.wrapping_mul(1_000_003) ^ (round << 20) ^ ((k as u64) << 8) ^ (t << 56), dict.clone());
                                if let Some((m, p)) = run1(*f, &mut s) { if p || !only_panics { let _g = one.lock(); fail(name, &s, &format!("with {} threads at once: {}", threads, m)); } }
                            }
                            round += 1;
                        }
                    });
                });
                println!("QUIET threads={}", threads);
                return;
            }
            let trace = std::env::var("KMS_TRACE").ok();
            // code that keeps state between calls: more of the time goes into repetition
            let state = std::env::var("KMS_STATE").is_ok();
            let (share, most) = if state { (0.7, 5) } else { (0.2, 2) };
            let mut phase = seed as usize;
            loop {
                for (k, (name, f, w)) in table.iter().enumerate() {
                    let times = if *w == 0 { (round == 0) as usize } else { *w };
                    for j in 0..times {
                        let mut s = Src::new(seed.wrapping_mul(1_000_003) ^ (round << 20) ^ ((k as u64) << 8) ^ j as u64, dict.clone());
                        counts[k] += 1;
                        // after a run that died: the case about to run is written down, so that it can be named
                        if let Some(p) = &trace { let _ = std::fs::write(p, format!("check {}\nproperty {}\nround {} k {} j {}\nseed {}\n", name, prop, round, k, j, seed)); }
                        if let Some((m, p)) = run1(*f, &mut s) { if p || !only_panics { fail(name, &s, &m); } }
                        if !s.log.is_empty() && seen.len() < 4_000_000 {
                            use std::hash::{Hash, Hasher};
                            let mut h = std::collections::hash_map::DefaultHasher::new();
                            (k, &s.log).hash(&mut h);
                            seen.insert(h.finish());
                        }
                        if round < 2 && samples.len() < 12 && !s.notes.is_empty() { samples.push(format!("{}: {}", name, s.notes.join(" ").chars().take(300).collect::<String>())); }
                        if round > 0 && t0.elapsed() > Duration::from_secs_f64(secs) { break; }
                    }
                }
                if !noise.is_empty() {
                    let mut s = Src::new(seed.wrapping_mul(77_003) ^ (round << 20), dict.clone());
                    let k = s.below(noise.len());
                    let _ = run1(noise[k].1, &mut s);
                }
                // now and then one case over and over again: it must go on giving the same answer
                if prop != "C22" && (round.is_power_of_two() || round % 256 == 0) && repeats.as_secs_f64() < share * t0.elapsed().as_secs_f64() + 0.4 || state && repeats.as_secs_f64() < share * t0.elapsed().as_secs_f64() {
                    let t1 = Instant::now();
                    let mut s = Src::new(seed.wrapping_mul(55_001) ^ (round << 20), dict.clone());
                    let some: Vec<_> = table.iter().filter(|c| c.2 > 0).collect();
                    if !some.is_empty() {
                        let c = if state { phase += 1; some[phase % some.len()] } else { some[s.below(some.len())] };
                        let mut s = Src::new(seed.wrapping_mul(55_001) ^ (round << 20) ^ 1, dict.clone());
                        let mut one = run1(c.1, &mut s);
                        for i in 0..1100 {
                            if let Some((m, p)) = &one { if *p || !only_panics { fail(c.0, &s, &format!("at repetition {}: {}", i, m)); } break; }
                            if t0.elapsed() > Duration::from_secs_f64(secs) || t1.elapsed() > Duration::from_secs(most) { break; }
                            s = Src::replay(s.log.clone(), dict.clone());
                            one = run1(c.1, &mut s);
                        }
                    }
                    repeats += t1.elapsed();
                }
                round += 1;
                if t0.elapsed() > Duration::from_secs_f64(secs) { break; }
            }
            for x in &samples { println!("SAMPLE {}", x.replace('\n', "\\n")); }
            println!("DISTINCT {}", seen.len());
            println!("QUIET {}", table.iter().zip(&counts).map(|(t, c)| format!("{}={}", t.0, c)).collect::<Vec<_>>().join(" "));
        }
        // replay FILE DICT
        Some("replay") => {
            let t = std::fs::read_to_string(&a[2]).unwrap_or_default();
            if let Some(l) = t.lines().find_map(|l| l.strip_prefix("round ")) {
                let v: Vec<u64> = l.split(' ').filter_map(|x| x.parse().ok()).collect();
                let seed = t.lines().find_map(|l| l.strip_prefix("seed ")).and_then(|x| x.trim().parse::<u64>().ok()).unwrap_or(1);
                let prop = t.lines().find_map(|l| l.strip_prefix("property ")).unwrap_or("").trim();
                let (_, f, _) = checks::table(prop)[v[1] as usize];
                let mut s = Src::new(seed.wrapping_mul(1_000_003) ^ (v[0] << 20) ^ (v[1] << 8) ^ v[2], load_dict(a.get(3).map(|x| x.as_str()).unwrap_or("")));
                let _ = run1(f, &mut s);
                println!("PASSES");
                return;
            }
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
            let (name, prop) = (get("check "), get("property "));
            let choices = get("choices ").split(',').filter_map(|x| x.parse().ok()).collect();
            let dict = load_dict(a.get(3).map(|x| x.as_str()).unwrap_or(""));
            for (n, f, _) in checks::table(&prop) {
                if n == name {
                    let mut s = Src::replay(choices, dict);
                    match run1(f, &mut s) {
                        Some((m, _)) => { println!("FAILS {}", m); for n in &s.notes { println!("  {}", n); } std::process::exit(1); }
                        None => { println!("PASSES"); return; }
                    }
                }
            }
            println!("no such check");
            std::process::exit(2);
        }
        _ => { eprintln!("search PROP SEED SECONDS DICT OUT | replay FILE DICT"); std::process::exit(2); }
    }
}
