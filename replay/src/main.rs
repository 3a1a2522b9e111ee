//! Bounded replay of the properties against the real crate.
//! replay <property> <seed> <seconds> <out.json> <replay-file> [--only <case seed>]
mod checks;
mod facts;
mod gens;
mod refp;
mod rng;

use rng::Rng;
use std::collections::HashSet;
use std::hash::{DefaultHasher, Hash, Hasher};
use std::io::Write;
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub static CURRENT: Mutex<String> = Mutex::new(String::new());
static STARTED: AtomicU64 = AtomicU64::new(0);
static PANIC: Mutex<String> = Mutex::new(String::new());

/// Remember the case under way, so that a panic or a hang can name it.
pub fn case(s: impl Into<String>) {
    *CURRENT.lock().unwrap_or_else(|e| e.into_inner()) = s.into();
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn report(file: &str, prop: &str, seed: u64, what: &str) {
    let cur = CURRENT.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let p = PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone();
    let text = format!(
        "property: {prop}\ncase seed: {seed}\nfailure: {what}\n{}\ncase (Rust debug form):\n{:?}\n\ncase (as text):\n{}\n\nrun again: replay/target/release/replay {prop} 0 0 /tmp/out.json /tmp/replay.txt --only {seed}\n",
        if p.is_empty() { String::new() } else { format!("panic: {p}\n") },
        cur, cur
    );
    std::fs::write(file, &text).unwrap();
    let mut o = std::io::stdout();
    let _ = writeln!(o, "FAIL {prop} case={seed} {}", what.chars().take(300).collect::<String>().replace('\n', " "));
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let prop = a[1].clone();
    if prop == "KNOWN" {
        // exit 0 while the recorded finding can still be shown
        let shown = match &a[2][..] {
            "tz-param-text" => checks::known_tz_param_text(),
            _ => false,
        };
        std::process::exit(if shown { 0 } else { 3 });
    }
    let seed: u64 = a[2].parse().unwrap();
    let secs: f64 = a[3].parse().unwrap();
    let (out, file) = (a[4].clone(), a[5].clone());
    let only: Option<u64> = if a.get(6).map(|s| &s[..]) == Some("--only") { Some(a[7].parse().unwrap()) } else { None };
    std::panic::set_hook(Box::new(|i| {
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string();
    }));
    let start = Instant::now();
    {
        let (prop, file) = (prop.clone(), file.clone());
        std::thread::spawn(move || {
            loop {
                std::thread::sleep(Duration::from_millis(500));
                let s = STARTED.load(Ordering::SeqCst);
                if s > 0 && start.elapsed().as_millis() as u64 > s + 20_000 {
                    report(&file, &prop, 0, "the call did not return within 20 s");
                    std::process::exit(1);
                }
            }
        });
    }
    let mut seen: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let (mut n, mut skipped, mut nontrivial) = (0u64, 0u64, 0u64);
    let check = checks::find(&prop);
    let mut fixed = 0u64;
    let mut fail = None;
    let mut run = |cs: u64, f: &mut dyn FnMut(&mut Rng) -> checks::Out| -> Result<(), (u64, String)> {
        STARTED.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
        PANIC.lock().unwrap_or_else(|e| e.into_inner()).clear();
        case("");
        let mut r = Rng(cs);
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut r)));
        STARTED.store(0, Ordering::SeqCst);
        match res {
            Err(_) => Err((cs, "the call panicked (or the printed form of the reference differs)".into())),
            Ok(Err(checks::Stop::Fail(w))) => Err((cs, w)),
            Ok(Err(checks::Stop::Skip)) => {
                skipped += 1;
                Ok(())
            }
            Ok(Ok(trivial)) => {
                n += 1;
                let c = CURRENT.lock().unwrap().clone();
                let mut h = DefaultHasher::new();
                c.hash(&mut h);
                if seen.len() < 4_000_000 && seen.insert(h.finish()) && !trivial {
                    nontrivial += 1;
                    if samples.len() < 3 && c.len() > 20 && c.len() < 600 {
                        samples.push(c);
                    }
                }
                Ok(())
            }
        }
    };
    if let Some(cs) = only {
        if let Err(e) = run(cs, &mut |r| check.random(r)) {
            fail = Some(e);
        }
    } else {
        for i in 0..check.fixed() {
            fixed += 1;
            if let Err(e) = run(i as u64, &mut |_| check.fixed_case(i)) {
                fail = Some(e);
                break;
            }
        }
        let mut i = 0u64;
        while fail.is_none() && start.elapsed().as_secs_f64() < secs {
            let cs = Rng(seed.wrapping_mul(1_000_003).wrapping_add(i)).next() | 1;
            if let Err(e) = run(cs, &mut |r| check.random(r)) {
                fail = Some(e);
            }
            i += 1;
        }
    }
    let ok = fail.is_none();
    let s: Vec<String> = samples.iter().map(|s| json(s)).collect();
    std::fs::write(
        &out,
        format!(
            "{{\"evaluations\":{n},\"distinct_nontrivial\":{nontrivial},\"skipped\":{skipped},\"fixed\":{fixed},\"samples\":[{}],\"ok\":{ok}}}\n",
            s.join(",")
        ),
    )
    .unwrap();
    if let Some((cs, w)) = fail {
        report(&file, &prop, cs, &w);
        std::process::exit(1);
    }
}
