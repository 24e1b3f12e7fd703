//! Bounded search for failing inputs on the real code, one generator and oracle
//! per property. Used to replay what the verifier rejects and as the labelled
//! bounded part of each check; it never counts as proof.
mod util;
mod p_engine;
mod p_elem;
mod p_ckt;
mod p_deck;
mod p_prog;

use std::io::Write;
use std::sync::Mutex;
use std::time::{Duration, Instant};
use util::Rng;

pub struct Ctx {
    pub r: Rng,
    pub case: u64,
    pub nontrivial: bool,
}

static DESC: Mutex<String> = Mutex::new(String::new());
static PANIC: Mutex<String> = Mutex::new(String::new());
static STATE: Mutex<(u64, Option<Instant>)> = Mutex::new((0, None));

/// Describe the inputs of the running case (before the code under test sees them).
pub fn desc(s: String) { *DESC.lock().unwrap() = s; }

/// Run code that may abort. None: it did.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn report(out: &str, prop: &str, seed: u64, cases: u64, nontrivial: u64, samples: &[String], viol: Option<(u64, String, String)>) {
    let mut s = format!("{{\"property\": \"{}\", \"seed\": {}, \"cases\": {}, \"nontrivial\": {}, \"samples\": [", prop, seed, cases, nontrivial);
    s += &samples.iter().map(|x| format!("\"{}\"", esc(x))).collect::<Vec<_>>().join(", ");
    s += "], \"violation\": ";
    match viol {
        None => s += "null",
        Some((c, what, inp)) => s += &format!("{{\"case\": {}, \"what\": \"{}\", \"input\": \"{}\"}}", c, esc(&what), esc(&inp)),
    }
    s += "}\n";
    let mut f = std::fs::File::create(out).expect("can't write the result file");
    f.write_all(s.as_bytes()).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").map_or(1, |s| s.parse().unwrap());
    let cases: u64 = get("--cases").map_or(500, |s| s.parse().unwrap());
    let secs: u64 = get("--seconds").map_or(60, |s| s.parse().unwrap());
    let out = get("--out").unwrap_or("out.json".into());
    let only: Option<u64> = get("--only").map(|s| s.parse().unwrap());
    let f: fn(&mut Ctx) -> Result<(), String> = match prop.as_str() {
        "C01" => p_engine::c01,
        "C02" => p_engine::c02,
        "C03" => p_engine::c03,
        "C04" => p_engine::c04,
        "C05" => p_engine::c05,
        "C06" => p_elem::c06,
        "C07" => p_elem::c07,
        "C08" => p_ckt::c08,
        "C09" => p_ckt::c09,
        "C10" => p_deck::c10,
        "C11" => p_deck::c11,
        "C12" => p_elem::c12,
        "C13" => p_deck::c13,
        "C14" => p_deck::c14,
        "C15" => p_deck::c15,
        "C16" => p_engine::c16,
        "C17" => p_engine::c17,
        "C18" => p_prog::c18,
        _ => panic!("no property {}", prop),
    };
    std::panic::set_hook(Box::new(|i| {
        *PANIC.lock().unwrap() = i.to_string();
    }));
    // watchdog: a case that does not end is a violation
    {
        let (prop, out) = (prop.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let (c, t) = *STATE.lock().unwrap();
            if let Some(t) = t {
                if t.elapsed() > Duration::from_secs(40) {
                    let d = DESC.lock().unwrap().clone();
                    report(&out, &prop, seed, c, 0, &[], Some((c, "does not terminate (40 s)".into(), d)));
                    std::process::exit(0);
                }
            }
        });
    }
    let start = Instant::now();
    let mut done = 0;
    let mut nontrivial = 0;
    let mut samples = vec![];
    let (lo, hi) = match only { Some(c) => (c, c + 1), None => (0, cases) };
    for case in lo..hi {
        if start.elapsed().as_secs() > secs { break; }
        desc(String::new());
        PANIC.lock().unwrap().clear();
        *STATE.lock().unwrap() = (case, Some(Instant::now()));
        let mut ctx = Ctx { r: Rng::new(seed, case), case, nontrivial: false };
        let res = guarded(|| f(&mut ctx));
        let d = DESC.lock().unwrap().clone();
        let viol = match res {
            Some(Ok(())) => None,
            Some(Err(w)) => Some(w),
            None => Some(format!("aborts: {}", PANIC.lock().unwrap())),
        };
        done += 1;
        if ctx.nontrivial { nontrivial += 1; if samples.len() < 2 { samples.push(d.chars().take(600).collect()); } }
        if let Some(w) = viol {
            report(&out, &prop, seed, done, nontrivial, &samples, Some((case, w, d)));
            return;
        }
    }
    *STATE.lock().unwrap() = (0, None);
    report(&out, &prop, seed, done, nontrivial, &samples, None);
}
