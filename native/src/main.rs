//! `oracle search PROP SEED MILLISECONDS`  looks for an input of /repo's code
//!     that breaks the property; exit 1 and the input on stdout if there is one.
//! `oracle replay PROP CASE`  runs one case again.
//! `oracle list`  the properties it knows.
mod asm;
mod cli;
#[path = "../../contracts-x64/src/decode.rs"]
#[allow(dead_code)]
mod decode;
mod iofault;
mod layout;
mod mac;
mod obj;
mod regs;
mod rng;
use rng::Rng;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub type Res = Result<(), String>;
type Suite = fn(&mut Rng) -> Res;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return Err(format!($($f)*)); } };
}

/// runs `f`; a panic is an error
pub fn attempt<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("{} panicked: {}", what, m)
    })
}

const SUITES: &[(&str, Suite)] = &[
    ("C04", mac::c04), ("C05", mac::c05), ("C06", mac::c06), ("C07", mac::c07), ("C08", mac::c08), ("C09", mac::c09),
    ("C10", obj::c10), ("C11", obj::c11), ("C12", obj::c12), ("C13", obj::c13),
    ("C14", asm::c14), ("C15", asm::c15), ("C16", asm::c16), ("C17", asm::c17), ("C18", asm::c18), ("C19", regs::c19), ("C20", asm::c20),
    ("C21", iofault::c21), ("C22", cli::c22), ("C23", cli::c23),
];

fn one(f: Suite, case: u64) -> Res {
    match attempt("the check", || f(&mut Rng::new(case))) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

static CASE: AtomicU64 = AtomicU64::new(0);
/// a case takes milliseconds: one that is still running after 40 ticks hangs
fn watch() {
    let (mut last, mut ticks) = (u64::MAX, 0);
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let now = CASE.load(Ordering::SeqCst);
        ticks = if now == last { ticks + 1 } else { 0 };
        last = now;
        if ticks == 40 {
            println!("FAIL {}\nno result: the code under test does not come to an end", now);
            std::process::exit(1);
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|_| {}));
    let suite = |p: &str| SUITES.iter().find(|x| x.0 == p).expect("unknown property").1;
    match a[0].as_str() {
        "list" => SUITES.iter().for_each(|x| println!("{}", x.0)),
        "replay" => {
            let f = suite(&a[1]);
            for c in &a[2..] {
                match one(f, c.parse().unwrap()) {
                    Ok(()) => println!("case {}: the property holds", c),
                    Err(e) => {
                        println!("case {}: property {} BROKEN\n{}", c, a[1], e);
                        std::process::exit(1);
                    }
                }
            }
        }
        "worker" => {
            // PROP SEED MS INDEX: cases are announced so that a crash can be placed
            let (seed, ms, k): (u64, u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
            let f = suite(&a[1]);
            let t = std::time::Instant::now();
            let mut n = 0u64;
            let mark = a.get(5).and_then(|p| std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p).ok());
            std::thread::spawn(watch);
            while t.elapsed().as_millis() < ms as u128 {
                let case = seed.wrapping_mul(1_000_003).wrapping_add(k << 40).wrapping_add(n);
                CASE.store(case, Ordering::SeqCst);
                if let Some(m) = &mark { let _ = m.write_at(&case.to_le_bytes(), 0); }
                if let Err(e) = one(f, case) {
                    println!("FAIL {}\n{}", case, e);
                    std::process::exit(1);
                }
                n += 1;
            }
            println!("RUNS {}", n);
        }
        "search" => {
            let jobs = 8;
            let me = std::env::current_exe().unwrap();
            let place = |k: usize| me.with_file_name(format!("case-{}-{}", std::process::id(), k));
            let kids: Vec<_> = (0..jobs)
                .map(|k| {
                    // 6 GB each: code that allocates without end must not take the machine down
                    std::process::Command::new("sh")
                        .args(["-c", "ulimit -v 6000000; exec \"$@\"", "sh"])
                        .arg(&me)
                        .args(["worker", &a[1], &a[2], &a[3], &k.to_string()])
                        .arg(place(k))
                        .stdout(std::process::Stdio::piped())
                        .stderr(std::process::Stdio::null())
                        .spawn()
                        .unwrap()
                })
                .collect();
            let mut runs = 0u64;
            let mut fails: Vec<(usize, String)> = vec![];
            for (k, kid) in kids.into_iter().enumerate() {
                let o = kid.wait_with_output().unwrap();
                let s = String::from_utf8_lossy(&o.stdout).to_string();
                if let Some(x) = s.lines().find_map(|l| l.strip_prefix("RUNS ")) {
                    runs += x.parse::<u64>().unwrap();
                } else if let Some(i) = s.find("FAIL ") {
                    fails.push((s.len(), s[i + 5..].to_string()));
                } else {
                    let b = std::fs::read(place(k)).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(0);
                    fails.push((usize::MAX, format!("{}\nthe process under test died: {:?}", b, o.status)));
                }
                let _ = std::fs::remove_file(place(k));
            }
            fails.sort();
            println!("runs {}", runs);
            if let Some((_, f)) = fails.first() {
                let (case, text) = f.split_once('\n').unwrap_or((f, ""));
                println!("property {} BROKEN, case {}\n{}\nreplay: {} replay {} {}", a[1], case, text, me.display(), a[1], case);
                std::process::exit(1);
            }
        }
        _ => std::process::exit(3),
    }
}
