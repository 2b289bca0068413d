//! `replay-x64 CONTRACT HEX,HEX,...`  replays one verifier counterexample
//!    (one hex byte string per drawn value, little endian);
//! `replay-x64 --search PROP SEED N`  bounded search for a failing input;
//! exit 1 and the failing input on stdout if the postcondition is broken.
use contracts_x64::contracts::{table, Src};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum NativeSrc {
    Replay(Vec<Vec<u8>>, usize),
    Rand(u64, Vec<Vec<u8>>),
}
impl NativeSrc {
    fn draw(&mut self, n: usize) -> u64 {
        match self {
            NativeSrc::Replay(v, i) => {
                let mut b = [0u8; 8];
                if let Some(x) = v.get(*i) {
                    b[..x.len().min(n)].copy_from_slice(&x[..x.len().min(n)]);
                }
                *i += 1;
                u64::from_le_bytes(b)
            }
            NativeSrc::Rand(s, log) => {
                let mut next = || {
                    *s ^= *s << 13;
                    *s ^= *s >> 7;
                    *s ^= *s << 17;
                    *s
                };
                let r = next();
                let edge = [0, 1, 4, 5, 42, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000,
                    0x7fff_ffff, 0x8000_0000, 0xffff_ff80, 0xffff_ffff, 0x1_0000_0000, 1 << 63, u64::MAX];
                let v = if r & 3 != 0 { edge[(next() % edge.len() as u64) as usize] } else { next() >> (next() % 64) };
                log.push(v.to_le_bytes()[..n].to_vec());
                v
            }
        }
    }
}
impl Src for NativeSrc {
    fn u8(&mut self) -> u8 { self.draw(1) as u8 }
    fn u16(&mut self) -> u16 { self.draw(2) as u16 }
    fn u32(&mut self) -> u32 { self.draw(4) as u32 }
    fn u64(&mut self) -> u64 { self.draw(8) }
    fn below(&mut self, n: u8) -> u8 {
        if let NativeSrc::Rand(s, log) = self {
            *s ^= *s << 13;
            *s ^= *s >> 7;
            *s ^= *s << 17;
            let v = (*s >> 11) as u8 % n;
            log.push(vec![v]);
            return v;
        }
        self.draw(1) as u8 % n
    }
}

fn holds(f: fn(&mut NativeSrc) -> bool, s: &mut NativeSrc) -> bool {
    catch_unwind(AssertUnwindSafe(|| f(s))).unwrap_or(false)
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| if contracts_x64::verbose() { println!("  panic: {}", i) }));
    let t = table::<NativeSrc>();
    if a[0] == "--list" {
        for (n, p, _) in &t {
            println!("{} {}", n, p.join(","));
        }
        return;
    }
    if a[0] == "--search" {
        let (prop, seed, n): (&str, u64, u64) = (&a[1], a[2].parse().unwrap(), a[3].parse().unwrap());
        let mut runs = 0u64;
        for (name, props, f) in &t {
            if !props.contains(&prop) {
                continue;
            }
            let mut state = seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
            for _ in 0..n {
                let mut s = NativeSrc::Rand(state, vec![]);
                let ok = holds(*f, &mut s);
                runs += 1;
                if let NativeSrc::Rand(st, log) = s {
                    state = st;
                    if !ok {
                        contracts_x64::set_verbose(true);
                        println!("contract {}", name);
                        let hex: Vec<String> = log.iter().map(|v| v.iter().map(|b| format!("{:02x}", b)).collect()).collect();
                        println!("values {}", hex.join(","));
                        holds(*f, &mut NativeSrc::Replay(log, 0));
                        std::process::exit(1);
                    }
                }
            }
        }
        println!("runs {}", runs);
        return;
    }
    let vals: Vec<Vec<u8>> = a.get(1).map(|s| s.as_str()).unwrap_or("").split(',').filter(|s| !s.is_empty())
        .map(|h| (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()).collect();
    contracts_x64::set_verbose(true);
    println!("contract {}", a[0]);
    let f = t.iter().find(|x| x.0 == a[0]).expect("unknown contract").2;
    if !holds(f, &mut NativeSrc::Replay(vals, 0)) {
        println!("postcondition BROKEN");
        std::process::exit(1);
    }
    println!("postcondition holds");
}
