//! Native runner: replay of counterexamples and bounded stand-ins.
#[cfg(kani)]
fn main() {}
#[cfg(not(kani))]
fn main() { native::main() }
#[cfg(not(kani))]
mod native {
use std::panic::{catch_unwind, AssertUnwindSafe};
use tbv::nd::native;

#[global_allocator]
static G: tbv::heap::Global = tbv::heap::Global;

enum Out { Pass, Rejected, Fail(String) }
fn run(f: fn()) -> Out {
    let r = catch_unwind(AssertUnwindSafe(|| { tbv::track::reset(); f(); tbv::heap::stop(); }));
    tbv::heap::stop();
    match r {
        Ok(()) => if tbv::heap::sane() { Out::Pass } else { Out::Fail("heap misuse: a block was requested or released wrongly".into()) },
        Err(e) if e.is::<native::Rejected>() => Out::Rejected,
        Err(e) => Out::Fail(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
    }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

pub fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    let all = tbv::all();
    let find = |n: &str| all.iter().find(|(m, _)| m.strip_prefix("tbv::").unwrap_or(m) == n).map(|x| x.1);
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => for (n, _) in &all { println!("{}", n.strip_prefix("tbv::").unwrap_or(n)) },
        // rand NAME SEED COUNT: that many accepted cases
        Some("rand") => {
            let f = find(&a[2]).expect("no such harness");
            let (seed, want): (u64, u32) = (a[3].parse().unwrap(), a[4].parse().unwrap());
            let (mut ok, mut tries) = (0, 0u64);
            let mut seen = std::collections::HashSet::new();
            while ok < want && tries < want as u64 * 50 {
                tries += 1;
                native::seed(seed.wrapping_mul(0x1_0000_0001).wrapping_add(tries));
                println!("TRY {}", tries);
                match run(f) {
                    Out::Pass => { ok += 1; seen.insert(native::used()); }
                    Out::Rejected => (),
                    Out::Fail(m) => { println!("FAIL {} bytes={} {}", a[2], hex(&native::used()), m.replace('\n', " ")); std::process::exit(1) }
                }
            }
            println!("OK {} cases={} distinct={} tries={}", a[2], ok, seen.len(), tries);
        }
        // replay NAME HEXBYTES
        Some("replay") => {
            let f = find(&a[2]).expect("no such harness");
            native::bytes(&unhex(a.get(3).map(|s| s.as_str()).unwrap_or("")));
            match run(f) {
                Out::Pass => println!("PASS {}", a[2]),
                Out::Rejected => println!("REJECTED {}", a[2]),
                Out::Fail(m) => { println!("FAIL {} {}", a[2], m.replace('\n', " ")); std::process::exit(1) }
            }
        }
        _ => { eprintln!("usage: list | rand NAME SEED COUNT | replay NAME HEX"); std::process::exit(2) }
    }
}
}
