#![feature(f16)]
#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
mod alloc;
mod color;
mod cpu;
mod driver;
mod gen;
mod isa;
mod mini;
mod model;
mod ops;
mod oracle;
mod plan;
mod rng;
mod run;
mod sched;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if !cpu::init() {
        eprintln!("pssim: the CPU feature cache of std could not be found");
        std::process::exit(3);
    }
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => driver::check(&driver::Conf {
            prop: arg(&a, "--property").unwrap(),
            thorough: arg(&a, "--tier").as_deref() == Some("thorough"),
            seed: arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
            evidence: arg(&a, "--evidence"),
            replays: arg(&a, "--replays").unwrap_or_else(|| "/tmp".into()),
            known: arg(&a, "--known"),
            runs: arg(&a, "--runs").and_then(|s| s.parse().ok()),
            secs: arg(&a, "--seconds").and_then(|s| s.parse().ok()),
            workers: arg(&a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8),
            share: arg(&a, "--share").and_then(|s| s.parse().ok()).unwrap_or(1),
            into: arg(&a, "--into"),
            shrink: arg(&a, "--shrink").and_then(|s| s.parse().ok()).unwrap_or(40),
        }),
        Some("replay") => driver::replay(&a[2], a.iter().any(|x| x == "--verbose")),
        Some("digests") => driver::digests(&a[2], arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1), arg(&a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(200), arg(&a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8)),
        Some("coverage") => driver::coverage(&a[2].split(',').map(|s| s.to_string()).collect::<Vec<_>>(), arg(&a, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1), arg(&a, "--runs").and_then(|s| s.parse().ok()).unwrap_or(200), arg(&a, "--workers").and_then(|s| s.parse().ok()).unwrap_or(8)),
        Some("try") => driver::try_(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        _ => {
            eprintln!("usage: pssim check --property P.. --tier quick|thorough | replay FILE | digests P..");
            3
        }
    };
    std::process::exit(code);
}
