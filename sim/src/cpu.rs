//! Simulated CPU: the run-time feature detection cache of std is the seam. The simulator writes the
//! cache word, so the library believes it runs on whatever CPU model the seed picked.
use std::sync::atomic::{AtomicUsize, Ordering};

pub const FEATURES: [&str; 24] = [
    "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "fma", "avx2", "bmi1", "bmi2", "lzcnt", "movbe",
    "avxvnni", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512vbmi", "avx512vnni", "avx512ifma",
    "avx512fp16", "avx512bf16",
];
fn detect(i: usize) -> bool {
    match i {
        0 => is_x86_feature_detected!("sse3"),
        1 => is_x86_feature_detected!("ssse3"),
        2 => is_x86_feature_detected!("sse4.1"),
        3 => is_x86_feature_detected!("sse4.2"),
        4 => is_x86_feature_detected!("popcnt"),
        5 => is_x86_feature_detected!("avx"),
        6 => is_x86_feature_detected!("f16c"),
        7 => is_x86_feature_detected!("fma"),
        8 => is_x86_feature_detected!("avx2"),
        9 => is_x86_feature_detected!("bmi1"),
        10 => is_x86_feature_detected!("bmi2"),
        11 => is_x86_feature_detected!("lzcnt"),
        12 => is_x86_feature_detected!("movbe"),
        13 => is_x86_feature_detected!("avxvnni"),
        14 => is_x86_feature_detected!("avx512f"),
        15 => is_x86_feature_detected!("avx512cd"),
        16 => is_x86_feature_detected!("avx512bw"),
        17 => is_x86_feature_detected!("avx512dq"),
        18 => is_x86_feature_detected!("avx512vl"),
        19 => is_x86_feature_detected!("avx512vbmi"),
        20 => is_x86_feature_detected!("avx512vnni"),
        21 => is_x86_feature_detected!("avx512ifma"),
        22 => is_x86_feature_detected!("avx512fp16"),
        _ => is_x86_feature_detected!("avx512bf16"),
    }
}
/// CPU models: name and the number of leading entries / explicit features
pub const MODELS: [(&str, &[&str]); 12] = [
    ("native", &[]),
    ("core2-65nm", &["sse3", "ssse3"]),
    ("penryn", &["sse3", "ssse3", "sse4.1"]),
    ("nehalem", &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt"]),
    ("sandybridge", &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx"]),
    ("ivybridge", &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c"]),
    ("piledriver", &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "fma", "bmi1", "lzcnt"]),
    (
        "haswell",
        &[
            "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "fma", "avx2", "bmi1", "bmi2", "lzcnt",
            "movbe",
        ],
    ),
    (
        // VIA Eden X4 class: AVX2 without FMA
        "eden-x4",
        &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "avx2", "bmi1", "bmi2"],
    ),
    (
        "alderlake",
        &[
            "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "fma", "avx2", "bmi1", "bmi2", "lzcnt",
            "movbe", "avxvnni",
        ],
    ),
    (
        "skylake-x",
        &[
            "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "fma", "avx2", "bmi1", "bmi2", "lzcnt",
            "movbe", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl",
        ],
    ),
    (
        "icelake",
        &[
            "sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "avx", "f16c", "fma", "avx2", "bmi1", "bmi2", "lzcnt",
            "movbe", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl", "avx512vbmi", "avx512vnni",
            "avx512ifma",
        ],
    ),
];

static mut CACHE: *const AtomicUsize = std::ptr::null();
static mut ORIG: [usize; 3] = [0; 3];
static mut BIT: [i32; 24] = [-1; 24];

fn find_symbol(suffix: &str) -> Option<usize> {
    let d = std::fs::read("/proc/self/exe").ok()?;
    let u64at = |o: usize| u64::from_le_bytes(d[o..o + 8].try_into().unwrap()) as usize;
    let u32at = |o: usize| u32::from_le_bytes(d[o..o + 4].try_into().unwrap()) as usize;
    let u16at = |o: usize| u16::from_le_bytes(d[o..o + 2].try_into().unwrap()) as usize;
    let (shoff, shent, shnum) = (u64at(40), u16at(58), u16at(60));
    let mut found = None;
    let mut me = None;
    for i in 0..shnum {
        let s = shoff + i * shent;
        if u32at(s + 4) != 2 {
            continue;
        }
        let (off, size, link) = (u64at(s + 24), u64at(s + 32), u32at(s + 40));
        let str_off = u64at(shoff + link * shent + 24);
        for k in 0..size / 24 {
            let e = off + k * 24;
            let n = str_off + u32at(e);
            let end = n + d[n..].iter().position(|b| *b == 0)?;
            let name = &d[n..end];
            if name.ends_with(suffix.as_bytes()) {
                found = Some(u64at(e + 8));
            }
            if name == b"pssim_anchor" {
                me = Some(u64at(e + 8));
            }
        }
    }
    Some(found?.wrapping_sub(me?).wrapping_add(pssim_anchor as *const () as usize))
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn pssim_anchor() -> u32 {
    std::hint::black_box(0x5151)
}

/// Locate and calibrate the cache. False: the seam is unavailable in this toolchain.
pub fn init() -> bool {
    unsafe {
        pssim_anchor();
        detect(0);
        let Some(a) = find_symbol("6detect5cache5CACHE") else { return false };
        CACHE = a as *const AtomicUsize;
        for k in 0..3 {
            ORIG[k] = (*CACHE.add(k)).load(Ordering::Relaxed);
            if ORIG[k] >> 63 != 1 {
                return false;
            }
        }
        // which bit does each feature read? switch every bit off, then one on at a time
        let set = |w: [usize; 3]| {
            for k in 0..3 {
                (*CACHE.add(k)).store(w[k] | 1 << 63, Ordering::Relaxed);
            }
        };
        for b in 0..189usize {
            let mut w = [0usize; 3];
            w[b / 63] = 1 << (b % 63);
            set(w);
            for i in 0..FEATURES.len() {
                if detect(i) {
                    BIT[i] = b as i32;
                }
            }
        }
        set(ORIG);
        let all: Vec<bool> = (0..FEATURES.len()).map(detect).collect();
        (0..FEATURES.len()).all(|i| BIT[i] >= 0 || !all[i])
    }
}
/// Make the library see CPU model `m` (never more than the machine really has).
pub fn apply(m: usize) {
    unsafe {
        if CACHE.is_null() {
            return;
        }
        let mut w = ORIG;
        if m != 0 {
            for i in 0..FEATURES.len() {
                if BIT[i] >= 0 && !MODELS[m].1.contains(&FEATURES[i]) {
                    let b = BIT[i] as usize;
                    w[b / 63] &= !(1 << (b % 63));
                }
            }
        }
        for k in 0..3 {
            (*CACHE.add(k)).store(w[k] | 1 << 63, Ordering::Relaxed);
        }
    }
}
/// features the library sees under model `m`, as a mask
pub fn mask(m: usize) -> u32 {
    unsafe {
        (0..FEATURES.len())
            .filter(|i| {
                let b = BIT[*i];
                b >= 0 && ORIG[b as usize / 63] >> (b % 63) & 1 == 1 && (m == 0 || MODELS[m].1.contains(&FEATURES[*i]))
            })
            .fold(0, |a, i| a | 1 << i)
    }
}
/// Does this machine have every feature of the model? (Otherwise the model degrades.)
pub fn faithful(m: usize) -> bool {
    unsafe {
        MODELS[m].1.iter().all(|f| {
            let i = FEATURES.iter().position(|x| x == f).unwrap();
            BIT[i] >= 0 && (ORIG[BIT[i] as usize / 63] >> (BIT[i] as usize % 63)) & 1 == 1
        })
    }
}
