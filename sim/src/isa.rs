//! Which CPU features does each instrumented function need? Decided from its machine code: the
//! functions entered in an execution are then compared with what the simulated CPU offers.
use crate::cpu::FEATURES;
use crate::sched;

pub struct Isa {
    /// (coverage index of the function's entry, needed features as a mask over FEATURES, name)
    pub fns: Vec<(usize, u32, String)>,
    pub functions: usize,
}
fn bit(f: &str) -> u32 {
    1 << FEATURES.iter().position(|x| *x == f).unwrap()
}
fn needs(first: &str, mn: &str, args: &str) -> u32 {
    let ymm = args.contains("ymm");
    if first == "62" {
        let mut m = bit("avx512f");
        if !args.contains("zmm") && (args.contains("xmm") || ymm) && !mn.ends_with("ss") && !mn.ends_with("sd") && !mn.ends_with("sh") {
            m |= bit("avx512vl");
        }
        if mn.starts_with("vpermt2b") || mn.starts_with("vpermi2b") || mn.starts_with("vpermb") || mn.starts_with("vpmultishift") {
            m |= bit("avx512vbmi");
        }
        if mn.starts_with("vpdp") {
            m |= bit("avx512vnni");
        }
        if mn.starts_with("vpmadd52") {
            m |= bit("avx512ifma");
        }
        if (mn.ends_with("ph") || mn.ends_with("sh")) && !mn.starts_with("vcvtps2ph")
            || mn.starts_with("vcvtph2w")
            || mn.starts_with("vcvtph2uw")
            || mn.starts_with("vcvtw2ph")
            || mn.starts_with("vcvtuw2ph")
        {
            m |= bit("avx512fp16");
        }
        let bw = ["vmovdqu8", "vmovdqu16", "vptestnmb", "vptestmb", "vptestnmw", "vpermw", "vpblendmb", "vpblendmw", "vpmaddwd", "vpmaddubsw", "vpshufb", "vpack", "vpmulhrsw", "vpmullw", "vpaddw", "vpaddb", "vpsubw", "vpsubb", "vpmovzxbw", "vpsrlw", "vpsraw", "vpsllw", "vpunpcklbw", "vpunpckhbw", "vpunpcklwd", "vpunpckhwd", "vpminsw", "vpmaxsw", "vpminub", "vpmaxub", "vpbroadcastb", "vpbroadcastw", "vpalignr", "vpmovwb", "vpmovuswb", "vpmovswb"];
        if bw.iter().any(|p| mn.starts_with(p)) {
            m |= bit("avx512bw");
        }
        return m;
    }
    if first == "c4" || first == "c5" {
        if mn.starts_with('k') && args.contains("%k") {
            return if mn.ends_with('q') || mn.ends_with('d') { bit("avx512bw") } else { bit("avx512f") };
        }
        if mn.starts_with("vfm") || mn.starts_with("vfnm") {
            return bit("fma");
        }
        if mn == "vcvtph2ps" || mn == "vcvtps2ph" {
            return bit("f16c");
        }
        if mn.starts_with("vpdp") {
            return bit("avxvnni");
        }
        if ["andn", "bextr", "blsr", "blsi", "blsmsk"].contains(&mn) {
            return bit("bmi1");
        }
        if ["shlx", "sarx", "shrx", "rorx", "mulx", "pdep", "pext", "bzhi"].contains(&mn) {
            return bit("bmi2");
        }
        let two = ["vinserti128", "vextracti128", "vperm2i128", "vpermq", "vpermpd", "vpermd", "vpermps", "vpblendd", "vpbroadcast", "vbroadcasti128", "vpsrlv", "vpsllv", "vpsrav", "vpmaskmov", "vpgather", "vgather"];
        if two.iter().any(|p| mn.starts_with(p)) || (ymm && mn.starts_with("vp") && !mn.starts_with("vperm2f128") && !mn.starts_with("vpermil") && mn != "vptest") {
            return bit("avx2");
        }
        return if mn.starts_with('v') { bit("avx") } else { 0 };
    }
    match mn {
        "pshufb" | "palignr" | "phaddw" | "phaddd" | "phaddsw" | "phsubw" | "phsubd" | "pmulhrsw" | "pabsb" | "pabsw" | "pabsd"
        | "psignb" | "psignw" | "psignd" | "pmaddubsw" => bit("ssse3"),
        "pmulld" | "pmuldq" | "pminsd" | "pmaxsd" | "pminud" | "pmaxud" | "pminuw" | "pmaxuw" | "pminsb" | "pmaxsb" | "pextrb"
        | "pextrd" | "pextrq" | "pinsrb" | "pinsrd" | "pinsrq" | "pblendw" | "pblendvb" | "blendps" | "blendpd" | "blendvps"
        | "blendvpd" | "roundps" | "roundss" | "roundpd" | "roundsd" | "insertps" | "extractps" | "packusdw" | "ptest"
        | "pcmpeqq" | "dpps" | "dppd" | "mpsadbw" | "phminposuw" => bit("sse4.1"),
        "pcmpgtq" | "crc32" | "crc32b" | "crc32l" | "crc32q" => bit("sse4.2"),
        "popcnt" => bit("popcnt"),
        "lzcnt" => bit("lzcnt"),
        "movbe" => bit("movbe"),
        "haddps" | "haddpd" | "hsubps" | "addsubps" | "addsubpd" | "lddqu" | "movsldup" | "movshdup" | "movddup" => bit("sse3"),
        _ if mn.starts_with("pmovzx") || mn.starts_with("pmovsx") => bit("sse4.1"),
        _ => 0,
    }
}
pub fn load() -> Option<Isa> {
    let exe = std::env::current_exe().ok()?;
    let o = std::process::Command::new("objdump").args(["-d", "-w"]).arg(exe).output().ok()?;
    let text = String::from_utf8_lossy(&o.stdout);
    let mut fns: Vec<(usize, u32, &str)> = vec![];
    for l in text.lines() {
        if let Some(p) = l.find(" <") {
            if l.ends_with(">:") {
                if let Ok(a) = usize::from_str_radix(&l[..p], 16) {
                    fns.push((a, 0, &l[p + 2..l.len() - 2]));
                    continue;
                }
            }
        }
        let mut t = l.splitn(3, '\t');
        let (Some(_), Some(bytes), Some(ins)) = (t.next(), t.next(), t.next()) else { continue };
        let Some(f) = fns.last_mut() else { continue };
        // legacy prefixes before VEX/EVEX do not occur; segment prefixes are harmless
        let first = &bytes[..2.min(bytes.len())];
        let ins = ins.trim_start_matches("{vex} ").trim_start_matches("{evex} ");
        let (mn, args) = ins.split_once(' ').unwrap_or((ins, ""));
        f.1 |= needs(first, mn, args);
    }
    let base = fns.iter().find(|f| f.2 == "pssim_anchor")?.0;
    let off = (crate::cpu::pssim_anchor as *const () as usize).wrapping_sub(base);
    let mut res = vec![];
    let mut total = 0;
    for g in 1..=sched::guards() {
        let (pc, flags) = sched::guard_pc(g);
        if flags & 1 == 0 {
            continue;
        }
        total += 1;
        let a = pc.wrapping_sub(off);
        let i = fns.partition_point(|f| f.0 <= a);
        if i == 0 {
            continue;
        }
        let f = &fns[i - 1];
        if f.1 != 0 {
            res.push((g, f.1, demangle(f.2)));
        }
    }
    Some(Isa { fns: res, functions: total })
}
/// What the thread pool executes while its threads wait and look for jobs depends on the schedule only, not on the
/// request: it is no work.
pub fn idle_is_no_work() -> bool {
    let Ok(exe) = std::env::current_exe() else { return false };
    let Ok(o) = std::process::Command::new("nm").arg(exe).output() else { return false };
    let text = String::from_utf8_lossy(&o.stdout).to_string();
    let mut fns: Vec<(usize, &str)> = vec![];
    for l in text.lines() {
        let mut t = l.split(' ');
        if let (Some(a), Some("t" | "T" | "w" | "W"), Some(n)) = (t.next(), t.next(), t.next()) {
            if let Ok(a) = usize::from_str_radix(a, 16) {
                fns.push((a, n));
            }
        }
    }
    fns.sort();
    let Some(base) = fns.iter().find(|f| f.1 == "pssim_anchor") else { return false };
    let off = (crate::cpu::pssim_anchor as *const () as usize).wrapping_sub(base.0);
    let mut left_out = 0;
    for g in 1..=sched::guards() {
        let a = sched::guard_pc(g).0.wrapping_sub(off);
        let i = fns.partition_point(|f| f.0 <= a);
        if i == 0 {
            continue;
        }
        let n = fns[i - 1].1;
        let pool = n.contains("rayon_core") && ["registry", "sleep", "latch"].iter().any(|m| n.contains(m));
        if (pool || n.contains("crossbeam_")) && !n.contains("pic_scale") {
            sched::no_work(g);
            left_out += 1;
        }
    }
    left_out > 0
}
/// enough of the mangling undone to recognise the function
fn demangle(s: &str) -> String {
    let mut out = String::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut n = 0usize;
            let mut j = i;
            while j < b.len() && b[j].is_ascii_digit() {
                n = n * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if n > 2 && j + n <= b.len() {
                let mut w = &s[j..j + n];
                w = w.strip_prefix('_').unwrap_or(w);
                if !out.is_empty() {
                    out.push_str("::");
                }
                out.push_str(w);
                i = j + n;
                continue;
            }
            i = j;
        } else {
            i += 1;
        }
    }
    if out.is_empty() {
        s.to_string()
    } else {
        out
    }
}
impl Isa {
    /// functions entered although the simulated CPU lacks something they need
    pub fn offences(&self, cov: &[u8], mask: u32) -> Option<(String, Vec<&'static str>)> {
        self.fns.iter().find(|f| cov[f.0] != 0 && f.1 & !mask != 0).map(|f| {
            (f.2.clone(), (0..FEATURES.len()).filter(|i| (f.1 & !mask) >> i & 1 == 1).map(|i| FEATURES[i]).collect())
        })
    }
}
