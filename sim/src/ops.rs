//! One resize request: its description, its source data, and the call into pic-scale.
use crate::rng::{mix, Rng};
use colorutils_rs::TransferFunction;
use pic_scale::*;
use serde_json::{json, Value};

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Fmt {
    U8,
    U16,
    F32,
    F16,
    Ar30,
    Ra30,
}
pub const FMTS: [(Fmt, &str); 6] = [
    (Fmt::U8, "u8"),
    (Fmt::U16, "u16"),
    (Fmt::F32, "f32"),
    (Fmt::F16, "f16"),
    (Fmt::Ar30, "ar30"),
    (Fmt::Ra30, "ra30"),
];
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pol {
    Single,
    Fixed(usize),
    Adaptive,
}
/// colour-space scalers (0 = the plain `Scaler`)
pub const COLORS: [&str; 12] = [
    "", "linear", "linear_tf", "linear_approx", "linear_approx_tf", "lab", "luv", "lch", "xyz", "oklab", "jzazbz",
    "sigmoidal",
];
pub fn transfer(i: u32) -> TransferFunction {
    use TransferFunction::*;
    [Srgb, Rec709, Gamma2p2, Gamma2p8, Smpte428, Bt1361, Smpte240][i as usize % 7]
}
/// ways a request can be malformed (0 = well formed)
pub const MALFORMS: [&str; 21] = [
    "", "src_w0", "src_h0", "dst_w0", "dst_h0", "src_short", "src_long", "dst_short", "dst_long", "src_stride_low",
    "dst_stride_low", "depth0", "depth_big", "src_huge", "dst_huge",
    "src_stride_huge", "dst_stride_huge", "src_ctor_huge", "dst_ctor_huge", "src_ctor_len", "dst_ctor_len",
];

#[derive(Clone, Debug, PartialEq)]
pub struct Op {
    pub fmt: Fmt,
    pub ch: usize,
    pub net: bool,    // network byte order (ar30/ra30)
    pub color: usize, // index in COLORS
    pub tf: u32,
    pub store_api: bool, // ImageStoreScaling::scale instead of the Scaler
    /// how the stores are made: 0 literally, 1 borrowing constructors, 2 from vectors, 3 allocated
    /// (`to_immutable` for the source), 4 `copied`; from 2 on the result is brought back by `copied_to_mut`
    pub api: u32,
    pub filter: u32,
    pub sw: usize,
    pub sh: usize,
    pub dw: usize,
    pub dh: usize,
    pub spad: usize, // elements
    pub dpad: usize,
    pub depth: usize,
    pub quality: bool,
    pub pol: Pol,
    pub premul: bool,
    pub pattern: u32,
    pub dseed: u64,
    pub malform: usize,
    pub stride0: bool, // leave the stride field 0 ("considered width*N")
}

impl Op {
    pub fn base() -> Op {
        Op {
            fmt: Fmt::U8,
            api: 0,
            ch: 4,
            net: false,
            color: 0,
            tf: 0,
            store_api: false,
            filter: 0,
            sw: 8,
            sh: 8,
            dw: 4,
            dh: 4,
            spad: 0,
            dpad: 0,
            depth: 8,
            quality: false,
            pol: Pol::Single,
            premul: false,
            pattern: 0,
            dseed: 1,
            malform: 0,
            stride0: false,
        }
    }
    pub fn esz(&self) -> usize {
        match self.fmt {
            Fmt::U8 => 1,
            Fmt::U16 | Fmt::F16 => 2,
            Fmt::F32 => 4,
            Fmt::Ar30 | Fmt::Ra30 => 1,
        }
    }
    /// elements per pixel
    pub fn epp(&self) -> usize {
        match self.fmt {
            Fmt::Ar30 | Fmt::Ra30 => 4,
            _ => self.ch,
        }
    }
    pub fn is30(&self) -> bool {
        matches!(self.fmt, Fmt::Ar30 | Fmt::Ra30)
    }
    pub fn sstride(&self) -> usize {
        self.sw * self.epp() + self.spad
    }
    pub fn dstride(&self) -> usize {
        self.dw * self.epp() + self.dpad
    }
    /// source / destination buffer lengths in elements (including malformation)
    pub fn slen(&self) -> usize {
        let l = self.sstride() * self.sh;
        match self.malform {
            5 => self.shorter(l, self.sstride()),
            6 => self.longer(l, self.sstride()),
            _ => l,
        }
    }
    pub fn dlen(&self) -> usize {
        let l = self.dstride() * self.dh;
        match self.malform {
            7 => self.shorter(l, self.dstride()),
            8 => self.longer(l, self.dstride()),
            _ => l,
        }
    }
    /// by an element, a row, half or all of it
    fn shorter(&self, l: usize, row: usize) -> usize {
        match self.dseed >> 8 & 3 {
            0 => l.saturating_sub(1),
            1 => l.saturating_sub(row),
            2 => l / 2,
            _ => 0,
        }
    }
    fn longer(&self, l: usize, row: usize) -> usize {
        match self.dseed >> 8 & 3 {
            0 => l + 1,
            1 => l + row,
            2 => l + row / 2 + 1,
            _ => 2 * l,
        }
    }
    /// a row distance too small for a row of `w` pixels, and whether the buffer is as long as it says
    fn short_stride(&self, w: usize) -> (usize, bool) {
        let row = w * self.epp();
        let s = match self.dseed >> 8 & 3 {
            0 => w,
            1 => row / 2,
            2 => 1,
            _ => row - 1,
        };
        (s.clamp(1, row.saturating_sub(1).max(1)), self.dseed >> 10 & 3 != 0)
    }
    pub fn maxv(&self) -> f64 {
        match self.fmt {
            Fmt::U8 => 255.0,
            Fmt::U16 => ((1u32 << self.depth) - 1) as f64,
            Fmt::Ar30 | Fmt::Ra30 => 1023.0,
            _ => 1.0,
        }
    }
    pub fn is_float(&self) -> bool {
        matches!(self.fmt, Fmt::F32 | Fmt::F16)
    }
    pub fn transfer(&self) -> TransferFunction {
        if matches!(self.color, 1 | 3) {
            TransferFunction::Srgb
        } else {
            transfer(self.tf)
        }
    }
    pub fn identity(&self) -> bool {
        self.sw == self.dw && self.sh == self.dh
    }
    pub fn json(&self) -> Value {
        json!({
            "fmt": FMTS.iter().find(|x| x.0 == self.fmt).unwrap().1, "ch": self.ch, "net": self.net,
            "color": COLORS[self.color], "tf": self.tf, "store_api": self.store_api, "api": self.api, "filter": self.filter,
            "filter_name": format!("{:?}", ResamplingFunction::from(self.filter)),
            "src": [self.sw, self.sh], "dst": [self.dw, self.dh], "spad": self.spad, "dpad": self.dpad,
            "depth": self.depth, "quality": self.quality,
            "policy": match self.pol { Pol::Single => json!("single"), Pol::Fixed(n) => json!(n), Pol::Adaptive => json!("adaptive") },
            "premul": self.premul, "pattern": self.pattern, "dseed": self.dseed.to_string(),
            "malform": MALFORMS[self.malform], "stride0": self.stride0,
        })
    }
    pub fn from_json(v: &Value) -> Option<Op> {
        let u = |k: &str| v[k].as_u64().map(|x| x as usize);
        let b = |k: &str| v[k].as_bool();
        Some(Op {
            fmt: FMTS.iter().find(|x| Some(x.1) == v["fmt"].as_str())?.0,
            ch: u("ch")?,
            net: b("net")?,
            color: COLORS.iter().position(|x| Some(*x) == v["color"].as_str())?,
            tf: u("tf")? as u32,
            store_api: b("store_api")?,
            api: u("api").unwrap_or(0) as u32,
            filter: u("filter")? as u32,
            sw: v["src"][0].as_u64()? as usize,
            sh: v["src"][1].as_u64()? as usize,
            dw: v["dst"][0].as_u64()? as usize,
            dh: v["dst"][1].as_u64()? as usize,
            spad: u("spad")?,
            dpad: u("dpad")?,
            depth: u("depth")?,
            quality: b("quality")?,
            pol: match v["policy"].as_str() {
                Some("single") => Pol::Single,
                Some("adaptive") => Pol::Adaptive,
                _ => Pol::Fixed(u("policy")?),
            },
            premul: b("premul")?,
            pattern: u("pattern")? as u32,
            dseed: v["dseed"].as_str()?.parse().ok()?,
            malform: MALFORMS.iter().position(|x| Some(*x) == v["malform"].as_str())?,
            stride0: b("stride0")?,
        })
    }
}

pub trait Px: Copy + Default + Send + Sync + std::fmt::Debug + 'static {
    fn from_unit(v: f64, max: f64) -> Self;
    fn to64(self) -> f64;
    fn junk(r: u64) -> Self;
}
impl Px for u8 {
    fn from_unit(v: f64, max: f64) -> u8 {
        (v * max).round().clamp(0., max) as u8
    }
    fn to64(self) -> f64 {
        self as f64
    }
    fn junk(r: u64) -> u8 {
        r as u8
    }
}
impl Px for u16 {
    fn from_unit(v: f64, max: f64) -> u16 {
        (v * max).round().clamp(0., max) as u16
    }
    fn to64(self) -> f64 {
        self as f64
    }
    fn junk(r: u64) -> u16 {
        r as u16
    }
}
impl Px for f32 {
    fn from_unit(v: f64, _: f64) -> f32 {
        v as f32
    }
    fn to64(self) -> f64 {
        self as f64
    }
    fn junk(r: u64) -> f32 {
        if r & 7 == 0 {
            f32::NAN
        } else {
            (r as u32 as f32) * 1e3 - 1e9
        }
    }
}
impl Px for f16 {
    fn from_unit(v: f64, _: f64) -> f16 {
        v as f16
    }
    fn to64(self) -> f64 {
        self as f64
    }
    fn junk(r: u64) -> f16 {
        if r & 7 == 0 {
            f16::NAN
        } else {
            f16::from_bits(((r & 0x7bff) | (r & 0x8000)) as u16)
        }
    }
}

pub const PATTERNS: [&str; 19] = [
    "noise", "constant", "extremes", "gradient", "impulses", "noise_opaque", "noise_const_alpha", "noise_binary_alpha",
    "noise_low_alpha", "blocks", "black", "white", "wide", "lone_alpha", "half_alpha", "stripes", "one_channel", "huge", "tiny",
];
/// patterns that make sense for a request (the last ones are for floating point only)
pub fn pick_pattern(r: &mut Rng, float: bool) -> u32 {
    if float && r.chance(0.2) {
        return *r.pick(&[12, 12, 17, 18]);
    }
    *r.pick(&[0, 0, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 15, 16])
}
pub const FLOAT_ONLY: [u32; 3] = [12, 17, 18];

fn unit_at(op: &Op, rng: &mut Rng, x: usize, y: usize, c: usize, consts: &[f64; 4]) -> f64 {
    let alpha = c == 3;
    let n = rng.f();
    match op.pattern {
        0 => n,
        1 => consts[c],
        2 => {
            if n < 0.5 {
                0.0
            } else {
                1.0
            }
        }
        3 => {
            let a = x as f64 / op.sw.max(1) as f64;
            let b = y as f64 / op.sh.max(1) as f64;
            match c {
                0 => a,
                1 => b,
                2 => (a + b) / 2.0,
                _ => 0.25 + 0.75 * (1.0 - a) * b,
            }
        }
        4 => {
            if n < 0.04 {
                1.0
            } else {
                0.0
            }
        }
        5 => {
            if alpha {
                1.0
            } else {
                n
            }
        }
        6 => {
            if alpha {
                consts[3]
            } else {
                n
            }
        }
        7 => {
            if alpha {
                if n < 0.5 {
                    0.0
                } else {
                    1.0
                }
            } else {
                n
            }
        }
        8 => {
            if alpha {
                n * 0.1
            } else {
                n
            }
        }
        9 => {
            if ((x / 5) + (y / 3)) % 2 == 0 {
                consts[c]
            } else {
                1.0 - consts[(c + 1) % 4]
            }
        }
        10 => 0.0,
        11 => 1.0,
        13 => {
            // the same alpha everywhere but in one pixel, one row or one column
            if alpha {
                let h = mix(op.dseed, 0x10e);
                let (px, py) = ((h >> 8) as usize % op.sw, (h >> 24) as usize % op.sh);
                let last = h >> 40 & 1 == 0;
                let (px, py) = if last { (op.sw - 1 - px % 4.min(op.sw), op.sh - 1 - py % 2.min(op.sh)) } else { (px, py) };
                let here = match h % 3 {
                    0 => x == px && y == py,
                    1 => x == px,
                    _ => y == py,
                };
                if here == (h >> 41 & 1 == 0) {
                    consts[0]
                } else {
                    consts[3]
                }
            } else {
                n
            }
        }
        14 => {
            // opaque on one side, transparent on the other
            if alpha {
                let h = mix(op.dseed, 0x4a1f);
                let cut = |n: usize| if h & 4 == 0 { n.div_ceil(2) } else { (h >> 8) as usize % n + 1 };
                let in_ = if h & 1 == 0 { x < cut(op.sw) } else { y < cut(op.sh) };
                if in_ == (h & 2 == 0) {
                    1.0
                } else {
                    0.0
                }
            } else {
                n
            }
        }
        15 => {
            // full contrast in stripes or squares: the largest excursions of negative lobes
            let h = mix(op.dseed, 0x571b);
            let (a, b) = (1 + (h >> 8) as usize % 4, 1 + (h >> 16) as usize % 4);
            let v = match h % 3 {
                0 => x / a,
                1 => y / b,
                _ => x / a + y / b,
            };
            if (v + if h >> 24 & 1 == 0 { c } else { 0 }) % 2 == 0 {
                1.0
            } else {
                0.0
            }
        }
        16 => {
            // only one channel has content
            let h = mix(op.dseed, 0xc4a);
            if c as u64 == h % op.epp() as u64 {
                n
            } else if h & 0x100 == 0 {
                0.0
            } else {
                1.0
            }
        }
        17 => {
            if alpha {
                0.2 + 0.8 * n
            } else {
                (n - 0.5) * if op.fmt == Fmt::F16 { 2e4 } else { 2e30 }
            }
        }
        18 => {
            if alpha {
                0.2 + 0.8 * n
            } else {
                (n - 0.5) * if op.fmt == Fmt::F16 { 1e-4 } else { 1e-20 }
            }
        }
        _ => {
            // wide range, only meaningful for float formats
            if alpha {
                0.2 + 0.8 * n
            } else {
                n * 6.0 - 2.0
            }
        }
    }
}

/// Fill the source buffer: visible pixels by the op's pattern, everything else with junk of the execution.
pub fn gen_src<T: Px>(op: &Op, buf: &mut [T], junk: u64) {
    let mut rng = Rng::new(mix(op.dseed, 0x5eed));
    let mut jr = Rng::new(mix(op.dseed ^ junk, 0x1717));
    let consts = [rng.f(), rng.f(), rng.f(), 0.05 + 0.9 * rng.f()];
    let stride = op.sstride();
    let max = op.maxv();
    for v in buf.iter_mut() {
        *v = T::junk(jr.next());
    }
    if stride == 0 {
        return;
    }
    for (y, row) in buf.chunks_mut(stride).enumerate().take(op.sh) {
        for x in 0..op.sw {
            if op.is30() {
                // bytes of packed pixels
                let mut q = [0u32; 4];
                for c in 0..4 {
                    let m = if c == 3 { 3.0 } else { 1023.0 };
                    q[c] = (unit_at(op, &mut rng, x, y, c, &consts) * m).round().clamp(0., m) as u32;
                }
                let px = pack30(op, q);
                let by = px.to_le_bytes();
                for k in 0..4 {
                    if let Some(d) = row.get_mut(x * 4 + k) {
                        *d = T::from_unit(by[k] as f64 / 255.0, 255.0);
                    }
                }
            } else {
                for c in 0..op.ch {
                    let v = unit_at(op, &mut rng, x, y, c, &consts);
                    if let Some(d) = row.get_mut(x * op.ch + c) {
                        *d = T::from_unit(v, max);
                    }
                }
            }
        }
    }
}
pub fn pack30(op: &Op, q: [u32; 4]) -> u32 {
    let v = if op.fmt == Fmt::Ar30 {
        (q[3] << 30) | (q[2] << 20) | (q[1] << 10) | q[0]
    } else {
        (q[0] << 22) | (q[1] << 12) | (q[2] << 2) | q[3]
    };
    if op.net {
        v.swap_bytes()
    } else {
        v
    }
}
pub fn unpack30(op: &Op, by: &[u8]) -> [u32; 4] {
    let mut v = u32::from_le_bytes([by[0], by[1], by[2], by[3]]);
    if op.net {
        v = v.swap_bytes();
    }
    if op.fmt == Fmt::Ar30 {
        [v & 1023, (v >> 10) & 1023, (v >> 20) & 1023, v >> 30]
    } else {
        [(v >> 22) & 1023, (v >> 12) & 1023, (v >> 2) & 1023, v & 3]
    }
}

pub const ST_OK: i32 = 0;
pub const ST_PANIC: i32 = 100;
pub const ST_NOTRUN: i32 = -1;

pub fn policy(p: Pol) -> ThreadingPolicy {
    match p {
        Pol::Single => ThreadingPolicy::Single,
        Pol::Fixed(n) => ThreadingPolicy::Fixed(n),
        Pol::Adaptive => ThreadingPolicy::Adaptive,
    }
}

pub fn mk_scaler(op: &Op) -> Scaler {
    let mut s = Scaler::new(ResamplingFunction::from(op.filter));
    s.set_threading_policy(policy(op.pol));
    s.set_workload_strategy(if op.quality { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed });
    s
}

/// Make the stores, call `f`, bring the result back where the stores own their memory.
fn with<T: Px + Default, const N: usize>(
    op: &Op,
    src: &'static [T],
    dst: &'static mut [T],
    f: impl FnOnce(&ImageStore<'static, T, N>, &mut ImageStoreMut<'static, T, N>) -> Result<(), PicScaleError>,
) -> i32 {
    res(with_res(op, src, dst, f))
}
fn with_res<T: Px + Default, const N: usize>(
    op: &Op,
    src: &'static [T],
    dst: &'static mut [T],
    f: impl FnOnce(&ImageStore<'static, T, N>, &mut ImageStoreMut<'static, T, N>) -> Result<(), PicScaleError>,
) -> Result<(), PicScaleError> {
    let f = |st: &ImageStore<'static, T, N>, dt: &mut ImageStoreMut<'static, T, N>| {
        let was = face(dt);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(st, dt)));
        if face(dt) != was {
            crate::run::out().store_changed += 1;
        }
        r.unwrap_or_else(|e| std::panic::resume_unwind(e))
    };
    let flip = op.dseed & 4 != 0;
    // sizes whose product wraps around to nothing
    let (hw, hh) = if op.dseed & 8 != 0 && N % 2 == 0 { (1usize << 63, 1) } else { (1usize << 62, 4) };
    match op.malform {
        17 => {
            let (_, mut dt) = stores::<T, N>(op, src, dst);
            let s = if flip { ImageStore::from_slice(&src[..0], hw, hh)? } else { ImageStore::new(vec![], hw, hh)? };
            return f(&s, &mut dt);
        }
        18 => {
            let (st, _) = stores::<T, N>(op, src, &mut []);
            let mut d = if flip { ImageStoreMut::from_slice(&mut dst[..0], hw, hh)? } else { ImageStoreMut::new(vec![], hw, hh)? };
            d.bit_depth = op.depth;
            return f(&st, &mut d);
        }
        19 => {
            let (_, mut dt) = stores::<T, N>(op, src, dst);
            let (w, h) = if flip { (op.sw + 1, op.sh) } else { (op.sw, op.sh + 1) };
            let n = op.sw * op.sh * N;
            let s = if op.dseed & 8 != 0 { ImageStore::borrow(&src[..n], w, h)? } else { ImageStore::new(src[..n].to_vec(), w, h)? };
            return f(&s, &mut dt);
        }
        20 => {
            let (st, _) = stores::<T, N>(op, src, &mut []);
            let (w, h) = if flip { (op.dw + 1, op.dh) } else { (op.dw, op.dh + 1) };
            let n = op.dw * op.dh * N;
            let mut d = if op.dseed & 8 != 0 { ImageStoreMut::borrow(&mut dst[..n], w, h)? } else { ImageStoreMut::new(dst[..n].to_vec(), w, h)? };
            d.bit_depth = op.depth;
            return f(&st, &mut d);
        }
        _ => {}
    }
    let (st, mut dt) = stores::<T, N>(op, src, dst);
    if op.api == 0 || op.malform != 0 {
        return f(&st, &mut dt);
    }
    let (sw, sh, dw, dh) = (op.sw, op.sh, op.dw, op.dh);
    let s2 = match op.api {
        1 | 2 | 3 if op.spad > 0 => st.copied(),
        1 if flip => ImageStore::from_slice(src, sw, sh)?,
        1 => ImageStore::borrow(src, sw, sh)?,
        2 => ImageStore::new(src.to_vec(), sw, sh)?,
        3 if flip => {
            let mut a = ImageStore::<T, N>::alloc(sw, sh);
            a.buffer.to_mut().copy_from_slice(src);
            a
        }
        3 => {
            let mut a = ImageStoreMut::<T, N>::alloc(sw, sh);
            a.buffer.borrow_mut().copy_from_slice(src);
            a.to_immutable().copied()
        }
        _ => st.copied(),
    };
    if op.api == 1 && op.dpad == 0 {
        let p = match dt.buffer {
            BufferStore::Borrowed(p) => p,
            _ => unreachable!(),
        };
        let mut d2 = if flip { ImageStoreMut::from_slice(p, dw, dh)? } else { ImageStoreMut::borrow(p, dw, dh)? };
        d2.bit_depth = dt.bit_depth;
        return f(&s2, &mut d2);
    }
    let mut d2 = match op.api {
        2 if op.dpad == 0 => ImageStoreMut::new(dt.buffer.borrow().to_vec(), dw, dh)?,
        3 if flip => ImageStoreMut::alloc(dw, dh),
        3 => ImageStoreMut::alloc_with_depth(dw, dh, dt.bit_depth),
        _ => dt.copied(),
    };
    d2.bit_depth = dt.bit_depth;
    f(&s2, &mut d2)?;
    d2.to_immutable().copied_to_mut(&mut dt);
    Ok(())
}
/// what a store says about itself: no request may change it, however it ends
fn face<T: Px, const N: usize>(d: &ImageStoreMut<'_, T, N>) -> (usize, usize, usize, usize, usize, usize, usize) {
    let b = d.buffer.borrow();
    (d.width, d.height, d.stride, d.channels, d.bit_depth, b.as_ptr() as usize, b.len())
}
fn stores<'a, T: Px, const N: usize>(
    op: &Op,
    src: &'a [T],
    dst: &'a mut [T],
) -> (ImageStore<'a, T, N>, ImageStoreMut<'a, T, N>) {
    let (sw, sh, dw, dh) = dims(op);
    let (ss, ds) = strides(op);
    let (src, dst) = cut(op, src, dst);
    let depth = match op.malform {
        11 => 0,
        12 => [17, 32, 64, usize::MAX][(op.dseed % 4) as usize],
        _ => op.depth,
    };
    (
        ImageStore {
            buffer: std::borrow::Cow::Borrowed(src),
            channels: N,
            width: sw,
            height: sh,
            stride: ss,
            bit_depth: op.depth,
        },
        ImageStoreMut {
            buffer: BufferStore::Borrowed(dst),
            channels: N,
            width: dw,
            height: dh,
            stride: ds,
            bit_depth: depth,
        },
    )
}
fn dims(op: &Op) -> (usize, usize, usize, usize) {
    let (mut sw, mut sh, mut dw, mut dh) = (op.sw, op.sh, op.dw, op.dh);
    match op.malform {
        1 => sw = 0,
        2 => sh = 0,
        3 => dw = 0,
        4 => dh = 0,
        13 => (sw, sh) = huge(op),
        14 => (dw, dh) = huge(op),
        _ => {}
    }
    (sw, sh, dw, dh)
}
fn huge(op: &Op) -> (usize, usize) {
    match op.dseed >> 8 & 7 {
        0 => (1 << 33, 1 << 33),
        1 => (3, usize::MAX / 2),
        2 => (usize::MAX, usize::MAX),
        3 => (1 << 40, 1 << 20),
        4 => (1 << 32, 1),
        5 => (usize::MAX, 1),
        _ => (usize::MAX / 2, 3),
    }
}
/// a stride that times the height is the right length again, modulo 2^64
fn wrapping_stride(s: usize, h: usize) -> usize {
    if h > 1 && h.is_power_of_two() {
        s + (usize::MAX / h + 1)
    } else {
        usize::MAX
    }
}
fn strides(op: &Op) -> (usize, usize) {
    let mut ss = op.sstride();
    let mut ds = op.dstride();
    match op.malform {
        9 => ss = op.short_stride(op.sw).0,
        10 => ds = op.short_stride(op.dw).0,
        15 => ss = wrapping_stride(ss, op.sh),
        16 => ds = wrapping_stride(ds, op.dh),
        _ => {}
    }
    if op.stride0 && op.spad == 0 && op.malform == 0 {
        ss = 0;
    }
    if op.stride0 && op.dpad == 0 && op.malform == 0 {
        ds = 0;
    }
    (ss, ds)
}

/// the part of the buffers that is handed over
fn cut<'a, T>(op: &Op, src: &'a [T], dst: &'a mut [T]) -> (&'a [T], &'a mut [T]) {
    let (ss, ds) = strides(op);
    match op.malform {
        9 if op.short_stride(op.sw).1 => (&src[..ss * op.sh], dst),
        10 if op.short_stride(op.dw).1 && !dst.is_empty() => (src, &mut dst[..ds * op.dh]),
        _ => (src, dst),
    }
}
fn res(r: Result<(), PicScaleError>) -> i32 {
    match r {
        Ok(()) => ST_OK,
        Err(e) => e.code() as i32,
    }
}

/// object-safe view of the `Scaling` trait for the colour scalers
#[cfg(feature = "standard")]
pub trait DynScaling {
    fn pol(&mut self, p: ThreadingPolicy);
    fn rgb(&self, s: &'static [u8], d: &'static mut [u8], op: &Op) -> i32;
    fn rgba(&self, s: &'static [u8], d: &'static mut [u8], op: &Op) -> i32;
}
#[cfg(feature = "standard")]
impl<S: Scaling + 'static> DynScaling for S {
    fn pol(&mut self, p: ThreadingPolicy) {
        self.set_threading_policy(p);
    }
    fn rgb(&self, s: &'static [u8], d: &'static mut [u8], op: &Op) -> i32 {
        // tie the lifetimes together the way a caller would
        with::<u8, 3>(op, s, d, |st, dt| resize3(self, st, dt))
    }
    fn rgba(&self, s: &'static [u8], d: &'static mut [u8], op: &Op) -> i32 {
        with::<u8, 4>(op, s, d, |st, dt| resize4(self, st, dt, op.premul))
    }
}
#[cfg(feature = "standard")]
fn resize3<S: Scaling + 'static>(s: &S, a: &ImageStore<'_, u8, 3>, b: &mut ImageStoreMut<'_, u8, 3>) -> Result<(), PicScaleError> {
    // SAFETY: only the lifetimes are unified; nothing outlives this call
    unsafe {
        let s: &'static S = std::mem::transmute(s);
        let a: &ImageStore<'static, u8, 3> = std::mem::transmute(a);
        let b: &mut ImageStoreMut<'static, u8, 3> = std::mem::transmute(b);
        s.resize_rgb(a, b)
    }
}
#[cfg(feature = "standard")]
fn resize4<S: Scaling + 'static>(
    s: &S,
    a: &ImageStore<'_, u8, 4>,
    b: &mut ImageStoreMut<'_, u8, 4>,
    p: bool,
) -> Result<(), PicScaleError> {
    unsafe {
        let s: &'static S = std::mem::transmute(s);
        let a: &ImageStore<'static, u8, 4> = std::mem::transmute(a);
        let b: &mut ImageStoreMut<'static, u8, 4> = std::mem::transmute(b);
        s.resize_rgba(a, b, p)
    }
}
#[cfg(feature = "standard")]
pub fn mk_color(op: &Op) -> Box<dyn DynScaling> {
    let f = ResamplingFunction::from(op.filter);
    let mut b: Box<dyn DynScaling> = match op.color {
        1 => Box::new(LinearScaler::new(f)),
        2 => Box::new(LinearScaler::new_with_transfer(f, transfer(op.tf))),
        3 => Box::new(LinearApproxScaler::new(f)),
        4 => Box::new(LinearApproxScaler::new_with_transfer(f, transfer(op.tf))),
        5 => Box::new(LabScaler::new(f)),
        6 => Box::new(LuvScaler::new(f)),
        7 => Box::new(LChScaler::new(f)),
        8 => Box::new(XYZScaler::new(f)),
        9 => Box::new(OklabScaler::new(f, transfer(op.tf))),
        10 => Box::new(JzazbzScaler::new(f, 203., transfer(op.tf))),
        _ => Box::new(SigmoidalScaler::new(f)),
    };
    b.pol(policy(op.pol));
    b
}

/// Perform the request. `shared` lets several requests share one `Scaler` value.
pub fn exec(op: &Op, src: *const u8, dst: *mut u8, shared: Option<&Scaler>) -> i32 {
    let own;
    let shared = match shared {
        Some(s) => Some(s),
        None => {
            own = mk_scaler(op);
            Some(&own)
        }
    };
    unsafe {
        match op.fmt {
            Fmt::U8 => {
                let s: &'static [u8] = std::slice::from_raw_parts(src, op.slen());
                let d: &'static mut [u8] = std::slice::from_raw_parts_mut(dst, op.dlen());
                exec_u8(op, s, d, shared)
            }
            Fmt::Ar30 | Fmt::Ra30 => {
                let s: &'static [u8] = std::slice::from_raw_parts(src, op.slen());
                let d: &'static mut [u8] = std::slice::from_raw_parts_mut(dst, op.dlen());
                exec_30(op, s, d, shared)
            }
            Fmt::U16 => {
                let s: &'static [u16] = std::slice::from_raw_parts(src as *const u16, op.slen());
                let d: &'static mut [u16] = std::slice::from_raw_parts_mut(dst as *mut u16, op.dlen());
                exec_u16(op, s, d, shared)
            }
            Fmt::F32 => {
                let s: &'static [f32] = std::slice::from_raw_parts(src as *const f32, op.slen());
                let d: &'static mut [f32] = std::slice::from_raw_parts_mut(dst as *mut f32, op.dlen());
                exec_f32(op, s, d, shared)
            }
            #[cfg(not(feature = "full"))]
            Fmt::F16 => unreachable!(),
            #[cfg(feature = "full")]
            Fmt::F16 => {
                let s: &'static [f16] = std::slice::from_raw_parts(src as *const f16, op.slen());
                let d: &'static mut [f16] = std::slice::from_raw_parts_mut(dst as *mut f16, op.dlen());
                exec_f16(op, s, d, shared)
            }
        }
    }
}
fn opts(op: &Op) -> ScalingOptions {
    ScalingOptions {
        resampling_function: ResamplingFunction::from(op.filter),
        premultiply_alpha: op.premul,
        use_multithreading: op.pol != Pol::Single,
    }
}
fn sc(op: &Op, shared: Option<&Scaler>) -> &'static Scaler {
    match shared {
        Some(s) => unsafe { std::mem::transmute::<&Scaler, &'static Scaler>(s) },
        None => unreachable!(),
    }
}
fn exec_u8(op: &Op, s: &'static [u8], d: &'static mut [u8], sh: Option<&Scaler>) -> i32 {
    #[cfg(feature = "standard")]
    if op.color != 0 {
        let b = mk_color(op);
        return if op.ch == 3 { b.rgb(s, d, op) } else { b.rgba(s, d, op) };
    }
    macro_rules! go {
        ($n:literal, $f:ident $(, $a:expr)*) => {{
            with::<u8, $n>(op, s, d, |st, dt| if op.store_api { st.scale(dt, opts(op)) } else { sc(op, sh).$f(st, dt $(, $a)*) })
        }};
    }
    match op.ch {
        1 => go!(1, resize_plane),
        2 => go!(2, resize_cbcr8),
        3 => go!(3, resize_rgb),
        _ => go!(4, resize_rgba, op.premul),
    }
}
fn exec_u16(op: &Op, s: &'static [u16], d: &'static mut [u16], sh: Option<&Scaler>) -> i32 {
    macro_rules! go {
        ($n:literal, $f:ident $(, $a:expr)*) => {{
            with::<u16, $n>(op, s, d, |st, dt| if op.store_api { st.scale(dt, opts(op)) } else { sc(op, sh).$f(st, dt $(, $a)*) })
        }};
    }
    match op.ch {
        1 => go!(1, resize_plane_u16),
        2 => go!(2, resize_cbcr_u16),
        3 => go!(3, resize_rgb_u16),
        _ => go!(4, resize_rgba_u16, op.premul),
    }
}
fn exec_f32(op: &Op, s: &'static [f32], d: &'static mut [f32], sh: Option<&Scaler>) -> i32 {
    macro_rules! go {
        ($n:literal, $f:ident $(, $a:expr)*) => {{
            with::<f32, $n>(op, s, d, |st, dt| if op.store_api { st.scale(dt, opts(op)) } else { sc(op, sh).$f(st, dt $(, $a)*) })
        }};
    }
    match op.ch {
        1 => go!(1, resize_plane_f32),
        2 => go!(2, resize_cbcr_f32),
        3 => go!(3, resize_rgb_f32),
        _ => go!(4, resize_rgba_f32, op.premul),
    }
}
#[cfg(feature = "full")]
fn exec_f16(op: &Op, s: &'static [f16], d: &'static mut [f16], sh: Option<&Scaler>) -> i32 {
    macro_rules! go {
        ($n:literal, $f:ident $(, $a:expr)*) => {{
            with::<f16, $n>(op, s, d, |st, dt| if op.store_api { st.scale(dt, opts(op)) } else { sc(op, sh).$f(st, dt $(, $a)*) })
        }};
    }
    match op.ch {
        1 => go!(1, resize_plane_f16),
        2 => go!(2, resize_cbcr_f16),
        3 => go!(3, resize_rgb_f16),
        _ => go!(4, resize_rgba_f16, op.premul),
    }
}
fn exec_30(op: &Op, s: &'static [u8], d: &'static mut [u8], sh: Option<&Scaler>) -> i32 {
    let (sw, shh, dw, dh) = dims(op);
    let (ss, ds) = strides(op);
    let order = if op.net { Ar30ByteOrder::Network } else { Ar30ByteOrder::Host };
    let a = ImageSize::new(sw, shh);
    let b = ImageSize::new(dw, dh);
    let (s, d) = cut(op, s, d);
    let sca = sc(op, sh);
    res(if op.fmt == Fmt::Ar30 {
        sca.resize_ar30(s, ss, a, d, ds, b, order)
    } else {
        sca.resize_ra30(s, ss, a, d, ds, b, order)
    })
}
/// Fill the source buffer at `p` (raw bytes of `slen` elements).
pub fn fill_src(op: &Op, p: *mut u8, junk: u64) {
    unsafe {
        match op.fmt {
            Fmt::U8 | Fmt::Ar30 | Fmt::Ra30 => gen_src(op, std::slice::from_raw_parts_mut(p, op.slen()), junk),
            Fmt::U16 => gen_src(op, std::slice::from_raw_parts_mut(p as *mut u16, op.slen()), junk),
            Fmt::F32 => gen_src(op, std::slice::from_raw_parts_mut(p as *mut f32, op.slen()), junk),
            Fmt::F16 => gen_src(op, std::slice::from_raw_parts_mut(p as *mut f16, op.slen()), junk),
        }
    }
}
/// Read visible components as f64, row-major, tightly packed. For packed 30-bit formats: r,g,b,a per pixel.
pub fn read_px(op: &Op, p: *const u8, w: usize, h: usize, stride: usize) -> Vec<f64> {
    let mut out = Vec::with_capacity(w * h * op.epp());
    unsafe {
        for y in 0..h {
            for x in 0..w {
                match op.fmt {
                    Fmt::Ar30 | Fmt::Ra30 => {
                        let q = unpack30(op, std::slice::from_raw_parts(p.add(y * stride + x * 4), 4));
                        for k in 0..4 {
                            out.push(q[k] as f64);
                        }
                    }
                    _ => {
                        for c in 0..op.ch {
                            let i = y * stride + x * op.ch + c;
                            out.push(match op.fmt {
                                Fmt::U8 => *p.add(i) as f64,
                                Fmt::U16 => (p as *const u16).add(i).read_unaligned() as f64,
                                Fmt::F32 => (p as *const f32).add(i).read_unaligned() as f64,
                                _ => (p as *const f16).add(i).read_unaligned() as f64,
                            });
                        }
                    }
                }
            }
        }
    }
    out
}
