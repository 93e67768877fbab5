//! Independent reference model: separable resampling evaluated in f64, written from the filter
//! definitions, sharing no code with pic-scale.
use crate::ops::{Fmt, Op};
use std::f64::consts::PI;

// ---------------------------------------------------------------- kernels
fn bc(x: f64, b: f64, c: f64) -> f64 {
    let x = x.abs();
    if x < 1.0 {
        ((12. - 9. * b - 6. * c) * x * x * x + (-18. + 12. * b + 6. * c) * x * x + (6. - 2. * b)) / 6.
    } else if x < 2.0 {
        ((-b - 6. * c) * x * x * x + (6. * b + 30. * c) * x * x + (-12. * b - 48. * c) * x + (8. * b + 24. * c)) / 6.
    } else {
        0.
    }
}
fn sinc(x: f64) -> f64 {
    if x == 0. {
        1.
    } else {
        x.sin() / x
    }
}
extern "C" {
    fn j1(x: f64) -> f64; // libm
}
fn jinc(x: f64) -> f64 {
    if x == 0. {
        0.5
    } else {
        unsafe { j1(x) / x }
    }
}
fn lanczos(x: f64, a: f64) -> f64 {
    if x < a {
        sinc(PI * x) * sinc(PI * x / a)
    } else {
        0.
    }
}
fn lanczos_jinc(x: f64, a: f64) -> f64 {
    if x >= a || x > 16.247661874700962 {
        0.
    } else {
        jinc(PI * x) * jinc(PI * x / a)
    }
}
fn hanning(x: f64) -> f64 {
    if x == 0. {
        1.
    } else if x >= 1. {
        0.
    } else {
        0.5 + 0.5 * (PI * x).cos()
    }
}
fn poly3(x: f64, a: f64, b: f64, c: f64, d: f64) -> f64 {
    a * x * x * x + b * x * x + c * x + d
}
fn i0(x: f64) -> f64 {
    let y = x * x / 4.;
    let (mut s, mut t, mut i) = (1., y, 2.);
    while t > 1e-12 {
        s += t;
        t *= y / (i * i);
        i += 1.;
    }
    s
}
fn lagrange(x: f64, sup: f64) -> f64 {
    if x > sup {
        return 0.;
    }
    let order = (2. * sup) as usize;
    let n = (sup + x) as usize;
    let mut v = 1.;
    for i in 0..order {
        if i != n {
            v *= (n as f64 - i as f64 - x) / (n as f64 - i as f64);
        }
    }
    v
}

#[derive(Copy, Clone)]
pub struct Win {
    f: fn(f64) -> f64,
    size: f64,
    blur: f64,
}
pub struct Filt {
    k: fn(f64) -> f64,
    base: f64,
    ewa: bool,
    fixed: bool,
    win: Option<Win>,
}
const R3: f64 = 3.2383154841662362;
const R4: f64 = 4.2410628637960699;

/// samples under the kernel
pub fn taps(id: u32, inn: usize, out: usize) -> usize {
    let f = filt(id);
    let k = if id == 48 {
        if inn < out { 2 } else { inn.div_ceil(out) + 1 }
    } else {
        let cut = if f.fixed { 1.0 } else { (inn as f64 / out as f64).max(1.0) };
        (f.base * cut).round() as usize
    };
    k.max(1)
}
pub fn filt(id: u32) -> Filt {
    let s2 = 2f64.sqrt();
    let _ = s2;
    fn f(k: fn(f64) -> f64, base: f64) -> Filt {
        Filt { k, base, ewa: false, fixed: false, win: None }
    }
    fn e(k: fn(f64) -> f64, base: f64) -> Filt {
        Filt { k, base, ewa: true, fixed: false, win: None }
    }
    fn w(k: fn(f64) -> f64, base: f64, ewa: bool, f: fn(f64) -> f64, size: f64, blur: f64) -> Filt {
        Filt { k, base, ewa, fixed: false, win: Some(Win { f, size, blur }) }
    }
    fn robidoux(x: f64) -> f64 {
        let s = 2f64.sqrt();
        bc(x, 12. / (19. + 9. * s), 13. / (58. + 216. * s))
    }
    fn robidoux_sharp(x: f64) -> f64 {
        let s = 2f64.sqrt();
        bc(x, 6. / (13. + 7. * s), 7. / (2. + 12. * s))
    }
    fn quadric(x: f64) -> f64 {
        if x < 0.5 {
            0.75 - x * x
        } else if x < 1.5 {
            0.5 * (x - 1.5) * (x - 1.5)
        } else {
            0.
        }
    }
    fn blackman(x: f64) -> f64 {
        if x < 2. {
            sinc(PI * x) * (0.42 + 0.49656062 * (PI * x / 2.).cos() + 0.07684867 * (PI * x).cos())
        } else {
            0.
        }
    }
    match id {
        1 => f(|x| (1. - x).max(0.), 2.), // nearest: never convolved
        2 | 6 => f(|x| bc(x, 1., 0.), 2.),
        3 => f(|x| bc(x, 1. / 3., 1. / 3.), 2.),
        4 => f(|x| bc(x, 0., 0.5), 2.),
        5 => f(|x| bc(x, 0., 0.), 2.),
        7 => f(|x| if x > 2. { 0. } else { (PI * x / 4.).cos().powi(2) / 4. }, 3.),
        8 => f(
            |x| {
                let a = -0.5;
                if x >= 2. {
                    0.
                } else if x <= 1. {
                    (a + 2.) * x * x * x - (a + 3.) * x * x + 1.
                } else {
                    a * x * x * x - 5. * a * x * x + 8. * a * x - 4. * a
                }
            },
            2.,
        ),
        9 => f(
            |x| {
                if x == 0. {
                    1.
                } else if x >= 1. {
                    0.
                } else {
                    0.54 + 0.46 * (PI * x).cos()
                }
            },
            2.,
        ),
        10 => f(hanning, 2.),
        11 => f(blackman, 2.),
        12 => f(|x| if x >= 1. { 0. } else { 1. - x * x }, 2.),
        13 => f(quadric, 2.),
        14 => f(
            |x| {
                let s = 0.35f64;
                (-x * x / (2. * s * s)).exp() / ((2. * PI).sqrt() * s)
            },
            2.,
        ),
        15 => f(
            |x| {
                if x < 1e-8 {
                    1.
                } else {
                    let t = x * PI;
                    if t < 1e-3 {
                        // series, the closed form cancels
                        1. - t * t / 10.
                    } else {
                        3. * (t.sin() - t * t.cos()) / (t * t * t)
                    }
                }
            },
            2.,
        ),
        16 => f(|x| (1. - x).max(0.), 2.),
        17 => f(robidoux, 2.),
        18 => f(robidoux_sharp, 2.),
        19 => Filt {
            k: |x| {
                if x < 1. {
                    poly3(x, 1., -9. / 5., -1. / 5., 1.)
                } else {
                    poly3(x - 1., -1. / 3., 4. / 5., -7. / 15., 0.)
                }
            },
            base: 2.,
            ewa: false,
            fixed: true,
            win: None,
        },
        20 => Filt {
            k: |x| {
                if x < 1. {
                    poly3(x, 13. / 11., -453. / 209., -3. / 209., 1.)
                } else if x < 2. {
                    poly3(x - 1., -6. / 11., 270. / 209., -156. / 209., 0.)
                } else {
                    poly3(x - 2., 1. / 11., -45. / 209., 26. / 209., 0.)
                }
            },
            base: 4.,
            ewa: false,
            fixed: true,
            win: None,
        },
        21 => Filt {
            k: |x| {
                if x < 1. {
                    poly3(x, 49. / 41., -6387. / 2911., -3. / 2911., 1.)
                } else if x < 2. {
                    poly3(x - 1., -24. / 41., 4032. / 2911., -2328. / 2911., 0.)
                } else if x < 3. {
                    poly3(x - 2., 6. / 41., -1008. / 2911., 582. / 2911., 0.)
                } else {
                    poly3(x - 3., -1. / 41., 168. / 2911., -97. / 2911., 0.)
                }
            },
            base: 6.,
            ewa: false,
            fixed: true,
            win: None,
        },
        22 => f(|x| if x > 1. { 0. } else { i0(6.33 * (1. - x * x).sqrt()) / i0(6.33) }, 2.),
        23 => f(
            |x| {
                if x > 1. {
                    0.
                } else {
                    let t = x / 2.;
                    0.62 - 0.4832 * t + 0.38 * (2. * PI * t).cos()
                }
            },
            2.,
        ),
        24 | 48 => f(|_| 1., 2.),
        25 => f(|x| if x > 1. { 0. } else { (1. - x) * (PI * x).cos() + (PI * x).sin() / PI }, 2.),
        26 => f(|x| lanczos(x, 2.), 2.),
        27 => f(|x| lanczos(x, 3.), 3.),
        28 => f(|x| lanczos(x, 4.), 4.),
        46 => f(|x| lanczos(x, 6.), 6.),
        29 => f(|x| lanczos_jinc(x, 2.), 2.),
        30 => f(|x| lanczos_jinc(x, 3.), 3.),
        31 => f(|x| lanczos_jinc(x, 4.), 4.),
        47 => f(|x| lanczos_jinc(x, 6.), 6.),
        32 => w(jinc, 1., true, hanning, 2., 0.),
        33 => e(robidoux, 2.),
        34 => e(blackman, 2.),
        35 => e(quadric, 2.),
        36 => e(robidoux_sharp, 2.),
        37 => e(|x| lanczos_jinc(x, 3.), 3.),
        38 => w(sinc, 3., false, jinc, 3., 1.),
        39 => w(sinc, 3., true, jinc, R3, 1.),
        40 => w(jinc, 3., true, jinc, R3, 0.9812505837223707),
        41 => w(jinc, 4., true, jinc, R4, 0.8845120932605005),
        42 => w(jinc, 3., true, jinc, R3, 1.0164667662867047),
        43 => w(jinc, 3., false, hanning, 3., 1.11),
        44 => f(|x| lagrange(x, 2.), 2.),
        45 => f(|x| lagrange(x, 3.), 3.),
        _ => f(|x| (1. - x).max(0.), 2.),
    }
}

#[derive(Clone, PartialEq)]
pub struct Tap {
    pub start: usize,
    pub w: Vec<f64>,
}
/// One axis: for every output position its taps.
#[derive(Clone)]
pub struct Axis {
    pub taps: Vec<Tap>,
    /// conditioning: sum|w| after normalisation (1 = all weights non-negative)
    pub cond: Vec<f64>,
    pub wmax: Vec<f64>,
}

/// rounding of positions (double precision) and of distances (single precision) decides ties: which
/// of two samples at the rim of a window counts, on which side of a jump of the kernel it lies
#[derive(Copy, Clone)]
struct Var {
    dcenter: f64, // in units of in_size * 1e-12
    dscale: f64,  // relative
}
const VARS: [Var; 5] = [
    Var { dcenter: 0., dscale: 0. },
    Var { dcenter: 1., dscale: 0. },
    Var { dcenter: -1., dscale: 0. },
    Var { dcenter: 0., dscale: 3e-7 },
    Var { dcenter: 0., dscale: -3e-7 },
];

fn axis_var(id: u32, inn: usize, out: usize, v: Var) -> Axis {
    let n = inn as f64;
    let scale = n / out as f64;
    let mut ax = Axis { taps: Vec::with_capacity(out), cond: vec![], wmax: vec![] };
    let fl = filt(id);
    let area = id == 48 && inn < out;
    let cut = if fl.fixed { 1.0 } else { scale.max(1.0) };
    let ksize = (fl.base * cut).round();
    let radius = ksize / 2.0;
    let fscale = (1.0 + v.dscale) / cut;
    for i in 0..out {
        let (start, ws) = if id == 48 && inn >= out {
            // OpenCV INTER_AREA for shrinking: the covered part of every sample
            // in units of 1/out of a sample, exactly
            let (l, r) = (i * inn, (i + 1) * inn);
            let (start, end) = (l / out, r.div_ceil(out));
            (start, (start..end).map(|k| (r.min((k + 1) * out) - l.max(k * out)) as f64 / n).collect())
        } else if area {
            // OpenCV INTER_AREA for enlarging
            let start = i * inn / out;
            let fx = (i + 1) as f64 - (start + 1) as f64 * (out as f64 / n);
            let d = if fx <= 0. { 0. } else { fx - fx.floor() };
            let end = (start + 2).min(inn);
            let w = vec![1. - d, d];
            (start, w[..end - start].to_vec())
        } else {
            let cx = ((i as f64 + 0.5) * scale + v.dcenter * n * 1e-12).min(n);
            // a window of `ksize` samples around the position; on a tie either sample at the rim
            let start = (cx - radius).round().clamp(0., n - 1.) as usize;
            let end = (cx + radius).round().min(start as f64 + ksize).min(n) as usize;
            let c = cx - 0.5;
            let mut w = vec![];
            for k in start..end.max(start) {
                // positions are doubles, the distances of the nominal table are single: ties stay ties
                let dx = (k as f64 - c).abs();
                let dx = if v.dcenter == 0. { dx as f32 as f64 } else { dx };
                let val = if let Some(win) = fl.win {
                    let x = if win.blur > 0. { dx / win.blur * (1.0 + v.dscale) } else { dx };
                    let x = if x <= 0. { 0. } else { x };
                    let xs = x / cut * if win.blur > 0. { 1.0 } else { 1.0 + v.dscale };
                    let wv = if x < win.size { (win.f)(xs * win.size) } else { 0. };
                    wv * (fl.k)(xs)
                } else {
                    (fl.k)(dx * fscale)
                };
                w.push(val);
            }
            if fl.ewa {
                for j in 1..w.len() {
                    w[j] = 0.7 * w[j] + 0.3 * w[j - 1];
                }
            }
            (start, w)
        };
        let sum: f64 = ws.iter().sum();
        let abs: f64 = ws.iter().map(|x| x.abs()).sum();
        if area && sum == 0. {
            ax.taps.push(Tap { start, w: vec![1.0] });
            ax.cond.push(1.);
            ax.wmax.push(1.);
            continue;
        }
        // a sum this small is all rounding of the weights themselves
        if abs < 1e-5 || sum.abs() < 1e-3 * abs {
            ax.taps.push(Tap { start, w: ws });
            ax.cond.push(f64::INFINITY);
            ax.wmax.push(f64::INFINITY);
            continue;
        }
        let w: Vec<f64> = ws.iter().map(|x| x / sum).collect();
        ax.cond.push(abs / sum.abs());
        ax.wmax.push(w.iter().fold(0f64, |a, x| a.max(x.abs())));
        ax.taps.push(Tap { start, w });
    }
    ax
}

fn tap_dist(a: &Tap, b: &Tap) -> f64 {
    let s = a.start.min(b.start);
    let e = (a.start + a.w.len()).max(b.start + b.w.len());
    let g = |t: &Tap, i: usize| if i >= t.start && i < t.start + t.w.len() { t.w[i - t.start] } else { 0. };
    let mut d = 0f64;
    for i in s..e {
        d += (g(a, i) - g(b, i)).abs();
    }
    d
}

/// All materially different weight tables for this axis (the first is the nominal one), plus, per
/// output position, the worst conditioning over the variants.
pub fn axis(id: u32, inn: usize, out: usize) -> (Vec<Axis>, Vec<f64>, Vec<f64>) {
    let first = axis_var(id, inn, out, VARS[0]);
    let mut cond = first.cond.clone();
    let mut wmax = first.wmax.clone();
    let mut res = vec![first];
    for v in &VARS[1..] {
        let a = axis_var(id, inn, out, *v);
        for i in 0..out {
            cond[i] = cond[i].max(a.cond[i]);
            wmax[i] = wmax[i].max(a.wmax[i]);
        }
        let differs = res.iter().all(|r| r.taps.iter().zip(&a.taps).any(|(x, y)| tap_dist(x, y) > 5e-5));
        if differs {
            res.push(a);
        }
    }
    (res, cond, wmax)
}

fn apply_v(img: &[f64], w: usize, c: usize, ax: &Axis) -> Vec<f64> {
    let row = w * c;
    let mut out = Vec::with_capacity(row * ax.taps.len());
    for t in &ax.taps {
        let base = out.len();
        out.resize(base + row, 0.0);
        for (k, wt) in t.w.iter().enumerate() {
            let s = &img[(t.start + k) * row..(t.start + k + 1) * row];
            for i in 0..row {
                out[base + i] += wt * s[i];
            }
        }
    }
    out
}
fn apply_h(img: &[f64], w: usize, h: usize, c: usize, ax: &Axis) -> Vec<f64> {
    let mut out = vec![0.0; ax.taps.len() * h * c];
    let ow = ax.taps.len();
    for y in 0..h {
        for (x, t) in ax.taps.iter().enumerate() {
            for (k, wt) in t.w.iter().enumerate() {
                for ch in 0..c {
                    out[(y * ow + x) * c + ch] += wt * img[(y * w + t.start + k) * c + ch];
                }
            }
        }
    }
    out
}

pub struct Expect {
    pub lo: Vec<f64>,
    pub hi: Vec<f64>,
    /// component not decided (ill conditioned weights, alpha ~ 0 ...)
    pub skip: Vec<bool>,
    /// amplification of arithmetic error at this component (conditioning, alpha division)
    pub amp: Vec<f64>,
    /// further absolute allowance below and above (rounding of 16-bit filter weights)
    pub add: Vec<f64>,
    /// the high-speed 8-bit kernels scale by up to 257/256 in each direction
    pub gain: f64,
    /// magnitude of the values entering the sum (for relative float tolerance)
    pub mag: f64,
}

fn q(op: &Op, v: f64, max: f64, fmt: Fmt) -> f64 {
    let _ = op;
    match fmt {
        Fmt::F32 => v as f32 as f64,
        Fmt::F16 => v as f16 as f64,
        _ => (v + 0.5).floor().clamp(0., max),
    }
}

/// What an ideal, separable, two-pass resize gives. `px` are the source components in value units.
pub fn expect(op: &Op, px: &[f64]) -> Expect {
    expect_as(op, op.fmt, op.epp(), op.maxv(), px, op.premul && op.epp() == 4 && !op.is30())
}

pub fn expect_as(op: &Op, fmt: Fmt, c: usize, max: f64, px: &[f64], premul: bool) -> Expect {
    let isint = !matches!(fmt, Fmt::F32 | Fmt::F16);
    let mag = px.iter().fold(0f64, |a, v| a.max(v.abs()));
    if op.identity() {
        return Expect {
            lo: px.to_vec(),
            hi: px.to_vec(),
            skip: vec![false; px.len()],
            amp: vec![0.; px.len()],
            add: vec![0.; px.len()],
            gain: 0.,
            mag,
        };
    }
    if op.filter == 1 {
        return nearest(op, c, px, mag);
    }
    let amax = if isint { max } else { 1.0 };
    let varies = c == 4 && px.chunks(4).any(|p| p[3] != px[3]);
    let do_alpha = premul && varies;
    let mut src = px.to_vec();
    if do_alpha {
        for p in src.chunks_mut(4) {
            for k in 0..3 {
                p[k] = q(op, p[k] * p[3] / amax, max, fmt);
            }
        }
    }
    let one = |n: usize| -> (Vec<Axis>, Vec<f64>, Vec<f64>) {
        let a = Axis {
            taps: (0..n).map(|i| Tap { start: i, w: vec![1.0] }).collect(),
            cond: vec![1.; n],
            wmax: vec![1.; n],
        };
        (vec![a], vec![1.; n], vec![1.; n])
    };
    let (va, vc, _) = if op.sh != op.dh { axis(op.filter, op.sh, op.dh) } else { one(op.sh) };
    let (ha, hc, _) = if op.sw != op.dw { axis(op.filter, op.sw, op.dw) } else { one(op.sw) };
    let n = op.dw * op.dh * c;
    let mut lo = vec![f64::INFINITY; n];
    let mut hi = vec![f64::NEG_INFINITY; n];
    for v in &va {
        let mut mid = if op.sh != op.dh { apply_v(&src, op.sw, c, v) } else { src.clone() };
        if op.sh != op.dh && op.sw != op.dw {
            for m in mid.iter_mut() {
                *m = q(op, *m, max, fmt);
            }
        }
        for h in &ha {
            let mut o = if op.sw != op.dw { apply_h(&mid, op.sw, op.dh, c, h) } else { mid.clone() };
            if isint {
                for x in o.iter_mut() {
                    *x = x.clamp(0., max);
                }
            }
            if do_alpha {
                for p in o.chunks_mut(4) {
                    let a = if isint { (p[3] + 0.5).floor() } else { p[3] };
                    for k in 0..3 {
                        p[k] = if a == 0. { 0. } else { p[k] * amax / a };
                        if isint {
                            p[k] = p[k].clamp(0., max);
                        }
                    }
                }
            }
            for i in 0..n {
                lo[i] = lo[i].min(o[i]);
                hi[i] = hi[i].max(o[i]);
            }
        }
    }
    // conditioning
    let mut skip = vec![false; n];
    let mut amp = vec![1.0; n];
    let mut add = vec![0.0; n];
    let gain = if fmt == Fmt::U8 && (!op.quality || op.store_api) { 0.0079 } else { 0. };
    let q16 = isint && !(fmt == Fmt::U16 && op.depth > 12);
    for y in 0..op.dh {
        for x in 0..op.dw {
            let bad = !(vc[y].is_finite() && hc[x].is_finite());
            for k in 0..c {
                let i = (y * op.dw + x) * c + k;
                skip[i] = bad;
                amp[i] = vc[y] * hc[x];
                if q16 {
                    add[i] = (va[0].taps[y].w.len() + ha[0].taps[x].w.len()) as f64 / 65536. * mag * amp[i];
                } else {
                    // sums in single precision: half a unit in the last place per term
                    add[i] = (va[0].taps[y].w.len() + ha[0].taps[x].w.len()) as f64 * 6e-8 * mag * amp[i];
                }
            }
            if premul && !varies && c == 4 && px[3].abs() < if isint { 6. } else { 1e-2 } {
                // the colour of an entirely transparent picture is nobody's business
                for k in 0..3 {
                    skip[(y * op.dw + x) * c + k] = true;
                }
            }
            if do_alpha {
                let b = (y * op.dw + x) * c;
                // alpha as divided by: worst case over the hull
                let a = lo[b + 3].max(0.) / amax;
                for k in 0..3 {
                    let grow = (1.0 + hi[b + k].abs() / amax) / a.max(1e-9);
                    amp[b + k] *= grow;
                    add[b + k] *= grow;
                    if a * (if isint { 1. } else { 1. }) < if isint { 6. / amax } else { 1e-2 } {
                        skip[b + k] = true;
                    }
                }
            }
        }
    }
    Expect { lo, hi, skip, amp, add, gain, mag }
}

fn nearest(op: &Op, c: usize, px: &[f64], mag: f64) -> Expect {
    // the source sample whose centre is closest to the destination sample's centre (either neighbour on a tie)
    let pos = |i: usize, n: usize, m: usize| -> (usize, usize) {
        let (a, d) = ((2 * i as u128 + 1) * n as u128, 2 * m as u128);
        (((a - 1) / d) as usize, ((a / d) as usize).min(n - 1))
    };
    let n = op.dw * op.dh * c;
    let mut lo = vec![0.; n];
    let mut hi = vec![0.; n];
    for y in 0..op.dh {
        let (y0, y1) = pos(y, op.sh, op.dh);
        for x in 0..op.dw {
            let (x0, x1) = pos(x, op.sw, op.dw);
            for k in 0..c {
                let mut l = f64::INFINITY;
                let mut h = f64::NEG_INFINITY;
                for yy in [y0, y1] {
                    for xx in [x0, x1] {
                        let v = px[(yy * op.sw + xx) * c + k];
                        l = l.min(v);
                        h = h.max(v);
                    }
                }
                lo[(y * op.dw + x) * c + k] = l;
                hi[(y * op.dw + x) * c + k] = h;
            }
        }
    }
    Expect { lo, hi, skip: vec![false; n], amp: vec![0.; n], add: vec![0.; n], gain: 0., mag }
}
