//! Reference for the colour-space scalers: convert (with the same conversion library, on its own, in a
//! separate process), resample there with the f64 model, convert back. The answer is an interval per
//! component: the resampling error allowance is pushed through the backward conversion numerically.
use crate::model;
use crate::ops::*;
use colorutils_rs::*;

const DISPLAY: f32 = 203.;

fn fwd(op: &Op, src: &[u8]) -> Vec<f32> {
    let (w, h, c) = (op.sw as u32, op.sh as u32, op.ch as u32);
    let mut o = vec![0f32; src.len()];
    let (ss, ds) = (w * c, w * c * 4);
    let tf = op.transfer();
    let s = TransferFunction::Srgb;
    let m = &SRGB_TO_XYZ_D65;
    let d = &mut o[..];
    match (op.color, op.ch) {
        (1 | 2, 3) => rgb_to_linear(src, ss, d, ds, w, h, tf),
        (1 | 2, _) => rgba_to_linear(src, ss, d, ds, w, h, tf),
        (5, 3) => rgb_to_lab(src, ss, d, ds, w, h, m, s),
        (5, _) => rgba_to_lab_with_alpha(src, ss, d, ds, w, h, m, s),
        (6, 3) => rgb_to_luv(src, ss, d, ds, w, h, m, s),
        (6, _) => rgba_to_luv_with_alpha(src, ss, d, ds, w, h, m, s),
        (7, 3) => rgb_to_lch(src, ss, d, ds, w, h, m, s),
        (7, _) => rgba_to_lch_with_alpha(src, ss, d, ds, w, h, m, s),
        (8, 3) => srgb_to_xyz(src, ss, d, ds, w, h),
        (8, _) => rgba_to_xyz_with_alpha(src, ss, d, ds, w, h, m, s),
        (9, 3) => rgb_to_oklab(src, ss, d, ds, w, h, tf),
        (9, _) => rgba_to_oklab(src, ss, d, ds, w, h, tf),
        (10, 3) => rgb_to_jzazbz(src, ss, d, ds, w, h, DISPLAY, tf),
        (10, _) => rgba_to_jzazbz(src, ss, d, ds, w, h, DISPLAY, tf),
        (_, 3) => rgb_to_sigmoidal(src, ss, d, ds, w, h),
        _ => rgba_to_sigmoidal(src, ss, d, ds, w, h),
    }
    // black has no hue: any value will do, but a number
    for v in o.iter_mut().filter(|v| v.is_nan()) {
        *v = 0.;
    }
    o
}
fn back(op: &Op, px: &[f32]) -> Vec<u8> {
    let (w, h, c) = (op.dw as u32, op.dh as u32, op.ch as u32);
    let mut o = vec![0u8; px.len()];
    let (ss, ds) = (w * c * 4, w * c);
    let tf = op.transfer();
    let s = TransferFunction::Srgb;
    let m = &XYZ_TO_SRGB_D65;
    let d = &mut o[..];
    match (op.color, op.ch) {
        (1 | 2, 3) => linear_to_rgb(px, ss, d, ds, w, h, tf),
        (1 | 2, _) => linear_to_rgba(px, ss, d, ds, w, h, tf),
        (5, 3) => lab_to_srgb(px, ss, d, ds, w, h),
        (5, _) => lab_with_alpha_to_rgba(px, ss, d, ds, w, h, m, s),
        (6, 3) => luv_to_rgb(px, ss, d, ds, w, h, m, s),
        (6, _) => luv_with_alpha_to_rgba(px, ss, d, ds, w, h, m, s),
        (7, 3) => lch_to_rgb(px, ss, d, ds, w, h, m, s),
        (7, _) => lch_with_alpha_to_rgba(px, ss, d, ds, w, h, m, s),
        (8, 3) => xyz_to_srgb(px, ss, d, ds, w, h),
        (8, _) => xyz_with_alpha_to_rgba(px, ss, d, ds, w, h, m, s),
        (9, 3) => oklab_to_rgb(px, ss, d, ds, w, h, tf),
        (9, _) => oklab_to_rgba(px, ss, d, ds, w, h, tf),
        (10, 3) => jzazbz_to_rgb(px, ss, d, ds, w, h, DISPLAY, tf),
        (10, _) => jzazbz_to_rgba(px, ss, d, ds, w, h, DISPLAY, tf),
        (_, 3) => sigmoidal_to_rgb(px, ss, d, ds, w, h),
        _ => sigmoidal_to_rgba(px, ss, d, ds, w, h),
    }
    o
}
/// (lo, hi, decided) per destination component. Starts rayon's process-wide pool: call in a child only.
pub fn expect(op: &Op, src: &[f64]) -> (Vec<f64>, Vec<f64>, Vec<bool>) {
    let s8: Vec<u8> = src.iter().map(|v| *v as u8).collect();
    if op.identity() {
        return (src.to_vec(), src.to_vec(), vec![true; src.len()]);
    }
    let premul = op.premul && op.ch == 4;
    if op.color == 3 || op.color == 4 {
        let (w, h, c) = (op.sw as u32, op.sh as u32, op.ch as u32);
        let mut l = vec![0u8; s8.len()];
        if op.ch == 3 {
            rgb_to_linear_u8(&s8, w * c, &mut l, w * c, w, h, op.transfer())
        } else {
            rgba_to_linear_u8(&s8, w * c, &mut l, w * c, w, h, op.transfer())
        }
        let px: Vec<f64> = l.iter().map(|v| *v as f64).collect();
        let e = model::expect_as(op, Fmt::U8, op.ch, 255., &px, premul);
        let to = |f: &dyn Fn(usize) -> f64| -> Vec<f64> {
            let v: Vec<u8> = (0..e.lo.len()).map(|i| f(i).clamp(0., 255.) as u8).collect();
            let mut o = vec![0u8; v.len()];
            let (w, h) = (op.dw as u32, op.dh as u32);
            if op.ch == 3 {
                linear_u8_to_rgb(&v, w * c, &mut o, w * c, w, h, op.transfer())
            } else {
                linear_u8_to_rgba(&v, w * c, &mut o, w * c, w, h, op.transfer())
            }
            o.iter().map(|v| *v as f64).collect()
        };
        let a = |i: usize| if op.filter == 1 { 0. } else { 2.6 * e.amp[i].max(1.) + e.add[i] + e.gain * e.hi[i].abs() };
        let lo = to(&|i| (e.lo[i] - a(i)).ceil());
        let hi = to(&|i| (e.hi[i] + a(i)).floor());
        let ok = e.skip.iter().map(|s| !s).collect();
        return (lo, hi, ok);
    }
    let px: Vec<f64> = fwd(op, &s8).iter().map(|v| *v as f64).collect();
    let e = model::expect_as(op, Fmt::F32, op.ch, 1., &px, premul);
    let n = e.lo.len();
    let c = op.ch;
    // magnitudes per channel: the rounding error of one channel does not depend on the others
    let mut mag = vec![0f64; c];
    for (i, v) in px.iter().enumerate() {
        mag[i % c] = mag[i % c].max(v.abs());
    }
    let (tol, base) = (if premul { 150e-6 } else { 80e-6 }, 2.1);
    let mid: Vec<f32> = (0..n).map(|i| ((e.lo[i] + e.hi[i]) / 2.) as f32).collect();
    let nom: Vec<f64> = back(op, &mid).iter().map(|v| *v as f64).collect();
    let mut spread = vec![0f64; n];
    let mut bad = e.skip.clone();
    if op.filter != 1 {
        // every combination of signs of the allowed error in the channels, and points between (the
        // conversions are not quite smooth)
        let corners = 1usize << c;
        let mut r = crate::rng::Rng::new(op.dseed);
        for m in 0..corners + 24 {
            let q: Vec<f32> = (0..n)
                .map(|i| {
                    let d = (e.hi[i] - e.lo[i]) / 2. + tol * mag[i % c].max(1e-3) * e.amp[i].max(1.) + e.add[i];
                    let t = if m >= corners {
                        r.us(0, 2000) as f64 / 1000. - 1.
                    } else if m >> (i % c) & 1 == 1 {
                        1.
                    } else {
                        -1.
                    };
                    (mid[i] as f64 + t * d) as f32
                })
                .collect();
            let b = back(op, &q);
            for i in 0..n {
                spread[i] = spread[i].max(1.5 * (b[i] as f64 - nom[i]).abs());
            }
        }
    }
    if std::env::var("DBG").is_ok() {
        for p in 0..n / c {
            for k in 0..c {
                let i = p * c + k;
                println!("{} {} ch {k}: {}..{} amp {} nom {} spread {}", p % op.dw, p / op.dw, e.lo[i], e.hi[i], e.amp[i], nom[i], spread[i]);
            }
        }
    }
    for p in 0..n / c {
        let any = (0..c).any(|k| bad[p * c + k] || (e.hi[p * c + k] - e.lo[p * c + k] > if op.filter == 1 { 0. } else { 4. * tol * mag[k].max(1e-3) * e.amp[p * c + k].max(1.) }) || !mid[p * c + k].is_finite());
        let any = any || (0..c).any(|k| spread[p * c + k] > 6.);
        for k in 0..c {
            let i = p * c + k;
            bad[i] = any;
        }
    }
    let lo = (0..n).map(|i| nom[i] - base - spread[i]).collect();
    let hi = (0..n).map(|i| nom[i] + base + spread[i]).collect();
    (lo, hi, bad.iter().map(|b| !b).collect())
}
