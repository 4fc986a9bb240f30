//! C25: math functions, SIMD number types, waveshapers, panning and mixing.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::hacker32 as h32e;
use fundsp::math as m;
use fundsp::pan::{Mixer, Panner};
use fundsp::prelude::{An, Atan, AudioUnit, Clip, ClipTo, Crush, Frame, Shape, SoftCrush, Softsign, Tanh, U1, U2, U3};
use fundsp::setting::Setting;
use fundsp::wide::{f32x8, f64x4};
use fundsp::{Float, Num};
use std::f64::consts::{PI, TAU};

type Unit = Box<dyn AudioUnit>;

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol * (1.0 + b.abs()) || a == b || (a.is_nan() && b.is_nan())
}

/// Bernstein form of the easing polynomial of degree 2 k + 1.
fn smooth(k: u32, x: f64) -> f64 {
    let n = 2 * k + 1;
    let mut c = 1.0;
    let mut sum = 0.0;
    for j in 0..=n {
        if j > k {
            sum += c * x.powi(j as i32) * (1.0 - x).powi((n - j) as i32);
        }
        c = c * (n - j) as f64 / (j + 1) as f64;
    }
    sum
}

/// Every 32-bit float in 0...1 (every `stride`th of them) through easing functions.
fn easing(ctx: &Ctx) {
    let one = 1.0f32.to_bits() as usize;
    let stride = ctx.q(16, 1);
    type F = (&'static str, fn(f32) -> f32, fn(f64) -> f64, fn(f64) -> f64, f64);
    let table: Vec<F> = vec![
        ("smooth3", m::smooth3, m::smooth3, |x| smooth(1, x), 2e-6),
        ("smooth5", m::smooth5, m::smooth5, |x| smooth(2, x), 4e-6),
        ("smooth7", m::smooth7, m::smooth7, |x| smooth(3, x), 2e-5),
        ("smooth9", m::smooth9, m::smooth9, |x| smooth(4, x), 6e-5),
        ("uparc", m::uparc, m::uparc, |x| 1.0 - (1.0 - x * x).max(0.0).sqrt(), 5e-4),
        ("downarc", m::downarc, m::downarc, |x| (1.0 - (1.0 - x) * (1.0 - x)).max(0.0).sqrt(), 1e-6),
        ("sine_ease", m::sine_ease, m::sine_ease, |x| (x * PI * 0.5).sin(), 2e-3),
        ("squared", m::squared, m::squared, |x| x * x, 1e-6),
        ("cubed", m::cubed, m::cubed, |x| x * x * x, 1e-6),
        ("identity", m::identity, m::identity, |x| x, 0.0),
        ("softsign", m::softsign, m::softsign, |x| x / (1.0 + x), 1e-6),
    ];
    let chunks = 64;
    ctx.par(table.len() * chunks, |j| {
        let (name, f, g, r, tol) = table[j / chunks];
        let chunk = j % chunks;
        ctx.case(name, || {
            let (lo, hi) = (one * chunk / chunks, one * (chunk + 1) / chunks + (chunk + 1 == chunks) as usize);
            let mut i = lo;
            let mut n = 0u64;
            while i < hi {
                let x = f32::from_bits(i as u32);
                let e = r(x as f64);
                let (a, b) = (f(x) as f64, g(x as f64));
                if !((a - e).abs() <= tol) || !((b - e).abs() <= if name == "sine_ease" { tol } else { 1e-7 }) {
                    let e = format!("{}({}) is {} in single and {} in double precision, expected {}", name, x, a, b, e);
                    ctx.violation(name, e.clone(), e);
                    return;
                }
                i += stride;
                n += 1;
            }
            // End points are exact.
            if name != "softsign" && (f(0.0) != 0.0 || (f(1.0) - 1.0).abs() > 1e-6) {
                let e = format!("{} maps 0 to {} and 1 to {}", name, f(0.0), f(1.0));
                ctx.violation(name, e.clone(), e);
            }
            ctx.trans(n);
            ctx.trace();
            ctx.state(hmix(j as u64, 25));
        });
    });
    ctx.part("easing inputs", (table.len() * one / stride) as u64);
}

fn interpolation(ctx: &Ctx) {
    let values = [-2.0f64, -1.0, -0.25, 0.0, 0.25, 1.0, 3.0];
    let ts: Vec<f64> = (0..=64).map(|i| i as f64 / 64.0).collect();
    ctx.par(values.len(), |a| {
        ctx.case("interpolation", || {
            let fail = |e: String| ctx.violation(e.split(' ').next().unwrap().to_string(), e.clone(), e);
            for b in 0..values.len() {
                let (x0, x1) = (values[a], values[b]);
                for &t in &ts {
                    let e = x0 + (x1 - x0) * t;
                    let t11 = t * 2.0 - 1.0;
                    if !close(m::lerp(x0, x1, t), e, 1e-12) || !close(m::lerp11(x0, x1, t11), e, 1e-12) || !close(m::lerp(x0 as f32, x1 as f32, t as f32) as f64, e, 1e-6) {
                        return fail(format!("lerp between {} and {} at {}", x0, x1, t));
                    }
                    if x0 != x1 && (!close(m::delerp(x0, x1, e), t, 1e-12) || !close(m::delerp11(x0, x1, e), t11, 1e-12)) {
                        return fail(format!("delerp between {} and {} at {}", x0, x1, t));
                    }
                    if x0 > 0.0 && x1 > 0.0 {
                        let e = x0 * (x1 / x0).powf(t);
                        if !close(m::xerp(x0, x1, t), e, 1e-12) || !close(m::xerp11(x0, x1, t11), e, 1e-12) || !close(m::xerp(x0 as f32, x1 as f32, t as f32) as f64, e, 1e-5) {
                            return fail(format!("xerp between {} and {} at {}", x0, x1, t));
                        }
                        if x0 != x1 && (!close(m::dexerp(x0, x1, e), t, 1e-9) || !close(m::dexerp11(x0, x1, e), t11, 1e-9)) {
                            return fail(format!("dexerp between {} and {} at {}", x0, x1, t));
                        }
                    }
                    ctx.trans(1);
                }
                // Cubic splines on every combination of knots.
                for c in 0..values.len() {
                    for d in 0..values.len() {
                        let (y0, y1, y2, y3) = (values[a], values[b], values[c], values[d]);
                        let (lo, hi) = (y1.min(y2), y1.max(y2));
                        let (all0, all1) = (lo.min(y0).min(y3), hi.max(y0).max(y3));
                        let mut last = y1;
                        for &t in &ts {
                            let (m1, m2) = ((y2 - y0) / 2.0, (y3 - y1) / 2.0);
                            let (t2, t3) = (t * t, t * t * t);
                            let e = y1 * (2.0 * t3 - 3.0 * t2 + 1.0) + m1 * (t3 - 2.0 * t2 + t) + y2 * (3.0 * t2 - 2.0 * t3) + m2 * (t3 - t2);
                            let s = m::spline(y0, y1, y2, y3, t);
                            if !close(s, e, 1e-12) || !close(m::spline(y0 as f32, y1 as f32, y2 as f32, y3 as f32, t as f32) as f64, e, 1e-5) {
                                return fail(format!("spline of {:?} at {} is {} expected {}", (y0, y1, y2, y3), t, s, e));
                            }
                            if s < all0 - (all1 - all0) / 8.0 - 1e-9 || s > all1 + (all1 - all0) / 8.0 + 1e-9 {
                                return fail(format!("spline of {:?} at {} overshoots to {}", (y0, y1, y2, y3), t, s));
                            }
                            let s = m::spline_mono(y0, y1, y2, y3, t);
                            if !(s >= lo - 1e-9 && s <= hi + 1e-9) || (s - last) * (y2 - y1) < -1e-9 {
                                return fail(format!("spline_mono of {:?} at {} is {}, which is not monotonic", (y0, y1, y2, y3), t, s));
                            }
                            if !close(m::spline_mono(y0 as f32, y1 as f32, y2 as f32, y3 as f32, t as f32) as f64, s, 1e-5) {
                                return fail(format!("spline_mono of {:?} at {} differs in single precision", (y0, y1, y2, y3), t));
                            }
                            // Reversal symmetry.
                            if !close(m::spline_mono(y3, y2, y1, y0, 1.0 - t), s, 1e-9) {
                                return fail(format!("spline_mono of {:?} at {} depends on direction", (y0, y1, y2, y3), t));
                            }
                            last = s;
                            ctx.trans(1);
                        }
                        if !close(m::spline_mono(y0, y1, y2, y3, 0.0), y1, 1e-12) || !close(m::spline_mono(y0, y1, y2, y3, 1.0), y2, 1e-12) {
                            return fail(format!("spline_mono of {:?} misses its end points", (y0, y1, y2, y3)));
                        }
                        // First order continuity with every next knot.
                        let h = 1e-5;
                        for &y4 in &values {
                            let left = (m::spline_mono(y0, y1, y2, y3, 1.0) - m::spline_mono(y0, y1, y2, y3, 1.0 - h)) / h;
                            let right = (m::spline_mono(y1, y2, y3, y4, h) - m::spline_mono(y1, y2, y3, y4, 0.0)) / h;
                            if (left - right).abs() > 2e-3 {
                                return fail(format!("spline_mono of {:?} has a corner: slopes {} and {}", (y0, y1, y2, y3, y4), left, right));
                            }
                        }
                        ctx.trace();
                        ctx.state(hmix(h64(&[a as u8, b as u8, c as u8, d as u8]), 1));
                    }
                }
            }
        });
    });
    ctx.part("spline knot combinations", values.len().pow(4) as u64);
}

fn scales(ctx: &Ctx) {
    ctx.case("scales", || {
        let fail = |e: String| ctx.violation(e.split(' ').next().unwrap().to_string(), e.clone(), e);
        for i in -1200..=1200 {
            let x = i as f64 * 0.1;
            let checks: [(&str, f64, f64, f64); 9] = [
                ("db_amp", m::db_amp(x), 10f64.powf(x / 20.0), m::db_amp(x as f32) as f64),
                ("amp_db", m::amp_db(10f64.powf(x / 20.0)), x, m::amp_db(10f64.powf(x / 20.0) as f32) as f64),
                ("midi_hz", m::midi_hz(x), 440.0 * 2f64.powf((x - 69.0) / 12.0), m::midi_hz(x as f32) as f64),
                ("semitone_ratio", m::semitone_ratio(x), 2f64.powf(x / 12.0), m::semitone_ratio(x as f32) as f64),
                ("bpm_hz", m::bpm_hz(x), x / 60.0, m::bpm_hz(x as f32) as f64),
                ("exp10", m::exp10(x / 10.0), 10f64.powf(x / 10.0), m::exp10(x as f32 / 10.0) as f64),
                ("softexp", m::softexp(x), if x > 0.0 { x * x + x + 1.0 } else { 1.0 / (1.0 - x) }, m::softexp(x as f32) as f64),
                ("softsign", m::softsign(x), x / (1.0 + x.abs()), m::softsign(x as f32) as f64),
                ("tanh", m::tanh(x), x.tanh(), m::tanh(x as f32) as f64),
            ];
            for (name, a, e, s) in checks {
                if !close(a, e, 1e-9) || !close(s, e, 2e-4) {
                    return fail(format!("{} at {} is {} ({}) expected {}", name, x, a, s, e));
                }
            }
            let clamps = [(m::clamp(-1.5, 2.5, x), x.clamp(-1.5, 2.5)), (m::clamp01(x), x.clamp(0.0, 1.0)), (m::clamp11(x), x.clamp(-1.0, 1.0)), (m::floor(x), x.floor()), (m::ceil(x), x.ceil()), (m::round(x), x.round()), (m::abs(x), x.abs())];
            if clamps.iter().any(|c| c.0 != c.1) {
                return fail(format!("clamp or rounding at {}: {:?}", x, clamps));
            }
            for j in -20..=20 {
                let (y, z) = (j as f64 * 0.37, x * 0.1);
                // Soft mix is the average at zero bias, and approaches extremes of its arguments.
                let (lo, hi) = (y.min(z), y.max(z));
                for bias in [-50.0, -1.0, 0.0, 1.0, 50.0] {
                    let s = m::softmix(z, y, bias);
                    let bad = s < lo - 1e-6 || s > hi + 1e-6 || bias == 0.0 && !close(s, (y + z) * 0.5, 1e-9) || bias < 0.0 && s > (y + z) * 0.5 + 1e-6 || bias > 0.0 && s < (y + z) * 0.5 - 1e-6;
                    if bad {
                        return fail(format!("softmix of {} and {} with bias {} is {}", z, y, bias, s));
                    }
                }
                ctx.trans(1);
            }
            ctx.trace();
            ctx.state(hmix(i as u64, 2));
        }
        // Periodic functions.
        for hz in [0.5, 1.0, 3.0] {
            for i in -600..600 {
                let t = i as f64 / 128.0;
                let p = (t * hz).rem_euclid(1.0);
                let tri = if p < 0.25 { 4.0 * p } else if p < 0.75 { 2.0 - 4.0 * p } else { 4.0 * p - 4.0 };
                let e = [(TAU * p).sin(), (TAU * p).cos(), if p < 0.5 { 1.0 } else { -1.0 }, tri];
                let a = [m::sin_hz(hz, t), m::cos_hz(hz, t), m::sqr_hz(hz, t), m::tri_hz(hz, t)];
                let s = [m::sin_hz(hz as f32, t as f32) as f64, m::cos_hz(hz as f32, t as f32) as f64, m::sqr_hz(hz as f32, t as f32) as f64, m::tri_hz(hz as f32, t as f32) as f64];
                if (0..4).any(|k| !close(a[k], e[k], 1e-9) || !close(s[k], e[k], 1e-4)) {
                    return fail(format!("sin_hz, cos_hz, sqr_hz or tri_hz at {} Hz time {}: {:?} expected {:?}", hz, t, a, e));
                }
                ctx.trans(1);
            }
        }
        // Weighting curves: normalized at 1 kHz, known values in decibels (IEC 61672, ITU-R 468).
        let a_table = [(31.5, -39.4), (63.0, -26.2), (125.0, -16.1), (250.0, -8.6), (500.0, -3.2), (1000.0, 0.0), (2000.0, 1.2), (4000.0, 1.0), (8000.0, -1.1), (16000.0, -6.6)];
        let m_table = [(31.5, -29.9), (63.0, -23.9), (100.0, -19.8), (200.0, -13.8), (400.0, -7.8), (800.0, -1.9), (1000.0, 0.0), (2000.0, 5.6), (3150.0, 9.0), (6300.0, 12.2), (8000.0, 11.4), (10000.0, 8.1), (20000.0, -22.2)];
        if (m::a_weight(1000.0f64) - 1.0).abs() > 1e-4 || (m::m_weight(1000.0f64) - 1.0).abs() > 1e-4 {
            return fail(format!("weights at 1 kHz are {} and {}", m::a_weight(1000.0f64), m::m_weight(1000.0f64)));
        }
        for (f, db) in a_table {
            if (20.0 * m::a_weight(f as f64).log10() - db).abs() > 0.25 || (20.0 * (m::a_weight(f as f32) as f64).log10() - db).abs() > 0.25 {
                return fail(format!("a_weight at {} Hz is {} dB expected {}", f, 20.0 * m::a_weight(f as f64).log10(), db));
            }
        }
        for (f, db) in m_table {
            if (20.0 * m::m_weight(f as f64).log10() - db).abs() > 0.25 {
                return fail(format!("m_weight at {} Hz is {} dB expected {}", f, 20.0 * m::m_weight(f as f64).log10(), db));
            }
        }
        // Dissonance is in 0...1, symmetric, zero at unison and largest at the documented frequency.
        for i in 1..200 {
            let f = 20.0 * 1.03f64.powi(i);
            let max = m::dissonance_max(f);
            let d = m::dissonance(f, max);
            if !(d > 0.999 && d <= 1.0001) || m::dissonance(f, f) != 0.0 {
                return fail(format!("dissonance between {} Hz and {} Hz is {}", f, max, d));
            }
            for k in 0..200 {
                let g = f * (1.0 + k as f64 * 0.02);
                let x = m::dissonance(f, g);
                if !(x >= 0.0 && x <= d + 1e-4) || !close(x, m::dissonance(g, f), 1e-12) {
                    return fail(format!("dissonance between {} Hz and {} Hz is {} beyond that at {} Hz", f, g, x, max));
                }
                ctx.trans(1);
            }
        }
    });
}

/// Noise functions: range, determinism, continuity, grid values and dependence on seed.
fn noise(ctx: &Ctx) {
    ctx.par(64, |seed| {
        ctx.case("noise functions", || {
            let seed = if seed < 32 { seed as u64 } else { (seed as u64).wrapping_mul(0x9E3779B97F4A7C15) };
            let fail = |e: String| ctx.violation(e.split(' ').next().unwrap().to_string(), e.clone(), e);
            let n = ctx.q(20000, 200000);
            let step = 1.0 / 64.0;
            type F<'a> = (&'static str, Box<dyn Fn(f64) -> f64 + 'a>, f64);
            let fs: Vec<F> = vec![
                ("ease_noise", Box::new(move |x| m::ease_noise(m::smooth3::<f64>, seed, x)), 3.1),
                ("ease_noise_asymmetric", Box::new(move |x| m::ease_noise((m::smooth5::<f64>, m::identity::<f64>), seed, x)), 4.0),
                ("spline_noise", Box::new(move |x| m::spline_noise(seed, x)), 4.0),
                ("fractal_noise", Box::new(move |x| m::fractal_noise(seed, 4, 0.5, x)), 10.0),
                ("fractal_ease_noise", Box::new(move |x| m::fractal_ease_noise(m::smooth3::<f64>, seed, 3, 0.7, x)), 12.0),
            ];
            for (name, f, slope) in fs {
                let (mut sum, mut sum2, mut max) = (0.0, 0.0, 0.0f64);
                let mut last = f(-(n as f64) * step / 2.0);
                for i in 0..n {
                    let x = (i as f64 - n as f64 / 2.0) * step;
                    let y = f(x);
                    if !(y.abs() <= 1.0 + 1e-9) || (y - last).abs() > slope * step + 1e-9 {
                        return fail(format!("{} with seed {} at {} is {} after {}", name, seed, x, y, last));
                    }
                    last = y;
                    sum += y;
                    sum2 += y * y;
                    max = max.max(y.abs());
                }
                let (mean, var) = (sum / n as f64, sum2 / n as f64);
                if mean.abs() > 0.2 || var < 0.01 || var > 0.5 || max < 0.4 {
                    return fail(format!("{} with seed {} has mean {} variance {} maximum {}", name, seed, mean, var, max));
                }
                ctx.trans(n as u64);
                ctx.trace();
                ctx.state(hmix(last.to_bits(), seed));
            }
            // Rising and falling segments use their own easing functions.
            for i in -50..50i64 {
                let at = |x: f64, e: fn(f64) -> f64| m::ease_noise(e, seed, x);
                let (y1, y2) = (at(i as f64, m::identity), at(i as f64 + 1.0, m::identity));
                for k in 1..8 {
                    let t = k as f64 / 8.0;
                    let x = i as f64 + t;
                    let want = if y2 >= y1 { smooth(2, t) } else { 1.0 - (1.0 - t * t).sqrt() };
                    let y = m::ease_noise((m::smooth5::<f64>, m::uparc::<f64>), seed, x);
                    if !close(y, y1 + (y2 - y1) * want, 1e-9) || !close(at(x, m::identity), y1 + (y2 - y1) * t, 1e-9) {
                        return fail(format!("ease_noise with seed {} at {} is {} between {} and {}", seed, x, y, y1, y2));
                    }
                }
            }
        });
    });
    // Indexed random numbers: uniform in 0...1; hashes do not collide.
    ctx.case("indexed random numbers", || {
        let fail = |e: String| ctx.violation(e.split(' ').next().unwrap().to_string(), e.clone(), e);
        for (name, f) in [("rnd1", m::rnd1 as fn(u64) -> f64), ("rnd2", m::rnd2)] {
            let n = 1 << 20;
            let mut bins = [0u32; 64];
            let mut pairs = vec![0u32; 256];
            let mut last = 0.0;
            for i in 0..n {
                let x = f(i);
                if !(0.0..1.0).contains(&x) {
                    return fail(format!("{} of {} is {}", name, i, x));
                }
                bins[(x * 64.0) as usize] += 1;
                pairs[(last * 16.0) as usize * 16 + (x * 16.0) as usize] += 1;
                last = x;
            }
            let e = n as f64 / 64.0;
            let p = n as f64 / 256.0;
            if bins.iter().any(|b| (*b as f64 - e).abs() > 6.0 * e.sqrt()) || pairs.iter().any(|b| (*b as f64 - p).abs() > 6.0 * p.sqrt()) {
                return fail(format!("{} is not uniform", name));
            }
            ctx.trans(n);
            ctx.trace();
        }
        for (name, f) in [("hash1", m::hash1 as fn(u64) -> u64), ("hash2", m::hash2)] {
            let mut v: Vec<u64> = (0..1u64 << 20).map(f).chain((0..1u64 << 18).map(|i| f(i << 40 | 1 << 39))).collect();
            let n = v.len();
            v.sort_unstable();
            v.dedup();
            if v.len() != n {
                return fail(format!("{} has collisions", name));
            }
            ctx.trans(n as u64);
            ctx.trace();
        }
    });
}

/// Lane by lane agreement of vector number types with scalars.
fn simd(ctx: &Ctx) {
    ctx.case("SIMD number types", || {
        let fail = |e: String| ctx.violation(format!("SIMD {}", e.split(' ').next().unwrap()), e.clone(), e);
        let mut values: Vec<f32> = (-4000..=4000).map(|i| i as f32 * 0.0625).collect();
        for i in -300..=300i32 {
            let x = i as f32;
            values.extend([x, f32::from_bits(x.to_bits() + 1), f32::from_bits(u32::wrapping_sub(x.to_bits(), if i == 0 { 0 } else { 1 }))]);
        }
        values.retain(|x| x.is_finite() && x.abs() < 1e6 && (x.abs() > 1e-30 || *x == 0.0));
        values.extend([-0.0, 8388607.5, -8388607.5, 4194303.75]);
        for (n, w) in values.windows(8).enumerate() {
            let x = f32x8::new(w.try_into().unwrap());
            let y = f32x8::new(std::array::from_fn(|i| values[(n * 7 + i * 131) % values.len()]));
            type Op = (&'static str, fn(f32x8, f32x8) -> f32x8, fn(f32, f32) -> f32, f64);
            let ops: [Op; 14] = [
                ("floor", |a, _| Num::floor(a), |a, _| a.floor(), 0.0),
                ("ceil", |a, _| Num::ceil(a), |a, _| a.ceil(), 0.0),
                ("round", |a, _| Num::round(a), |a, _| a.round_ties_even(), 0.0),
                ("abs", |a, _| Num::abs(a), |a, _| a.abs(), 0.0),
                ("signum", |a, _| Num::signum(a), |a, _| 1f32.copysign(a), 0.0),
                ("min", |a, b| Num::min(a, b), |a, b| a.min(b), 0.0),
                ("max", |a, b| Num::max(a, b), |a, b| a.max(b), 0.0),
                ("sqrt", |a, _| Float::sqrt(Num::abs(a)), |a, _| a.abs().sqrt(), 1e-6),
                ("sin", |a, _| Float::sin(a), |a, _| (a as f64).sin() as f32, 2e-4),
                ("cos", |a, _| Float::cos(a), |a, _| (a as f64).cos() as f32, 2e-4),
                ("exp", |a, _| Float::exp(a * 0.1), |a, _| ((a * 0.1) as f64).exp() as f32, 1e-4),
                ("lerp", |a, b| m::lerp(a, b, f32x8::splat(0.25)), |a, b| a * 0.75 + b * 0.25, 1e-6),
                ("clamp11", |a, _| m::clamp11(a), |a, _| a.clamp(-1.0, 1.0), 0.0),
                ("softsign", |a, _| m::softsign(a), |a, _| a / (1.0 + a.abs()), 1e-6),
            ];
            for (name, f, g, tol) in ops {
                let z = f(x, y);
                for i in 0..8 {
                    let (a, b) = (x.as_array_ref()[i], y.as_array_ref()[i]);
                    if a.abs() > 1000.0 && tol == 2e-4 {
                        continue;
                    }
                    let (got, want) = (z.as_array_ref()[i] as f64, g(a, b) as f64);
                    if !close(got, want, tol) {
                        return fail(format!("{} of ({}, {}) is {} expected {}", name, a, b, got, want));
                    }
                    if z.get(i) as f64 != got {
                        return fail(format!("get of lane {} is {}", i, z.get(i)));
                    }
                }
            }
            let frame = x.to_frame();
            let sum: f64 = w.iter().map(|x| *x as f64).sum();
            if (0..8).any(|i| frame[i] != w[i]) || f32x8::from_frame(&frame).as_array_ref() != x.as_array_ref() || (x.reduce_add() as f64 - sum).abs() > 1e-5 * w.iter().map(|x| x.abs() as f64).sum::<f64>() + 1e-9 {
                return fail(format!("frame conversion of {:?}", w));
            }
            let x = f64x4::new(std::array::from_fn(|i| w[i] as f64));
            for (name, z, g) in [("floor", Num::floor(x), f64::floor as fn(f64) -> f64), ("ceil", Num::ceil(x), f64::ceil), ("round", Num::round(x), f64::round_ties_even), ("abs", Num::abs(x), f64::abs), ("signum", Num::signum(x), f64::signum)] {
                for i in 0..4 {
                    if z.as_array_ref()[i] != g(w[i] as f64) {
                        return fail(format!("{} of double precision {} is {}", name, w[i], z.as_array_ref()[i]));
                    }
                }
            }
            let mut q = x;
            for i in 0..4 {
                q.set(i, i as f32 + 0.5);
            }
            if (0..4).any(|i| q.get(i) != i as f32 + 0.5 || x.get(i) != w[i]) {
                return fail(format!("set and get of {:?}", w));
            }
            ctx.trans(19);
            ctx.trace();
            ctx.state(hmix(hashf(w), 3));
        }
    });
}

/// Waveshapers over every 32-bit float (every `stride`th) of magnitude up to 256 against their formulas.
fn shapes(ctx: &Ctx) {
    let hardness = [0.1f32, 1.0, 3.0, 20.0];
    let top = 256f32.to_bits() as usize;
    let stride = ctx.q(256, 8);
    type Make = (&'static str, fn(f32) -> Unit, fn(f64, f64) -> f64);
    let soft_crush = |h: f64, x: f64| { let p = x * h; let y = p.floor(); (y + smooth(4, p - y)) / h };
    let table: Vec<Make> = vec![
        ("clip", |h| Box::new(h32e::shape(Clip(h))), |h, x| (x * h).clamp(-1.0, 1.0)),
        ("clip opcode", |_| Box::new(h32e::clip()), |_, x| x.clamp(-1.0, 1.0)),
        ("clip_to", |h| Box::new(h32e::shape(ClipTo(-h, h * 0.5))), |h, x| x.clamp(-h, h * 0.5)),
        ("clip_to opcode", |h| Box::new(h32e::clip_to(-h * 2.0, h)), |h, x| x.clamp(-h * 2.0, h)),
        ("tanh", |h| Box::new(h32e::shape(Tanh(h))), |h, x| (x * h).tanh()),
        ("atan", |h| Box::new(h32e::shape(Atan(h))), |h, x| (x * h * PI * 0.5).atan() * 2.0 / PI),
        ("softsign", |h| Box::new(h32e::shape(Softsign(h))), |h, x| x * h / (1.0 + (x * h).abs())),
        ("shape_fn", |_| Box::new(h32e::shape_fn(|x| x * x * x)), |_, x| x * x * x),
        ("map", |h| Box::new(h32e::map(move |i: &Frame<f32, U1>| i[0] * h + 1.0)), |h, x| x * h + 1.0),
        ("softcrush", |h| Box::new(h32e::shape(SoftCrush(h))), soft_crush),
        ("crush", |h| Box::new(h32e::shape(Crush(h))), |h, x| (x * h).round_ties_even() / h),
    ];
    ctx.par(table.len() * hardness.len() * 2, |j| {
        let (name, make, f) = &table[j / 2 / hardness.len()];
        let h = hardness[j / 2 % hardness.len()];
        let sign = if j % 2 == 0 { 1.0 } else { -1.0 };
        ctx.case(name, || {
            let mut u = make(h);
            let mut d = Driver::new(&*u);
            let mut out = vec![vec![]];
            let n = top / stride;
            let input = |_: usize, i: usize| sign * f32::from_bits((i * stride) as u32);
            let steps = [Step::Block(64), Step::Block(64), Step::Tick, Step::Block(13)];
            let (mut pos, mut k) = (0, 0);
            while pos < n {
                let start = pos;
                pos = d.step(&mut *u, steps[k % 4], pos, &input, &mut out);
                k += 1;
                for i in 0..pos - start {
                    let x = input(0, start + i) as f64;
                    let (y, e) = (out[0][i] as f64, f(h as f64, x));
                    let p = x * h as f64;
                    // Staircases may round either way at a step.
                    let tie = *name == "crush" && (p - p.floor() - 0.5).abs() < 1e-6 * (1.0 + p.abs()) && (y - e).abs() < 1.0001 / h as f64;
                    let slack = if *name == "softcrush" { (p.abs() * 4e-7 + 1e-4) / h as f64 } else if *name == "atan" { 3e-6 } else { 0.0 };
                    if !close(y, e, 2e-6) && !tie && !((y - e).abs() <= slack) {
                        let e = format!("{} with hardness {} of {} is {} expected {} ({:?})", name, h, x, y, e, steps[(k - 1) % 4]);
                        ctx.violation(*name, e.clone(), e);
                        return;
                    }
                }
                out[0].clear();
            }
            ctx.trans(n as u64);
            ctx.trace();
            ctx.state(hmix(j as u64, 4));
        });
    });
    ctx.part("waveshaper inputs", (table.len() * hardness.len() * 2 * top / stride) as u64);
    // Adaptive distortion: the signal is divided by its level, which moves halfway in the timescale.
    ctx.case("adaptive shape", || {
        for timescale in [0.01f32, 0.1] {
            for rate in [44100.0, 16000.0] {
                for step in [Step::Tick, Step::Block(64), Step::Block(5)] {
                    let mut u: Unit = Box::new(h32e::shape(fundsp::shape::Adaptive::new(timescale, Scale)));
                    u.set_sample_rate(rate);
                    let mut d = Driver::new(&*u);
                    let mut out = vec![vec![]];
                    let input = |_: usize, i: usize| det(i as u64) * if i < 3000 { 0.5 } else { 0.01 };
                    let mut pos = 0;
                    while pos < 6000 {
                        pos = d.step(&mut *u, step, pos, &input, &mut out);
                    }
                    let k = 0.5f64.powf(1.0 / (timescale as f64 * rate));
                    let mut level = f64::NAN;
                    for i in 0..pos {
                        let x = input(0, i) as f64;
                        if level.is_nan() {
                            // Recover the initial level estimate from the first output.
                            let s = (x / out[0][i] as f64).powi(2);
                            level = (s - (1.0 - k) * (x * x + 1e-6)) / k;
                            if !(level > 1e-7 && level < 0.1) {
                                let e = format!("adaptive shape starts at level {}", level);
                                ctx.violation("adaptive shape", e.clone(), e);
                                return;
                            }
                        }
                        level = k * level + (1.0 - k) * (x * x + 1e-6);
                        let e = x / level.sqrt();
                        if !close(out[0][i] as f64, e, 2e-3) {
                            let e = format!("adaptive shape with timescale {} at {} Hz at sample {} is {} expected {}", timescale, rate, i, out[0][i], e);
                            ctx.violation("adaptive shape", e.clone(), e);
                            return;
                        }
                    }
                    ctx.trans(pos as u64);
                    ctx.trace();
                    ctx.state(hashf(&out[0]));
                }
            }
        }
    });
}

#[derive(Clone)]
struct Scale;
impl Shape for Scale {
    fn shape(&mut self, input: f32) -> f32 {
        input
    }
}

fn panning(ctx: &Ctx) {
    let n = ctx.q(30000usize, 300000);
    ctx.par(4, |form| {
        ctx.case("panning", || {
            let fail = |e: String| ctx.violation("panning", e.clone(), e);
            let value = |i: usize| (i as f32 / n as f32 * 2.0 - 1.0) * 1.25;
            let mut last = (f64::MAX, f64::MIN);
            let mut u: Unit = if form == 2 { Box::new(h32e::panner()) } else { Box::new(An(Panner::<U1>::new(0.0))) };
            let mut d = Driver::new(&*u);
            let mut out = vec![vec![], vec![]];
            let mut pos = 0;
            for i in 0..n {
                let v = value(i);
                match form {
                    0 => u = Box::new(h32e::pan(v)),
                    1 => u.set(Setting::pan(v)),
                    3 => {
                        let mut p = An(Panner::<U1>::new(0.3));
                        p.set_pan(v);
                        u = Box::new(p);
                    }
                    _ => (),
                }
                for o in out.iter_mut() {
                    o.clear();
                }
                let gain = det(i as u64) + 2.0;
                pos = d.step(&mut *u, if i % 3 == 0 { Step::Block(9) } else { Step::Tick }, pos, &|c, _| if c == 0 { gain } else { v }, &mut out);
                for k in 0..out[0].len() {
                    let (l, r) = ((out[0][k] / gain) as f64, (out[1][k] / gain) as f64);
                    let angle = (v.clamp(-1.0, 1.0) as f64 + 1.0) * PI / 4.0;
                    if (l - angle.cos()).abs() > 1e-5 || (r - angle.sin()).abs() > 1e-5 || (l * l + r * r - 1.0).abs() > 1e-5 || l > last.0 + 1e-5 || r < last.1 - 1e-5 {
                        return fail(format!("pan value {} gives weights {} and {}", v, l, r));
                    }
                    last = (l, r);
                }
                ctx.trans(1);
            }
            ctx.trace();
            ctx.state(hmix(form as u64, 6));
        });
    });
    // Mixing matrices: every 2 by 3 and 3 by 2 matrix over three weights.
    ctx.par(2, |form| {
        ctx.case("mixer", || {
            let w = [0.0f32, -0.5, 2.0];
            for code in 0..729 {
                let e: Vec<f32> = digits(code, 3, 6).into_iter().map(|i| w[i]).collect();
                let (ins, outs) = if form == 0 { (2, 3) } else { (3, 2) };
                let mut u: Unit = if form == 0 {
                    Box::new(An(Mixer::<U2, U3>::new(Frame::from([Frame::from([e[0], e[1]]), Frame::from([e[2], e[3]]), Frame::from([e[4], e[5]])]))))
                } else {
                    Box::new(An(Mixer::<U3, U2>::new(Frame::from([Frame::from([e[0], e[1], e[2]]), Frame::from([e[3], e[4], e[5]])]))))
                };
                let mut d = Driver::new(&*u);
                let mut out = vec![vec![]; outs];
                let input = |c: usize, i: usize| det((c * 1000 + i) as u64);
                let mut pos = 0;
                for s in [Step::Tick, Step::Block(64), Step::Block(3)] {
                    pos = d.step(&mut *u, s, pos, &input, &mut out);
                }
                for o in 0..outs {
                    for i in 0..pos {
                        let want: f32 = (0..ins).map(|c| input(c, i) * e[o * ins + c]).sum();
                        if (out[o][i] - want).abs() > 1e-5 {
                            let e = format!("mixer with weights {:?} output {} sample {} is {} expected {}", e, o, i, out[o][i], want);
                            ctx.violation("mixer", e.clone(), e);
                            return;
                        }
                    }
                }
                ctx.trans(3);
                ctx.trace();
                ctx.state(hmix(hashf(&out[0]), form as u64));
            }
        });
    });
}

pub fn c25(ctx: &Ctx) {
    easing(ctx);
    interpolation(ctx);
    scales(ctx);
    noise(ctx);
    simd(ctx);
    shapes(ctx);
    panning(ctx);
}
