//! C17: oscillators follow the phase given by their frequency input and produce their waveform with no aliasing.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::hacker as h64e;
use fundsp::hacker32 as h32e;
use fundsp::prelude::{pluck, AudioUnit, PhaseSynth, WaveSynth, Wavetable, An, U1};
use fundsp::wavetable::*;
use std::f64::consts::TAU;
use std::sync::Arc;

type Unit = Box<dyn AudioUnit>;

fn frac(x: f64) -> f64 {
    x - x.floor()
}

fn polyblep(t: f64, dt: f64) -> f64 {
    if t < dt {
        let z = t / dt;
        z + z - z * z - 1.0
    } else if t > 1.0 - dt {
        let z = (t - 1.0) / dt;
        z + z + z * z + 1.0
    } else {
        0.0
    }
}

/// Distance of a phase from a point, on the circle.
fn dist(a: f64, b: f64) -> f64 {
    let d = frac(a - b);
    d.min(1.0 - d)
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Sine,
    Ramp,
    Saw,
    Square,
    Pulse,
    /// Harmonic spacing.
    Dsf(f64),
}

/// Parameters of the second input (pulse width, roughness).
fn expected(k: Kind, phase: f64, delta: f64, second: f64, eps: f64, f: f64) -> Option<(f64, f64)> {
    let blep = |p: f64, width: f64, square: bool| -> Option<(f64, f64)> {
        let naive = if square { if p < width { 1.0 } else { -1.0 } } else { 2.0 * p - 1.0 };
        let mut v = naive;
        let mut tol = 2.0 * eps + 1e-5;
        let steps: &[(f64, f64)] = if square { &[(0.0, 1.0), (width, -1.0)] } else { &[(0.0, -1.0)] };
        for (at, sign) in steps {
            v += sign * polyblep(frac(p - at), delta);
            let d = dist(p, *at);
            if delta <= 2.0 * eps {
                // Naive step.
                if d <= 2.0 * eps {
                    return None;
                }
            } else if d <= delta + eps {
                tol += 8.0 * eps / delta;
            }
        }
        Some((v, tol))
    };
    match k {
        Kind::Sine => Some(((TAU * phase).sin(), TAU * eps + 1e-6)),
        Kind::Ramp => Some((phase, eps + 1e-6)),
        Kind::Saw => blep(phase, 0.0, false),
        Kind::Square => blep(phase, 0.5, true),
        Kind::Pulse => blep(phase, second, true),
        Kind::Dsf(d) => {
            // The partials up to half of the sample rate; the formula includes the next one as well.
            if f <= 0.0 {
                return None;
            }
            let n = (22050.0 / f / d).floor();
            // Stay clear of frequencies where the number of partials is uncertain.
            if frac(22050.0 / f / d) < 1e-3 || frac(22050.0 / f / d) > 0.999 {
                return None;
            }
            let mut v = 0.0;
            let mut slope = 0.0;
            let mut a = 1.0f64;
            for i in 0..=n as usize {
                v += a * (TAU * phase * (1.0 + i as f64 * d)).sin();
                slope += a * (1.0 + i as f64 * d);
                a *= second;
                if a < 1e-9 {
                    break;
                }
            }
            let den = 1.0 + second * second - 2.0 * second * (TAU * phase * d).cos();
            Some((v, slope * TAU * eps + 1e-5 / den))
        }
    }
}

struct Osc {
    name: &'static str,
    make: fn(f32) -> Unit,
    kind: Kind,
    wide: bool,
    /// Is the phase advanced before output?
    advance: bool,
    second: Vec<f64>,
}

fn oscillators() -> Vec<Osc> {
    let mut v = vec![];
    macro_rules! o {
        ($n:expr, $k:expr, $wide:expr, $adv:expr, $second:expr, $make:expr) => {
            v.push(Osc { name: $n, make: |p| Box::new($make.phase(p)), kind: $k, wide: $wide, advance: $adv, second: $second })
        };
    }
    o!("32 sine", Kind::Sine, false, false, vec![], h32e::sine());
    o!("64 sine", Kind::Sine, true, false, vec![], h64e::sine());
    o!("32 ramp", Kind::Ramp, false, false, vec![], h32e::ramp());
    o!("64 ramp", Kind::Ramp, true, false, vec![], h64e::ramp());
    o!("32 poly_saw", Kind::Saw, false, false, vec![], h32e::poly_saw());
    o!("64 poly_saw", Kind::Saw, true, false, vec![], h64e::poly_saw());
    o!("32 poly_square", Kind::Square, false, false, vec![], h32e::poly_square());
    o!("64 poly_square", Kind::Square, true, false, vec![], h64e::poly_square());
    o!("32 poly_pulse", Kind::Pulse, false, false, vec![0.1, 0.5, 0.83], h32e::poly_pulse());
    o!("64 poly_pulse", Kind::Pulse, true, false, vec![0.1, 0.5, 0.83], h64e::poly_pulse());
    o!("dsf_saw", Kind::Dsf(1.0), false, true, vec![0.2, 0.5, 0.9], h32e::dsf_saw());
    o!("dsf_square", Kind::Dsf(2.0), false, true, vec![0.2, 0.5, 0.9], h32e::dsf_square());
    v
}

#[derive(Clone)]
struct Node {
    unit: Unit,
    phase: f64,
    /// Bound of accumulated phase error.
    eps: f64,
    trail: Vec<(f64, usize, Step)>,
}

/// All sequences of frequencies, second inputs and steps.
fn sequences(ctx: &Ctx, o: &Osc, rate: f64, phase: f32, depth: usize) {
    let freqs: Vec<f64> = vec![0.0, 1.5, 110.0, 999.25, 7000.5, rate * 0.45, -500.0];
    let steps: Vec<Step> = if ctx.thorough { vec![Step::Tick, Step::Block(8), Step::Block(13), Step::Block(64)] } else { vec![Step::Tick, Step::Block(13), Step::Block(64)] };
    let name = format!("{} at {} Hz from phase {}", o.name, rate, phase);
    ctx.case(&name, || {
        let mut unit = (o.make)(phase);
        unit.set_sample_rate(rate);
        let mut stack = vec![Node { unit, phase: phase as f64, eps: if o.wide { 2e-7 } else { 1e-6 }, trail: vec![] }];
        while let Some(n) = stack.pop() {
            if n.trail.len() >= depth {
                ctx.trace();
                continue;
            }
            for &f in &freqs {
                for s in 0..o.second.len().max(1) {
                    for &step in &steps {
                        let mut m = n.clone();
                        m.trail.push((f, s, step));
                        let second = o.second.get(s).map_or(0.0, |x| *x as f32);
                        let f32f = f as f32;
                        let mut out = vec![vec![]];
                        let count = match step { Step::Tick => 1, Step::Block(b) => b };
                        let mut d = Driver::new(&*m.unit);
                        d.step(&mut *m.unit, step, 0, &|c, _| if c == 0 { f32f } else { second }, &mut out);
                        ctx.trans(1);
                        let delta = f32f as f64 / rate;
                        for i in 0..count {
                            // Rounding in multiplication, addition, and conversion of a phase that is not wrapped inside a block.
                            let unwrapped = if count > 1 { 64.0 * delta.abs() * 1.5e-7 } else { 0.0 };
                            m.eps += if o.wide { 1e-12 } else { 8e-8 + delta.abs() * 1.5e-7 + unwrapped };
                            let eps = m.eps + unwrapped;
                            if o.advance {
                                m.phase = frac(m.phase + delta);
                            }
                            let e = expected(o.kind, m.phase, delta, second as f64, eps, f);
                            if let Some((v, tol)) = e {
                                let x = out[0][i] as f64;
                                let err = if o.kind == Kind::Ramp { dist(x, v) } else { (x - v).abs() };
                                if !(err <= tol) {
                                    let s = format!("{}: steps (frequency, second input, step) {:?}: sample {} of the last step is {} expected {} (phase {})", name, m.trail, i, x, v, m.phase);
                                    ctx.violation(o.name, s.clone(), s);
                                    return;
                                }
                                if o.kind == Kind::Ramp && !(0.0..=1.0).contains(&x) {
                                    ctx.violation(o.name, format!("{}: ramp outside of range: {}", name, x), format!("{:?}", m.trail));
                                    return;
                                }
                            }
                            if !o.advance {
                                m.phase = frac(m.phase + delta);
                            }
                        }
                        ctx.state(hmix(h64(name.as_bytes()), hmix(m.phase.to_bits(), (m.trail.len() * 1000 + count) as u64)));
                        stack.push(m);
                    }
                }
            }
        }
    });
}

/// In-place FFT, double precision.
pub fn fft(re: &mut [f64], im: &mut [f64]) {
    let n = re.len();
    let mut j = 0;
    for i in 1..n {
        let mut bit = n >> 1;
        while j & bit != 0 {
            j ^= bit;
            bit >>= 1;
        }
        j |= bit;
        if i < j {
            re.swap(i, j);
            im.swap(i, j);
        }
    }
    let mut len = 2;
    while len <= n {
        for k in 0..len / 2 {
            let (s, c) = (-TAU * k as f64 / len as f64).sin_cos();
            let mut i = k;
            while i < n {
                let (ur, ui) = (re[i], im[i]);
                let (xr, xi) = (re[i + len / 2], im[i + len / 2]);
                let (vr, vi) = (xr * c - xi * s, xr * s + xi * c);
                re[i] = ur + vr;
                im[i] = ui + vi;
                re[i + len / 2] = ur - vr;
                im[i + len / 2] = ui - vi;
                i += len;
            }
        }
        len *= 2;
    }
}

/// Relative amplitude and phase (in cycles) of partials of a waveform.
struct Shape {
    name: &'static str,
    make: fn(f32) -> Unit,
    partial: fn(u32) -> (f64, f64),
}

fn organ_phase(i: u32) -> f64 {
    if i & 3 == 3 { 0.5 } else if i & 1 == 1 { 0.0 } else { 0.5 }
}

fn hammond_amp(i: u32) -> f64 {
    let z = i.trailing_zeros();
    let f = 1.0 / ((z + 1) * (z + 1)) as f64;
    if i <= 3 {
        return 1.0;
    }
    match i >> z {
        1 | 3 => f,
        9 => 0.2 * f,
        _ => 0.0,
    }
}

fn shapes() -> Vec<Shape> {
    let odd = |i: u32| (i & 1) as f64;
    let _ = odd;
    vec![
        Shape { name: "saw", make: |p| Box::new(h32e::saw().phase(p)), partial: |i| (1.0 / i as f64, if i & 1 == 1 { 0.0 } else { 0.5 }) },
        Shape { name: "square", make: |p| Box::new(h32e::square().phase(p)), partial: |i| ((i & 1) as f64 / i as f64, 0.0) },
        Shape { name: "triangle", make: |p| Box::new(h32e::triangle().phase(p)), partial: |i| ((i & 1) as f64 / (i as f64).powi(2), if i & 3 == 3 { 0.5 } else { 0.0 }) },
        Shape { name: "organ", make: |p| Box::new(h32e::organ().phase(p)), partial: |i| { let j = (i >> i.trailing_zeros()) as f64; (1.0 / (i as f64 + j * j * j), organ_phase(i)) } },
        Shape { name: "soft_saw", make: |p| Box::new(h32e::soft_saw().phase(p)), partial: |i| (1.0 / (i as f64).powi(2), organ_phase(i)) },
        Shape { name: "hammond", make: |p| Box::new(h32e::hammond().phase(p)), partial: |i| (hammond_amp(i), 0.0) },
    ]
}

fn run(u: &mut dyn AudioUnit, n: usize, block: bool, f: &dyn Fn(usize, usize) -> f32) -> Vec<f32> {
    let mut d = Driver::new(u);
    let mut out = vec![vec![]; u.outputs()];
    let mut pos = 0;
    while pos < n {
        let s = if block { Step::Block(64.min(n - pos)) } else { Step::Tick };
        pos = d.step(u, s, pos, f, &mut out);
    }
    out.swap_remove(0)
}

/// Checks harmonics of a periodic signal whose `k` cycles span the whole signal against partials.
/// Partials up to `full` Hz have to be at full strength and partials above `limit` Hz have to be missing.
fn spectrum(x: &[f32], k: usize, rate: f64, scale: f64, full: f64, limit: f64, partial: &dyn Fn(u32) -> (f64, f64), phase: f64, tol: f64) -> Option<String> {
    let n = x.len();
    let mut re: Vec<f64> = x.iter().map(|x| *x as f64).collect();
    let mut im = vec![0.0; n];
    fft(&mut re, &mut im);
    let f = k as f64 * rate / n as f64;
    for b in 1..n / 2 {
        let (mut er, mut ei, mut optional) = (0.0, 0.0, false);
        if b % k == 0 {
            let i = (b / k) as u32;
            let (a, p) = partial(i);
            let hz = f * i as f64;
            if hz <= limit {
                // a * sin(TAU * (i * (phase + t) + p))
                let (s, c) = (TAU * frac(i as f64 * phase + p)).sin_cos();
                er = scale * a * s * n as f64 / 2.0;
                ei = -scale * a * c * n as f64 / 2.0;
                optional = hz > full;
            }
        }
        let z = 2.0 / n as f64;
        let (dr, di) = ((re[b] - er) * z, (im[b] - ei) * z);
        let err = (dr * dr + di * di).sqrt();
        if optional {
            // Attenuated: on the segment from zero to full strength.
            let e2 = er * er + ei * ei;
            let w = if e2 > 0.0 { ((re[b] * er + im[b] * ei) / e2).clamp(0.0, 1.0) } else { 0.0 };
            let (dr, di) = ((re[b] - w * er) * z, (im[b] - w * ei) * z);
            if !((dr * dr + di * di).sqrt() <= tol) {
                return Some(format!("component at {:.1} Hz is ({:.6}, {:.6}), expected an attenuated ({:.6}, {:.6})", b as f64 * rate / n as f64, re[b] * z, im[b] * z, er * z, ei * z));
            }
        } else if !(err <= tol + (0.01 + 0.9 * (b as f64 * rate / n as f64 / 22000.0).powi(2)) * (er * er + ei * ei).sqrt() * z) {
            // The interpolator attenuates high partials a little.
            return Some(format!("component at {:.1} Hz is ({:.6}, {:.6}), expected ({:.6}, {:.6})", b as f64 * rate / n as f64, re[b] * z, im[b] * z, er * z, ei * z));
        }
    }
    None
}

/// Largest magnitude of the waveform with the given number of partials.
fn peak(partial: &dyn Fn(u32) -> (f64, f64), partials: u32) -> f64 {
    let n = 8192;
    let mut m = 0.0f64;
    let mut re = vec![0.0; n];
    let mut im = vec![0.0; n];
    for i in 1..=partials {
        let (a, p) = partial(i);
        let f = 20.0 * i as f64;
        let x = ((22000.0 - f) / 2000.0).clamp(0.0, 1.0);
        let fade = x * x * x * (x * (x * 6.0 - 15.0) + 10.0);
        re[i as usize] = fade * a * (TAU * p).cos();
        im[i as usize] = fade * a * (TAU * p).sin();
    }
    // Real and imaginary swapped give an inverse transform.
    fft(&mut im, &mut re);
    for x in &im {
        m = m.max(x.abs());
    }
    m
}

fn wavetables(ctx: &Ctx) {
    let shapes = shapes();
    let n = 2048usize;
    let rates = [44100.0, 48000.0, 96000.0];
    let jobs: Vec<(usize, usize)> = (0..shapes.len()).flat_map(|s| (0..rates.len()).map(move |r| (s, r))).collect();
    let peaks: Vec<f64> = shapes.iter().map(|s| peak(&s.partial, 1100)).collect();
    ctx.par(jobs.len(), |j| {
        let (s, r) = jobs[j];
        let (s, rate, pk) = (&shapes[s], rates[r], peaks[s]);
        // The scale has to be the same at all frequencies, with a peak of at most one.
        let mut scale = 0.0;
        ctx.case(&format!("{} level", s.name), || {
            let mut u = (s.make)(0.3);
            u.set_sample_rate(rate);
            let x = run(&mut *u, n, false, &|_, _| (3.0 * rate / n as f64) as f32);
            let mut re: Vec<f64> = x.iter().map(|x| *x as f64).collect();
            let mut im = vec![0.0; n];
            fft(&mut re, &mut im);
            scale = (re[3] * re[3] + im[3] * im[3]).sqrt() * 2.0 / n as f64 / (s.partial)(1).0;
            let p = x.iter().fold(0.0f32, |a, x| a.max(x.abs()));
            if !(scale * pk > 0.9 && scale * pk < 1.01 && p < 1.01 && p > 0.8) {
                let e = format!("{} at rate {}: the waveform is not normalized: scale {} peak {}", s.name, rate, scale * pk, p);
                ctx.violation(format!("{} level", s.name), e.clone(), e);
            }
        });
        let stride = ctx.q(if r == 0 { 1 } else { 5 }, 1);
        let mut k = 1;
        while k < n / 2 && k as f64 * rate / (n as f64) < 21000.0 {
            for phase in ctx.q(vec![0.3], vec![0.0, 0.3, 0.77]) {
                for block in [false, true] {
                    for sign in [1.0, -1.0] {
                        if sign < 0.0 && k % 7 != 0 {
                            continue;
                        }
                        ctx.case(&format!("{} spectrum", s.name), || {
                            let f = sign * k as f64 * rate / n as f64;
                            let mut u = (s.make)(phase);
                            u.set_sample_rate(rate);
                            let mut x = run(&mut *u, n, block, &|_, _| f as f32);
                            // The first output is one step from the initial phase.
                            let mut start = phase as f64 + f / rate;
                            if sign < 0.0 {
                                x.reverse();
                                start = phase as f64 + f / rate * n as f64;
                            }
                            ctx.trans(n as u64);
                            ctx.trace();
                            ctx.state(hmix(hashf(&x), k as u64));
                            // Below the lowest table everything above the range of the lowest tables is missing.
                            let full = 20000.0 / 2f64.sqrt() * 0.995;
                            if let Some(e) = spectrum(&x, k, rate, scale, full, 22050.0, &s.partial, start, 1.5e-3) {
                                let e = format!("{} at {} Hz, sample rate {}, {} processing, initial phase {}: {}", s.name, f, rate, if block { "block" } else { "sample" }, phase, e);
                                ctx.violation(format!("{} spectrum", s.name), e.clone(), e);
                            }
                        });
                    }
                }
            }
            k += stride;
        }
    });
}

/// The only state of a wavetable oscillator is its phase.
fn table_sequences(ctx: &Ctx) {
    let shapes = shapes();
    let freqs = [0.0f32, 5.0, 55.5, 440.0, 3000.0, 12345.0, 19990.0, -700.0];
    let jobs: Vec<(usize, f64)> = (0..shapes.len()).flat_map(|s| [44100.0, 96000.0].map(move |r| (s, r))).collect();
    ctx.par(jobs.len(), |j| {
        let (s, rate) = (&shapes[jobs[j].0], jobs[j].1);
        ctx.case(&format!("{} sequences", s.name), || {
            let depth = ctx.q(5, 6);
            let mut u = (s.make)(0.2);
            u.set_sample_rate(rate);
            let mut stack = vec![(u, 0.2f64, vec![])];
            while let Some((u, phase, trail)) = stack.pop() {
                if trail.len() >= depth {
                    ctx.trace();
                    continue;
                }
                for &f in &freqs {
                    let mut m = u.clone();
                    let mut t: Vec<f32> = trail.clone();
                    t.push(f);
                    let mut out = [0.0];
                    m.tick(&[f], &mut out);
                    ctx.trans(1);
                    // A fresh oscillator at the same phase.
                    let mut fresh = (s.make)(phase as f32);
                    fresh.set_sample_rate(rate);
                    let mut e = [0.0];
                    fresh.tick(&[f], &mut e);
                    let next = frac(phase + f as f64 / rate);
                    // Discontinuities are band limited, so that the slope is bounded.
                    let slope = (22000.0 / f.abs().max(20.0)) as f64 * 4.0;
                    if !((out[0] as f64 - e[0] as f64).abs() <= 1e-4 + slope * 1e-6) {
                        let w = format!("{} at rate {}: frequencies {:?}: output {} but a fresh oscillator at phase {} outputs {}", s.name, rate, t, out[0], phase, e[0]);
                        ctx.violation(format!("{} sequences", s.name), w.clone(), w);
                        return;
                    }
                    ctx.state(hmix(next.to_bits(), h64(s.name.as_bytes())));
                    stack.push((m, next, t));
                }
            }
        });
    });
}

/// After moving from any frequency to any other, the oscillator sounds like a fresh one at the new frequency.
fn glides(ctx: &Ctx) {
    let shapes = shapes();
    let step = ctx.q(1.09f32, 1.03);
    let mut freqs = vec![];
    let mut f = 14.0f32;
    while f < 21500.0 {
        freqs.push(f);
        f *= step;
    }
    let jobs: Vec<(usize, usize)> = (0..shapes.len()).flat_map(|s| (0..freqs.len()).map(move |i| (s, i))).collect();
    ctx.part("glides", (jobs.len() * freqs.len()) as u64);
    ctx.par(jobs.len(), |j| {
        let (s, f1) = (&shapes[jobs[j].0], freqs[jobs[j].1]);
        ctx.case(&format!("{} glides", s.name), || {
            for &f2 in &freqs {
                for p in 0..8 {
                    let phase = p as f64 / 8.0 + 0.013;
                    let mut u = (s.make)(phase as f32);
                    let mut n = 0;
                    let mut o = [0.0];
                    if p & 1 == 0 {
                        u.tick(&[f1], &mut o);
                        n += 1;
                    } else {
                        run(&mut *u, 8, true, &|_, _| f1);
                        n += 8;
                    }
                    let at = frac(phase + n as f64 * f1 as f64 / 44100.0);
                    let mut fresh = (s.make)(at as f32);
                    let x = run(&mut *u, 8, p & 2 == 0, &|_, _| f2);
                    let y = run(&mut *fresh, 8, p & 2 == 0, &|_, _| f2);
                    ctx.trans(16 + n as u64);
                    let slope = (22000.0 / f2.max(20.0)) as f64 * 4.0;
                    for i in 0..8 {
                        if !((x[i] as f64 - y[i] as f64).abs() <= 2e-4 + slope * 2e-6) {
                            let w = format!("{}: {} samples at {} Hz, then at {} Hz: sample {} is {} but that of a fresh oscillator {}", s.name, n, f1, f2, i, x[i], y[i]);
                            ctx.violation(format!("{} glides", s.name), w.clone(), w);
                            return;
                        }
                    }
                    ctx.trace();
                }
                ctx.state(hmix(f1.to_bits() as u64, hmix(f2.to_bits() as u64, h64(s.name.as_bytes()))));
            }
        });
    });
}

fn pulses(ctx: &Ctx) {
    let n = 2048usize;
    let widths: Vec<f64> = ctx.q(vec![0.1, 0.25, 0.5, 0.8], (1..20).map(|x| x as f64 * 0.05).collect());
    let saw = |i: u32| (1.0 / i as f64, if i & 1 == 1 { 0.0 } else { 0.5 });
    let mut u = h32e::saw_hz(3.0 * 44100.0 / n as f32).phase(0.0);
    let x = run(&mut u, n, false, &|_, _| 0.0);
    let mut re: Vec<f64> = x.iter().map(|x| *x as f64).collect();
    let mut im = vec![0.0; n];
    fft(&mut re, &mut im);
    let scale = (re[3] * re[3] + im[3] * im[3]).sqrt() * 2.0 / n as f64;
    ctx.par(widths.len(), |w| {
        let width = widths[w];
        for k in 1..n / 2 - 1 {
            let f = k as f64 * 44100.0 / n as f64;
            if f > 20000.0 || (!ctx.thorough && k % 3 != 1) {
                continue;
            }
            for block in [false, true] {
                ctx.case("pulse spectrum", || {
                    let mut u = h32e::pulse().phase(0.15);
                    // Skip the beginning.
                    let x = run(&mut u, n + 64, block, &|c, _| if c == 0 { f as f32 } else { width as f32 });
                    let start = 0.15f32 as f64 + f / 44100.0 * 65.0;
                    ctx.trans(n as u64);
                    ctx.trace();
                    ctx.state(hmix(hashf(&x), k as u64));
                    // The difference of two saw waves.
                    let partial = |i: u32| {
                        let (a, p) = saw(i);
                        let q = i as f64 * width;
                        let (s1, c1) = (TAU * p).sin_cos();
                        let (s2, c2) = (TAU * (p + q)).sin_cos();
                        let (re, im) = (c1 - c2, s1 - s2);
                        (a * (re * re + im * im).sqrt(), im.atan2(re) / TAU)
                    };
                    // The frequency of the second saw is interpreted from its phase.
                    if let Some(e) = spectrum(&x[64..], k, 44100.0, scale, 14000.0, 22050.0, &partial, start, 4e-3) {
                        let e = format!("pulse at {} Hz, width {}, {} processing: {}", f, width, if block { "block" } else { "sample" }, e);
                        ctx.violation("pulse spectrum", e.clone(), e);
                    }
                });
            }
        }
    });
}

/// Excitation of a plucked string circulates once per period with the promised decay.
fn plucks(ctx: &Ctx) {
    let mut jobs = vec![];
    let step = ctx.q(7, 1);
    for rate in [44100.0, 48000.0, 22050.0] {
        for i in (0..240).step_by(step) {
            let f = 25.0 * 2f64.powf(i as f64 / 30.0);
            if f < rate / 8.0 {
                jobs.push((f as f32, rate));
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (f, rate) = jobs[j];
        for (gain, damping) in [(0.5f32, 0.0f32), (0.9, 0.4), (0.01, 1.0), (1.0, 0.2)] {
            for hit in [0usize, 3, 70] {
                ctx.case("pluck", || {
                    let n = 3000;
                    let mut a = pluck(f, gain, damping);
                    a.set_sample_rate(rate);
                    let mut b = a.clone();
                    let block = hit == 3;
                    let x = run(&mut a, n, block, &|_, _| 0.0);
                    let y = run(&mut b, n, block, &|_, i| if i == hit { 1.0 } else { 0.0 });
                    ctx.trans(n as u64);
                    ctx.trace();
                    ctx.state(hmix(hashf(&y), hit as u64));
                    let total = rate / f as f64 - 1.0;
                    let lp = (total - 0.2).floor();
                    let ap = total - lp;
                    let eta = (1.0 - ap) / (1.0 + ap);
                    let g = (gain as f64).powf(1.0 / f as f64);
                    let al = (2.0 - damping as f64) / 2.0;
                    let be = (1.0 - al) / 2.0;
                    let lp = lp as usize;
                    let (mut x1, mut y1, mut h1, mut h2) = (0.0, 0.0, 0.0, 0.0);
                    let mut line = vec![0.0f64; lp];
                    // Loop lengths are uncertain when the delay is at the border.
                    if frac(total - 0.2) < 1e-4 || frac(total - 0.2) > 0.9999 {
                        return;
                    }
                    for i in 0..n {
                        let v = line[i % lp] * g + if i == hit { 1.0 } else { 0.0 };
                        let d = be * v + al * h1 + be * h2;
                        h2 = h1;
                        h1 = v;
                        let o = eta * (d - y1) + x1;
                        x1 = d;
                        y1 = o;
                        line[i % lp] = o;
                        let e = (y[i] - x[i]) as f64;
                        if !((e - o).abs() <= 2e-5) {
                            let s = format!("pluck({}, {}, {}) at {} Hz excited at sample {}: response at sample {} is {} expected {}", f, gain, damping, rate, hit, i, e, o);
                            ctx.violation("pluck", s.clone(), s);
                            return;
                        }
                    }
                    // The string itself has no offset and sounds immediately.
                    let mean: f64 = x[..lp].iter().map(|x| *x as f64).sum::<f64>() / lp as f64;
                    let power: f64 = x[..lp].iter().map(|x| (*x as f64).powi(2)).sum::<f64>() / lp as f64;
                    if !(mean.abs() < 0.3 * (60.0 / lp as f64).max(0.2) && power > 0.005 && x.iter().all(|x| x.abs() <= 3.0)) {
                        let s = format!("pluck({}, {}, {}) at {} Hz: initial period has mean {} power {}", f, gain, damping, rate, mean, power);
                        ctx.violation("pluck", s.clone(), s);
                    }
                });
            }
        }
    });
}

/// A wavetable made from a wave plays the wave, normalized.
fn from_wave(ctx: &Ctx) {
    let lens = [4usize, 8, 16, 32, 64, 256];
    ctx.par(lens.len(), |l| {
        let len = lens[l];
        let variants = ctx.q(12, 60);
        for v in 0..variants {
            ctx.case("wavetable from wave", || {
                // Partials that do not reach half of the rate of the wave, with no offset.
                let m = (len / 2 - 1).min(v % 5 + 1);
                let parts: Vec<(f64, f64)> = (0..m).map(|i| (0.2 + (det((v * 100 + i) as u64) as f64).abs(), det((v * 100 + i + 50) as u64) as f64)).collect();
                let at = |t: f64| -> f64 { parts.iter().enumerate().map(|(i, (a, p))| a * (TAU * ((i + 1) as f64 * t + p)).sin()).sum() };
                let wave: Vec<f32> = (0..len).map(|i| (at(i as f64 / len as f64) * 3.0) as f32).collect();
                let table = Arc::new(Wavetable::from_wave(20.0, 20000.0, 4.0, &wave));
                let pk = (0..8192).map(|i| at(i as f64 / 8192.0).abs()).fold(0.0, f64::max);
                for f in [100.0f32, 441.0, 1000.0] {
                    let mut u = An(WaveSynth::<U1>::new(table.clone())).phase(0.0);
                    let x = run(&mut u, 300, false, &|_, _| f);
                    let mut s = An(PhaseSynth::new(table.clone()));
                    let y = run(&mut s, 300, false, &|_, i| frac(f as f64 * (i + 1) as f64 / 44100.0) as f32);
                    ctx.trans(300);
                    ctx.trace();
                    ctx.state(hmix(hashf(&x), v as u64));
                    for i in 0..300 {
                        let e = at(f as f64 * (i + 1) as f64 / 44100.0) / pk;
                        if !((x[i] as f64 - e).abs() < 2e-2) || (i > 0 && !((y[i] as f64 - e).abs() < 2e-2)) {
                            let s = format!("wavetable from {:?} at {} Hz: sample {} is {} ({} driven by phase) expected {}", wave, f, i, x[i], y[i], e);
                            ctx.violation("wavetable from wave", s.clone(), s);
                            return;
                        }
                    }
                }
            });
        }
    });
    let _ = saw_table;
}

pub fn c17(ctx: &Ctx) {
    let os = oscillators();
    let mut jobs = vec![];
    for o in 0..os.len() {
        for rate in ctx.q(vec![44100.0, 48000.0], vec![44100.0, 48000.0, 11025.0]) {
            if rate != 44100.0 && matches!(os[o].kind, Kind::Dsf(_)) {
                continue;
            }
            for phase in ctx.q(vec![0.0f32, 0.7], vec![0.0, 0.25, 0.7]) {
                jobs.push((o, rate, phase));
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (o, rate, phase) = jobs[j];
        let depth = if os[o].second.is_empty() { ctx.q(4, 4) } else { ctx.q(2, 3) };
        sequences(ctx, &os[o], rate, phase, depth);
    });
    wavetables(ctx);
    table_sequences(ctx);
    glides(ctx);
    pulses(ctx);
    plucks(ctx);
    from_wave(ctx);
}
