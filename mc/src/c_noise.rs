//! C19: full periods of noise generators; sample-and-hold.
use crate::c_osc::fft;
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::hacker32::{brown, dc, hold, lowpole_hz, mls_bits, noise, pink, pinkpass, AudioUnit, BufferVec};
use fundsp::noise::MlsState;
use std::sync::atomic::{AtomicU32, Ordering};

/// Walks a whole period of an MLS and checks that each nonzero pattern of `n` successive bits appears exactly once.
fn mls_period(ctx: &Ctx, n: u32, start: MlsState, name: &str) {
    let length = (1u64 << n) - 1;
    if start.length() as u64 != length {
        ctx.violation(name, format!("length of {} bit sequence is given as {}", n, start.length()), name.to_string());
    }
    let mut s = start;
    let mut w = 0u64;
    let mask = (1u64 << n) - 1;
    for _ in 0..n {
        w = (w << 1 | s.value() as u64) & mask;
        s = s.next();
    }
    let first = w;
    let mut ones = 0u64;
    let mut steps = 0u64;
    // A pattern of n bits determines the rest of the sequence, so that patterns are distinct until the first one returns.
    loop {
        ones += w & 1;
        w = (w << 1 | s.value() as u64) & mask;
        s = s.next();
        steps += 1;
        if w == first || w == 0 || steps > length {
            break;
        }
    }
    ctx.trans(steps);
    ctx.trace();
    for i in 0..64u64.min(length) {
        ctx.state(hmix(n as u64, w.wrapping_add(i)));
    }
    if w == 0 || steps != length || ones != 1 << (n - 1) {
        let e = format!("{} bit sequence {}: period is {} with {} ones, expected {} and {}", n, name, steps, ones, length, 1u64 << (n - 1));
        ctx.violation(name, e.clone(), e);
    }
}

fn mls(ctx: &Ctx) {
    let bits: Vec<u32> = (1..=31).rev().collect();
    ctx.par(bits.len(), |k| {
        let n = bits[k];
        ctx.case(&format!("mls {}", n), || mls_period(ctx, n, MlsState::new(n), &format!("mls {}", n)));
        ctx.case(&format!("mls {} seeds", n), || {
            let seeds: Vec<u32> = if n <= ctx.q(10, 13) { (0..(1 << n) + 3).collect() } else if n <= ctx.q(22, 28) { vec![0, 1, 12345, (1 << n) - 2, (1 << n) - 1, u32::MAX] } else { vec![] };
            for seed in seeds {
                mls_period(ctx, n, MlsState::new_with_seed(n, seed), &format!("mls {} seeds", n));
            }
        });
    });
    // The unit outputs the sequence, repeated.
    ctx.par(12, |k| {
        let n = k as u64 + 1;
        ctx.case(&format!("mls_bits({})", n), || {
            let period = (1usize << n) - 1;
            for seed in 0..=ctx.q(130u64, 2000) {
                let mut u = mls_bits(n).seed(seed.wrapping_mul(0x123456789));
                let len = if seed < 40 { period * 2 + n as usize } else { 200 + n as usize };
                let x: Vec<f32> = (0..len).map(|_| u.get_mono()).collect();
                ctx.trans(len as u64);
                ctx.trace();
                ctx.state(hmix(hashf(&x[..len.min(100)]), n));
                let mut e = None;
                if let Some(i) = x.iter().position(|v| *v != 1.0 && *v != -1.0) {
                    e = Some(format!("sample {} is {}", i, x[i]));
                }
                if let Some(i) = (period..len).find(|i| x[*i] != x[*i - period]) {
                    e = Some(format!("sample {} does not repeat", i));
                }
                // No pattern of n ones complement: a window of zeros would be a dead sequence.
                if x.windows(n as usize).any(|w| w.iter().all(|v| *v == -1.0)) {
                    e = Some("sequence is stuck".to_string());
                }
                if seed < 40 {
                    let ones = x[..period].iter().filter(|v| **v == 1.0).count();
                    if ones != 1 << (n - 1) {
                        e = Some(format!("{} ones in a period", ones));
                    }
                }
                if let Some(e) = e {
                    let e = format!("mls_bits({}).seed({:#x}): {}", n, seed.wrapping_mul(0x123456789), e);
                    ctx.violation(format!("mls_bits({})", n), e.clone(), e);
                    return;
                }
            }
        });
    });
}

/// The whole period of white noise: each level appears equally often.
fn white_period(ctx: &Ctx) {
    let levels = 1usize << 24;
    let counts: Vec<AtomicU32> = (0..levels).map(|_| AtomicU32::new(0)).collect();
    let sum = std::sync::Mutex::new(0.0f64);
    ctx.par(64, |k| {
        ctx.case("white noise", || {
            // Seeds place generators at successive segments of the period.
            let mut u = noise().seed((k as u64) << 26);
            let mut out = BufferVec::new(1);
            let input = BufferVec::new(0);
            let mut total = 0.0;
            for _ in 0..(1 << 26) / 64 {
                u.process(64, &input.buffer_ref(), &mut out.buffer_mut());
                let mut part = 0.0f32;
                for &x in &out.channel_f32(0)[..64] {
                    part += x;
                    let level = ((x as f64 + 1.0) * ((levels - 1) as f64 / 2.0)).round();
                    if !(level >= 0.0 && level < levels as f64) {
                        ctx.violation("white noise", format!("sample {} is outside of -1 to 1", x), format!("white noise seed {:#x}", (k as u64) << 26));
                        return;
                    }
                    counts[level as usize].fetch_add(1, Ordering::Relaxed);
                }
                total += part as f64;
            }
            ctx.trans(1 << 26);
            ctx.trace();
            ctx.state(k as u64);
            *sum.lock().unwrap() += total;
        });
    });
    if ctx.has_violation() {
        return;
    }
    ctx.case("white noise", || {
        let mean = *sum.lock().unwrap() / 4294967296.0;
        let (mut lo, mut hi) = (u32::MAX, 0);
        // Neighboring levels can round to each other close to the ends, so that sums over 16 levels are compared.
        for c in counts.chunks(16) {
            let c: u32 = c.iter().map(|x| x.load(Ordering::Relaxed)).sum();
            lo = lo.min(c);
            hi = hi.max(c);
        }
        ctx.part("levels of white noise", levels as u64);
        if !(mean.abs() < 1e-6) || lo < 3072 || hi > 5120 {
            let e = format!("white noise over its whole period: mean {}, occurrences of 16 successive levels between {} and {} instead of 4096", mean, lo, hi);
            ctx.violation("white noise", e.clone(), e);
        }
    });
}

fn correlation(ctx: &Ctx) {
    ctx.par(ctx.q(32, 256), |k| {
        ctx.case("noise correlation", || {
            let n = 1usize << 17;
            let mut u = noise().seed((k as u64).wrapping_mul(0x9e3779b97f4a7c15));
            let x: Vec<f64> = (0..n).map(|_| u.get_mono() as f64).collect();
            ctx.trans(n as u64);
            ctx.trace();
            let p: f64 = x.iter().map(|x| x * x).sum::<f64>() / n as f64;
            let mut e = None;
            if (p - 1.0 / 3.0).abs() > 0.006 {
                e = Some(format!("power is {}", p));
            }
            for lag in (1..=64).chain([100, 128, 256, 1000, 4096, 65536]) {
                let c: f64 = (0..n - lag).map(|i| x[i] * x[i + lag]).sum::<f64>() / (n - lag) as f64 / p;
                if c.abs() > 6.5 / ((n - lag) as f64).sqrt() {
                    e = Some(format!("correlation with lag {} is {}", lag, c));
                }
            }
            // White: power is the same in 16 bands.
            let m = 4096;
            let mut bands = [0.0f64; 16];
            for c in x.chunks(m) {
                let mut re = c.to_vec();
                let mut im = vec![0.0; m];
                fft(&mut re, &mut im);
                for b in 1..m / 2 {
                    bands[b * 32 / m] += re[b] * re[b] + im[b] * im[b];
                }
            }
            let mean = bands.iter().sum::<f64>() / 16.0;
            if bands.iter().any(|b| (b / mean - 1.0).abs() > 0.12) {
                e = Some(format!("power in bands {:?}", bands));
            }
            ctx.state(hmix(k as u64, p.to_bits()));
            if let Some(e) = e {
                let e = format!("noise with seed {}: {}", k, e);
                ctx.violation("noise correlation", e.clone(), e);
            }
        });
    });
}

/// Level of a filter in decibels.
fn level(x: &[f32], rate: f64, hz: f64) -> f64 {
    let (mut re, mut im) = (0.0, 0.0);
    for (i, v) in x.iter().enumerate() {
        let a = std::f64::consts::TAU * hz * i as f64 / rate;
        re += *v as f64 * a.cos();
        im += *v as f64 * a.sin();
    }
    10.0 * (re * re + im * im).log10()
}

fn colors(ctx: &Ctx) {
    use fundsp::hacker as h64e;
    let units: Vec<(&str, Box<dyn AudioUnit>, Box<dyn AudioUnit>, f64)> = vec![
        ("32 pink", Box::new(pinkpass()), Box::new(pink().seed(7)), -3.01),
        ("64 pink", Box::new(h64e::pinkpass()), Box::new(h64e::pink().seed(7)), -3.01),
        ("32 brown", Box::new(lowpole_hz(10.0) * dc(13.7)), Box::new(brown().seed(7)), -6.02),
        ("64 brown", Box::new(h64e::lowpole_hz(10.0) * h64e::dc(13.7)), Box::new(h64e::brown().seed(7)), -6.02),
    ];
    for (name, filter, generator, slope) in units {
        ctx.case(name, || {
            let n = 1 << 16;
            let mut f = filter.clone();
            let x: Vec<f32> = (0..n).map(|i| f.filter_mono(if i == 0 { 1.0 } else { 0.0 })).collect();
            // The slope holds over the audible range.
            let base = level(&x, 44100.0, 640.0);
            for i in 0..=ctx.q(28, 280) {
                let oct = i as f64 / ctx.q(4.0, 40.0) - 4.0;
                let l = level(&x, 44100.0, 640.0 * 2f64.powf(oct));
                ctx.trans(1);
                ctx.state(hmix(h64(name.as_bytes()), i));
                if !((l - base - slope * oct).abs() < 1.0) && oct < 3.0 {
                    let e = format!("{} at {} Hz has level {} relative to 640 Hz", name, 640.0 * 2f64.powf(oct), l - base);
                    ctx.violation(name, e.clone(), e);
                    return;
                }
            }
            // The generator is white noise through the filter.
            let mut g = generator.clone();
            let mut f = filter.clone();
            let mut w = noise().seed(7);
            for i in 0..5000 {
                let (a, b) = (g.get_mono(), f.filter_mono(w.get_mono()));
                if !((a - b).abs() <= 1e-4 * b.abs().max(1.0)) {
                    let e = format!("{} sample {} is {} but filtered white noise is {}", name, i, a, b);
                    ctx.violation(name, e.clone(), e);
                    return;
                }
            }
            ctx.trace();
        });
    }
}

/// Sample-and-hold: the input is the sample index, so that the output tells when it was sampled.
fn holds(ctx: &Ctx) {
    let freqs = [20.0f32, 100.3, 441.7, 3000.1, 11025.3];
    let variabilities = [0.0f32, 0.1, 0.5, 1.0];
    let rates = [44100.0, 8000.0, 96000.0];
    let depth = ctx.q(3, 4);
    let mut jobs = vec![];
    for v in variabilities {
        for r in rates {
            for seed in 0..ctx.q(3, 10) {
                jobs.push((v, r, seed));
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (var, rate, seed) = jobs[j];
        ctx.case("hold", || {
            let total = freqs.len().pow(depth as u32);
            for code in 0..total {
                let seq = digits(code, freqs.len(), depth);
                // Each frequency is in effect for this many samples.
                let span = 700usize;
                let mut u = hold(var);
                u.set_sample_rate(rate);
                u.set_hash(seed * 7919 + 1);
                let mut d = Driver::new(&u);
                let mut out = vec![vec![]];
                let f = |c: usize, i: usize| if c == 0 { i as f32 } else { freqs[seq[(i / span).min(depth - 1)]] };
                let mut pos = 0;
                let mut unit: Box<dyn AudioUnit> = Box::new(u);
                let mut k = 0;
                while pos < span * depth {
                    let s = [Step::Block(64), Step::Tick, Step::Block(13)][(k + code) % 3];
                    k += 1;
                    pos = d.step(&mut *unit, s, pos, &f, &mut out);
                }
                ctx.trans(pos as u64);
                ctx.trace();
                ctx.state(hmix(hashf(&out[0]), seed));
                let x = &out[0];
                let mut last = 0usize;
                let mut e = None;
                if x[0] != 0.0 {
                    e = Some(format!("first output is {}", x[0]));
                }
                let (mut gaps, mut expected) = (0.0, 0.0);
                for i in 1..span * depth {
                    let sampled = x[i] == i as f32;
                    if !sampled && x[i] != last as f32 {
                        e = Some(format!("output {} at sample {} is neither the input nor the value held", x[i], i));
                        break;
                    }
                    let period = rate / f(1, last) as f64;
                    let longest = ((1.0 + var as f64) * period + 1e-6).ceil() + 1e-9;
                    let shortest = ((1.0 - var as f64) * period - 1e-6).ceil().max(1.0) - 1e-9;
                    let gap = (i - last) as f64;
                    if sampled {
                        if gap < shortest {
                            e = Some(format!("value was held for {} samples only at {}", gap, i));
                            break;
                        }
                        gaps += gap;
                        expected += period;
                        last = i;
                    } else if gap > longest {
                        e = Some(format!("value is still held after {} samples at {}", gap, i));
                        break;
                    }
                }
                // Hold times are centered on the period.
                if e.is_none() && seq.iter().all(|x| *x == 2) && rate == 44100.0 && var > 0.0 && gaps > 0.0 {
                    let n = expected / (rate / 441.7);
                    let dev = (gaps - expected).abs() / (rate / 441.7);
                    if dev > var as f64 * 0.58 * n.sqrt() * 5.0 + 0.05 * n {
                        e = Some(format!("hold times add up to {} instead of {}", gaps, expected));
                    }
                }
                if let Some(e) = e {
                    let e = format!("hold({}) at rate {} with frequencies {:?} for {} samples each: {}", var, rate, seq.iter().map(|x| freqs[*x]).collect::<Vec<_>>(), span, e);
                    ctx.violation("hold", e.clone(), e);
                    return;
                }
            }
        });
    });
}

/// Hold times are spread evenly around the period.
fn hold_times(ctx: &Ctx) {
    ctx.par(ctx.q(12, 60), |k| {
        ctx.case("hold times", || {
            let var = [0.1f32, 0.3, 0.6, 1.0][k % 4];
            let (f, rate, n) = (50.0f32, 44100.0f64, 4_000_000usize);
            let mut u = hold(var);
            u.set_sample_rate(rate);
            u.set_hash(k as u64 * 31 + 5);
            let period = rate / f as f64;
            let (mut last, mut held) = (0usize, -1.0f32);
            let mut gaps: Vec<f64> = vec![];
            let mut out = [0.0];
            for i in 0..n {
                // Input is distinct for all samples in a hold.
                let x = (i % 8192) as f32;
                AudioUnit::tick(&mut u, &[x, f], &mut out);
                if out[0] != held || (i > 0 && out[0] == x) {
                    if i > 0 {
                        gaps.push((i - last) as f64 / period);
                    }
                    last = i;
                    held = out[0];
                }
            }
            ctx.trans(n as u64);
            ctx.trace();
            ctx.state(k as u64);
            let m = gaps.len() as f64;
            let v = var as f64;
            let mean = gaps.iter().sum::<f64>() / m;
            let lo = gaps.iter().cloned().fold(f64::MAX, f64::min);
            let hi = gaps.iter().cloned().fold(0.0, f64::max);
            let below = gaps.iter().filter(|x| **x < 1.0 - v / 2.0).count() as f64 / m;
            let above = gaps.iter().filter(|x| **x > 1.0 + v / 2.0).count() as f64 / m;
            if !((mean - 1.0).abs() < 0.05 * v && lo < 1.0 - 0.97 * v && hi > 1.0 + 0.97 * v && (below - 0.25).abs() < 0.04 && (above - 0.25).abs() < 0.04) {
                let e = format!("hold({}) at {} Hz: hold times relative to the period have mean {}, range {} to {}, {} short, {} long", var, f, mean, lo, hi, below, above);
                ctx.violation("hold times", e.clone(), e);
            }
        });
    });
}

pub fn c19(ctx: &Ctx) {
    mls(ctx);
    white_period(ctx);
    correlation(ctx);
    colors(ctx);
    holds(ctx);
    hold_times(ctx);
}
