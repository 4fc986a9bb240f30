//! C21: limiter, reducer, followers, meters and fade-in.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::dynamics::{Amplitude, Limiter, Maximum, ReduceBuffer};
use fundsp::hacker as h64e;
use fundsp::hacker32 as h32e;
use fundsp::prelude::{An, AudioUnit, Meter, U1, U2, U3};
use fundsp::setting::Setting;
use fundsp::shared::Shared;

type Unit = Box<dyn AudioUnit>;

/// Runs a unit on a signal in steps that are repeated cyclically.
fn run(u: &mut dyn AudioUnit, n: usize, steps: &[Step], f: &dyn Fn(usize, usize) -> f32) -> Vec<Vec<f32>> {
    let mut d = Driver::new(u);
    let mut out = vec![vec![]; u.outputs()];
    let (mut pos, mut k) = (0, 0);
    while pos < n {
        pos = d.step(u, steps[k % steps.len()], pos, f, &mut out);
        k += 1;
    }
    out
}

fn limiters(ctx: &Ctx) {
    let values = [0.0f32, 0.6, -1.0, 2.5, -300.0];
    let depth = ctx.q(4, 5);
    // Histories of doubled rate, halved rate, processing and reset.
    let mut histories: Vec<Vec<usize>> = vec![];
    for len in 0..=ctx.q(2, 3) {
        for code in 0..4usize.pow(len as u32) {
            histories.push(digits(code, 4, len));
        }
    }
    let mut jobs = vec![];
    for channels in 1..=3usize {
        for (l, r) in [(20usize, 20usize), (33, 90), (64, 64), (7, 300), (128, 25)] {
            for rate in ctx.q(vec![44100.0], vec![44100.0, 16000.0]) {
                for first in 0..values.len() {
                    jobs.push((channels, l, r, rate, first));
                }
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (channels, l, r, rate, first) = jobs[j];
        let name = format!("limiter {} channels", channels);
        ctx.case(&name, || {
            let (at, rt) = ((l as f64 / rate) as f32, (r as f64 / rate) as f32);
            let make = || -> Unit {
                match channels {
                    1 => Box::new(An(Limiter::<U1>::new(rate, at, rt))),
                    2 => Box::new(h32e::limiter_stereo(at, rt)),
                    _ => Box::new(An(Limiter::<U3>::new(rate, at, rt))),
                }
            };
            let lens = [1usize, l / 2, l, 2 * l + 1];
            let alphabet = values.len() * lens.len();
            let total = alphabet.pow(depth as u32 - 1) * lens.len();
            for code in 0..total {
                let mut seq = digits(code / lens.len(), alphabet, depth - 1);
                seq.insert(0, first * lens.len() + code % lens.len());
                // Longer sequences are explored with fewer lengths.
                if channels > 1 && seq.iter().any(|x| x % lens.len() == 1) {
                    continue;
                }
                let mut signal: Vec<f32> = vec![];
                for x in &seq {
                    let v = values[x / lens.len()];
                    signal.extend((0..lens[x % lens.len()]).map(|i| if i & 1 == 1 { v * -0.9 } else { v }));
                }
                let n = signal.len() + l;
                let input = |c: usize, i: usize| {
                    // Channels differ; loud values appear in each of them.
                    let x = signal.get(i).copied().unwrap_or(0.0);
                    if channels == 1 || (i + c) % channels == 0 { x } else { x * 0.5 / (c + 1) as f32 }
                };
                // Short inputs are explored after every history, the rest with fresh units.
                let brief = seq[2..].iter().all(|x| *x == 0);
                for (k, history) in histories.iter().enumerate() {
                if k > 0 && !brief {
                    break;
                }
                let mut u = make();
                for h in history {
                    match h {
                        0 => u.set_sample_rate(rate * 2.0),
                        1 => u.set_sample_rate(rate * 0.5),
                        2 => {
                            run(&mut *u, 70, &[Step::Block(35)], &|_, i| if i < 60 { 4.0 } else { 0.1 });
                        }
                        _ => u.reset(),
                    }
                }
                u.set_sample_rate(rate);
                if k > 0 {
                    u.reset();
                }
                let steps: &[Step] = if code % 2 == 0 { &[Step::Block(64)] } else { &[Step::Tick, Step::Block(13)] };
                let out = run(&mut *u, n, steps, &input);
                ctx.trans(n as u64);
                ctx.trace();
                ctx.state(hmix(hashf(&out[0]), (l * 1000 + r) as u64));
                let mut e = None;
                let loud = signal.iter().any(|x| x.abs() > 0.9);
                for i in 0..n {
                    let mut gain = None;
                    for c in 0..channels {
                        let y = out[c][i] as f64;
                        if !(y.abs() <= 1.0001) {
                            e = Some(format!("output {} at sample {} exceeds the limit", y, i));
                        }
                        let x = if i < l { 0.0 } else { input(c, i - l) as f64 };
                        if x == 0.0 {
                            if y != 0.0 {
                                e = Some(format!("output {} at sample {} for silent input", y, i));
                            }
                        } else {
                            let g = y / x;
                            if !(g > 0.0 && g < 1.00001) || (!loud && g < 0.9999) {
                                e = Some(format!("gain at sample {} channel {} is {}", i, c, g));
                            }
                            if gain.is_some_and(|h: f64| (h / g - 1.0).abs() > 1e-4) {
                                e = Some(format!("gain at sample {} differs between channels", i));
                            }
                            gain = Some(g);
                        }
                    }
                }
                if let Some(e) = e {
                    let e = format!("limiter ({} channels) with attack {} samples, release {} samples at {} Hz, after history {:?}, segments (value, length) {:?}: {}", channels, l, r, rate, history, seq.iter().map(|x| (values[x / lens.len()], lens[x % lens.len()])).collect::<Vec<_>>(), e);
                    ctx.violation(name.clone(), e.clone(), e);
                    return;
                }
                }
            }
        });
        // The gain recovers.
        ctx.case(&format!("limiter {} channels recovery", channels), || {
            let (at, rt) = ((l as f64 / 44100.0) as f32, (r as f64 / 44100.0) as f32);
            let mut u = An(Limiter::<U2>::new(44100.0, at, rt));
            let n = l + 40 + 60 * r;
            let out = run(&mut u, n, &[Step::Block(64)], &|_, i| if i < 40 { 5.0 } else { 0.5 });
            ctx.trans(n as u64);
            ctx.trace();
            for i in [n - 1, l + 40 + 25 * r] {
                if (out[0][i] - 0.5).abs() > 0.005 {
                    let e = format!("limiter with attack {} samples, release {} samples: gain after {} samples is {}", l, r, i - l - 40, out[0][i] * 2.0);
                    ctx.violation("limiter recovery", e.clone(), e);
                }
            }
            // Halfway at the release time at the latest, but not at once.
            let gain = |i: usize| (1.0 / (out[0][i] as f64 * 2.0) - 1.0) / (5.5 - 1.0);
            if r >= 60 && !(gain(l + 40 + r) < 0.5 && gain(l + 40 + r / 10) > 0.5) {
                let e = format!("limiter with attack {} samples, release {} samples: remaining attenuation {} at a tenth of release time, {} at release time", l, r, gain(l + 40 + r / 10), gain(l + 40 + r));
                ctx.violation("limiter recovery", e.clone(), e);
            }
        });
    });
}

/// All sequences of assignments.
fn reducers(ctx: &Ctx) {
    let lengths = 1..=ctx.q(9usize, 17);
    let lengths: Vec<usize> = lengths.collect();
    ctx.par(lengths.len(), |k| {
        let n = lengths[k];
        ctx.case(&format!("reducer of length {}", n), || {
            let values = [0.0f32, 1.0, 2.0, 5.0];
            let alphabet = n * values.len();
            let depth = if n <= 4 { 5 } else { 4 };
            for code in 0..alphabet.pow(depth as u32) {
                let seq = digits(code, alphabet, depth);
                let mut a = ReduceBuffer::new(n, Maximum::<f32>::new());
                let mut b = ReduceBuffer::new(n, Amplitude::<f32>::new());
                let mut model = vec![0.0f32; n];
                for (t, x) in seq.iter().enumerate() {
                    let (i, v) = (x / values.len(), values[x % values.len()]);
                    a.set(i, v);
                    b.set(i, if t & 1 == 0 { -v } else { v });
                    model[i] = v;
                    let m = model.iter().cloned().fold(0.0, f32::max);
                    // The amplitude of a buffer with one item is the item itself.
                    if a.total() != m || b.total().abs() != m || a.length() != n {
                        let e = format!("reducer of length {}: after assignments {:?} total is {} (amplitude {}) instead of {}", n, seq[..=t].iter().map(|x| (x / 4, values[x % 4])).collect::<Vec<_>>(), a.total(), b.total(), m);
                        ctx.violation(format!("reducer of length {}", n), e.clone(), e);
                        return;
                    }
                }
                a.clear();
                if a.total() != 0.0 {
                    ctx.violation(format!("reducer of length {}", n), "clearing did not clear", format!("{:?}", seq));
                    return;
                }
                // Items are cleared as well.
                a.set(seq[0] / 4, 0.5);
                if a.total() != 0.5 {
                    ctx.violation(format!("reducer of length {}", n), "clearing left an item", format!("{:?}", seq));
                    return;
                }
                ctx.trans(depth as u64);
                ctx.trace();
            }
            ctx.state(n as u64);
        });
    });
}

/// Time in samples to get halfway from `a` to `b`, interpolated.
fn halfway(u: &mut dyn AudioUnit, a: f32, b: f32, settle: usize, limit: usize) -> (f64, bool) {
    let mut out = [0.0];
    for _ in 0..settle {
        u.tick(&[a], &mut out);
    }
    let mut prev = out[0] as f64;
    let mut monotone = (prev - a as f64).abs() < 1e-3;
    let half = (a as f64 + b as f64) / 2.0;
    let mut t = f64::NAN;
    for i in 0..limit {
        u.tick(&[b], &mut out);
        let v = out[0] as f64;
        monotone &= if b > a { v >= prev - 1e-6 && v <= b as f64 + 1e-6 } else { v <= prev + 1e-6 && v >= b as f64 - 1e-6 };
        if t.is_nan() && ((prev < half && v >= half) || (prev > half && v <= half)) {
            t = i as f64 + (half - prev) / (v - prev);
        }
        prev = v;
        if !t.is_nan() && i as f64 > t * 1.5 + 3.0 {
            break;
        }
    }
    (t, monotone)
}

fn followers(ctx: &Ctx) {
    // Response times in samples.
    let mut times: Vec<f64> = (1..=ctx.q(60, 400)).map(|x| x as f64).collect();
    let mut t = 70.0;
    while t < ctx.q(40_000.0, 400_000.0) {
        times.push(t);
        t *= ctx.q(1.6, 1.15);
    }
    let rates = [44100.0, 11025.0, 96000.0];
    ctx.par(times.len(), |k| {
        let samples = times[k];
        for rate in rates {
            let t = samples / rate;
            let units: Vec<(&str, Unit, f64, f64)> = vec![
                ("32 follow", Box::new(h32e::follow(t as f32)), samples, samples),
                ("64 follow", Box::new(h64e::follow(t as f32)), samples, samples),
                ("32 afollow", Box::new(h32e::afollow(t as f32, t as f32 * 3.0)), samples, samples * 3.0),
                ("64 afollow", Box::new(h64e::afollow(t as f32, t as f32 * 0.4)), samples, samples * 0.4),
                ("follow set", { let mut u: Unit = Box::new(h32e::follow(0.3)); u.set(Setting::time(t as f32)); u }, samples, samples),
                ("afollow set", { let mut u: Unit = Box::new(h32e::afollow(0.3, 0.1)); u.set(Setting::attack_release(t as f32 * 2.0, t as f32)); u }, samples * 2.0, samples),
            ];
            for (name, u, attack, release) in units {
                // Single precision coefficients of long responses are inaccurate.
                if name != "64 follow" && name != "64 afollow" && samples > 20_000.0 {
                    continue;
                }
                for (a, b) in [(0.0f32, 1.0f32), (1.0, 0.0), (-2.0, 3.0), (0.5, -0.25)] {
                    ctx.case(name, || {
                        let expect = if b > a { attack } else { release };
                        if expect < 1.0 {
                            return;
                        }
                        let mut u = u.clone();
                        u.set_sample_rate(rate);
                        let (h, monotone) = halfway(&mut *u, a, b, 1, (expect * 3.0) as usize + 10);
                        ctx.trans((expect * 1.5) as u64);
                        ctx.trace();
                        ctx.state(hmix(h.to_bits(), h64(name.as_bytes())));
                        // Short responses are quantized to samples.
                        if !monotone || !((h - expect).abs() <= 0.015 * expect + 0.6) {
                            let e = format!("{} with response of {} samples at rate {} from {} to {}: halfway after {} samples{}", name, expect, rate, a, b, h, if monotone { "" } else { ", not monotone or not settled at once" });
                            ctx.violation(name, e.clone(), e);
                        }
                    });
                }
            }
        }
    });
    // The response stays in the range of the input so far for all sequences.
    let values = [0.0f32, 1.0, -1.0, 10.0];
    ctx.par(4, |k| {
        let names = ["32 follow", "64 follow", "32 afollow", "64 afollow"];
        ctx.case(&format!("{} sequences", names[k]), || {
            let depth = ctx.q(6, 8);
            for code in 0..values.len().pow(depth as u32) {
                let seq = digits(code, values.len(), depth);
                for t in [5.0, 40.0] {
                    let mut u: Unit = match k {
                        0 => Box::new(h32e::follow(t / 44100.0)),
                        1 => Box::new(h64e::follow(t / 44100.0)),
                        2 => Box::new(h32e::afollow(t / 44100.0, t / 22050.0)),
                        _ => Box::new(h64e::afollow(t / 44100.0, t / 88200.0)),
                    };
                    let span = 30;
                    let out = run(&mut *u, span * depth, if code & 1 == 0 { &[Step::Tick] } else { &[Step::Block(30)] }, &|_, i| values[seq[(i / span).min(depth - 1)]]);
                    ctx.trans((span * depth) as u64);
                    ctx.trace();
                    let (mut lo, mut hi) = (f32::MAX, f32::MIN);
                    for i in 0..span * depth {
                        let x = values[seq[i / span]];
                        lo = lo.min(x);
                        hi = hi.max(x);
                        let y = out[0][i];
                        let prev = if i == 0 { x } else { out[0][i - 1] };
                        if !(y >= lo - 1e-4 && y <= hi + 1e-4) || (i == 0 && (y - x).abs() > 1e-5) || (t == 5.0 && i % span == span - 1 && (y - x).abs() > (prev - x).abs() + 1e-4) {
                            let e = format!("{}: values {:?} for {} samples each: sample {} is {} while the input has been in {} to {}", names[k], seq.iter().map(|x| values[*x]).collect::<Vec<_>>(), span, i, y, lo, hi);
                            ctx.violation(format!("{} sequences", names[k]), e.clone(), e);
                            return;
                        }
                    }
                    ctx.state(hmix(hashf(&out[0][..100.min(out[0].len())]), k as u64));
                }
            }
        });
    });
}

fn meters(ctx: &Ctx) {
    let values = [0.0f32, 0.5, -1.0, 3.0];
    let steps = [Step::Tick, Step::Block(5), Step::Block(64), Step::Block(0)];
    let depth = ctx.q(4, 5);
    let mut jobs = vec![];
    for m in 0..7 {
        for rate in [44100.0, 8000.0] {
            jobs.push((m, rate));
        }
    }
    ctx.par(jobs.len(), |j| {
        let (m, rate) = jobs[j];
        let meter = [Meter::Sample, Meter::Peak(0.01), Meter::Peak(0.0005), Meter::Peak(1.0), Meter::Rms(0.01), Meter::Rms(0.0005), Meter::Rms(1.0)][m];
        let name = ["sample", "peak 0.01", "peak 0.0005", "peak 1", "rms 0.01", "rms 0.0005", "rms 1"][m];
        ctx.case(&format!("meter {}", name), || {
            let alphabet = values.len() * steps.len();
            for code in 0..alphabet.pow(depth as u32) {
                let seq = digits(code, alphabet, depth);
                let shared = Shared::new(-1.0);
                let mut a = h32e::meter(meter);
                let mut b = h32e::monitor(&shared, meter);
                a.set_sample_rate(rate);
                b.set_sample_rate(rate);
                let (mut state, mut pos) = (0.0f64, 0);
                let mut da = Driver::new(&a);
                let mut db = Driver::new(&b);
                let mut bad = None;
                for (t, x) in seq.iter().enumerate() {
                    let (v, step) = (values[x / steps.len()], steps[x % steps.len()]);
                    let signal = move |_: usize, i: usize| if i % 3 == 1 { v * 0.3 } else { v };
                    let (mut oa, mut ob) = (vec![vec![]], vec![vec![]]);
                    da.step(&mut a, step, pos, &signal, &mut oa);
                    pos = db.step(&mut b, step, pos, &signal, &mut ob);
                    ctx.trans(1);
                    let n = oa[0].len();
                    for i in 0..n {
                        let v = signal(0, pos - n + i);
                        let (vv, k) = (v as f64, |t: f64| 0.5f64.powf(1.0 / (t * rate)));
                        let level = match meter {
                            Meter::Sample => { state = vv; state }
                            Meter::Peak(t) => { state = (state * k(t)).max(vv.abs()); state }
                            Meter::Rms(t) => { state = state * k(t) + vv * vv * (1.0 - k(t)); state.sqrt() }
                        };
                        if !((oa[0][i] as f64 - level).abs() <= 1e-3 * level.abs().max(0.01)) {
                            bad = Some(format!("level {} at step {} instead of {}", oa[0][i], t, level));
                        }
                        if ob[0][i] != v {
                            bad = Some(format!("monitor changed {} to {}", v, ob[0][i]));
                        }
                        if i == n - 1 && !((shared.value() as f64 - level).abs() <= 1e-3 * level.abs().max(0.01)) {
                            bad = Some(format!("monitored level {} after step {} instead of {}", shared.value(), t, level));
                        }
                    }
                }
                ctx.trace();
                ctx.state(hmix(state.to_bits(), hmix(m as u64, rate as u64)));
                if let Some(e) = bad {
                    let e = format!("meter {} at rate {}: values and steps {:?}: {}", name, rate, seq.iter().map(|x| (values[x / steps.len()], steps[x % steps.len()])).collect::<Vec<_>>(), e);
                    ctx.violation(format!("meter {}", name), e.clone(), e);
                    return;
                }
            }
        });
    });
}

fn declicks(ctx: &Ctx) {
    let schedules: Vec<Vec<Step>> = vec![
        vec![Step::Tick],
        vec![Step::Block(64)],
        vec![Step::Block(13)],
        vec![Step::Block(8), Step::Tick],
        vec![Step::Block(33), Step::Block(0), Step::Tick, Step::Block(7)],
    ];
    // Durations in half samples.
    let top = ctx.q(700usize, 3000);
    ctx.par(top, |k| {
        for rate in [44100.0, 8000.0, 96000.0] {
            for wide in [false, true] {
                ctx.case("declick", || {
                    let d = k as f64 * 0.5 / rate;
                    for s in &schedules {
                        let mut u: Unit = if wide { Box::new(h64e::declick_s(d as f32)) } else { Box::new(h32e::declick_s(d as f32)) };
                        u.set_sample_rate(rate);
                        let n = k / 2 + 100;
                        let x = |_: usize, i: usize| if i % 5 == 4 { -0.5f32 } else { 1.0 };
                        let out = run(&mut *u, n, s, &x);
                        ctx.trans(n as u64);
                        ctx.trace();
                        ctx.state(hmix(hashf(&out[0]), k as u64));
                        for i in 0..n {
                            let p = (i as f64 / rate) / d;
                            let g = if p >= 1.0 || d == 0.0 { 1.0 } else { p * p * p * (p * (p * 6.0 - 15.0) + 10.0) };
                            let e = g * x(0, i) as f64;
                            if !((out[0][i] as f64 - e).abs() <= 1e-3) {
                                let e = format!("declick of {} samples at rate {}, steps {:?}: sample {} is {} expected {}", k as f64 * 0.5, rate, s, i, out[0][i], e);
                                ctx.violation("declick", e.clone(), e);
                                return;
                            }
                        }
                    }
                });
            }
        }
    });
}

pub fn c21(ctx: &Ctx) {
    limiters(ctx);
    reducers(ctx);
    followers(ctx);
    meters(ctx);
    declicks(ctx);
}
