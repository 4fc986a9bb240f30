//! C28: reverbs, chorus, flanger, phaser and chaotic oscillators.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::prelude::{
    chorus, dcblock, dcblock_hz, flanger, highpole_hz, lorenz, lowpole_hz, pass, phaser, reverb2_stereo, reverb3_stereo, reverb4_stereo, reverb_stereo, rossler,
    AudioUnit,
};

type Unit = Box<dyn AudioUnit>;
type Sig<'a> = &'a dyn Fn(usize, usize) -> f32;

/// Run for at least `n` samples with the given cycle of steps.
fn run(u: &mut dyn AudioUnit, steps: &[Step], n: usize, f: Sig) -> Vec<Vec<f32>> {
    let mut d = Driver::new(u);
    let mut out = vec![vec![]; u.outputs()];
    let mut pos = 0;
    let mut k = 0;
    while pos < n {
        pos = d.step(u, steps[k % steps.len()], pos, f, &mut out);
        k += 1;
    }
    out
}

const STEPS: [&[Step]; 3] = [&[Step::Block(64)], &[Step::Tick, Step::Block(13)], &[Step::Tick]];

fn x(i: usize) -> f32 {
    det(i as u64 + 17) * 0.8
}

struct Verb {
    name: &'static str,
    make: Box<dyn Fn(f64, f64, f64, f64) -> Unit + Sync + Send>,
    /// Limits of measured decay time relative to `time` at the smallest room.
    limits: (f64, f64),
    rooms: Vec<f64>,
    /// Damping or diffusion.
    amounts: Vec<f64>,
    speeds: Vec<f64>,
}

fn verbs() -> Vec<Verb> {
    vec![
        Verb { name: "reverb_stereo", make: Box::new(|r, t, d, _| Box::new(reverb_stereo(r, t, d))), limits: (1.7, 2.5), rooms: vec![10.0, 17.0, 30.0], amounts: vec![0.0, 0.5, 1.0], speeds: vec![0.0] },
        Verb { name: "reverb2_stereo", make: Box::new(|r, t, d, m| Box::new(reverb2_stereo(r, t, d, m, pass()))), limits: (2.2, 3.8), rooms: vec![10.0, 17.0, 30.0], amounts: vec![0.0, 1.0], speeds: vec![0.0, 0.5, 1.5] },
        Verb { name: "reverb3_stereo", make: Box::new(|_, t, d, _| Box::new(reverb3_stereo(t, d, pass()))), limits: (2.0, 4.8), rooms: vec![10.0], amounts: vec![0.0, 0.5, 1.0], speeds: vec![0.0] },
        Verb { name: "reverb4_stereo", make: Box::new(|r, t, _, _| Box::new(reverb4_stereo(r, t))), limits: (2.2, 7.0), rooms: vec![15.0, 20.0, 30.0], amounts: vec![0.0], speeds: vec![0.0] },
    ]
}

/// Decay time to -60 dB extrapolated from backward integrated energy between -5 and -35 dB.
fn decay(h: &[f32], rate: f64) -> f64 {
    let mut s = vec![0.0; h.len()];
    let mut e = 0.0;
    for i in (0..h.len()).rev() {
        e += h[i] as f64 * h[i] as f64;
        s[i] = e;
    }
    let at = |db: f64| {
        let level = s[0] * 10f64.powf(db / 10.0);
        s.partition_point(|v| *v > level)
    };
    (at(-35.0) - at(-5.0)) as f64 / rate * 2.0
}

fn reverbs(ctx: &Ctx) {
    let list = verbs();
    let times = ctx.q(vec![0.5, 1.0, 2.0], vec![0.3, 0.5, 1.0, 2.0, 4.0, 8.0]);
    let rates = ctx.q(vec![44100.0, 22050.0], vec![44100.0, 22050.0, 48000.0, 96000.0]);
    let mut cases = vec![];
    for (v, e) in list.iter().enumerate() {
        for r in 0..e.rooms.len() {
            for a in 0..e.amounts.len() {
                for s in 0..e.speeds.len() {
                    for t in 0..times.len() {
                        for rate in rates.iter() {
                            cases.push((v, r, a, s, t, *rate));
                        }
                    }
                }
            }
        }
    }
    ctx.part("reverb configurations", cases.len() as u64);
    ctx.par(cases.len(), |j| {
        let (v, r, a, s, t, rate) = cases[j];
        let e = &list[v];
        ctx.case(e.name, || {
            let (room, amount, speed, time) = (e.rooms[r], e.amounts[a], e.speeds[s], times[t]);
            let what = format!("{} room {} time {} damping/diffusion {} modulation {} at {} Hz", e.name, room, time, amount, speed, rate);
            let bad = |m: String| ctx.violation(e.name, format!("{}: {}", what, m), format!("{}: {}", what, m));
            let n = ((time * 2.0 + 1.5) * rate) as usize;
            let make = || {
                let mut u = (e.make)(room, time, amount, speed);
                u.set_sample_rate(rate);
                u
            };
            let h: Vec<Vec<Vec<f32>>> = (0..3).map(|k| run(&mut *make(), STEPS[k % 2], n, &|c, i| (i == 0 && (c == k || k == 2)) as usize as f32)).collect();
            ctx.trans(3 * n as u64 / 64);
            ctx.state(j as u64);
            ctx.trace();
            for k in 0..3 {
                for c in 0..2 {
                    let g = &h[k][c];
                    if g.iter().any(|y| !(y.abs() < 2.0)) {
                        return bad(format!("impulse response from {} to {} is not bounded", k, c));
                    }
                    let energy: f64 = g.iter().map(|y| (y * y) as f64).sum();
                    if !(energy > 1e-4 && energy < 8.0) {
                        return bad(format!("energy of impulse response from {} to {} is {}", k, c, energy));
                    }
                    let d = decay(g, rate) / time;
                    let slack = if time < 0.4 { 1.6 } else { 1.0 };
                    if !(d > e.limits.0 && d < e.limits.1 * slack) {
                        return bad(format!("decay from {} to {} takes {} times the time", k, c, d));
                    }
                    // Energy falls from segment to segment once the reverb has built up.
                    let m = (0.25 * rate) as usize;
                    let seg: Vec<f64> = g.chunks(m).map(|c| c.iter().map(|y| (y * y) as f64).sum()).collect();
                    for i in 8..seg.len() - 1 {
                        // The loop of reverb3 takes more than a second.
                        if seg[i] > seg[i - 6..i].iter().cloned().fold(0.0, f64::max) * 1.1 + 1e-8 {
                            return bad(format!("energy from {} to {} rises from {} to {} after {} seconds", k, c, seg[i - 1], seg[i], i as f64 * 0.25));
                        }
                    }
                }
            }
            // Channels are added up.
            for c in 0..2 {
                for i in 0..h[0][c].len().min(h[1][c].len()).min(h[2][c].len()) {
                    let y = h[0][c][i] + h[1][c][i];
                    if !((h[2][c][i] - y).abs() < 1e-4) {
                        return bad(format!("response to both channels is {} at sample {}, sum of responses is {}", h[2][c][i], i, y));
                    }
                }
            }
            // Left and right are different.
            if (0..n).all(|i| (h[0][0][i] - h[0][1][i]).abs() < 1e-6) {
                return bad("left and right channels are the same".into());
            }
            // Level scales the output. A second impulse has the same response later.
            let late = 64 * 50;
            let two = run(&mut *make(), STEPS[0], n, &|c, i| if c == 1 { 0.0 } else { (i == 0) as usize as f32 * -0.5 + (i == late) as usize as f32 * 0.25 });
            for c in 0..2 {
                for i in 0..n {
                    if e.speeds.len() > 1 && i >= late {
                        // Delays are modulated.
                        break;
                    }
                    let y = h[0][c][i] * -0.5 + if i >= late { h[0][c][i - late] * 0.25 } else { 0.0 };
                    if !((two[c][i] - y).abs() < 1e-4) {
                        return bad(format!("two impulses give {} at sample {}, expected {}", two[c][i], i, y));
                    }
                }
            }
        });
    });
    // Decay time is proportional to time and does not depend on the sample rate.
    for e in list.iter() {
        ctx.case(e.name, || {
            let m = |time: f64, rate: f64, room: f64| {
                let mut u = (e.make)(room, time, e.amounts[0], 0.0);
                u.set_sample_rate(rate);
                decay(&run(&mut *u, STEPS[0], ((time * 2.0 + 1.5) * rate) as usize, &|c, i| (i == 0 && c == 0) as usize as f32)[0], rate)
            };
            for room in e.rooms.iter() {
                let d = [m(1.0, 44100.0, *room), m(2.0, 44100.0, *room), m(1.0, 48000.0, *room), m(2.0, 32000.0, *room)];
                if !(d[1] / d[0] > 1.45 && d[1] / d[0] < 2.2 && (d[2] / d[0] - 1.0).abs() < 0.1 && (d[3] / d[1] - 1.0).abs() < 0.1) {
                    let s = format!("{} room {}: decay times {:?} for times of 1, 2, 1 and 2 seconds at 44.1, 44.1, 48 and 32 kHz", e.name, room, d);
                    ctx.violation(e.name, s.clone(), s);
                }
            }
        });
    }
    // Damping and loop filters shorten the decay of the frequencies they attenuate.
    ctx.case("loop filter", || {
        let band = |u: &mut dyn AudioUnit, high: bool| {
            u.set_sample_rate(44100.0);
            let h = run(u, STEPS[0], 44100 * 4, &|c, i| (i == 0 && c == 0) as usize as f32);
            let mut f: Unit = if high { Box::new(highpole_hz::<f64>(8000.0) >> highpole_hz::<f64>(8000.0)) } else { Box::new(lowpole_hz::<f64>(300.0) >> lowpole_hz::<f64>(300.0)) };
            decay(&run(&mut *f, STEPS[0], h[0].len() / 64 * 64 - 64, &|_, i| h[0][i])[0], 44100.0)
        };
        let rows: Vec<(&str, Box<dyn Fn(bool) -> Unit>)> = vec![
            ("reverb_stereo", Box::new(|f| Box::new(reverb_stereo(12.0, 1.0, if f { 0.8 } else { 0.0 })))),
            ("reverb2_stereo", Box::new(|f| if f { Box::new(reverb2_stereo(12.0, 1.0, 0.5, 0.0, lowpole_hz::<f32>(4000.0))) } else { Box::new(reverb2_stereo(12.0, 1.0, 0.5, 0.0, pass())) })),
            ("reverb3_stereo", Box::new(|f| if f { Box::new(reverb3_stereo(1.0, 0.5, lowpole_hz::<f32>(4000.0))) } else { Box::new(reverb3_stereo(1.0, 0.5, pass())) })),
        ];
        for (name, make) in rows {
            let d: Vec<f64> = (0..4).map(|k| band(&mut *make(k >= 2), k % 2 == 1)).collect();
            ctx.trans(4);
            if !(d[1] > 0.5 * d[0] && d[3] < 0.7 * d[1] && d[2] > 0.8 * d[0]) {
                let s = format!("{}: decay times of low and high frequencies are {:?} undamped, {:?} damped", name, &d[..2], &d[2..]);
                ctx.violation(name, s.clone(), s);
            }
        }
    });
}

/// Cubic interpolated read from history.
fn cubic(h: &[f64], i: usize, d: f64) -> f64 {
    let at = |j: isize| if j >= 0 { h[(j as usize).min(i)] } else { 0.0 };
    let k = d.floor();
    let f = d - k;
    let j = i as isize - k as isize;
    let (y0, y1, y2, y3) = (at(j + 1), at(j), at(j - 1), at(j - 2));
    y1 + f * 0.5 * (y2 - y0 + f * (2.0 * y0 - 5.0 * y1 + 4.0 * y2 - y3 + f * (3.0 * (y1 - y2) + y3 - y0)))
}

fn effects(ctx: &Ctx) {
    let rates = [44100.0, 8000.0, 96000.0];
    // Chorus: each impulse returns directly and from four voices, each within its own limits.
    let seeds = ctx.q(8, 64);
    ctx.par(seeds, |seed| {
        ctx.case("chorus", || {
            for (sep, var) in [(0.015, 0.005), (0.02, 0.01), (0.01, 0.0), (0.03, 0.03)] {
                for modf in [0.0, 0.5, 2.0] {
                    for rate in rates {
                        for steps in &STEPS[..2] {
                            let mut u = chorus(seed as u64, sep, var, modf);
                            u.set_sample_rate(rate);
                            let gap = ((sep * 4.0 + var) as f64 * rate) as usize + 50;
                            let count = 8;
                            let out = run(&mut u, steps, gap * count, &|_, i| (i % gap == 0) as usize as f32);
                            let mut centers = vec![vec![]; 4];
                            for k in 0..count {
                                let g = &out[0][k * gap..(k + 1) * gap];
                                let mut bad = |m: String| {
                                    let s = format!("chorus seed {} separation {} variation {} modulation {} Hz at {} Hz: impulse {}: {}", seed, sep, var, modf, rate, k, m);
                                    ctx.violation("chorus", s.clone(), s);
                                };
                                if (g[0] - 0.2).abs() > 1e-5 {
                                    return bad(format!("direct sound is {}", g[0]));
                                }
                                let (mut total, mut first, mut outside) = (0.0, 0.0, 0.0);
                                for i in 1..gap {
                                    total += g[i] as f64;
                                    first += g[i] as f64 * i as f64;
                                    // Voices may overlap if variation exceeds separation.
                                    let t = i as f64;
                                    if !(1..=4).any(|v| t > (sep * v as f32) as f64 * rate - 2.5 && t < (sep * v as f32 + var) as f64 * rate + 2.5) {
                                        outside += g[i].abs();
                                    }
                                }
                                // Moving voices change in level.
                                let tol = 0.02 + 30.0 * (var * (modf + 0.06)) as f64 + if var > 0.0 { 0.5 * (rate / 96000.0) * (rate / 96000.0) } else { 0.0 };
                                if !((total - 0.8).abs() < 0.8 * tol) || !(outside < 1e-5) {
                                    return bad(format!("voices sum to {} and {} of that is outside of limits", total, outside));
                                }
                                let mean = first / total / rate;
                                if !(mean > sep as f64 * 2.5 - 0.1 / rate && mean < (sep * 2.5 + var) as f64 + 0.1 / rate) {
                                    return bad(format!("mean delay of voices is {} s", mean));
                                }
                                if var < sep {
                                    for v in 0..4 {
                                        let w = ((sep * (v + 1) as f32) as f64 * rate - 3.0).max(1.0) as usize..(((sep * (v + 1) as f32 + var) as f64 * rate + 3.0) as usize).min(gap);
                                        let sum: f64 = g[w.clone()].iter().map(|y| *y as f64).sum();
                                        if !((sum - 0.2).abs() < 0.2 * tol) {
                                            return bad(format!("voice {} has amplitude {}", v, sum));
                                        }
                                        centers[v].push(w.map(|i| i as f64 * g[i] as f64).sum::<f64>() / sum);
                                    }
                                }
                            }
                            // Voices move if there is something to move them.
                            for v in centers.iter().filter(|v| !v.is_empty()) {
                                let spread = v.iter().cloned().fold(0.0, f64::max) - v.iter().cloned().fold(1e9, f64::min);
                                let moves = var > 0.0 && modf >= 2.0;
                                if (moves && spread < 0.02) || (var == 0.0 && spread > 0.05) {
                                    let s = format!("chorus seed {} separation {} variation {} modulation {} Hz at {} Hz: delays of impulses are {:?} samples", seed, sep, var, modf, rate, v);
                                    return ctx.violation("chorus", s.clone(), s);
                                }
                            }
                            ctx.trace();
                            ctx.trans((gap * count) as u64);
                            ctx.state(hmix(hmix(seed as u64, (sep * 1e6 + var * 1e3 + modf) as u64), rate as u64));
                        }
                    }
                }
            }
        });
    });
    // Flanger and phaser with modulation linear in time: exact recurrences.
    let n = 3000;
    let mut cases = vec![];
    for amount in [0.9f32, -0.9, 0.5, 0.0] {
        for lo in [0.0f32, 0.3, 0.7, 1.0] {
            for slope in [0.0f32, 5.0, -4.0] {
                for rate in rates {
                    cases.push((amount, lo, slope, rate));
                }
            }
        }
    }
    ctx.par(cases.len(), |j| {
        let (amount, lo, slope, rate) = cases[j];
        for (s, steps) in STEPS.iter().enumerate() {
            ctx.trans(2 * n as u64);
            ctx.trace();
            ctx.state(hmix(j as u64, 77 + s as u64));
            ctx.case("flanger", || {
                let (dmin, dmax) = (0.005f32, 0.010f32);
                let mut u = flanger(amount, dmin, dmax, move |t| dmin + (dmax - dmin) * (lo + slope * t));
                u.set_sample_rate(rate);
                let out = run(&mut u, steps, n, &|_, i| x(i));
                let mut v: Vec<f64> = vec![];
                let mut d = 0.0;
                for i in 0..n {
                    v.push(x(i) as f64 + (d * amount as f64).tanh());
                    let t = i as f64 / rate;
                    let p = (lo + slope * t as f32) as f64;
                    d = cubic(&v, i, (0.005 + 0.005 * p).clamp(0.005, 0.010) * rate);
                    let y = x(i) as f64 + d;
                    if !((out[0][i] as f64 - y).abs() < 0.04) {
                        let m = format!("flanger({}, {}, {}, {} + {} t) at {} Hz, {:?}: sample {} is {}, expected {}", amount, dmin, dmax, lo, slope, rate, steps, i, out[0][i], y);
                        return ctx.violation("flanger", m.clone(), m);
                    }
                }
            });
            ctx.case("phaser", || {
                let mut u = phaser(amount, move |t| lo + slope * t);
                u.set_sample_rate(rate);
                let out = run(&mut u, steps, n, &|_, i| x(i));
                let mut st = [[0.0f64; 2]; 10];
                let mut fb = 0.0;
                for i in 0..n {
                    let p = lo as f64 + slope as f64 * i as f64 / rate;
                    if slope != 0.0 && (p < 0.01 && slope < 0.0 || p > 0.99 && slope > 0.0) {
                        // Modulation is interpolated around the corner.
                        break;
                    }
                    let base = 2.0 + 18.0 * p.clamp(0.0, 1.0);
                    let mut z = x(i) as f64 + fb;
                    for k in 0..10 {
                        let d = base + 0.1 * (k + 1) as f64;
                        let eta = (1.0 - d) / (1.0 + d);
                        let y = eta * (z - st[k][1]) + st[k][0];
                        st[k] = [z, y];
                        z = y;
                    }
                    fb = z * amount as f64;
                    let y = x(i) as f64 + fb;
                    if !((out[0][i] as f64 - y).abs() < 0.02) {
                        let m = format!("phaser({}, {} + {} t) at {} Hz, {:?}: sample {} is {}, expected {}", amount, lo, slope, rate, steps, i, out[0][i], y);
                        return ctx.violation("phaser", m.clone(), m);
                    }
                }
            });
        }
    });
    ctx.part("flanger and phaser configurations", cases.len() as u64 * 6);
    ctx.case("dcblock", || {
        for rate in rates {
            for steps in STEPS {
                let mut a = dcblock::<f64>();
                let mut b = dcblock_hz::<f64>(10.0);
                a.set_sample_rate(rate);
                b.set_sample_rate(rate);
                let a = run(&mut a, steps, n, &|_, i| x(i));
                if a != run(&mut b, steps, n, &|_, i| x(i)) {
                    ctx.violation("dcblock", format!("default cutoff is not 10 Hz at {} Hz", rate), "dcblock".to_string());
                }
            }
        }
    });
}

fn chaos(ctx: &Ctx) {
    let make = |l: bool| -> Unit { if l { Box::new(lorenz()) } else { Box::new(rossler()) } };
    let freqs = ctx.q(vec![20.0f32, 110.0, 440.0, 880.0, 2000.0, 5000.0, 12000.0, 20000.0], vec![1.0f32, 20.0, 55.0, 110.0, 220.0, 440.0, 600.0, 880.0, 1000.0, 1200.0, 1500.0, 2000.0, 3000.0, 4000.0, 5000.0, 8000.0, 12000.0, 16000.0, 20000.0]);
    let rates = [44100.0f64, 8000.0, 96000.0];
    let hashes = ctx.q(4, 32);
    ctx.par(2 * hashes * freqs.len(), |j| {
        let l = j % 2 == 1;
        let hash = (j / 2 % hashes) as u64;
        let f = freqs[j / 2 / hashes];
        let name = if l { "lorenz" } else { "rossler" };
        ctx.case(name, || {
            for rate in rates {
                if f as f64 > rate * 0.5 {
                    continue;
                }
                // Constant frequency, alternating frequency and slow sweep.
                for pattern in 0..3 {
                    let freq = move |i: usize| match pattern {
                        0 => f,
                        1 => if i % 3 == 0 { f } else { f * 0.3 },
                        _ => f * (i % 1024) as f32 / 1024.0,
                    };
                    let bad = |m: String| {
                        let s = format!("{} hash {} frequency {} pattern {} at {} Hz: {}", name, hash, f, pattern, rate, m);
                        ctx.violation(name, s.clone(), s);
                    };
                    let scale = if l { 0.05107 } else { 0.05757 };
                    let limit = if l { 0.02 } else { 0.07 };
                    let mut u = make(l);
                    u.set_sample_rate(rate);
                    u.set_hash(hash);
                    // The system stands still at frequency zero, which reveals its initial state.
                    let still = run(&mut *u.clone(), &[Step::Tick], 4, &|_, _| 0.0)[0].clone();
                    if still.iter().any(|y| *y != still[0]) || !(still[0] >= 0.0 && still[0] as f64 <= scale) {
                        return bad(format!("output at frequency zero is {:?}", still));
                    }
                    let n = ctx.q(40000, 400000);
                    let out = run(&mut *u, STEPS[pattern], n, &|_, i| freq(i)).remove(0);
                    ctx.trans(n as u64);
                    ctx.trace();
                    ctx.state(hmix(j as u64, hmix(rate as u64, pattern as u64)));
                    let mut s = [[still[0] as f64 / scale, 1.0, 1.0]; 2];
                    s[1][0] += 2e-5;
                    let mut follow = true;
                    let mut total = 0.0;
                    let mut spread: f64 = 0.0;
                    let mut turns = 0;
                    for i in 0..n {
                        if !(out[i].abs() < 1.4) {
                            return bad(format!("output at sample {} is {}", i, out[i]));
                        }
                        if i > 0 && (out[i] >= 0.0) != (out[i - 1] >= 0.0) {
                            turns += 1;
                        }
                        let dt = freq(i) as f64 / rate * if l { 1.0 } else { 2.91 };
                        total += dt;
                        if dt > limit || total > if l { 8.0 } else { 40.0 } {
                            follow = false;
                        }
                        if follow {
                            for (j, s) in s.iter_mut().enumerate() {
                                let [x, y, z] = *s;
                                let d = if l { [10.0 * (y - x), x * (28.0 - z) - y, x * y - 8.0 / 3.0 * z] } else { [-y - z, x + 0.15 * y, 0.2 + z * (x - 10.0)] };
                                for k in 0..3 {
                                    s[k] += d[k] * dt * (1.0 + j as f64 * 1e-6);
                                    if j == 1 {
                                        s[k] = s[k] as f32 as f64;
                                    }
                                }
                            }
                            spread = spread.max((s[0][0] - s[1][0]).abs() * scale);
                            if spread > 1e-3 {
                                follow = false;
                            }
                            if follow && !((out[i] as f64 - s[0][0] * scale).abs() < 1e-3 + 20.0 * spread) {
                                return bad(format!("output at sample {} is {}, expected {}", i, out[i], s[0][0] * scale));
                            }
                        }
                    }
                    // The system keeps moving at the frequency given.
                    let cycles = f as f64 * n as f64 / rate;
                    if !l && pattern == 0 && cycles > 200.0 && f as f64 / rate < 0.2 {
                        let ratio = turns as f64 / cycles;
                        if !(ratio > 0.85 && ratio < 1.1) {
                            return bad(format!("{} zero crossings in {} cycles", turns, cycles));
                        }
                    }
                    if l && pattern == 0 && cycles > 400.0 && f as f64 / rate < 0.2 && turns < 20 {
                        return bad(format!("{} zero crossings in {} cycles", turns, cycles));
                    }
                }
            }
        });
    });
    // Different hashes give different initial states.
    ctx.case("initial states", || {
        for l in [false, true] {
            let mut v: Vec<u32> = (0..1000)
                .map(|h| {
                    let mut u = make(l);
                    u.set_hash(h);
                    u.get_mono_still().to_bits()
                })
                .collect();
            v.sort();
            v.dedup();
            if v.len() < 990 {
                ctx.violation("initial states", format!("1000 hashes give {} initial states", v.len()), "initial states".to_string());
            }
        }
    });
}

trait Still {
    fn get_mono_still(&mut self) -> f32;
}
impl Still for Unit {
    fn get_mono_still(&mut self) -> f32 {
        let mut out = [0.0];
        self.tick(&[0.0], &mut out);
        out[0]
    }
}

pub fn c28(ctx: &Ctx) {
    reverbs(ctx);
    effects(ctx);
    chaos(ctx);
}
