//! C30: granular synthesizers and dynamical systems keep their schedules.
use crate::catalog::*;
use crate::fw::*;
use fundsp::hacker32::*;
use std::sync::{Arc, Mutex};

/// A call of the grain generator.
#[derive(Clone, Copy, Debug)]
struct Call {
    t: f64,
    b: f32,
    v: f32,
    x: f32,
    y: f32,
    z: f32,
    len: f32,
    env: f32,
    /// Index of the grain in its voice.
    index: usize,
    /// Length of the stream when the grain was made.
    made: usize,
}
#[derive(Default)]
struct Log {
    calls: Vec<Call>,
    pos: usize,
}

const GRAINS: [(f32, f32); 4] = [(0.00211, 0.00093), (0.00305, 0.0), (0.00071, 0.00043), (0.00513, 0.00507)];

fn amplitude(voice: usize, index: usize) -> f32 {
    0.1 + 0.13 * voice as f32 + 0.07 * (index % 5) as f32
}

fn voice_of(v: f32, voices: usize) -> Option<usize> {
    (0..voices).find(|i| {
        let d = if voices == 1 { 0.0 } else { 2.0 * *i as f32 / (voices - 1) as f32 - 1.0 };
        (v - d).abs() < 1e-5
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Run(usize),
    Reset,
    Rate(f64),
    Clone,
}

/// Steps of a schedule; the schedule is repeated.
const STEPS: [Step; 5] = [Step::Tick, Step::Block(1), Step::Block(13), Step::Block(64), Step::Block(40)];

fn granular(ctx: &Ctx) {
    let patterns: Vec<Vec<usize>> = {
        let mut p = vec![];
        for len in 1..=ctx.q(2, 3) {
            for i in 0..GRAINS.len().pow(len as u32) {
                p.push(digits(i, GRAINS.len(), len));
            }
        }
        p
    };
    let sched: Vec<Vec<Step>> = {
        let mut s = vec![];
        for len in 1..=2 {
            for i in 0..STEPS.len().pow(len as u32) {
                s.push(digits(i, STEPS.len(), len).into_iter().map(|i| STEPS[i]).collect());
            }
        }
        s
    };
    let histories: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::Rate(48000.0)],
        vec![Op::Rate(11025.0)],
        vec![Op::Run(130), Op::Reset],
        vec![Op::Run(1), Op::Reset, Op::Rate(22050.0)],
        vec![Op::Rate(96000.0), Op::Run(77), Op::Reset, Op::Run(300), Op::Reset],
        vec![Op::Run(200), Op::Clone, Op::Reset],
        vec![Op::Clone],
    ];
    let beat = 0.0043f32;
    let cycle = 3usize;
    let mut jobs = vec![];
    for voices in 1..=ctx.q(4, 6) {
        for p in 0..patterns.len() {
            for h in 0..histories.len() {
                jobs.push((voices, p, h));
            }
        }
    }
    ctx.part("granular configurations", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (voices, p, h) = jobs[j];
        let pattern = &patterns[p];
        for sc in sched.iter() {
            let tag = format!("{} voices, grains {:?}, history {:?}, steps {:?}", voices, pattern.iter().map(|i| GRAINS[*i]).collect::<Vec<_>>(), histories[h], sc);
            ctx.case("granular", || {
                let log = Arc::new(Mutex::new(Log::default()));
                let glog = log.clone();
                let pat = pattern.clone();
                let mut unit: Box<dyn AudioUnit> = Box::new(Granular::new(1, voices, beat, cycle, 5, 0.1, 0.2, 0.0, move |t, b, v, x, y, z| {
                    let mut log = glog.lock().unwrap();
                    let voice = voice_of(v, voices).unwrap_or(0);
                    let index = log.calls.iter().filter(|c| voice_of(c.v, voices) == Some(voice)).count();
                    let (len, env) = GRAINS[pat[(index + voice) % pat.len()]];
                    let made = log.pos;
                    log.calls.push(Call { t, b, v, x, y, z, len, env, index, made });
                    (len, env, Box::new(dc(amplitude(voice, index))))
                }));
                let mut rate = 44100.0;
                let mut d = Driver::new(&*unit);
                let mut out = vec![vec![]];
                let mut pos = 0;
                let total = 500;
                let mut run = |unit: &mut Box<dyn AudioUnit>, n: usize, out: &mut Vec<Vec<f32>>| {
                    pos = 0;
                    log.lock().unwrap().pos = 0;
                    let mut k = 0;
                    while pos < n {
                        pos = d.step(&mut **unit, sc[k % sc.len()], pos, &|_, _| 0.0, out);
                        log.lock().unwrap().pos = pos;
                        k += 1;
                    }
                };
                for op in histories[h].iter() {
                    match *op {
                        Op::Run(n) => run(&mut unit, n, &mut out),
                        Op::Rate(r) => {
                            rate = r;
                            unit.set_sample_rate(r);
                        }
                        Op::Reset => {
                            unit.reset();
                            out[0].clear();
                            log.lock().unwrap().calls.clear();
                        }
                        Op::Clone => unit = unit.clone(),
                    }
                }
                run(&mut unit, total, &mut out);
                let calls = log.lock().unwrap().calls.clone();
                let n = out[0].len();
                ctx.trace();
                ctx.trans(calls.len() as u64);
                ctx.state(hmix(hashf(&out[0]), j as u64));
                let fail = |what: String| {
                    ctx.violation("granular", format!("{}: {}", tag, what), format!("{}: {}", tag, what));
                };
                // Expected grains.
                let first = GRAINS[pattern[0]];
                let mut expected = vec![];
                for i in 0..voices {
                    let mut t = (first.0 as f64 - first.1 as f64) * i as f64 / voices as f64;
                    let mut index = 0;
                    while t < n as f64 / rate + 1.0 / rate {
                        let (len, env) = GRAINS[pattern[(index + i) % pattern.len()]];
                        expected.push((i, index, t, len as f64, env as f64));
                        t += len as f64 - env as f64;
                        index += 1;
                    }
                }
                let mut got = vec![false; expected.len()];
                for c in calls.iter() {
                    let Some(voice) = voice_of(c.v, voices) else {
                        return fail(format!("grain at {} has voice indicator {}", c.t, c.v));
                    };
                    let Some(k) = expected.iter().position(|e| e.0 == voice && e.1 == c.index) else {
                        // Grains may be prepared a block ahead of time.
                        if c.t < n as f64 / rate {
                            return fail(format!("unexpected grain {:?}", c));
                        }
                        continue;
                    };
                    let e = expected[k];
                    got[k] = true;
                    if !((c.t - e.2).abs() < 1e-9) {
                        return fail(format!("grain {} of voice {} is at {}, expected {}", c.index, voice, c.t, e.2));
                    }
                    if !((c.b as f64 - e.2 / beat as f64).abs() < 1e-4) {
                        return fail(format!("grain {} of voice {} is at beat {}, expected {}", c.index, voice, c.b, e.2 / beat as f64));
                    }
                    if !([c.x, c.y, c.z].iter().all(|x| (-1.0..=1.0).contains(x))) {
                        return fail(format!("texture values {} {} {}", c.x, c.y, c.z));
                    }
                    if c.made as f64 > e.2 * rate + 0.501 {
                        return fail(format!("grain {} of voice {} at sample {} was generated only after {} samples", c.index, voice, e.2 * rate, c.made));
                    }
                }
                for (k, e) in expected.iter().enumerate() {
                    if !got[k] && e.2 < (n as f64 - 1.0) / rate {
                        return fail(format!("grain {} of voice {} at {} is missing", e.1, e.0, e.2));
                    }
                }
                // The sound is the sum of grains with equal power fades.
                for i in 0..n - 1 {
                    let mut sum = 0.0;
                    let mut tol = 2e-4;
                    for e in expected.iter() {
                        // Grains start and end at the nearest sample.
                        let (a, b) = (e.2 * rate, (e.2 + e.3) * rate);
                        let x = i as f64;
                        let fade = e.4 * rate;
                        let amp = amplitude(e.0, e.1) as f64;
                        if (x - a + 0.5).abs() < 1e-3 || (x - b + 0.5).abs() < 1e-3 {
                            tol += amp * 2.0;
                        }
                        if x < a - 0.5 || x >= b - 0.5 {
                            continue;
                        }
                        let mut g = 1.0;
                        if fade > 0.0 {
                            if x - a < fade {
                                g *= (((x - a) / fade) * std::f64::consts::FRAC_PI_2).sin();
                            }
                            if b - x < fade {
                                g *= (((b - x) / fade) * std::f64::consts::FRAC_PI_2).sin();
                            }
                            // A fade may cover one sample more or less.
                            if (x - a - fade).abs() < 1.0 || (b - x - fade).abs() < 1.0 {
                                tol += amp * (std::f64::consts::FRAC_PI_2 / fade).powi(2) * 0.5;
                            }
                        }
                        sum += g * amp;
                        tol += amp * 1e-2;
                    }
                    if !((out[0][i] as f64 - sum).abs() < tol) {
                        return fail(format!("sample {} is {} expected {}", i, out[0][i], sum));
                    }
                }
            });
        }
    });
}

/// Texture values recur with the cycle of the helix, and follow the seed and the path.
fn texture(ctx: &Ctx) {
    let grab = |voices: usize, beats: usize, seed: u64, r0: f32, r1: f32, jitter: f32, hash: Option<u64>, n: usize| -> Vec<(f32, f64, [f32; 3])> {
        let log = Arc::new(Mutex::new(vec![]));
        let l = log.clone();
        // Grains are exactly representable in time.
        let mut u = Granular::new(1, voices, 0.0078125, beats, seed, r0, r1, jitter, move |t, _b, v, x, y, z| {
            l.lock().unwrap().push((v, t, [x, y, z]));
            (0.00390625, 0.001953125, Box::new(dc(0.1)))
        });
        u.set_sample_rate(8192.0);
        if let Some(h) = hash {
            u.set_hash(h);
        }
        let mut o = [0.0];
        for _ in 0..n {
            u.tick(&[], &mut o);
        }
        let v = log.lock().unwrap().clone();
        v
    };
    let mut jobs = vec![];
    for voices in 1..=4usize {
        for beats in [1usize, 2, 3, 5] {
            for seed in 0..ctx.q(12u64, 60) {
                for (r0, r1) in [(0.1f32, 0.2f32), (0.0, 0.3), (0.25, 0.25)] {
                    jobs.push((voices, beats, seed, r0, r1));
                }
            }
        }
    }
    ctx.part("helix textures", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (voices, beats, seed, r0, r1) = jobs[j];
        ctx.case("texture", || {
            let n = 8192 * beats / 128 * 3;
            let a = grab(voices, beats, seed, r0, r1, 0.0, None, n);
            let again = grab(voices, beats, seed, r0, r1, 0.0, Some(77), n);
            let other = grab(voices, beats, seed + 1000, r0, r1, 0.0, None, n);
            let near = grab(voices, beats, seed, r0, r1, 1e-5, None, n);
            ctx.trace();
            ctx.trans(a.len() as u64 * 4);
            for x in a.iter() {
                ctx.state(hmix(hashf(&x.2), j as u64));
            }
            let period = beats as f64 * 0.0078125;
            let fail = |what: String| {
                let s = format!("granular with {} voices, {} beats per cycle, seed {}, radius {} to {}: {}", voices, beats, seed, r0, r1, what);
                ctx.violation("texture", s.clone(), s);
            };
            for x in a.iter() {
                for y in a.iter() {
                    let same_place = x.0 == y.0 || r0 == r1;
                    let cycles = (y.1 - x.1) / period;
                    if same_place && (cycles - cycles.round()).abs() < 1e-12 && (0..3).any(|i| (x.2[i] - y.2[i]).abs() > 1e-3) {
                        return fail(format!("texture values at {} s are {:?} and at {} s {:?}", x.1, x.2, y.1, y.2));
                    }
                }
            }
            if a.len() != again.len() || a.iter().zip(again.iter()).any(|(x, y)| x != y) {
                return fail("texture values depend on the phase hash".into());
            }
            if a.iter().zip(other.iter()).all(|(x, y)| x.2 == y.2) {
                return fail("texture does not depend on the seed".into());
            }
            let mut shift = 0;
            for (x, y) in a.iter().zip(near.iter()) {
                if (0..3).any(|i| (x.2[i] - y.2[i]).abs() > 0.2) {
                    shift += 1;
                }
            }
            if a.len() != near.len() || shift * 4 > a.len() {
                return fail(format!("tiny jitter changes {} of {} texture values", shift, a.len()));
            }
        });
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum SysOp {
    Step(Step),
    Reset,
    Rate(f64),
    Clone,
}

fn systems(ctx: &Ctx) {
    let ops = [
        SysOp::Step(Step::Tick),
        SysOp::Step(Step::Block(1)),
        SysOp::Step(Step::Block(8)),
        SysOp::Step(Step::Block(37)),
        SysOp::Step(Step::Block(64)),
        SysOp::Reset,
        SysOp::Rate(96000.0),
        SysOp::Clone,
    ];
    let intervals: [f64; 7] = [0.0, 0.4, 1.5, 9.5, 40.5, 64.5, 130.5];
    let depth = ctx.q(5, 6);
    ctx.part("system operation sequences", (ops.len().pow(depth as u32) * intervals.len()) as u64);
    ctx.par(ops.len() * ops.len(), |head| {
        for tail in 0..ops.len().pow(depth as u32 - 2) {
            let mut seq = digits(head, ops.len(), 2);
            seq.extend(digits(tail, ops.len(), depth - 2));
            let seq: Vec<SysOp> = seq.into_iter().map(|i| ops[i]).collect();
            for interval in intervals {
                ctx.case("update", || {
                    let log: Arc<Mutex<Vec<(f32, f32)>>> = Arc::new(Mutex::new(vec![]));
                    let l = log.clone();
                    let mut u: Box<dyn AudioUnit> = Box::new(update(pass() + dc(0.0) | pass() * dc(1.0), (interval / 44100.0) as f32, move |t, dt, x| {
                        let mut log = l.lock().unwrap();
                        log.push((t, dt));
                        let n = log.len() as f32;
                        x.left_mut().right_mut().set_scalar(n);
                        x.right_mut().right_mut().set_scalar(n * 2.0);
                    }));
                    // The model.
                    let mut rate = 44100.0;
                    let (mut time, mut last) = (0.0f64, None::<f64>);
                    let mut calls = 0usize;
                    let mut d = Driver::new(&*u);
                    let mut out = vec![vec![], vec![]];
                    let mut pos = 0;
                    // The sequence, then more of the last steps to see updates follow.
                    for (k, op) in seq.iter().chain([SysOp::Step(Step::Block(64)), SysOp::Step(Step::Block(64)), SysOp::Step(Step::Tick), SysOp::Step(Step::Block(37))].iter()).enumerate() {
                        match *op {
                            SysOp::Reset => {
                                u.reset();
                                time = 0.0;
                                last = None;
                            }
                            SysOp::Rate(r) => {
                                u.set_sample_rate(r);
                                rate = r;
                            }
                            SysOp::Clone => u = u.clone(),
                            SysOp::Step(s) => {
                                let before = log.lock().unwrap().len();
                                let f = |c: usize, i: usize| det(i as u64 * 2 + c as u64);
                                let from = pos;
                                pos = d.step(&mut *u, s, pos, &f, &mut out);
                                let made = log.lock().unwrap()[before..].to_vec();
                                ctx.trans(1);
                                let fail = |what: String| {
                                    let s = format!("update interval {} samples at 44100 Hz, operations {:?} at step {}: {}", interval, seq, k, what);
                                    ctx.violation("update", s.clone(), s);
                                };
                                let due = match last {
                                    None => Some(0.0),
                                    Some(t) if time - t >= interval / 44100.0 - 1e-7 => Some(time - t),
                                    _ => None,
                                };
                                match due {
                                    Some(dt) => {
                                        if made.len() != 1 {
                                            return fail(format!("{} updates at time {}, {} after the previous one", made.len(), time, dt));
                                        }
                                        if !((made[0].0 as f64 - time).abs() < 1e-6 && (made[0].1 as f64 - dt).abs() < 1e-6) {
                                            return fail(format!("update({}, {}) expected update({}, {})", made[0].0, made[0].1, time, dt));
                                        }
                                        calls += 1;
                                        last = Some(time);
                                    }
                                    None => {
                                        if !made.is_empty() {
                                            return fail(format!("update at time {} before the interval has passed since {:?}", time, last));
                                        }
                                    }
                                }
                                for i in from..pos {
                                    let (x, y) = (det(i as u64 * 2) + calls as f32, det(i as u64 * 2 + 1) * calls as f32 * 2.0);
                                    if !((out[0][i] - x).abs() < 1e-4 && (out[1][i] - y).abs() < 1e-4) {
                                        return fail(format!("outputs {} {} at sample {} expected {} {}", out[0][i], out[1][i], i, x, y));
                                    }
                                }
                                time += (pos - from) as f64 / rate;
                            }
                        }
                    }
                    ctx.trace();
                    ctx.state(hmix(hashf(&out[0]), hmix(interval.to_bits(), calls as u64)));
                });
            }
        }
    });
}

pub fn c30(ctx: &Ctx) {
    granular(ctx);
    texture(ctx);
    systems(ctx);
}
