//! C12: delays, taps, FIR filters and feedback structures against reference recurrences.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::prelude::{
    allnest, allnest_c, delay, fdn, fdn2, feedback, feedback2, fir, fir3, lowpole_hz, mul, multitap, multitap_linear, multitick, pass, reverse, shape,
    stacki, tap, tap_linear, tick, AudioUnit, FeedbackUnit, Net, Tanh, U1, U16, U2, U3, U4, U8,
};

type Unit = Box<dyn AudioUnit>;

/// Audio input of channel `c` at sample `i`.
fn x(c: usize, i: usize) -> f32 {
    det((c * 50021 + i + 17) as u64) * 0.8
}

/// Step schedules: cyclic repetitions of all pairs of steps, long enough to cover `len` samples.
fn schedules(len: usize, thorough: bool) -> Vec<Vec<Step>> {
    let a = [Step::Tick, Step::Block(64), Step::Block(13), Step::Block(8), Step::Block(7)];
    let mut v = vec![];
    let k = if thorough { 5 } else { 3 };
    for i in 0..k {
        for j in 0..=i {
            let mut s = vec![];
            let mut n = 0;
            while n < len {
                for t in [a[i], a[j]] {
                    s.push(t);
                    n += match t { Step::Tick => 1, Step::Block(b) => b };
                }
            }
            v.push(s);
        }
    }
    v
}

fn run(u: &mut dyn AudioUnit, steps: &[Step], f: &dyn Fn(usize, usize) -> f32) -> Vec<Vec<f32>> {
    let mut d = Driver::new(u);
    let mut out = vec![vec![]; u.outputs()];
    let mut pos = 0;
    for s in steps {
        pos = d.step(u, *s, pos, f, &mut out);
    }
    out
}

fn compare(ctx: &Ctx, name: &str, what: &dyn Fn() -> String, out: &[Vec<f32>], expect: &dyn Fn(usize, usize) -> f64, tol: f64) -> bool {
    for c in 0..out.len() {
        for i in 0..out[c].len() {
            let e = expect(c, i);
            if !((out[c][i] as f64 - e).abs() <= tol * e.abs().max(1.0)) {
                let s = format!("{}: channel {} sample {} is {} expected {}", what(), c, i, out[c][i], e);
                ctx.violation(name, s.clone(), s);
                return false;
            }
        }
    }
    true
}

fn fixed(ctx: &Ctx) {
    let rates = [44100.0, 8000.0, 48000.0, 22050.0];
    let max = ctx.q(700, 2100);
    ctx.par(max + 1, |n| {
        ctx.case("delay", || {
            for sr in rates {
                for f in [0.0, -0.4, 0.4] {
                    let t = (n as f64 + f) / sr;
                    if t < 0.0 { continue; }
                    for steps in schedules(n + 150, ctx.thorough) {
                        let mut u: Unit = Box::new(delay(t));
                        u.set_sample_rate(sr);
                        let out = run(&mut *u, &steps, &x);
                        ctx.trans(steps.len() as u64);
                        ctx.trace();
                        ctx.state(hmix(hmix(n as u64, (sr + f) .to_bits()), steps.len() as u64 * 100 + format!("{:?}", steps[0]).len() as u64));
                        if !compare(ctx, "delay", &|| format!("delay({}) of {} samples at {} Hz, steps {:?}", t, n, sr, &steps[..2]), &out, &|_, i| if i >= n { x(0, i - n) as f64 } else { 0.0 }, 0.0) {
                            return;
                        }
                    }
                }
            }
        });
    });
    ctx.case("tick", || {
        for steps in schedules(200, true) {
            let out = run(&mut tick(), &steps, &x);
            compare(ctx, "tick", &|| format!("{:?}", &steps[..2]), &out, &|_, i| if i >= 1 { x(0, i - 1) as f64 } else { 0.0 }, 0.0);
            let out = run(&mut multitick::<U3>(), &steps, &x);
            compare(ctx, "multitick", &|| format!("{:?}", &steps[..2]), &out, &|c, i| if i >= 1 { x(c, i - 1) as f64 } else { 0.0 }, 0.0);
            ctx.trans(2 * steps.len() as u64);
        }
    });
    // FIR filters: every weight vector over a grid. The last weight belongs to the newest sample.
    ctx.case("fir", || {
        let g = [-1.0, 0.0, 0.5, 1.0];
        for idx in 0..256 {
            let w: Vec<f32> = digits(idx, 4, 4).iter().map(|d| g[*d]).collect();
            for steps in schedules(100, false) {
                let conv = |w: &[f32], i: usize| -> f64 { (0..w.len()).map(|k| if i + k + 1 >= w.len() { w[k] as f64 * x(0, i + k + 1 - w.len()) as f64 } else { 0.0 }).sum() };
                let o1 = run(&mut fir(w[0]), &steps, &x);
                compare(ctx, "fir", &|| format!("fir {:?}", &w[..1]), &o1, &|_, i| conv(&w[..1], i), 1e-6);
                let o2 = run(&mut fir((w[0], w[1])), &steps, &x);
                compare(ctx, "fir", &|| format!("fir {:?}", &w[..2]), &o2, &|_, i| conv(&w[..2], i), 1e-6);
                let o3 = run(&mut fir((w[0], w[1], w[2])), &steps, &x);
                compare(ctx, "fir", &|| format!("fir {:?}", &w[..3]), &o3, &|_, i| conv(&w[..3], i), 1e-6);
                let o4 = run(&mut fir((w[0], w[1], w[2], w[3])), &steps, &x);
                compare(ctx, "fir", &|| format!("fir {:?}", &w[..4]), &o4, &|_, i| conv(&w[..4], i), 1e-6);
                ctx.trans(4 * steps.len() as u64);
                ctx.trace();
            }
        }
        for k in 0..=20 {
            let gain = k as f32 * 0.1;
            let mut u = fir3(gain);
            let out = run(&mut u, &[Step::Block(64)], &|_, i| if i == 0 { 1.0 } else { 0.0 });
            let (b, a, c) = (out[0][0], out[0][1], out[0][2]);
            if (a + b + c - 1.0).abs() > 1e-5 || (a - b - c - gain).abs() > 1e-5 || (b - c).abs() > 1e-6 {
                ctx.violation("fir3", format!("gain {} gives {} {} {}", gain, b, a, c), "fir3".to_string());
            }
        }
    });
}

fn hist(i: isize) -> f64 {
    if i >= 0 { x(0, i as usize) as f64 } else { 0.0 }
}
fn lin(i: usize, d: f64) -> f64 {
    let k = d.floor();
    let f = d - k;
    let j = i as isize - k as isize;
    hist(j) * (1.0 - f) + hist(j - 1) * f
}
fn cubic(i: usize, d: f64) -> f64 {
    let k = d.floor();
    let f = d - k;
    let j = i as isize - k as isize;
    // A tap never looks into the future.
    let (y0, y1, y2, y3) = (hist((j + 1).min(i as isize)), hist(j), hist(j - 1), hist(j - 2));
    y1 + f * 0.5 * (y2 - y0 + f * (2.0 * y0 - 5.0 * y1 + 4.0 * y2 - y3 + f * (3.0 * (y1 - y2) + y3 - y0)))
}

/// Delay input of tap `k` (1 based) at sample `i`, in samples.
fn tap_signal(sig: usize, lo: f64, hi: f64, k: usize, i: usize) -> f64 {
    let s = hi - lo;
    match sig {
        0 => lo - 2.0 + k as f64 * 0.25,
        1 => hi + k as f64 * 3.0,
        2 => lo + s * (0.5 + 0.6 * ((i as f64) * 0.13 + k as f64).sin()),
        3 => lo + s * (((i / 5 + k * 3) % 11) as f64 / 10.0),
        _ => lo + s * ((sig - 4) as f64 / 16.0),
    }
}

fn taps(ctx: &Ctx) {
    let mut cfg = vec![];
    let mins = [0.0, 0.5, 1.0, 2.5, 10.0, 60.0];
    let mut maxs: Vec<f64> = (0..=260).map(|i| i as f64 * 0.5).collect();
    if ctx.thorough {
        maxs = (0..=1200).map(|i| i as f64 * 0.25).collect();
    }
    for lo in mins {
        for &hi in &maxs {
            if hi >= lo {
                for sr in [44100.0, 8000.0, 96000.0] {
                    cfg.push((lo, hi, sr));
                }
            }
        }
    }
    ctx.par(cfg.len(), |k| {
        let (lo, hi, sr) = cfg[k];
        for kind in 0..6 {
            let name = ["tap", "multitap2", "multitap4", "tap_linear", "multitap_linear2", "multitap_linear4"][kind];
            let n = [1, 2, 4, 1, 2, 4][kind];
            ctx.case(name, || {
                let (a, b) = ((lo / sr) as f32, (hi / sr) as f32);
                for sig in 0..21 {
                    for steps in schedules((hi as usize) + 150, ctx.thorough) {
                        let mut u: Unit = match kind {
                            0 => Box::new(tap(a, b)),
                            1 => Box::new(multitap::<U2>(a, b)),
                            2 => Box::new(multitap::<U4>(a, b)),
                            3 => Box::new(tap_linear(a, b)),
                            4 => Box::new(multitap_linear::<U2>(a, b)),
                            _ => Box::new(multitap_linear::<U4>(a, b)),
                        };
                        u.set_sample_rate(sr);
                        let f = |c: usize, i: usize| if c == 0 { x(0, i) } else { (tap_signal(sig, lo, hi, c, i) / sr) as f32 };
                        let out = run(&mut *u, &steps, &f);
                        ctx.trans(steps.len() as u64);
                        ctx.trace();
                        ctx.state(hmix(hmix(k as u64, kind as u64 * 100 + sig as u64), steps.len() as u64));
                        let e = |_: usize, i: usize| -> f64 {
                            (1..=n)
                                .map(|c| {
                                    let d = tap_signal(sig, lo, hi, c, i);
                                    if kind < 3 { cubic(i, d.clamp(lo, hi).max(1.0)) } else { lin(i, d.clamp(lo, hi)) }
                                })
                                .sum()
                        };
                        if !compare(ctx, name, &|| format!("{} delays {}...{} samples at {} Hz, delay signal {}, steps {:?}", name, lo, hi, sr, sig, &steps[..2]), &out, &e, 2e-3) {
                            return;
                        }
                    }
                }
            });
        }
    });
}

/// Normalized Hadamard matrix.
fn hadamard(v: &[f32]) -> Vec<f64> {
    let n = v.len();
    (0..n).map(|i| (0..n).map(|j| if (i & j).count_ones() % 2 == 0 { v[j] as f64 } else { -(v[j] as f64) }).sum::<f64>() / (n as f64).sqrt()).collect()
}

/// A feedback structure: the unit, its loop content, extra feedback processing, whether feedback is diffused, and the feedback delay in samples.
struct Loop {
    name: String,
    unit: Unit,
    x: Unit,
    y: Option<Unit>,
    diffuse: bool,
    delay: usize,
}

fn loops(sr: f64) -> Vec<Loop> {
    let mut v: Vec<Loop> = vec![];
    macro_rules! fb1 {
        ($name:expr, $n:ty, $x:expr, $y:expr) => {{
            v.push(Loop { name: format!("feedback {}", $name), unit: Box::new(feedback::<$n, _>($x)), x: Box::new($x), y: None, diffuse: false, delay: 1 });
            v.push(Loop { name: format!("feedback2 {}", $name), unit: Box::new(feedback2::<$n, _, _>($x, $y)), x: Box::new($x), y: Some(Box::new($y)), diffuse: false, delay: 1 });
            v.push(Loop { name: format!("fdn {}", $name), unit: Box::new(fdn::<$n, _>($x)), x: Box::new($x), y: None, diffuse: true, delay: 1 });
            v.push(Loop { name: format!("fdn2 {}", $name), unit: Box::new(fdn2::<$n, _, _>($x, $y)), x: Box::new($x), y: Some(Box::new($y)), diffuse: true, delay: 1 });
        }};
    }
    let k = |n: usize| n as f64 / sr;
    for n in [0usize, 1, 2, 7, 8, 30, 63, 64, 65] {
        fb1!(format!("delay {}", n), U1, delay(k(n)) * 0.7, lowpole_hz(3000.0f32));
        fb1!(format!("two delays {}", n), U2, (delay(k(n)) | delay(k(n + 5))) * 0.5, (tick() | shape(Tanh(0.9))));
        fb1!(format!("reversed delays {}", n), U2, (delay(k(n)) | delay(k(n + 1))) >> reverse() * 0.5, mul((0.9, -0.8)));
    }
    fb1!("gain", U1, mul(-0.9), tick());
    fb1!("shape", U1, shape(Tanh(0.8)), mul(-0.5));
    fb1!("filter", U1, lowpole_hz(1000.0f32) * 0.9, pass());
    fb1!("fdn 4", U4, stacki::<U4, _, _>(|i| delay((3 + 7 * i) as f64 / sr) * 0.9), stacki::<U4, _, _>(|i| lowpole_hz(1000.0f32 + 500.0 * i as f32)));
    fb1!("fdn 8", U8, stacki::<U8, _, _>(|i| delay((1 + 5 * i) as f64 / sr) * 0.8), stacki::<U8, _, _>(|i| mul(0.5 + 0.05 * i as f32)));
    fb1!("fdn 16", U16, stacki::<U16, _, _>(|i| delay((2 + 3 * i) as f64 / sr) * 0.8), stacki::<U16, _, _>(|i| mul(0.5 + 0.03 * i as f32)));
    // Feedback unit with integrated delay.
    type Make = fn() -> Unit;
    let contents: Vec<(&str, Make)> = vec![
        ("gain", || Box::new(mul(-0.8))),
        ("two", || Box::new((pass() | lowpole_hz(1000.0f32)) * 0.5)),
        ("tick", || Box::new(tick() * 0.8)),
        ("delay", || Box::new(delay(0.0004) * 0.8)),
        ("shape", || Box::new(shape(Tanh(0.9)))),
        ("reverse", || Box::new((tick() | pass()) >> reverse() * 0.7)),
        ("net", || Box::new(Net::wrap(Box::new(tick() * 0.5)) >> Net::wrap(Box::new(lowpole_hz(2000.0f32))))),
    ];
    for (name, make) in contents {
        for n in (0..=20).chain([31, 32, 33, 62, 63, 64, 65, 66, 100, 127, 128, 129]) {
            for f in [0.0, 0.4, -0.4] {
                let d = (n as f64 + f) / sr;
                if d >= 0.0 {
                    v.push(Loop { name: format!("FeedbackUnit {} {} samples", name, n as f64 + f), unit: Box::new(FeedbackUnit::new(d, make())), x: make(), y: None, diffuse: false, delay: n.max(1) });
                }
            }
        }
    }
    v
}

fn feedbacks(ctx: &Ctx) {
    for sr in ctx.q(vec![44100.0, 8000.0], vec![44100.0, 8000.0, 48000.0, 192000.0]) {
        let n = loops(sr).len();
        let chunk = n.div_ceil(64);
        ctx.par(64, |k| {
            let all = loops(sr);
            for mut l in all.into_iter().skip(k * chunk).take(chunk) {
                let name = l.name.clone();
                ctx.case(&name.clone(), || {
                    let len = ctx.q(400, 1500);
                    let ch = l.unit.inputs();
                    l.unit.set_sample_rate(sr);
                    l.x.set_sample_rate(sr);
                    if let Some(y) = l.y.as_mut() {
                        y.set_sample_rate(sr);
                    }
                    // The recurrence.
                    let total = len + 200;
                    let mut out: Vec<Vec<f32>> = vec![vec![]; ch];
                    let mut fb: Vec<Vec<f64>> = vec![];
                    let (mut ti, mut to) = (vec![0.0; ch], vec![0.0; ch]);
                    for i in 0..total {
                        for c in 0..ch {
                            ti[c] = x(c, i) + if i >= l.delay { fb[i - l.delay][c] as f32 } else { 0.0 };
                        }
                        l.x.tick(&ti, &mut to);
                        for c in 0..ch {
                            out[c].push(to[c]);
                        }
                        let mut w = to.clone();
                        if let Some(y) = l.y.as_mut() {
                            y.tick(&to, &mut w);
                        }
                        fb.push(if l.diffuse { hadamard(&w) } else { w.iter().map(|x| *x as f64).collect() });
                    }
                    for steps in schedules(len, true) {
                        let mut u = l.unit.clone();
                        let got = run(&mut *u, &steps, &x);
                        ctx.trans(steps.len() as u64);
                        ctx.trace();
                        ctx.state(hmix(hmix(h64(name.as_bytes()), sr.to_bits()), steps.len() as u64));
                        if !compare(ctx, &name, &|| format!("{} at {} Hz, steps {:?}", name, sr, &steps[..2]), &got, &|c, i| out[c][i] as f64, 2e-3) {
                            return;
                        }
                    }
                    ctx.sample(|| format!("{} at {} Hz", name, sr));
                });
            }
        });
    }
    // Nested allpasses.
    ctx.par(130, |n| {
        ctx.case("allnest", || {
            let sr = 44100.0;
            let t = n as f64 / sr;
            for e in [-0.9f32, -0.5, 0.0, 0.3, 0.7, 0.95] {
                for steps in schedules(n + 150, false) {
                    let mut fixed: Unit = Box::new(allnest_c(e, delay(t)));
                    let mut var: Unit = Box::new(allnest(delay(t)));
                    // Modulated coefficient for the variable version.
                    let coef = |i: usize| e * (1.0 - 0.5 * ((i / 9) % 2) as f32);
                    let expect = |modulated: bool| {
                        let mut v: Vec<f64> = vec![];
                        let mut y = vec![];
                        for i in 0..n + 600 {
                            let e = if modulated { coef(i) as f64 } else { e as f64 };
                            // The content has a further delay of one sample.
                            let zi = if i > n { v[i - n - 1] } else { 0.0 };
                            let vi = x(0, i) as f64 - e * zi;
                            y.push(e * vi + zi);
                            v.push(vi);
                        }
                        y
                    };
                    let (a, b) = (expect(false), expect(true));
                    let o1 = run(&mut *fixed, &steps, &x);
                    let o2 = run(&mut *var, &steps, &|c, i| if c == 0 { x(0, i) } else { coef(i) });
                    ctx.trans(2 * steps.len() as u64);
                    ctx.trace();
                    ctx.state(hmix(hmix(4242, n as u64), hmix(e.to_bits() as u64, steps.len() as u64)));
                    if !compare(ctx, "allnest_c", &|| format!("allnest_c({}, delay of {} samples) steps {:?}", e, n, &steps[..2]), &o1, &|_, i| a[i], 1e-3)
                        || !compare(ctx, "allnest", &|| format!("allnest(delay of {} samples) with {} steps {:?}", n, e, &steps[..2]), &o2, &|_, i| b[i], 1e-3)
                    {
                        return;
                    }
                }
            }
        });
    });
}

pub fn c12(ctx: &Ctx) {
    fixed(ctx);
    taps(ctx);
    feedbacks(ctx);
}
