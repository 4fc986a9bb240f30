//! C24: envelopes, low frequency oscillators and ADSR.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::hacker as h64e;
use fundsp::hacker32 as h32e;
use fundsp::math::AttoHash;
use fundsp::prelude::{AudioUnit, Frame, U3};
use fundsp::setting::Setting;
use std::sync::{Arc, Mutex};

type Unit = Box<dyn AudioUnit>;

/// One evaluation of the control function: time, inputs, outputs.
type Log = Arc<Mutex<Vec<(f64, Vec<f32>, Vec<f64>)>>>;

/// Control function values change from one evaluation time to another without any smoothness.
fn value(t: f64, c: usize, inputs: &[f32]) -> f64 {
    let mut h = t.to_bits().wrapping_add(c as u64 * 77);
    for x in inputs {
        h = hmix(h, x.to_bits() as u64);
    }
    det(h) as f64
}
fn eval(log: &Log, t: f64, inputs: &[f32], outs: usize) -> Vec<f64> {
    let v: Vec<f64> = (0..outs).map(|c| value(t, c, inputs)).collect();
    log.lock().unwrap().push((t, inputs.to_vec(), v.clone()));
    v
}

const FORMS: usize = 16;
fn form(k: usize, log: Log) -> (&'static str, Unit) {
    let l = log;
    macro_rules! p { ($v:expr, 1, $t:ty) => { $v[0] as $t }; ($v:expr, 2, $t:ty) => { ($v[0] as $t, $v[1] as $t) }; ($v:expr, 3, $t:ty) => { ($v[0] as $t, $v[1] as $t, $v[2] as $t) } }
    match k {
        0 => ("64 lfo", Box::new(h64e::lfo(move |t: f64| p!(eval(&l, t, &[], 1), 1, f64)))),
        1 => ("64 envelope 2", Box::new(h64e::envelope(move |t: f64| { let v = eval(&l, t, &[], 2); p!(v, 2, f64) }))),
        2 => ("64 lfo2", Box::new(h64e::lfo2(move |t: f64, x: f64| p!(eval(&l, t, &[x as f32], 1), 1, f64)))),
        3 => ("64 envelope2 3", Box::new(h64e::envelope2(move |t: f64, x: f64| { let v = eval(&l, t, &[x as f32], 3); p!(v, 3, f64) }))),
        4 => ("64 lfo3 2", Box::new(h64e::lfo3(move |t: f64, x: f64, y: f64| { let v = eval(&l, t, &[x as f32, y as f32], 2); p!(v, 2, f64) }))),
        5 => ("64 envelope3", Box::new(h64e::envelope3(move |t: f64, x: f64, y: f64| p!(eval(&l, t, &[x as f32, y as f32], 1), 1, f64)))),
        6 => ("64 lfo_in 2", Box::new(h64e::lfo_in(move |t: f64, i: &Frame<f32, U3>| { let v = eval(&l, t, &i[..], 2); p!(v, 2, f64) }))),
        7 => ("64 envelope_in", Box::new(h64e::envelope_in(move |t: f64, i: &Frame<f32, U3>| p!(eval(&l, t, &i[..], 1), 1, f64)))),
        8 => ("32 lfo 3", Box::new(h32e::lfo(move |t: f32| { let v = eval(&l, t as f64, &[], 3); p!(v, 3, f32) }))),
        9 => ("32 envelope", Box::new(h32e::envelope(move |t: f32| p!(eval(&l, t as f64, &[], 1), 1, f32)))),
        10 => ("32 lfo2 2", Box::new(h32e::lfo2(move |t: f32, x: f32| { let v = eval(&l, t as f64, &[x], 2); p!(v, 2, f32) }))),
        11 => ("32 envelope2", Box::new(h32e::envelope2(move |t: f32, x: f32| p!(eval(&l, t as f64, &[x], 1), 1, f32)))),
        12 => ("32 lfo3", Box::new(h32e::lfo3(move |t: f32, x: f32, y: f32| p!(eval(&l, t as f64, &[x, y], 1), 1, f32)))),
        13 => ("32 envelope3 2", Box::new(h32e::envelope3(move |t: f32, x: f32, y: f32| { let v = eval(&l, t as f64, &[x, y], 2); p!(v, 2, f32) }))),
        14 => ("32 lfo_in", Box::new(h32e::lfo_in(move |t: f32, i: &Frame<f32, U3>| p!(eval(&l, t as f64, &i[..], 1), 1, f32)))),
        _ => ("32 envelope_in 3", Box::new(h32e::envelope_in(move |t: f32, i: &Frame<f32, U3>| { let v = eval(&l, t as f64, &i[..], 3); p!(v, 3, f32) }))),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    S(Step),
    Interval(f32),
    Reset,
}

fn envelopes(ctx: &Ctx) {
    let ops = [Op::S(Step::Tick), Op::S(Step::Block(64)), Op::S(Step::Block(37)), Op::S(Step::Block(8)), Op::S(Step::Block(0)), Op::Interval(0.01), Op::Interval(0.0005), Op::Reset];
    let depth = ctx.q(4, 5);
    let total = ops.len().pow(depth as u32);
    let rates = [44100.0, 48000.0, 8000.0];
    ctx.par(FORMS * rates.len(), |j| {
        let (k, rate) = (j / rates.len(), rates[j % rates.len()]);
        let name = form(k, Default::default()).0;
        ctx.case(&format!("envelope {} at {}", name, rate), || {
            for code in 0..total {
                let seq: Vec<Op> = digits(code, ops.len(), depth).into_iter().map(|i| ops[i]).collect();
                let log: Log = Default::default();
                let (_, mut u) = form(k, log.clone());
                u.set_sample_rate(rate);
                u.ping(false, AttoHash::new(code as u64 % 7));
                let input = |c: usize, i: usize| (i as f32 + 0.25) * (1.0 + c as f32 * 0.125);
                let mut d = Driver::new(&*u);
                let mut out = vec![vec![]; u.outputs()];
                // Constructor and hash setting may evaluate the function; only times matter from here on.
                let mut pos = 0;
                let mut interval = 0.002f64;
                // Earlier interval remains in use until the end of the current segment.
                let mut changes: Vec<(f64, f64)> = vec![(-1.0, interval)];
                if k % 8 > 1 {
                    log.lock().unwrap().clear();
                }
                let mut all: Vec<Op> = seq.clone();
                // Enough of output to see several segments.
                all.extend([Op::S(Step::Block(64)), Op::S(Step::Tick), Op::S(Step::Block(64)), Op::S(Step::Block(50)), Op::S(Step::Tick), Op::S(Step::Block(64))]);
                let mut fail = None;
                for op in &all {
                    match op {
                        Op::S(s) => pos = d.step(&mut *u, *s, pos, &input, &mut out),
                        Op::Interval(x) => {
                            interval = *x as f64;
                            u.set(Setting::interval(*x));
                            changes.push((pos as f64 / rate, interval));
                        }
                        Op::Reset => {
                            if let Some(e) = verify(&log, &out, rate, &changes, &input) {
                                fail = Some(e);
                            }
                            log.lock().unwrap().clear();
                            for o in out.iter_mut() {
                                o.clear();
                            }
                            u.reset();
                            pos = 0;
                            changes = vec![(-1.0, interval)];
                        }
                    }
                }
                fail = fail.or(verify(&log, &out, rate, &changes, &input));
                ctx.trans(all.len() as u64);
                ctx.trace();
                ctx.state(hashf(&out[0]));
                if let Some(e) = fail {
                    let e = format!("{} at {} Hz after {:?}: {}", name, rate, all, e);
                    ctx.violation(format!("envelope {}", name), e.clone(), e);
                    return;
                }
            }
        });
    });
    ctx.part("envelope histories", (total * FORMS * rates.len()) as u64);
}

/// Compares output with linear interpolation between evaluations of the control function.
fn verify(log: &Log, out: &[Vec<f32>], rate: f64, changes: &[(f64, f64)], input: &dyn Fn(usize, usize) -> f32) -> Option<String> {
    let n = out[0].len();
    if n == 0 {
        return None;
    }
    // Evaluations at zero may be repeated; the last one counts.
    let knots: Vec<(f64, Vec<f32>, Vec<f64>)> = {
        let log = log.lock().unwrap();
        let first = log.iter().rposition(|x| x.0 == 0.0)?;
        log[first..].to_vec()
    };
    let eps = 0.02 / rate;
    for w in knots.windows(2) {
        let dt = w[1].0 - w[0].0;
        // Any of the intervals in force around the start of the segment.
        let ok = changes.iter().enumerate().any(|(i, c)| {
            let until = changes.get(i + 1).map_or(f64::MAX, |x| x.0);
            w[0].0 >= c.0 - 1.5 / rate && w[0].0 <= until + 1.5 / rate && dt > 0.7499 * c.1 - eps && dt < 1.2501 * c.1 + eps
        });
        if !ok {
            return Some(format!("function was evaluated at {} and then at {}", w[0].0, w[1].0));
        }
        // Inputs are those at the first sample of the segment.
        let at = w[0].0 * rate;
        let candidates = [at.ceil(), (at - 0.02).ceil(), (at + 0.02).ceil()];
        let ok = w[1].1.is_empty() || candidates.iter().any(|i| (0..w[1].1.len()).all(|c| w[1].1[c] == input(c, *i as usize)));
        if !ok {
            return Some(format!("segment starting at {} used inputs {:?}", w[0].0, w[1].1));
        }
    }
    if !knots[0].1.is_empty() && (0..knots[0].1.len()).any(|c| knots[0].1[c] != input(c, 0)) {
        return Some(format!("initial inputs were {:?}", knots[0].1));
    }
    let last = knots.last().unwrap().0;
    if last < (n - 1) as f64 / rate - eps {
        return Some(format!("function was last evaluated at {} while time is {}", last, (n - 1) as f64 / rate));
    }
    if knots.len() > 2 && knots[knots.len() - 2].0 > n as f64 / rate + 2.0 / rate {
        return Some("function is evaluated too far ahead".into());
    }
    for i in 0..n {
        let t = i as f64 / rate;
        let k = knots.iter().rposition(|x| x.0 <= t).unwrap_or(0).min(knots.len().saturating_sub(2));
        for c in 0..out.len() {
            let (a, b) = (&knots[k], &knots[(k + 1).min(knots.len() - 1)]);
            let u = if b.0 > a.0 { (t - a.0) / (b.0 - a.0) } else { 0.0 };
            let e = a.2[c] + (b.2[c] - a.2[c]) * u;
            // Allow for rounding of time.
            let tol = 1e-4 + 2.0 * 0.02 / rate / (b.0 - a.0).max(1e-9);
            let mut ok = (out[c][i] as f64 - e).abs() < tol;
            if !ok && (t - a.0).abs() < eps && k > 0 {
                // Knot at the very sample.
                ok = (out[c][i] as f64 - a.2[c]).abs() < tol + 1e-2;
            }
            if !ok {
                return Some(format!("output {} at sample {} is {} expected {} (between times {} and {})", c, i, out[c][i], e, a.0, b.0));
            }
        }
    }
    None
}

/// Ideal envelope level factors (attack-decay-sustain and release) at time `t`, given gate edges.
fn ideal(p: &[f64; 4], edges: &[(f64, bool)], t: f64) -> (f64, f64) {
    let (mut on, mut off) = (None, None);
    for (at, gate) in edges {
        if *at <= t {
            if *gate {
                on = Some(*at);
                off = None;
            } else if on.is_some() && off.is_none() {
                off = Some(*at);
            }
        }
    }
    let Some(on) = on else { return (0.0, 0.0) };
    let s = t - on;
    let ads = if s < p[0] { s / p[0] } else if s - p[0] < p[1] { 1.0 + (p[2] - 1.0) * (s - p[0]) / p[1] } else { p[2] };
    let rel = off.map_or(1.0, |off| if t - off < p[3] { 1.0 - (t - off) / p[3] } else { 0.0 });
    (ads, rel)
}

fn adsr(ctx: &Ctx) {
    let rate = 8000.0;
    let gates = [1.0f32, 0.0, -1.0, 0.25];
    let durations = [0.012, 0.05, 0.15];
    let depth = ctx.q(3, 4);
    let alphabet = gates.len() * durations.len();
    let times = [0.0, 0.01, 0.04];
    let mut params = vec![];
    for a in times {
        for d in times {
            for r in times {
                for s in [0.0, 0.4, 1.0] {
                    params.push([a, d, s, r]);
                }
            }
        }
    }
    ctx.par(params.len(), |j| {
        let p = params[j];
        ctx.case("adsr_live", || {
            let total = alphabet.pow(depth as u32);
            for code in 0..total {
                let seq = digits(code, alphabet, depth);
                let mut signal = vec![];
                let mut edges: Vec<(f64, bool)> = vec![];
                for x in &seq {
                    let g = gates[x / durations.len()];
                    let gate = g > 0.0;
                    if edges.last().map_or(true, |e| e.1 != gate) {
                        edges.push((signal.len() as f64 / rate, gate));
                    }
                    signal.extend(std::iter::repeat_n(g, (durations[x % durations.len()] * rate) as usize));
                }
                // Release in the end.
                if edges.last().unwrap().1 {
                    edges.push((signal.len() as f64 / rate, false));
                }
                let n = signal.len() + 400;
                let mut u: Unit = if code % 2 == 0 {
                    Box::new(h64e::adsr_live(p[0] as f32, p[1] as f32, p[2] as f32, p[3] as f32))
                } else {
                    Box::new(h32e::adsr_live(p[0] as f32, p[1] as f32, p[2] as f32, p[3] as f32))
                };
                u.set_sample_rate(rate);
                for round in 0..if code % 5 == 0 { 2 } else { 1 } {
                if round == 1 {
                    u.reset();
                }
                let mut d = Driver::new(&*u);
                let mut out = vec![vec![]];
                let mut pos = 0;
                let step = if (code + round) % 3 == 0 { Step::Tick } else { Step::Block(64) };
                while pos < n {
                    pos = d.step(&mut *u, step, pos, &|_, i| signal.get(i).copied().unwrap_or(0.0), &mut out);
                }
                ctx.trans(n as u64);
                ctx.trace();
                ctx.state(hashf(&out[0]));
                // Gate changes take effect within 5 ms; interpolation reaches 2.5 ms around.
                let sample: Vec<(f64, f64)> = (-70..(pos as i64 + 30)).map(|i| ideal(&p, &edges, i as f64 / rate)).collect();
                for i in 0..pos {
                    let w = &sample[i..(i + 70 + 22).min(sample.len())];
                    let (mut a0, mut a1, mut r0, mut r1) = (f64::MAX, f64::MIN, f64::MAX, f64::MIN);
                    for x in w {
                        a0 = a0.min(x.0);
                        a1 = a1.max(x.0);
                        r0 = r0.min(x.1);
                        r1 = r1.max(x.1);
                    }
                    // Sharp peak of the envelope may fall between evaluations.
                    let y = out[0][i] as f64;
                    if !(y >= a0 * r0 - 1e-3 && y <= a1 * r1 + 1e-3) {
                        let e = format!("adsr_live({}, {}, {}, {}) with gates (value, seconds) {:?}: level at {} s is {}, expected {}..{}", p[0], p[1], p[2], p[3], seq.iter().map(|x| (gates[x / durations.len()], durations[x % durations.len()])).collect::<Vec<_>>(), i as f64 / rate, y, a0 * r0, a1 * r1);
                        let e = format!("{}{}", e, if round == 1 { " (after reset)" } else { "" });
                        ctx.violation("adsr_live", e.clone(), e);
                        return;
                    }
                }
                }
            }
        });
    });
    ctx.part("ADSR configurations", params.len() as u64);
}

pub fn c24(ctx: &Ctx) {
    envelopes(ctx);
    adsr(ctx);
}
