//! C26: a sample rate change takes full effect; frequencies are in Hz and times in seconds at every rate.
use crate::catalog::*;
use crate::fw::*;
use fundsp::audiounit::AudioUnit;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Rate(f64),
    Tick,
    Block,
    Reset,
    Allocate,
    Clone,
}
const OPS: [Op; 8] = [Op::Rate(44100.0), Op::Rate(48000.0), Op::Rate(96000.0), Op::Tick, Op::Block, Op::Reset, Op::Allocate, Op::Clone];
const RATES: [f64; 4] = [44100.0, 22050.0, 48000.0, 96000.0];

fn run(u: &mut dyn AudioUnit, e: &Entry, sig: usize, n: usize) -> Vec<Vec<f32>> {
    let mut d = Driver::new(u);
    let mut out = vec![vec![]; u.outputs()];
    let f = |c: usize, i: usize| signal(e.ins[c], sig, c, i);
    let mut pos = 0;
    while pos < n {
        pos = d.step(u, if pos % 3 == 0 { Step::Block(64) } else { Step::Block(37) }, pos, &f, &mut out);
    }
    out
}

/// After any history, setting the sample rate and resetting equals a fresh unit with the sample rate set.
fn histories(ctx: &Ctx) {
    let cat = catalog();
    let depth = ctx.q(3, 4);
    ctx.part("units", cat.len() as u64);
    ctx.par(cat.len(), |k| {
        let e = &cat[k];
        if e.skip.contains('s') {
            return;
        }
        ctx.case(&format!("history {}", e.name), || {
            for rate in RATES {
                let reference = {
                    let mut u = (e.make)();
                    u.set_sample_rate(rate);
                    run(&mut *u, e, 0, 300)
                };
                for h in 0..OPS.len().pow(depth as u32) {
                    let ops: Vec<Op> = digits(h, OPS.len(), depth).into_iter().map(|i| OPS[i]).collect();
                    if e.skip.contains('c') && ops.contains(&Op::Clone) {
                        continue;
                    }
                    let mut u = (e.make)();
                    let mut d = Driver::new(&*u);
                    let f = |c: usize, i: usize| signal(e.ins[c], 1, c, i);
                    let mut out = vec![vec![]; u.outputs()];
                    let mut pos = 0;
                    for op in ops.iter() {
                        match *op {
                            Op::Rate(r) => u.set_sample_rate(r),
                            Op::Tick => pos = d.step(&mut *u, Step::Tick, pos, &f, &mut out),
                            Op::Block => pos = d.step(&mut *u, Step::Block(64), pos, &f, &mut out),
                            Op::Reset => u.reset(),
                            Op::Allocate => u.allocate(),
                            Op::Clone => u = u.clone(),
                        }
                    }
                    u.set_sample_rate(rate);
                    u.reset();
                    let got = run(&mut *u, e, 0, 300);
                    ctx.trace();
                    ctx.trans(ops.len() as u64 + 2);
                    ctx.state(hmix(hmix(k as u64, h as u64), rate as u64));
                    if let Some((c, i, x, y)) = diff(&reference, &got, 1e-6) {
                        ctx.violation(
                            &e.name,
                            format!("channel {} sample {}: fresh unit at {} Hz {}, after history {}", c, i, rate, x, y),
                            format!("{} history {:?} then set_sample_rate({}), reset: channel {} sample {} fresh {} got {}", e.name, ops, rate, c, i, x, y),
                        );
                        return;
                    }
                }
            }
        });
    });
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Audio,
    /// Frequency in Hz.
    Hz(f32, f32),
    /// Time in seconds.
    Sec(f32, f32),
    /// Anything else.
    Num(f32, f32),
}
use K::*;
struct Row {
    name: String,
    make: Box<dyn Fn(f32) -> Box<dyn AudioUnit> + Send + Sync>,
    ins: Vec<K>,
}
macro_rules! rows {
    ($v:ident, $pre:expr, $env:ident, $T:ty) => {{
        use fundsp::$env::*;
        macro_rules! r { ($n:expr, $i:expr, $k:ident, $e:expr) => { $v.push(Row { name: format!("{}:{}", $pre, $n), make: Box::new(|$k: f32| -> Box<dyn AudioUnit> { Box::new($e) }), ins: $i }); } }
        let f = Hz(50.0, 3000.0);
        let q = Num(0.3, 5.0);
        let g = Num(0.25, 4.0);
        let a = Audio;
        r!("sine", vec![f], _k, sine());
        r!("sine_hz", vec![], k, sine_hz(440.0 * k));
        r!("ramp", vec![f], _k, ramp());
        r!("ramp_hz", vec![], k, ramp_hz(440.0 * k));
        r!("poly_saw", vec![f], _k, poly_saw());
        r!("poly_saw_hz", vec![], k, poly_saw_hz(440.0 * k));
        r!("poly_square", vec![f], _k, poly_square());
        r!("poly_square_hz", vec![], k, poly_square_hz(440.0 * k));
        r!("poly_pulse", vec![f, Num(0.1, 0.9)], _k, poly_pulse());
        r!("poly_pulse_hz", vec![], k, poly_pulse_hz(440.0 * k, 0.3));
        r!("rossler", vec![f], _k, rossler());
        r!("lorenz", vec![f], _k, lorenz());
        r!("pluck", vec![a], k, pluck(440.0 * k, 0.5_f32.powf(k), 0.3));
        r!("butterpass", vec![a, f], _k, butterpass());
        r!("butterpass_hz", vec![a], k, butterpass_hz(1000.0 * k));
        r!("lowpole", vec![a, f], _k, lowpole());
        r!("lowpole_hz", vec![a], k, lowpole_hz(1000.0 * k));
        r!("allpole", vec![a, Num(0.1, 2.0)], _k, allpole());
        r!("highpole", vec![a, f], _k, highpole());
        r!("highpole_hz", vec![a], k, highpole_hz(1000.0 * k));
        r!("resonator", vec![a, f, q], _k, resonator());
        r!("resonator_hz", vec![a], k, resonator_hz(1000.0 * k, 10.0));
        r!("moog", vec![a, f, Num(0.0, 0.9)], _k, moog());
        r!("moog_q", vec![a, f], _k, moog_q(0.5));
        r!("moog_hz", vec![a], k, moog_hz(1000.0 * k, 0.5));
        r!("lowrez", vec![a, f, Num(0.0, 0.9)], _k, lowrez());
        r!("lowrez_hz", vec![a], k, lowrez_hz(1000.0 * k, 0.5));
        r!("lowrez_q", vec![a, f], _k, lowrez_q(0.5));
        r!("bandrez", vec![a, f, Num(0.0, 0.9)], _k, bandrez());
        r!("bandrez_hz", vec![a], k, bandrez_hz(1000.0 * k, 0.5));
        r!("bandrez_q", vec![a, f], _k, bandrez_q(0.5));
        r!("lowpass", vec![a, f, q], _k, lowpass());
        r!("lowpass_q", vec![a, f], _k, lowpass_q(2.0));
        r!("lowpass_hz", vec![a], k, lowpass_hz(1000.0 * k, 1.0));
        r!("highpass", vec![a, f, q], _k, highpass());
        r!("highpass_q", vec![a, f], _k, highpass_q(2.0));
        r!("highpass_hz", vec![a], k, highpass_hz(1000.0 * k, 1.0));
        r!("bandpass", vec![a, f, q], _k, bandpass());
        r!("bandpass_q", vec![a, f], _k, bandpass_q(2.0));
        r!("bandpass_hz", vec![a], k, bandpass_hz(1000.0 * k, 1.0));
        r!("notch", vec![a, f, q], _k, notch());
        r!("notch_q", vec![a, f], _k, notch_q(2.0));
        r!("notch_hz", vec![a], k, notch_hz(1000.0 * k, 1.0));
        r!("peak", vec![a, f, q], _k, peak());
        r!("peak_q", vec![a, f], _k, peak_q(2.0));
        r!("peak_hz", vec![a], k, peak_hz(1000.0 * k, 1.0));
        r!("allpass", vec![a, f, q], _k, allpass());
        r!("allpass_q", vec![a, f], _k, allpass_q(2.0));
        r!("allpass_hz", vec![a], k, allpass_hz(1000.0 * k, 1.0));
        r!("bell", vec![a, f, q, g], _k, bell());
        r!("bell_q", vec![a, f], _k, bell_q(2.0, 3.0));
        r!("bell_hz", vec![a], k, bell_hz(1000.0 * k, 1.0, 3.0));
        r!("lowshelf", vec![a, f, q, g], _k, lowshelf());
        r!("lowshelf_q", vec![a, f], _k, lowshelf_q(2.0, 3.0));
        r!("lowshelf_hz", vec![a], k, lowshelf_hz(1000.0 * k, 1.0, 3.0));
        r!("highshelf", vec![a, f, q, g], _k, highshelf());
        r!("highshelf_q", vec![a, f], _k, highshelf_q(2.0, 3.0));
        r!("highshelf_hz", vec![a], k, highshelf_hz(1000.0 * k, 1.0, 3.0));
        r!("morph", vec![a, f, q, Num(-1.0, 1.0)], _k, morph());
        r!("morph_hz", vec![a], k, morph_hz(1000.0 * k, 1.0, 0.3));
        r!("dbell", vec![a, f, q, g], _k, dbell(Tanh(1.0)));
        r!("dbell_hz", vec![a], k, dbell_hz(Tanh(1.0), 1000.0 * k, 1.0, 2.0));
        r!("fbell", vec![a, f, q, g], _k, fbell(Tanh(1.0)));
        r!("fbell_hz", vec![a], k, fbell_hz(Tanh(1.0), 1000.0 * k, 1.0, 2.0));
        r!("dlowpass", vec![a, f, q], _k, dlowpass(Tanh(1.0)));
        r!("dlowpass_hz", vec![a], k, dlowpass_hz(Tanh(1.0), 1000.0 * k, 1.0));
        r!("flowpass", vec![a, f, q], _k, flowpass(Tanh(1.0)));
        r!("flowpass_hz", vec![a], k, flowpass_hz(Tanh(1.0), 1000.0 * k, 1.0));
        r!("shape adaptive", vec![a], k, shape(Adaptive::new(0.01 / k, Tanh(1.0))));
        r!("flowpass_hz adaptive", vec![a], k, flowpass_hz(Adaptive::new(0.01 / k, Tanh(0.8)), 1000.0 * k, 1.0));
        r!("dhighpass", vec![a, f, q], _k, dhighpass(Tanh(1.0)));
        r!("dhighpass_hz", vec![a], k, dhighpass_hz(Tanh(1.0), 1000.0 * k, 1.0));
        r!("fhighpass", vec![a, f, q], _k, fhighpass(Tanh(1.0)));
        r!("fhighpass_hz", vec![a], k, fhighpass_hz(Tanh(1.0), 1000.0 * k, 1.0));
        r!("dresonator", vec![a, f, q], _k, dresonator(Tanh(1.0)));
        r!("dresonator_hz", vec![a], k, dresonator_hz(Tanh(1.0), 1000.0 * k, 1.0));
        r!("fresonator", vec![a, f, q], _k, fresonator(Tanh(1.0)));
        r!("fresonator_hz", vec![a], k, fresonator_hz(Tanh(1.0), 1000.0 * k, 1.0));
        r!("shape_adaptive", vec![a], k, shape(Adaptive::new(0.01 / k, Tanh(1.0))));
        r!("dcblock_hz", vec![a], k, dcblock_hz(100.0 * k));
        r!("declick_s", vec![a], k, declick_s(0.004 / k));
        r!("follow", vec![a], k, follow(0.002 / k));
        r!("afollow", vec![a], k, afollow(0.002 / k, 0.0007 / k));
        r!("limiter", vec![a], k, limiter(0.002 / k, 0.0007 / k));
        r!("limiter_stereo", vec![a, a], k, limiter_stereo(0.002 / k, 0.0007 / k));
        r!("delay", vec![a], k, delay(0.002 / k));
        r!("tap", vec![a, Sec(0.0005, 0.003)], k, tap(0.0005 / k, 0.003 / k));
        r!("tap_linear", vec![a, Sec(0.0005, 0.003)], k, tap_linear(0.0005 / k, 0.003 / k));
        r!("multitap", vec![a, Sec(0.0005, 0.003), Sec(0.001, 0.002)], k, multitap::<U2>(0.0005 / k, 0.003 / k));
        r!("multitap_linear", vec![a, Sec(0.0005, 0.003), Sec(0.001, 0.002)], k, multitap_linear::<U2>(0.0005 / k, 0.003 / k));
        r!("hold", vec![a, f], _k, hold(0.5));
        r!("hold_hz", vec![a], k, hold_hz(2000.0 * k, 0.3));
        r!("lfo", vec![], k, { let k = k as $T; lfo(move |t: $T| t * k).interval(0.001 / k as f32) });
        r!("lfo2", vec![Num(0.0, 1.0)], k, { let k = k as $T; lfo2(move |t: $T, x: $T| t * k + x).interval(0.001 / k as f32) });
        r!("timer_envelope", vec![], k, { let k = k as $T; envelope(move |t: $T| sin_hz(100.0, t * k)).interval(0.001 / k as f32) });
        r!("feedback", vec![a], k, feedback(delay(0.001 / k) >> lowpole_hz(1000.0 * k) * 0.6));
        r!("feedback2", vec![a], k, feedback2(delay(0.001 / k) * 0.6, lowpole_hz(1000.0 * k)));
        r!("fdn", vec![a, a], k, fdn::<U2, _>((delay(0.001 / k) | delay(0.0013 / k)) * 0.7));
        r!("fdn2", vec![a, a], k, fdn2::<U2, _, _>((delay(0.001 / k) | delay(0.0013 / k)) * 0.7, lowpole_hz(1000.0 * k) | highpole_hz(700.0 * k)));
        r!("allnest_c", vec![a], k, allnest_c(0.4, delay(0.001 / k)));
        r!("feedback_unit", vec![a], k, FeedbackUnit::new(0.001 / k as f64, Box::new(lowpole_hz(1000.0 * k) * 0.6)));
        r!("oversample", vec![a], k, oversample(lowpass_hz(1000.0 * k, 1.0)));
        r!("resample", vec![Num(0.3, 2.5)], k, resample(sine_hz(300.0 * k)));
        r!("bus", vec![a], k, busi::<U3, _, _>(move |i| lowpass_hz(500.0 * k * (i + 1) as f32, 1.0) >> delay(0.001 * (i + 1) as f32 / k)));
        r!("net", vec![a], k, Net::wrap(Box::new(lowpass_hz(1000.0 * k, 1.0))) >> Net::wrap(Box::new(delay(0.001 / k))) & Net::wrap(Box::new(highpole_hz(200.0 * k))));
        r!("slot", vec![a], k, Slot::new(Box::new(lowpass_hz(800.0 * k, 1.0))).1);
        r!("sequencer", vec![], k, {
            let k = k as f64;
            let mut s = Sequencer::new(true, 1);
            s.push(0.001 / k, 0.008 / k, Fade::Smooth, 0.002 / k, 0.003 / k, Box::new(sine_hz(300.0 * k as f32)));
            s.push(0.0 / k, 0.004 / k, Fade::Power, 0.001 / k, 0.001 / k, Box::new(dc(0.5)));
            s
        });
        r!("flanger", vec![a], k, flanger(0.5, 0.002 / k, 0.004 / k, move |_t| 0.003 / k));
        r!("brown_like", vec![a], k, lowpole_hz(10.0 * k) * dc(13.7));
        let _ = (f, q, g, a);
    }};
}

fn control(k: K, sig: usize, ch: usize, i: usize, scale: f32) -> f32 {
    match k {
        Audio => signal(A, sig, ch, i),
        Hz(lo, hi) => signal(C(lo, hi), sig, ch, i) * scale,
        Sec(lo, hi) => signal(C(lo, hi), sig, ch, i) / scale,
        Num(lo, hi) => signal(C(lo, hi), sig, ch, i),
    }
}

/// The stream of samples is unchanged when the sample rate and all frequencies are multiplied and all times divided by the same factor.
fn covariance(ctx: &Ctx) {
    let mut rows: Vec<Row> = vec![];
    rows!(rows, "32", hacker32, f32);
    rows!(rows, "64", hacker, f64);
    ctx.part("parameterized units", rows.len() as u64);
    let scales: Vec<f32> = if ctx.thorough { vec![0.25, 0.5, 2.0, 4.0, 8.0] } else { vec![0.5, 2.0, 4.0] };
    let bases: Vec<f64> = if ctx.thorough { vec![44100.0, 48000.0, 32000.0, 11025.0] } else { vec![44100.0, 48000.0] };
    ctx.par(rows.len(), |n| {
        let row = &rows[n];
        ctx.case(&row.name, || {
            for base in bases.iter().copied() {
                for sig in 0..3 {
                    let go = |k: f32, when: usize| {
                        let mut u = (row.make)(k);
                        // The rate can be set once, changed before use, or changed and reset after use.
                        if when >= 1 {
                            u.set_sample_rate(31234.0);
                        }
                        if when == 2 {
                            let mut d = Driver::new(&*u);
                            let mut out = vec![vec![]; u.outputs()];
                            let f = |c: usize, i: usize| control(row.ins[c], sig, c, i, k);
                            d.step(&mut *u, Step::Block(64), 0, &f, &mut out);
                        }
                        u.set_sample_rate(base * k as f64);
                        if when == 2 {
                            u.reset();
                        }
                        let mut d = Driver::new(&*u);
                        let mut out = vec![vec![]; u.outputs()];
                        let f = |c: usize, i: usize| control(row.ins[c], sig, c, i, k);
                        let mut pos = 0;
                        while pos < 600 {
                            pos = d.step(&mut *u, Step::Block(64), pos, &f, &mut out);
                            pos = d.step(&mut *u, Step::Tick, pos, &f, &mut out);
                        }
                        out
                    };
                    let reference = go(1.0, 0);
                    for k in scales.iter().copied() {
                        for when in 0..3 {
                            let out = go(k, when);
                            ctx.trace();
                            ctx.trans(10);
                            ctx.state(hmix(h64(row.name.as_bytes()), hmix(base as u64, (k * 64.0) as u64 * 16 + sig as u64 * 4 + when as u64)));
                            if let Some((c, i, x, y)) = diff(&reference, &out, 2e-3) {
                                ctx.violation(
                                    &row.name,
                                    format!("channel {} sample {}: {} at {} Hz, {} with everything scaled by {}", c, i, x, base, y, k),
                                    format!("{} base {} scale {} signal {} when {}: channel {} sample {}: {} vs {}", row.name, base, k, sig, when, c, i, x, y),
                                );
                                return;
                            }
                        }
                    }
                }
            }
        });
    });
}

/// Structures whose delays are fixed in seconds: the energy of the impulse response arrives at the same times at every rate.
fn energy(ctx: &Ctx) {
    use fundsp::hacker32::*;
    type Make = Box<dyn Fn() -> Box<dyn AudioUnit> + Send + Sync>;
    let units: Vec<(&str, Make)> = vec![
        ("reverb_stereo", Box::new(|| Box::new(reverb_stereo(10.0, 1.0, 0.0)))),
        ("reverb_stereo_big", Box::new(|| Box::new(reverb_stereo(30.0, 3.0, 0.0)))),
        ("reverb2_stereo", Box::new(|| Box::new(reverb2_stereo(10.0, 1.0, 0.5, 0.0, pass())))),
        ("reverb3_stereo", Box::new(|| Box::new(reverb3_stereo(1.0, 0.5, pass())))),
        ("reverb3_stereo_long", Box::new(|| Box::new(reverb3_stereo(3.0, 0.9, pass())))),
        ("reverb4_stereo", Box::new(|| Box::new(reverb4_stereo(10.0, 1.0)))),
        ("delay", Box::new(|| Box::new(multipass::<U2>() >> (delay(0.01) | delay(0.02))))),
        ("loops", Box::new(|| Box::new(multipass::<U2>() >> (feedback(delay(0.01) * 0.5) | allnest_c(0.5, delay(0.01)))))),
    ];
    let rates = [44100.0f64, 22050.0, 32000.0, 48000.0, 88200.0, 96000.0];
    let dur = 0.4;
    ctx.par(units.len(), |n| {
        let (name, make) = &units[n];
        ctx.case(name, || {
            for input in 0..2 {
                // Cumulative energy of output channels at intervals of one millisecond.
                let curve = |rate: f64, changes: usize| -> Vec<Vec<f64>> {
                    let mut u = make();
                    if changes >= 1 {
                        u.set_sample_rate(37000.0);
                    }
                    u.set_sample_rate(rate);
                    let mut o = [0.0; 2];
                    let mut e = [0.0f64; 2];
                    let mut v = vec![vec![]; 2];
                    let mut next = 0;
                    for i in 0..(dur * rate) as usize {
                        while next as f64 * 0.001 * rate <= i as f64 {
                            v[0].push(e[0]);
                            v[1].push(e[1]);
                            next += 1;
                        }
                        let x = if i == 0 { 1.0 } else { 0.0 };
                        u.tick(&[if input == 0 { x } else { 0.0 }, if input == 1 { x } else { 0.0 }], &mut o);
                        e[0] += (o[0] * o[0]) as f64;
                        e[1] += (o[1] * o[1]) as f64;
                    }
                    v
                };
                let reference = curve(44100.0, 0);
                for rate in rates {
                    for changes in 0..2 {
                        let c = curve(rate, changes);
                        ctx.trace();
                        ctx.trans((dur * rate) as u64);
                        ctx.state(hmix(h64(name.as_bytes()), hmix(rate as u64, input * 2 + changes as u64)));
                        for ch in 0..2 {
                            let total = reference[ch].last().unwrap();
                            for t in 1..390 {
                                // Interpolated taps and damping filters lose some energy depending on the rate.
                                let slack = if name.starts_with("reverb2") || name.starts_with("reverb4") { 0.25 } else { 0.03 } * total + 1e-12;
                                if c[ch][t] < reference[ch][t - 1] - slack || c[ch][t] > reference[ch][t + 1] + slack {
                                    ctx.violation(
                                        *name,
                                        format!("energy of channel {} after {} ms: {} at {} Hz, {} at 44100 Hz", ch, t, c[ch][t], rate, reference[ch][t]),
                                        format!("{} input {} rate {} changes {}: energy of channel {} after {} ms is {}, but {} at 44100 Hz", name, input, rate, changes, ch, t, c[ch][t], reference[ch][t]),
                                    );
                                    return;
                                }
                            }
                        }
                    }
                }
            }
        });
    });
}

/// A rate change in the middle of a stream takes effect without a reset: units with a fading memory become equal to fresh units at the
/// rate, linear units respond to their input like fresh ones, and free running oscillators advance at their frequency.
fn live(ctx: &Ctx) {
    let mut rows: Vec<Row> = vec![];
    rows!(rows, "32", hacker32, f32);
    rows!(rows, "64", hacker, f64);
    let keep = ["rossler", "lorenz", "hold", "lfo", "lfo2", "timer_envelope", "sequencer", "resample", "sine", "sine_hz", "ramp", "ramp_hz", "poly_saw", "poly_saw_hz", "poly_square", "poly_square_hz", "poly_pulse", "poly_pulse_hz", "hold_hz"];
    let depth = ctx.q(2, 3);
    let ops = [Op::Rate(22050.0), Op::Rate(44100.0), Op::Rate(48000.0), Op::Rate(96000.0), Op::Tick, Op::Block, Op::Allocate, Op::Clone];
    let mut count = 0;
    for row in rows.iter() {
        if !keep.contains(&&row.name[3..]) {
            count += 1;
        }
    }
    ctx.part("units whose rate changes while playing", count);
    ctx.par(rows.len(), |n| {
        let row = &rows[n];
        let name = &row.name[3..];
        if keep.contains(&name) {
            return;
        }
        let linear = name == "pluck";
        let len = if linear { 700 } else if name == "brown_like" { 16000 } else { 4000 };
        let f = |c: usize, i: usize| control(row.ins[c], 0, c, i, 1.0);
        let play = |b: &mut Box<dyn AudioUnit>| {
            let copy = b.clone();
            let u = &mut **b;
            let mut d = Driver::new(u);
            let mut out = vec![vec![]; u.outputs()];
            let mut quiet = if linear { Some((copy, Driver::new(u), vec![vec![]; u.outputs()])) } else { None };
            let mut pos = 0;
            while pos < len {
                let step = if pos % 3 == 0 { Step::Tick } else { Step::Block(64) };
                let next = d.step(u, step, pos, &f, &mut out);
                if let Some((u, d, out)) = &mut quiet {
                    d.step(&mut **u, step, pos, &|_, _| 0.0, out);
                }
                pos = next;
            }
            if let Some((_, _, q)) = quiet {
                for c in 0..out.len() {
                    for i in 0..out[c].len() {
                        out[c][i] -= q[c][i];
                    }
                }
            }
            let skip = if linear { 0 } else { len - 400 };
            out.into_iter().map(|v| v[skip..].to_vec()).collect::<Vec<_>>()
        };
        ctx.case(&row.name, || {
            for rate in RATES {
                let reference = {
                    let mut u = (row.make)(1.0);
                    u.set_sample_rate(rate);
                    play(&mut u)
                };
                for h in 0..ops.len().pow(depth as u32) {
                    let hist: Vec<Op> = digits(h, ops.len(), depth).into_iter().map(|i| ops[i]).collect();
                    let mut u = (row.make)(1.0);
                    let mut d = Driver::new(&*u);
                    let mut out = vec![vec![]; u.outputs()];
                    let mut pos = 0;
                    let g = |c: usize, i: usize| control(row.ins[c], 1, c, i, 1.0);
                    for op in hist.iter() {
                        match *op {
                            Op::Rate(r) => u.set_sample_rate(r),
                            Op::Tick => pos = d.step(&mut *u, Step::Tick, pos, &g, &mut out),
                            Op::Block => pos = d.step(&mut *u, Step::Block(64), pos, &g, &mut out),
                            Op::Allocate => u.allocate(),
                            Op::Clone => u = u.clone(),
                            Op::Reset => u.reset(),
                        }
                    }
                    u.set_sample_rate(rate);
                    let got = play(&mut u);
                    ctx.trace();
                    ctx.trans(hist.len() as u64 + 1);
                    ctx.state(hmix(h64(row.name.as_bytes()), hmix(h as u64, rate as u64)));
                    if let Some((c, i, x, y)) = diff(&reference, &got, 2e-3) {
                        ctx.violation(
                            &row.name,
                            format!("playing unit changed to {} Hz: channel {} sample {} is {}, fresh unit {}", rate, c, i, y, x),
                            format!("{} history {:?} then set_sample_rate({}): channel {} settled sample {} fresh {} got {}", row.name, hist, rate, c, i, x, y),
                        );
                        return;
                    }
                }
            }
        });
    });
}

pub fn c26(ctx: &Ctx) {
    live(ctx);
    energy(ctx);
    histories(ctx);
    covariance(ctx);
}
