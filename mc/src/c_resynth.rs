//! C22: Fourier transforms, frequency domain resynthesis, resampling and oversampling.
use crate::c_osc::fft;
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::audionode::AudioNode;
use fundsp::hacker32 as h32e;
use fundsp::prelude::{An, AudioUnit, Frame, U0, U1, U2, U3};
use fundsp::resynth::{FftWindow, Resynth};
use fundsp::prelude::Complex32;
use std::sync::{Arc, Mutex};

fn run(u: &mut dyn AudioUnit, n: usize, steps: &[Step], f: &dyn Fn(usize, usize) -> f32) -> Vec<Vec<f32>> {
    let mut d = Driver::new(u);
    let mut out = vec![vec![]; u.outputs()];
    let (mut pos, mut k) = (0, 0);
    while pos < n {
        pos = d.step(u, steps[k % steps.len()], pos, f, &mut out);
        k += 1;
    }
    out
}

fn transforms(ctx: &Ctx) {
    ctx.par(15, |p| {
        let n = 2usize << p;
        let name = format!("transform length {}", n);
        ctx.case(&name, || {
            // Every unit impulse up to length 64, then impulses at powers of two, and mixed signals.
            let impulses: Vec<usize> = if n <= 64 { (0..n).collect() } else { (0..=p).map(|i| 1 << i).chain([0, n - 1, n / 2 + 1]).collect() };
            let mut signals: Vec<Vec<f32>> = impulses.iter().map(|&i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
            for s in 0..4u64 {
                signals.push((0..n).map(|i| det(s * 100000 + i as u64)).collect());
            }
            for (k, s) in signals.iter().enumerate() {
                let mut re: Vec<f64> = s.iter().map(|x| *x as f64).collect();
                let mut im = vec![0.0; n];
                fft(&mut re, &mut im);
                let tol = 2e-6 * (n as f64).sqrt() * 4.0 + 1e-5;
                let mut fail = |e: String| {
                    let e = format!("length {} signal {}: {}", n, k, e);
                    ctx.violation(name.clone(), e.clone(), e);
                };
                let mut data = s.clone();
                data.extend([0.0, 0.0]);
                let m = fundsp::fft::real_fft(&mut data[..n]).len();
                if m != n / 2 {
                    return fail(format!("forward transform returns {} bins", m));
                }
                let packed = data.clone();
                if (packed[1] as f64 - re[n / 2]).abs() > tol {
                    return fail(format!("packed Nyquist is {} expected {}", packed[1], re[n / 2]));
                }
                fundsp::fft::fix_nyquist(&mut data);
                for b in 0..=n / 2 {
                    if (data[b * 2] as f64 - re[b]).abs() > tol || (data[b * 2 + 1] as f64 - im[b]).abs() > tol {
                        return fail(format!("bin {} is ({}, {}) expected ({}, {})", b, data[b * 2], data[b * 2 + 1], re[b], im[b]));
                    }
                }
                // Inverse transform of the half spectrum restores the signal.
                let mut z = vec![Complex32::new(7.0, -3.0); n];
                for b in 0..=n / 2 {
                    z[b] = Complex32::new(re[b] as f32, im[b] as f32);
                }
                fundsp::fft::fix_negative(&mut z);
                for b in 0..n {
                    if (z[b].re as f64 - re[b]).abs() > tol || (z[b].im as f64 - im[b]).abs() > tol {
                        return fail(format!("negative frequency at {} is {} expected ({}, {})", b, z[b], re[b], im[b]));
                    }
                }
                fundsp::fft::inverse_fft(&mut z);
                for i in 0..n {
                    if (z[i].re - s[i]).abs() > 1e-5 || z[i].im.abs() > 1e-5 {
                        return fail(format!("inverse transform at {} is {} expected {}", i, z[i], s[i]));
                    }
                }
                ctx.trace();
                ctx.trans(n as u64);
                ctx.state(hashf(&packed));
            }
        });
    });
    ctx.part("transform lengths", 15);
}

/// Processing functions of the resynthesizer, on real windows and in the reference.
const KINDS: usize = 8;
const KIND: [&str; KINDS] = ["forward", "bin gains", "phase rotation", "bin shift", "swap channels", "time varying", "every other window silent", "mixed channels"];

/// Output spectra for a window: `x` has input channels of (re, im), returns output channels.
fn effect(kind: usize, index: usize, time: f64, x: &[Vec<(f64, f64)>], outs: usize) -> Vec<Vec<(f64, f64)>> {
    let ins = x.len();
    let bins = x[0].len();
    let mut y = vec![vec![(0.0, 0.0); bins]; outs];
    for c in 0..outs {
        let src = match kind { 4 => (c + 1) % ins, _ => c % ins };
        for b in 0..bins {
            let (re, im) = x[src][b];
            y[c][b] = match kind {
                1 => { let g = (b % 5) as f64 * 0.4; (re * g, im * g) }
                2 if b > 0 && b + 1 < bins => { let a = b as f64 * 0.7; (re * a.cos() - im * a.sin(), re * a.sin() + im * a.cos()) }
                3 => if b > 0 && b + 1 < bins { let z = x[src][b - 1]; if b == 1 { (z.0, 0.0) } else { z } } else { (0.0, 0.0) },
                5 => { let g = (time * 3000.0).sin(); (re * g, im * g) }
                6 => if index % 2 == 0 { (re, im) } else { (0.0, 0.0) },
                7 => { let z = x[(src + 1) % ins][b]; (re * 0.5 - z.0, im * 0.5 - z.1) }
                _ => (re, im),
            };
        }
    }
    y
}

/// What a window callback reported.
#[derive(Clone, PartialEq, Debug)]
struct Report {
    time: f64,
    first: f64,
    last: f64,
    numbers: Vec<f64>,
    spectra: Vec<Vec<(f64, f64)>>,
}

type Log = Arc<Mutex<Vec<Report>>>;

fn callback(kind: usize, log: Log) -> impl FnMut(&mut FftWindow) + Clone + Send + Sync {
    let mut index = 0usize;
    move |w: &mut FftWindow| {
        let bins = w.bins();
        let x: Vec<Vec<(f64, f64)>> = (0..w.inputs()).map(|c| (0..bins).map(|b| { let z = w.at(c, b); (z.re as f64, z.im as f64) }).collect()).collect();
        let stale = (0..w.outputs()).any(|c| (0..bins).any(|b| w.at_output(c, b) != Complex32::new(0.0, 0.0)));
        log.lock().unwrap().push(Report {
            time: w.time(),
            first: w.time_at(0),
            last: w.time_at(w.length() - 1),
            numbers: vec![w.inputs() as f64, w.outputs() as f64, w.length() as f64, bins as f64, w.sample_rate(), w.latency(), w.windows_per_second(), w.delta_time(), w.frequency(0) as f64, w.frequency(1) as f64, w.frequency(bins - 1) as f64, stale as usize as f64],
            spectra: x.clone(),
        });
        if kind == 0 {
            for c in 0..w.outputs() {
                w.forward(c % w.inputs(), c);
            }
        } else if w.inputs() > 0 {
            let y = effect(kind, index, w.time(), &x, w.outputs());
            for c in 0..w.outputs() {
                for b in 0..bins {
                    w.set(c, b, Complex32::new(y[c][b].0 as f32, y[c][b].1 as f32));
                    if w.at_output(c, b) != Complex32::new(y[c][b].0 as f32, y[c][b].1 as f32) {
                        panic!("output bin reads back differently");
                    }
                }
            }
        }
        index += 1;
    }
}

fn resynth(ctx: &Ctx) {
    let mut jobs = vec![];
    let max = ctx.q(12, 14);
    for p in 2..=15 {
        for kind in 0..KINDS {
            if p > max && kind > 1 {
                continue;
            }
            for channels in [(1usize, 1usize), (2, 2), (1, 2), (3, 1)] {
                if p > max && channels.0 != 2 {
                    continue;
                }
                for rate in [44100.0, 96000.0] {
                    jobs.push((1usize << p, kind, channels, rate));
                }
            }
        }
    }
    jobs.reverse();
    let patterns: Vec<Vec<Step>> = vec![vec![Step::Block(64)], vec![Step::Tick], vec![Step::Block(7), Step::Tick, Step::Block(64), Step::Block(0), Step::Block(33)]];
    ctx.par(jobs.len(), |j| {
        let (l, kind, (ins, outs), rate) = jobs[j];
        let name = format!("resynth {} {} {}x{}", l, KIND[kind], ins, outs);
        ctx.case(&name, || {
            let n = if l > 4096 { l * 5 / 2 + 3 } else { (l * 4 + 5).max(64) };
            for (ps, steps) in patterns.iter().enumerate() {
                for signal in 0..ctx.q(2, 4) {
                    if l > 4096 && (ps > 0 || signal > 0) {
                        continue;
                    }
                    let input = |c: usize, i: usize| -> f32 {
                        match signal {
                            0 => det((c * 1000003 + i) as u64),
                            1 => if i % (l + 3) == c { 1.0 } else { 0.0 },
                            2 => ((i * (c + 1)) as f64 * 0.05).sin() as f32,
                            _ => if i < 2 * l { 1.0 } else { -0.5 },
                        }
                    };
                    let log: Log = Default::default();
                    let f = callback(kind, log.clone());
                    let mut u: Box<dyn AudioUnit> = match (ins, outs) {
                        (1, 1) => Box::new(h32e::resynth::<U1, U1, _>(l, f)),
                        (2, 2) => Box::new(h32e::resynth::<U2, U2, _>(l, f)),
                        (1, 2) => Box::new(h32e::resynth::<U1, U2, _>(l, f)),
                        _ => Box::new(An(Resynth::<U3, U1, _>::new(l, f))),
                    };
                    u.set_sample_rate(rate);
                    let out = run(&mut *u, n, steps, &input);
                    ctx.trans(n as u64);
                    ctx.trace();
                    ctx.state(hmix(hashf(&out[0]), (l * 10 + kind) as u64));
                    let fail = |e: String| {
                        let e = format!("resynth window {} effect {} with {} inputs and {} outputs at {} Hz, signal {}, steps {:?}: {}", l, KIND[kind], ins, outs, rate, signal, steps, e);
                        ctx.violation(name.clone(), e.clone(), e);
                    };
                    // Reference: overlapping windows of squared Hann shape every quarter window.
                    let produced = out[0].len();
                    let mut expect = vec![vec![0.0f64; produced + 2 * l]; outs];
                    let hann: Vec<f64> = (0..l).map(|i| 0.5 - 0.5 * (i as f64 * std::f64::consts::TAU / l as f64).cos()).collect();
                    let reports = log.lock().unwrap();
                    let mut k = 0;
                    while k * l / 4 + l <= produced {
                        let start = k * l / 4;
                        let Some(r) = reports.get(k) else { return fail(format!("window {} was never processed", k)) };
                        let mut spectra = vec![];
                        for c in 0..ins {
                            let mut re: Vec<f64> = (0..l).map(|i| hann[i] * input(c, start + i) as f64).collect();
                            let mut im = vec![0.0; l];
                            fft(&mut re, &mut im);
                            spectra.push((0..=l / 2).map(|b| (re[b], im[b])).collect::<Vec<_>>());
                            for b in 0..=l / 2 {
                                let z = r.spectra[c].get(b).copied().unwrap_or((f64::NAN, 0.0));
                                if !((z.0 - re[b]).abs() < 1e-3 + l as f64 * 1e-7 && (z.1 - im[b]).abs() < 1e-3 + l as f64 * 1e-7) {
                                    return fail(format!("window {} input {} bin {} is {:?} expected ({}, {})", k, c, b, z, re[b], im[b]));
                                }
                            }
                        }
                        let numbers = [ins as f64, outs as f64, l as f64, (l / 2 + 1) as f64, rate, l as f64 / rate, 4.0 * rate / l as f64, l as f64 / 4.0 / rate, 0.0, rate / l as f64, rate / 2.0, 0.0];
                        for (i, x) in numbers.iter().enumerate() {
                            if !((x - r.numbers[i]).abs() <= 1e-5 * x.abs()) {
                                return fail(format!("window {} reports {} for number {} expected {}", k, r.numbers[i], i, x));
                            }
                        }
                        let times = [(r.time, start + l / 2), (r.first, start), (r.last, start + l - 1)];
                        for (t, s) in times {
                            if (t - s as f64 / rate).abs() > 1e-6 * (s as f64 / rate) {
                                return fail(format!("window {} reports time {} expected {}", k, t, s as f64 / rate));
                            }
                        }
                        let y = effect(kind, k, r.time, &spectra, outs);
                        for c in 0..outs {
                            // Inverse transform by conjugation.
                            let mut re = vec![0.0; l];
                            let mut im = vec![0.0; l];
                            for b in 0..=l / 2 {
                                re[b] = y[c][b].0;
                                im[b] = -y[c][b].1;
                            }
                            for b in l / 2 + 1..l {
                                re[b] = re[l - b];
                                im[b] = -im[l - b];
                            }
                            fft(&mut re, &mut im);
                            for i in 0..l {
                                expect[c][start + l + i] += re[i] / l as f64 * hann[i] * 2.0 / 3.0;
                            }
                        }
                        k += 1;
                    }
                    if reports.len() != k {
                        return fail(format!("{} windows were processed expected {}", reports.len(), k));
                    }
                    for c in 0..outs {
                        for i in 0..produced {
                            let y = out[c][i] as f64;
                            if !((y - expect[c][i]).abs() < 3e-5) {
                                return fail(format!("output {} at sample {} is {} expected {}", c, i, y, expect[c][i]));
                            }
                            if kind == 0 && i >= 2 * l && !((y - input(c % ins, i - l) as f64).abs() < 3e-5) {
                                return fail(format!("output {} at sample {} is {}, input was {}", c, i, y, input(c % ins, i - l)));
                            }
                        }
                    }
                }
            }
        });
    });
    ctx.part("resynthesis configurations", jobs.len() as u64);
}

/// Generator with given pseudorandom output, counts its samples.
#[derive(Clone)]
struct Source {
    i: usize,
    count: Arc<std::sync::atomic::AtomicUsize>,
}
impl AudioNode for Source {
    const ID: u64 = 9000;
    type Inputs = U0;
    type Outputs = U2;
    fn reset(&mut self) {
        self.i = 0;
    }
    fn tick(&mut self, _: &Frame<f32, U0>) -> Frame<f32, U2> {
        self.i += 1;
        self.count.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        [source(0, self.i - 1), source(1, self.i - 1)].into()
    }
}
fn source(c: usize, i: usize) -> f32 {
    det((c * 7000001 + i) as u64)
}

fn resamplers(ctx: &Ctx) {
    let speeds = [0.0f32, 0.25, 1.0, 1.3, 0.999, -2.0, 7.7, 63.5, 130.7, 1000.25];
    let lens = [1usize, 3, 66];
    let alphabet = speeds.len() * lens.len();
    let depth = ctx.q(3, 4);
    let total = alphabet.pow(depth);
    let chunk = alphabet.pow(depth - 1);
    ctx.par(alphabet, |j| {
        ctx.case("resample", || {
            for code in j * chunk..(j + 1) * chunk {
                let seq = digits(code, alphabet, depth as usize);
                let mut speed = vec![];
                for x in &seq {
                    speed.extend(std::iter::repeat_n(speeds[x / lens.len()], lens[x % lens.len()]));
                }
                let count = Arc::new(std::sync::atomic::AtomicUsize::new(0));
                let mut u: Box<dyn AudioUnit> = Box::new(h32e::resample(An(Source { i: 0, count: count.clone() })));
                let input = |_: usize, i: usize| speed.get(i).copied().unwrap_or(1.0);
                let patterns: [&[Step]; 3] = [&[Step::Block(64)], &[Step::Tick], &[Step::Block(5), Step::Tick, Step::Block(0), Step::Block(33)]];
                let n = speed.len() + 1;
                let out = run(&mut *u, n, patterns[code % 3], &input);
                ctx.trans(n as u64);
                ctx.trace();
                let mut at = 1.0f64;
                for i in 0..out[0].len() {
                    at += input(0, i).max(0.0) as f64;
                    let b = at.floor();
                    let d = at - b;
                    let b = b as usize;
                    for c in 0..2 {
                        let y: Vec<f64> = (0..4).map(|k| source(c, b + k - 1) as f64).collect();
                        // Cubic Hermite interpolation with central difference slopes.
                        let (m1, m2) = ((y[2] - y[0]) / 2.0, (y[3] - y[1]) / 2.0);
                        let (d2, d3) = (d * d, d * d * d);
                        let e = y[1] * (2.0 * d3 - 3.0 * d2 + 1.0) + m1 * (d3 - 2.0 * d2 + d) + y[2] * (3.0 * d2 - 2.0 * d3) + m2 * (d3 - d2);
                        if !((out[c][i] as f64 - e).abs() < 1e-5) {
                            let e = format!("resample with speeds (speed, samples) {:?}: output {} at sample {} is {} expected {} (source position {})", seq.iter().map(|x| (speeds[x / lens.len()], lens[x % lens.len()])).collect::<Vec<_>>(), c, i, out[c][i], e, at);
                            ctx.violation("resample", e.clone(), e);
                            return;
                        }
                    }
                }
                ctx.state(hashf(&out[0]));
                // The source is only run as far as it is needed.
                let need = at.floor() as usize + 3;
                let used = count.load(std::sync::atomic::Ordering::Relaxed);
                if used > need + 64 {
                    let e = format!("resample consumed {} source samples where {} are needed", used, need);
                    ctx.violation("resample", e.clone(), e);
                }
            }
        });
    });
    ctx.part("resampling speed sequences", total as u64);
}

/// Two-channel probe: records its input and outputs a function of it.
#[derive(Clone)]
struct Probe {
    kind: usize,
    i: usize,
    log: Arc<Mutex<Vec<[f32; 2]>>>,
    emit: Arc<Vec<f32>>,
}
impl AudioNode for Probe {
    const ID: u64 = 9001;
    type Inputs = U2;
    type Outputs = U2;
    fn reset(&mut self) {
        self.i = 0;
    }
    fn tick(&mut self, x: &Frame<f32, U2>) -> Frame<f32, U2> {
        self.log.lock().unwrap().push([x[0], x[1]]);
        self.i += 1;
        let e = self.emit.get(self.i - 1).copied().unwrap_or(0.0);
        match self.kind {
            0 => [e, 0.0].into(),
            1 => [x[0], x[1]].into(),
            2 => [x[1], x[0] * 0.5].into(),
            _ => [(x[0] * 3.0).tanh(), x[0] * x[1]].into(),
        }
    }
}

fn oversampling(ctx: &Ctx) {
    ctx.case("oversample", || {
        let fail = |e: String| {
            ctx.violation("oversample", e.clone(), e);
        };
        let make = |kind: usize, emit: Vec<f32>| {
            let log: Arc<Mutex<Vec<[f32; 2]>>> = Default::default();
            let u: Box<dyn AudioUnit> = Box::new(h32e::oversample(An(Probe { kind, i: 0, log: log.clone(), emit: Arc::new(emit) })));
            (u, log)
        };
        // Upsampling filter: what the inner node sees for a unit impulse at every position.
        let taps = 128;
        let mut up: Vec<f64> = vec![];
        for at in 0..140 {
            for c in 0..2 {
                let (mut u, log) = make(1, vec![]);
                run(&mut *u, at + 100, &[Step::Block(64), Step::Tick], &|k, i| if i == at && k == c { 1.0 } else { 0.0 });
                let log = log.lock().unwrap();
                if log.len() % 2 != 0 || log.len() < (at + 100) * 2 {
                    return fail(format!("inner node ran {} times for {} samples", log.len(), at + 100));
                }
                let h: Vec<f64> = (0..taps).map(|i| log[at * 2 + i][c] as f64).collect();
                if up.is_empty() {
                    up = h.clone();
                }
                let before = (0..at * 2).any(|i| log[i][c] != 0.0);
                let other = log.iter().any(|x| x[1 - c] != 0.0);
                if before || other || (0..taps).any(|i| (h[i] - up[i]).abs() > 1e-7) {
                    return fail(format!("upsampled impulse at sample {} of channel {} differs from that at sample 0", at, c));
                }
                ctx.trace();
                ctx.trans(at as u64 + 100);
            }
        }
        // Downsampling filter: output for an inner impulse at every inner position, even and odd.
        let mut down: Vec<f64> = vec![0.0; taps];
        for at in 0..280 {
            let mut emit = vec![0.0; at + 1];
            emit[at] = 1.0;
            let (mut u, _) = make(0, emit);
            let out = run(&mut *u, at / 2 + 80, &[Step::Block(64), Step::Tick], &|_, _| 0.0);
            // Output sample k is weighted by tap at 2 k + 1 - at or 2 k - at, whichever the decimation phase is.
            for k in 0..out[0].len() {
                let tap = 2 * k as i64 + 1 - at as i64;
                let y = out[0][k] as f64;
                if tap < 0 {
                    if y != 0.0 {
                        return fail(format!("output precedes inner impulse {}", at));
                    }
                } else if (tap as usize) < taps {
                    let tap = tap as usize;
                    if at < 2 {
                        down[tap] = y;
                    } else if (down[tap] - y).abs() > 1e-7 {
                        return fail(format!("downsampled inner impulse {} differs at output sample {}: {} expected {}", at, k, y, down[tap]));
                    }
                } else if y != 0.0 {
                    return fail(format!("response to inner impulse {} is too long", at));
                }
            }
            ctx.trace();
            ctx.trans(at as u64 / 2 + 80);
        }
        // Both filters are flat up to 0.2 of the inner rate and suppress images beyond 0.25, together by 70 dB.
        let db = |h: &[f64], w: f64| {
            let (mut re, mut im) = (0.0, 0.0);
            for (i, x) in h.iter().enumerate() {
                re += x * (std::f64::consts::TAU * w * i as f64).cos();
                im += x * (std::f64::consts::TAU * w * i as f64).sin();
            }
            10.0 * (re * re + im * im + 1e-30).log10()
        };
        let two: f64 = 20.0 * 2.0f64.log10();
        for i in 0..=1000 {
            let w = i as f64 / 2000.0;
            let (a, b) = (db(&up, w) - two, db(&down, w));
            ctx.state(hmix(i, 77));
            if w <= 0.2 && !(a.abs() < 0.2 && b.abs() < 0.2) || w <= 0.21 && !(a + b > -1.7) {
                return fail(format!("gain at {} of inner rate is {} dB and {} dB", w, a, b));
            }
            if w >= 0.25 && !(a + b < -70.0 && a < -35.0 && b < -35.0) {
                return fail(format!("images at {} of inner rate pass at {} dB and {} dB", w, a, b));
            }
        }
        // Every other signal and inner node equals the filters around the inner node.
        for kind in 1..4 {
            for signal in 0..3u64 {
                for (s, steps) in [&[Step::Block(64)][..], &[Step::Tick], &[Step::Block(3), Step::Tick, Step::Block(0), Step::Block(41)]].into_iter().enumerate() {
                    let (mut u, _) = make(kind, vec![]);
                    let input = |c: usize, i: usize| match signal {
                        0 => det((c * 10007 + i) as u64),
                        1 => (i as f64 * 0.3 * (c + 1) as f64).sin() as f32,
                        _ => if (i / 17 + c) % 2 == 0 { 1.0 } else { -0.3 },
                    };
                    let out = run(&mut *u, 400, steps, &input);
                    let n = out[0].len();
                    let mut inner = vec![vec![0.0f64; n * 2]; 2];
                    for i in 0..n * 2 {
                        let mut x = [0.0; 2];
                        for c in 0..2 {
                            for t in 0..=i.min(taps - 1) {
                                if (i - t) % 2 == 0 {
                                    x[c] += up[t] * input(c, (i - t) / 2) as f64;
                                }
                            }
                        }
                        let y = match kind { 1 => x, 2 => [x[1], x[0] * 0.5], _ => [(x[0] * 3.0).tanh(), x[0] * x[1]] };
                        inner[0][i] = y[0];
                        inner[1][i] = y[1];
                    }
                    for k in 0..n {
                        for c in 0..2 {
                            let e: f64 = (0..taps.min(2 * k + 2)).map(|t| down[t] * inner[c][2 * k + 1 - t]).sum();
                            if !((out[c][k] as f64 - e).abs() < 2e-5) {
                                return fail(format!("inner node {} signal {} steps {}: output {} at sample {} is {} expected {}", kind, signal, s, c, k, out[c][k], e));
                            }
                        }
                    }
                    ctx.trace();
                    ctx.trans(n as u64);
                    ctx.state(hashf(&out[0]));
                }
            }
        }
       
    });
}

pub fn c22(ctx: &Ctx) {
    transforms(ctx);
    oversampling(ctx);
    resamplers(ctx);
    resynth(ctx);
}
