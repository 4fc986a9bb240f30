//! C27: filters against their analog prototypes and recurrences, for every history of parameter changes.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::prelude::{Adaptive, AudioUnit, Clip, Softsign, Tanh};
use fundsp::setting::Setting;
use std::f64::consts::{PI, SQRT_2, TAU};

type Unit = Box<dyn AudioUnit>;
type P = [f64; 3];

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Low,
    High,
    Band,
    Notch,
    Peak,
    All,
    Bell,
    LowShelf,
    HighShelf,
    Reson,
    Butter,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Sh {
    Tanh,
    Soft,
    Clip,
    Adapt,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    Svf(S),
    Morph,
    /// Biquad in direct form I.
    Biq(S),
    LowPole,
    HighPole,
    DcBlock,
    AllPole,
    Moog,
    Rez(bool),
    /// Biquads with nonlinear state shaping (false) or nonlinear feedback (true).
    Non(S, bool, Sh),
    Pink,
}

/// Biquad coefficients (a1, a2, b0, b1, b2).
fn coefs(s: S, p: &P, rate: f64) -> [f64; 5] {
    if s == S::Reson {
        let r = (-PI * p[0] / (p[1] * rate)).exp();
        let b = (1.0 - r * r).sqrt() * 0.5;
        return [-2.0 * r * (TAU * p[0] / rate).cos(), r * r, b, 0.0, -b];
    }
    // Bilinear transform of the analog prototype (n2 s^2 + n1 s + n0) / (s^2 + d1 s + d0).
    let g = (PI * p[0] / rate).tan();
    let (n, d) = analog(s, p);
    let t = |c: [f64; 3]| {
        // s = (1 - z1) / (g (1 + z1)).
        let (c2, c1, c0) = (c[0], c[1] * g, c[2] * g * g);
        [c2 + c1 + c0, 2.0 * (c0 - c2), c2 - c1 + c0]
    };
    let (n, d) = (t(n), t(d));
    [d[1] / d[0], d[2] / d[0], n[0] / d[0], n[1] / d[0], n[2] / d[0]]
}

/// Analog prototypes with center at 1.
fn analog(s: S, p: &P) -> ([f64; 3], [f64; 3]) {
    let k = 1.0 / p[1];
    let a = p[2].max(0.0).sqrt();
    let d = [1.0, k, 1.0];
    match s {
        S::Low => ([0.0, 0.0, 1.0], d),
        S::High => ([1.0, 0.0, 0.0], d),
        S::Band => ([0.0, 1.0, 0.0], d),
        S::Notch => ([1.0, 0.0, 1.0], d),
        S::Peak => ([1.0, 0.0, -1.0], d),
        S::All => ([1.0, -k, 1.0], d),
        S::Bell => ([1.0, k * a, 1.0], [1.0, k / a, 1.0]),
        S::LowShelf => ([a, a * a.sqrt() * k, a * a], [a, a.sqrt() * k, 1.0]),
        S::HighShelf => ([a * a, a * a.sqrt() * k, a], [1.0, a.sqrt() * k, a]),
        S::Butter => ([0.0, 0.0, 1.0], [1.0, SQRT_2, 1.0]),
        S::Reson => unreachable!(),
    }
}

#[derive(Clone, Default)]
struct Model {
    s: [f64; 8],
    level: [f64; 2],
    /// Disturbance of shaped values.
    eps: f64,
}

impl Model {
    fn new() -> Model {
        Model { s: [0.0; 8], level: [1e-3; 2], eps: 0.0 }
    }
    fn disturbed() -> Model {
        Model { eps: 1e-6, ..Model::new() }
    }
    fn shape(&mut self, sh: Sh, i: usize, x: f64, rate: f64) -> f64 {
        (1.0 + self.eps) * match sh {
            Sh::Tanh => (x * 0.8).tanh(),
            Sh::Soft => x * 0.9 / (1.0 + (x * 0.9).abs()),
            Sh::Clip => x.clamp(-1.0, 1.0),
            Sh::Adapt => {
                let c = 0.5f64.powf(1.0 / (0.01 * rate)) - self.eps * 0.1;
                self.level[i] = c * self.level[i] + (1.0 - c) * (1e-6 + x * x);
                (x / self.level[i].sqrt() * 0.8).tanh()
            }
        }
    }
    fn tick(&mut self, k: K, x: f64, p: &P, rate: f64) -> f64 {
        match k {
            K::Svf(mode) => {
                let a = p[2].max(0.0).sqrt();
                let mut g = (PI * p[0] / rate).tan();
                let mut k = 1.0 / p[1];
                match mode {
                    S::Bell => k /= a,
                    S::LowShelf => g /= a.sqrt(),
                    S::HighShelf => g *= a.sqrt(),
                    _ => (),
                }
                // Trapezoidal integration of the state variable filter.
                let hp = (x - (k + g) * self.s[0] - self.s[1]) / (1.0 + g * (g + k));
                let bp = g * hp + self.s[0];
                let lp = g * bp + self.s[1];
                self.s[0] = bp + g * hp;
                self.s[1] = lp + g * bp;
                match mode {
                    S::Low => lp,
                    S::High => hp,
                    S::Band => bp,
                    S::Notch => hp + lp,
                    S::Peak => hp - lp,
                    S::All => hp - k * bp + lp,
                    S::Bell => hp + k * a * a * bp + lp,
                    S::LowShelf => hp + k * a * bp + a * a * lp,
                    S::HighShelf => a * a * hp + k * a * bp + lp,
                    _ => unreachable!(),
                }
            }
            K::Morph => 0.5 * (self.tick(K::Svf(S::Peak), x, p, rate) + p[2] * x),
            K::Biq(mode) => {
                let c = coefs(mode, p, rate);
                let s = &mut self.s;
                let y = c[2] * x + c[3] * s[0] + c[4] * s[1] - c[0] * s[2] - c[1] * s[3];
                *s = [x, s[0], y, s[2], 0.0, 0.0, 0.0, 0.0];
                y
            }
            K::LowPole => {
                let c = (-TAU * p[0] / rate).exp();
                self.s[0] = (1.0 - c) * x + c * self.s[0];
                self.s[0]
            }
            K::HighPole => {
                let c = (-TAU * p[0] / rate).exp();
                self.s[1] = c * (self.s[1] + x - self.s[0]);
                self.s[0] = x;
                self.s[1]
            }
            K::DcBlock => {
                let c = 1.0 - TAU * p[0] / rate;
                self.s[1] = x - self.s[0] + c * self.s[1];
                self.s[0] = x;
                self.s[1]
            }
            K::AllPole => {
                let e = (1.0 - p[0]) / (1.0 + p[0]);
                self.s[1] = e * (x - self.s[1]) + self.s[0];
                self.s[0] = x;
                self.s[1]
            }
            K::Moog => {
                let c = 2.0 * p[0] / rate;
                let w = c * (1.8 - 0.8 * c);
                let k = 2.0 * (c * PI * 0.5).sin() - 1.0;
                let t1 = (1.0 - w) * 1.386249;
                let t2 = 12.0 + t1 * t1;
                let rez = p[1] * (t2 + 6.0 * t1) / (t2 - 6.0 * t1);
                let s = &mut self.s;
                let mut x = x - rez * s[3];
                for i in 0..4 {
                    // Previous input of the stage.
                    let px = s[4 + i];
                    s[4 + i] = x;
                    s[i] = (x + px) * w - k * s[i];
                    if i == 3 {
                        s[i] = s[i].tanh();
                    }
                    x = s[i];
                }
                x
            }
            K::Rez(band) => {
                let f = 2.0 * (PI * p[0] / rate).sin();
                let fb = p[1] + p[1] / (1.0 - f);
                let s = &mut self.s;
                s[0] += f * (x - s[0] + fb * (s[0] - s[1]).tanh());
                s[1] += f * (s[0] - s[1]);
                if band { s[1] - s[0] } else { s[1] }
            }
            K::Non(mode, feedback, sh) => {
                let c = coefs(mode, p, rate);
                let y = c[2] * x + self.s[0];
                if feedback {
                    let f = self.shape(sh, 0, y, rate);
                    self.s[0] = self.s[1] + c[3] * x - c[0] * f;
                    self.s[1] = c[4] * x - c[1] * f;
                } else {
                    self.s[0] = self.shape(sh, 0, self.s[1] + c[3] * x - c[0] * y, rate);
                    self.s[1] = self.shape(sh, 1, c[4] * x - c[1] * y, rate);
                }
                y
            }
            K::Pink => {
                const C: [(f64, f64); 6] = [(0.99886, 0.0555179), (0.99332, 0.0750759), (0.969, 0.153852), (0.8665, 0.3104856), (0.55, 0.5329522), (-0.7616, -0.016898)];
                let mut y = x * 0.5362 + self.s[6];
                for i in 0..6 {
                    self.s[i] = C[i].0 * self.s[i] + C[i].1 * x;
                    y += self.s[i];
                }
                self.s[6] = x * 0.115926;
                y * 0.115830421
            }
        }
    }
}

struct Entry {
    name: String,
    k: K,
    /// Number of parameters given as inputs.
    ins: usize,
    /// Numbers of parameters that can be given as settings.
    sets: &'static [usize],
    sub: u32,
    tol: f64,
    make: Box<dyn Fn([f32; 3]) -> Unit + Sync + Send>,
}

fn entries() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    macro_rules! e {
        ($p:expr, $tol:expr, $name:expr, $k:expr, $ins:expr, $sets:expr, |$q:ident| $x:expr) => {
            v.push(Entry { name: format!("{} {}", $p, $name), k: $k, ins: $ins, sets: $sets, sub: 1, tol: $tol, make: Box::new(|$q: [f32; 3]| { let _ = $q; Box::new($x) as Unit }) });
        };
    }
    macro_rules! svf {
        ($h:ident, $p:expr, $tol:expr, $s:expr, $a:ident, $b:ident, $c:ident) => {
            e!($p, $tol, stringify!($a), K::Svf($s), 2, &[], |_q| fundsp::$h::$a());
            e!($p, $tol, stringify!($b), K::Svf($s), 0, &[1, 2], |q| fundsp::$h::$b(q[0], q[1]));
            e!($p, $tol, stringify!($c), K::Svf($s), 1, &[], |q| fundsp::$h::$c(q[1]));
        };
    }
    macro_rules! eq {
        ($h:ident, $p:expr, $tol:expr, $s:expr, $a:ident, $b:ident, $c:ident) => {
            e!($p, $tol, stringify!($a), K::Svf($s), 3, &[], |_q| fundsp::$h::$a());
            e!($p, $tol, stringify!($b), K::Svf($s), 0, &[1, 2, 3], |q| fundsp::$h::$b(q[0], q[1], q[2]));
            e!($p, $tol, stringify!($c), K::Svf($s), 1, &[], |q| fundsp::$h::$c(q[1], q[2]));
        };
    }
    macro_rules! non {
        ($h:ident, $p:expr, $tol:expr, $s:expr, $f:expr, $a:ident, $b:ident) => {
            non!($h, $p, $tol, $s, $f, $a, $b, Sh::Tanh, Tanh(0.8));
            non!($h, $p, $tol, $s, $f, $a, $b, Sh::Soft, Softsign(0.9));
            // Clipping in the feedback of a highpass amplifies rounding errors without bound.
            if !($f && $s == S::High) {
                non!($h, $p, $tol, $s, $f, $a, $b, Sh::Clip, Clip(1.0));
            }
        };
        ($h:ident, $p:expr, $tol:expr, $s:expr, $f:expr, $a:ident, $b:ident, $sh:expr, $shape:expr) => {
            e!($p, $tol, format!("{} {:?}", stringify!($a), $sh), K::Non($s, $f, $sh), 2, &[], |_q| fundsp::$h::$a($shape));
            e!($p, $tol, format!("{} {:?}", stringify!($b), $sh), K::Non($s, $f, $sh), 0, &[1, 2], |q| fundsp::$h::$b($shape, q[0], q[1]));
        };
    }
    macro_rules! nonbell {
        ($h:ident, $p:expr, $tol:expr, $f:expr, $a:ident, $b:ident) => {
            e!($p, $tol, stringify!($a), K::Non(S::Bell, $f, Sh::Soft), 3, &[], |_q| fundsp::$h::$a(Softsign(0.9)));
            e!($p, $tol, stringify!($b), K::Non(S::Bell, $f, Sh::Soft), 0, &[1, 2, 3], |q| fundsp::$h::$b(Softsign(0.9), q[0], q[1], q[2]));
        };
    }
    macro_rules! all {
        ($h:ident, $p:expr, $tol:expr) => {
            svf!($h, $p, $tol, S::Low, lowpass, lowpass_hz, lowpass_q);
            svf!($h, $p, $tol, S::High, highpass, highpass_hz, highpass_q);
            svf!($h, $p, $tol, S::Band, bandpass, bandpass_hz, bandpass_q);
            svf!($h, $p, $tol, S::Notch, notch, notch_hz, notch_q);
            svf!($h, $p, $tol, S::Peak, peak, peak_hz, peak_q);
            svf!($h, $p, $tol, S::All, allpass, allpass_hz, allpass_q);
            eq!($h, $p, $tol, S::Bell, bell, bell_hz, bell_q);
            eq!($h, $p, $tol, S::LowShelf, lowshelf, lowshelf_hz, lowshelf_q);
            eq!($h, $p, $tol, S::HighShelf, highshelf, highshelf_hz, highshelf_q);
            e!($p, $tol, "morph", K::Morph, 3, &[], |_q| fundsp::$h::morph());
            e!($p, $tol, "morph_hz", K::Morph, 0, &[], |q| fundsp::$h::morph_hz(q[0], q[1], q[2]));
            e!($p, $tol, "butterpass", K::Biq(S::Butter), 1, &[], |_q| fundsp::$h::butterpass());
            e!($p, $tol, "butterpass_hz", K::Biq(S::Butter), 0, &[1], |q| fundsp::$h::butterpass_hz(q[0]));
            e!($p, $tol, "resonator", K::Biq(S::Reson), 2, &[], |_q| fundsp::$h::resonator());
            e!($p, $tol, "resonator_hz", K::Biq(S::Reson), 0, &[1, 2], |q| fundsp::$h::resonator_hz(q[0], q[1]));
            e!($p, $tol, "lowpole", K::LowPole, 1, &[], |_q| fundsp::$h::lowpole());
            e!($p, $tol, "lowpole_hz", K::LowPole, 0, &[1], |q| fundsp::$h::lowpole_hz(q[0]));
            e!($p, $tol, "highpole", K::HighPole, 1, &[], |_q| fundsp::$h::highpole());
            e!($p, $tol, "highpole_hz", K::HighPole, 0, &[1], |q| fundsp::$h::highpole_hz(q[0]));
            e!($p, $tol, "dcblock_hz", K::DcBlock, 0, &[1], |q| fundsp::$h::dcblock_hz(q[0]));
            e!($p, $tol, "allpole", K::AllPole, 1, &[], |_q| fundsp::$h::allpole());
            e!($p, $tol, "allpole_delay", K::AllPole, 0, &[1], |q| fundsp::$h::allpole_delay(q[0]));
            e!($p, $tol, "moog", K::Moog, 2, &[], |_q| fundsp::$h::moog());
            e!($p, $tol, "moog_q", K::Moog, 1, &[], |q| fundsp::$h::moog_q(q[1]));
            e!($p, $tol, "moog_hz", K::Moog, 0, &[1, 2], |q| fundsp::$h::moog_hz(q[0], q[1]));
            e!($p, $tol, "lowrez", K::Rez(false), 2, &[], |_q| fundsp::$h::lowrez());
            e!($p, $tol, "lowrez_q", K::Rez(false), 1, &[], |q| fundsp::$h::lowrez_q(q[1]));
            e!($p, $tol, "lowrez_hz", K::Rez(false), 0, &[1, 2], |q| fundsp::$h::lowrez_hz(q[0], q[1]));
            e!($p, $tol, "bandrez", K::Rez(true), 2, &[], |_q| fundsp::$h::bandrez());
            e!($p, $tol, "bandrez_q", K::Rez(true), 1, &[], |q| fundsp::$h::bandrez_q(q[1]));
            e!($p, $tol, "bandrez_hz", K::Rez(true), 0, &[1, 2], |q| fundsp::$h::bandrez_hz(q[0], q[1]));
            e!($p, $tol, "pinkpass", K::Pink, 0, &[], |_q| fundsp::$h::pinkpass());
            non!($h, $p, $tol, S::Low, false, dlowpass, dlowpass_hz);
            non!($h, $p, $tol, S::High, false, dhighpass, dhighpass_hz);
            non!($h, $p, $tol, S::Reson, false, dresonator, dresonator_hz);
            nonbell!($h, $p, $tol, false, dbell, dbell_hz);
            non!($h, $p, $tol, S::Low, true, flowpass, flowpass_hz);
            non!($h, $p, $tol, S::High, true, fhighpass, fhighpass_hz);
            non!($h, $p, $tol, S::Reson, true, fresonator, fresonator_hz);
            nonbell!($h, $p, $tol, true, fbell, fbell_hz);
            non!($h, $p, 10.0 * $tol, S::Low, false, dlowpass, dlowpass_hz, Sh::Adapt, Adaptive::new(0.01, Tanh(0.8)));
            non!($h, $p, 10.0 * $tol, S::Low, true, flowpass, flowpass_hz, Sh::Adapt, Adaptive::new(0.01, Tanh(0.8)));
        };
    }
    all!(hacker, "64", 1e-4);
    all!(hacker32, "32", 4e-3);
    // Parameters updated every few samples.
    for sub in [2, 5, 64] {
        let n = v.len();
        e!("64", 1e-4, format!("lowpass every {}", sub), K::Svf(S::Low), 2, &[], |_q| fundsp::hacker::lowpass());
        e!("64", 1e-4, format!("bell every {}", sub), K::Svf(S::Bell), 3, &[], |_q| fundsp::hacker::bell());
        e!("64", 1e-4, format!("allpass every {}", sub), K::Svf(S::All), 2, &[], |_q| fundsp::hacker::allpass());
        for x in v[n..].iter_mut() {
            x.sub = sub;
        }
    }
    v
}

/// Parameters. Consecutive ones differ in a single parameter.
const TUPLES: [[f64; 3]; 9] = [[440.0, 1.0, 1.0], [440.0, 3.0, 1.0], [1100.0, 3.0, 1.0], [1100.0, 3.0, 2.5], [1100.0, 0.7, 2.5], [1100.0, 0.7, 0.4], [2900.0, 0.7, 0.4], [440.0, 1.5, 1.0], [1100.0, 0.7, 1.8]];

/// Parameters of filter from tuple.
fn params(k: K, t: usize) -> [f32; 3] {
    let [f, q, g] = TUPLES[t].map(|x| x as f32);
    match k {
        K::AllPole => [f / 1000.0, q, g],
        K::Moog => [f, q * 0.25, g],
        K::Rez(_) => [f.min(1200.0), q * 0.2, g],
        K::Morph => [f, q, (g - 1.0) * 0.5],
        K::DcBlock => [f * 0.1, q, g],
        _ => [f, q, g],
    }
}

const STEPS: [Step; 3] = [Step::Tick, Step::Block(64), Step::Block(13)];

fn histories(ctx: &Ctx) {
    let list = entries();
    let depth = ctx.q(3, 4);
    let n_par = TUPLES.len() * STEPS.len();
    // Steps with parameters, modulated block, reset, sample rates.
    let alphabet = n_par + 5;
    let rates = [44100.0, 8000.0, 96000.0];
    ctx.par(list.len() * alphabet, |j| {
        let e = &list[j / alphabet];
        let first = j % alphabet;
        ctx.case(&e.name, || {
            let tail = alphabet.pow(depth as u32 - 1);
            let input = |i: usize| 0.8 * det(i as u64 + 17);
            'histories: for code in 0..tail {
                let mut seq = vec![first];
                seq.extend(digits(code, alphabet, depth - 1));
                let fixed = e.ins == 0 && e.sets.is_empty();
                // Initial parameters.
                let t0 = (code + first) % 2 * 4;
                let mut cur = params(e.k, t0);
                let mut u = (e.make)(cur);
                if e.sub > 1 {
                    u.set(Setting::subsample(e.sub));
                }
                let mut set_i = code;
                let mut rate = rates[0];
                let mut model = Model::new();
                // Slightly disturbed model: shows how much rounding matters in nonlinear feedback.
                let mut other = Model::disturbed();
                let nonlinear = matches!(e.k, K::Non(..));
                let mut spread = 0.0;
                let mut latched = cur;
                let mut counter = 0;
                let mut d = Driver::new(&*u);
                let mut pos = 0;
                for (depth, op) in seq.iter().enumerate() {
                    let op = *op;
                    let mut modulate = false;
                    let step;
                    if op < n_par {
                        step = STEPS[op % STEPS.len()];
                        let want = params(e.k, op / STEPS.len());
                        if e.ins > 0 {
                            cur[..e.ins].copy_from_slice(&want[..e.ins]);
                        } else if !fixed {
                            let n = e.sets[set_i % e.sets.len()];
                            set_i += 1;
                            cur[..n].copy_from_slice(&want[..n]);
                            u.set(match (n, e.k) {
                                (1, K::AllPole) => Setting::delay(cur[0]),
                                (1, _) => Setting::center(cur[0]),
                                (2, _) => Setting::center_q(cur[0], cur[1]),
                                _ => Setting::center_q_gain(cur[0], cur[1], cur[2]),
                            });
                        }
                    } else if op == n_par {
                        modulate = e.ins > 0;
                        step = Step::Block(47);
                    } else {
                        if op == n_par + 1 {
                            u.reset();
                        } else {
                            rate = rates[op - n_par - 2];
                            u.set_sample_rate(rate);
                            u.reset();
                        }
                        model = Model::new();
                        other = Model::disturbed();
                        spread = 0.0;
                        counter = 0;
                        if depth + 1 < seq.len() {
                            continue;
                        }
                        step = Step::Block(64);
                    }
                    let (base, k, ins) = (cur, e.k, e.ins);
                    let at = move |i: usize| {
                        if !modulate {
                            return base;
                        }
                        // A parameter changes at each sample.
                        let mut x = base;
                        x[..ins].copy_from_slice(&params(k, (i * 3) % TUPLES.len())[..ins]);
                        x
                    };
                    let mut out = vec![vec![]];
                    let start = pos;
                    pos = d.step(&mut *u, step, pos, &|c, i| if c == 0 { input(i) } else { at(i)[c - 1] }, &mut out);
                    for i in start..pos {
                        if counter == 0 {
                            latched = at(i);
                        }
                        counter = (counter + 1) % e.sub;
                        let y = model.tick(e.k, input(i) as f64, &latched.map(|x| x as f64), rate);
                        let x = out[0][i - start] as f64;
                        let mut tol = e.tol * (1.0 + y.abs());
                        if nonlinear {
                            let z = other.tick(e.k, input(i) as f64 * (1.0 + 1e-6) + 1e-7, &latched.map(|x| x as f64), rate);
                            spread = (y - z).abs().max(spread);
                            if spread > 0.02 {
                                // Chaotic from here on.
                                continue 'histories;
                            }
                            tol += 10.0 * spread;
                        }
                        if !((x - y).abs() <= tol) {
                            let m = format!("{} (initial parameters {:?}) after {:?}: output at sample {} is {}, expected {}", e.name, params(e.k, t0), seq.iter().map(|o| describe(*o, n_par, e.k)).collect::<Vec<_>>(), i, x, y);
                            ctx.violation(&e.name, m.clone(), m);
                            return;
                        }
                    }
                    cur = at(pos.max(1) - 1);
                    ctx.state(hmix(hashf(&out[0]), j as u64));
                    ctx.trans((pos - start) as u64);
                }
                ctx.trace();
            }
        });
    });
    ctx.part("filters", list.len() as u64);
}

fn describe(op: usize, n_par: usize, k: K) -> String {
    if op < n_par {
        format!("{:?} with {:?}", STEPS[op % STEPS.len()], params(k, op / STEPS.len()))
    } else {
        ["modulated block", "reset", "44.1 kHz", "8 kHz", "96 kHz"][op - n_par].into()
    }
}

fn polar(w: f64) -> (f64, f64) {
    (w.cos(), -w.sin())
}

/// Transform of impulse response.
fn transform(h: &[f64], w: f64) -> (f64, f64) {
    let (c, s) = polar(w);
    let (mut re, mut im) = (0.0, 0.0);
    for x in h.iter().rev() {
        // Horner's rule.
        let r = re * c - im * s + x;
        im = re * s + im * c;
        re = r;
    }
    (re, im)
}
fn div(a: (f64, f64), b: (f64, f64)) -> (f64, f64) {
    let n = b.0 * b.0 + b.1 * b.1;
    ((a.0 * b.0 + a.1 * b.1) / n, (a.1 * b.0 - a.0 * b.1) / n)
}

fn impulse(u: &mut Unit, p: &[f32; 3], n: usize) -> Vec<f64> {
    let mut d = Driver::new(&**u);
    let mut out = vec![vec![]];
    let mut pos = 0;
    while pos < n {
        pos = d.step(&mut **u, Step::Block(64), pos, &|c, i| if c > 0 { p[c - 1] } else { (i == 0) as usize as f32 }, &mut out);
    }
    out[0].iter().map(|x| *x as f64).collect()
}

/// Measured frequency response of linear filters against analog prototypes.
fn responses(ctx: &Ctx) {
    let list: Vec<Entry> = entries().into_iter().filter(|e| e.sub == 1 && e.tol < 1e-3 && e.k != K::Moog && !matches!(e.k, K::Non(..))).collect();
    let rates = ctx.q(vec![44100.0], vec![11025.0, 44100.0, 48000.0, 96000.0]);
    ctx.par(list.len(), |j| {
        let e = &list[j];
        ctx.case(&e.name, || {
            for rate in &rates {
                let rate: f64 = *rate;
                for t in 0..TUPLES.len() {
                    let p = params(e.k, t);
                    let q = p.map(|x| x as f64);
                    let mut u = (e.make)(p);
                    u.set_sample_rate(rate);
                    let n = if e.k == K::Pink { 1 << 15 } else { 1 << 13 };
                    let h = impulse(&mut u, &p, n);
                    let tail: f64 = h[n - 64..].iter().map(|x| x.abs()).sum();
                    if tail > 1e-3 {
                        let m = format!("{} with {:?} at {} Hz: impulse response has not decayed", e.name, p, rate);
                        ctx.violation(&e.name, m.clone(), m);
                        return;
                    }
                    for step in 0..48 {
                        let f = 20.0 * (rate * 0.499 / 20.0).powf(step as f64 / 47.0);
                        let m = transform(&h, TAU * f / rate);
                        let w = (PI * f / rate).tan() / (PI * q[0] / rate).tan();
                        let frac = |c: ([f64; 3], [f64; 3])| {
                            let v = |c: [f64; 3]| (c[2] - c[0] * w * w, c[1] * w);
                            div(v(c.0), v(c.1))
                        };
                        let mag = (m.0 * m.0 + m.1 * m.1).sqrt();
                        let x = match e.k {
                            K::Svf(s) | K::Biq(s) if s != S::Reson => frac(analog(s, &q)),
                            K::Morph => {
                                let a = frac(analog(S::Peak, &q));
                                ((a.0 + q[2]) * 0.5, a.1 * 0.5)
                            }
                            K::AllPole => {
                                // Gain is one and delay at DC is the parameter.
                                if (mag - 1.0).abs() > 1e-3 || (step == 0 && (-m.1.atan2(m.0) / (TAU * f / rate) - q[0]).abs() > 0.02) {
                                    let m = format!("{} with delay {} at {} Hz has gain {} and phase {} at {} Hz", e.name, p[0], rate, mag, m.1.atan2(m.0), f);
                                    ctx.violation(&e.name, m.clone(), m);
                                    return;
                                }
                                continue;
                            }
                            K::Pink => {
                                // 3 dB per octave.
                                let db = 20.0 * mag.log10() + 10.0 * (f / (rate / 44100.0)).log10();
                                let reference = 20.0 * { let m = transform(&h, TAU * 1000.0 / 44100.0); (m.0 * m.0 + m.1 * m.1).sqrt() }.log10() + 30.0;
                                if f / rate < 18000.0 / 44100.0 && (db - reference).abs() > 0.3 {
                                    let m = format!("{} at {} Hz deviates by {} dB from 3 dB per octave at {} Hz", e.name, rate, db - reference, f);
                                    ctx.violation(&e.name, m.clone(), m);
                                    return;
                                }
                                continue;
                            }
                            _ => continue,
                        };
                        if (m.0 - x.0).hypot(m.1 - x.1) > 2e-3 * (1.0 + x.0.hypot(x.1)) {
                            let m = format!("{} with {:?} at {} Hz: response at {} Hz is {:?}, expected {:?}", e.name, p, rate, f, m, x);
                            ctx.violation(&e.name, m.clone(), m);
                            return;
                        }
                        ctx.trans(1);
                    }
                    ctx.state(hmix(j as u64, hmix(t as u64, rate as u64)));
                    ctx.trace();
                    // Resonator: power does not depend on Q.
                    if e.k == K::Biq(S::Reson) && q[0] / q[1] < 500.0 {
                        let power: f64 = h.iter().map(|x| x * x).sum();
                        if !((power - 0.5).abs() < 0.03) {
                            let m = format!("{} with {:?} at {} Hz: power is {}", e.name, p, rate, power);
                            ctx.violation(&e.name, m.clone(), m);
                        }
                    }
                }
            }
        });
    });
    ctx.part("frequency responses", (list.len() * TUPLES.len() * rates.len()) as u64);
}

/// Plain biquads and the bank: all sequences of coefficient settings.
fn biquads(ctx: &Ctx) {
    use fundsp::biquad_bank::BiquadBank;
    use fundsp::prelude::An;
    use fundsp::wide::{f32x8, f64x4};
    let sets: [[f32; 5]; 3] = [[-1.2, 0.5, 0.3, -0.2, 0.1], [0.4, 0.1, 1.0, 0.5, -0.25], [0.0, -0.3, -0.7, 0.0, 0.9]];
    let depth = ctx.q(4, 6);
    for kind in 0..4 {
        let make = move || -> Unit {
            match kind {
                0 => Box::new(fundsp::hacker::biquad(sets[0][0], sets[0][1], sets[0][2], sets[0][3], sets[0][4])),
                1 => Box::new(fundsp::hacker32::biquad(sets[0][0], sets[0][1], sets[0][2], sets[0][3], sets[0][4])),
                2 => Box::new(An(BiquadBank::<f64x4>::new())),
                _ => Box::new(An(BiquadBank::<f32x8>::new())),
            }
        };
        let lanes = make().inputs();
        // Set lane to coefficients, or process in blocks or ticks, or reset.
        let set_lanes = if lanes == 1 { 1 } else { 3 };
        let alphabet = set_lanes * 3 + 3;
        let total = alphabet_pow(alphabet, depth);
        ctx.par(total.div_ceil(512), |j| {
            for code in j * 512..((j + 1) * 512).min(total) {
                ctx.case("biquad", || {
                    let seq = digits(code, alphabet, depth);
                    let mut u = make();
                    let mut c = vec![if lanes == 1 { sets[0] } else { [0.0; 5] }; lanes];
                    let mut s = vec![[0.0f64; 4]; lanes];
                    let mut d = Driver::new(&*u);
                    let mut pos = 0;
                    for op in seq.iter().copied().chain([set_lanes * 3]) {
                        if op < set_lanes * 3 {
                            // First, last and a middle lane.
                            let lane = [0, lanes - 1, lanes / 2][op / 3];
                            let x = sets[op % 3];
                            c[lane] = x;
                            let setting = Setting::biquad(x[0], x[1], x[2], x[3], x[4]);
                            u.set(if lanes == 1 { setting } else { setting.index(lane) });
                            continue;
                        }
                        if op == set_lanes * 3 + 2 {
                            u.reset();
                            s.fill([0.0; 4]);
                            continue;
                        }
                        let mut out = vec![vec![]; lanes];
                        let start = pos;
                        pos = d.step(&mut *u, if op == set_lanes * 3 { Step::Block(21) } else { Step::Tick }, pos, &|c, i| det((i + 1000 * c) as u64), &mut out);
                        for i in start..pos {
                            for l in 0..lanes {
                                let x = det((i + 1000 * l) as u64) as f64;
                                let k = c[l].map(|x| x as f64);
                                let t = &mut s[l];
                                let y = k[2] * x + k[3] * t[0] + k[4] * t[1] - k[0] * t[2] - k[1] * t[3];
                                *t = [x, t[0], y, t[2]];
                                let z = out[l][i - start] as f64;
                                if !((z - y).abs() < 1e-3 * (1.0 + y.abs())) {
                                    let m = format!("biquad kind {} after {:?}: channel {} at sample {} is {}, expected {}", kind, seq, l, i, z, y);
                                    ctx.violation("biquad", m.clone(), m);
                                    return;
                                }
                            }
                        }
                        ctx.trans((pos - start) as u64);
                        ctx.state(hmix(hashf(&out[0]), kind as u64));
                    }
                    ctx.trace();
                });
            }
        });
    }
    // 3-point symmetric filter from gain at Nyquist.
    ctx.case("fir3", || {
        for g in 0..=40 {
            let gain = g as f32 / 20.0;
            for mut u in [Box::new(fundsp::hacker::fir3(gain)) as Unit, Box::new(fundsp::hacker32::fir3(gain))] {
                let h = impulse(&mut u, &[0.0; 3], 64);
                let mut last = 2.0;
                for step in 0..=64 {
                    let m = transform(&h, PI * step as f64 / 64.0);
                    let mag = m.0.hypot(m.1);
                    let ok = match step {
                        0 => (mag - 1.0).abs() < 1e-5,
                        64 => (mag - gain as f64).abs() < 1e-5,
                        _ => gain >= 1.0 || mag <= last + 1e-6,
                    };
                    last = mag;
                    if !ok || h[3..].iter().any(|x| *x != 0.0) || (h[0] - h[2]).abs() > 1e-6 {
                        let m = format!("fir3({}) has gain {} at {} of Nyquist", gain, mag, step as f64 / 64.0);
                        ctx.violation("fir3", m.clone(), m);
                        return;
                    }
                }
                ctx.trace();
            }
        }
    });
}
fn alphabet_pow(a: usize, d: usize) -> usize {
    a.pow(d as u32)
}

pub fn c27(ctx: &Ctx) {
    histories(ctx);
    responses(ctx);
    biquads(ctx);
}
