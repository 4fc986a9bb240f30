//! Catalog of units: every opcode of the preludes, with input kinds.
use fundsp::audiounit::AudioUnit;
use fundsp::buffer::*;
use fundsp::MAX_BUFFER_SIZE;
use crate::fw::det;

#[derive(Clone, Copy, Debug)]
pub enum In {
    /// Audio input.
    A,
    /// Control input with the given range.
    C(f32, f32),
}
pub use In::*;

pub struct Entry {
    pub name: String,
    pub make: Box<dyn Fn() -> Box<dyn AudioUnit> + Send + Sync>,
    pub ins: Vec<In>,
    /// Relative tolerance for block equivalence.
    pub tol: f32,
    /// Excluded from certain checks: "b" block, "r" reset, "c" clone, "s" sample rate.
    pub skip: &'static str,
}

/// Input signal `sig` for channel `ch` at sample `i`.
pub fn signal(kind: In, sig: usize, ch: usize, i: usize) -> f32 {
    match (kind, sig) {
        (A, 0) => det((ch * 100003 + i) as u64) * 0.9,
        (A, 1) => {
            if i == ch % 3 || i == 37 || i == 64 { 1.0 } else { 0.0 }
        }
        (A, 2) => {
            let p = [0.5, -0.25, 0.75, -0.625][(i / 11) % 4];
            p + 0.125 * ch as f32
        }
        (A, _) => 0.0,
        (C(lo, hi), 0) => {
            let x = ((i as f32) * 0.05 + ch as f32).sin() * 0.5 + 0.5;
            lo + (hi - lo) * x
        }
        (C(lo, hi), 1) => {
            let b = [0usize, 3, 5, 13, 40, 64, 65, 100, 111, 150];
            let n = b.iter().filter(|x| **x <= i).count();
            let x = [0.5, 1.0, 0.2, 0.7, 0.0, 0.4][(n + ch) % 6];
            lo + (hi - lo) * x
        }
        (C(lo, hi), _) => lo + (hi - lo) * 0.3,
    }
}

/// One processing step.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Step {
    Tick,
    Block(usize),
}

/// Drives a unit with the given steps, appending outputs. Input and output buffers are poisoned outside the valid range.
pub struct Driver {
    input: BufferVec,
    output: BufferVec,
    tin: Vec<f32>,
    tout: Vec<f32>,
}

impl Driver {
    pub fn new(unit: &dyn AudioUnit) -> Driver {
        Driver {
            input: BufferVec::new(unit.inputs()),
            output: BufferVec::new(unit.outputs()),
            tin: vec![0.0; unit.inputs()],
            tout: vec![0.0; unit.outputs()],
        }
    }
    /// Run a step at stream position `pos`. Returns new position.
    pub fn step(
        &mut self,
        unit: &mut dyn AudioUnit,
        s: Step,
        pos: usize,
        f: &dyn Fn(usize, usize) -> f32,
        out: &mut [Vec<f32>],
    ) -> usize {
        match s {
            Step::Tick => {
                for c in 0..self.tin.len() {
                    self.tin[c] = f(c, pos);
                }
                self.tout.fill(555.0);
                crate::rt::section(|| unit.tick(&self.tin, &mut self.tout));
                for c in 0..self.tout.len() {
                    out[c].push(self.tout[c]);
                }
                pos + 1
            }
            Step::Block(n) => {
                for c in 0..self.tin.len() {
                    for i in 0..MAX_BUFFER_SIZE {
                        self.input.set_f32(c, i, if i < n { f(c, pos + i) } else { 77.0 });
                    }
                }
                for c in 0..self.tout.len() {
                    self.output.channel_f32_mut(c).fill(555.0);
                }
                crate::rt::section(|| unit.process(n, &self.input.buffer_ref(), &mut self.output.buffer_mut()));
                for c in 0..self.tout.len() {
                    for i in 0..n {
                        out[c].push(self.output.at_f32(c, i));
                    }
                }
                pos + n
            }
        }
    }
    pub fn ticks(&mut self, unit: &mut dyn AudioUnit, from: usize, n: usize, f: &dyn Fn(usize, usize) -> f32, out: &mut [Vec<f32>]) {
        for i in 0..n {
            self.step(unit, Step::Tick, from + i, f, out);
        }
    }
}

/// Compare channel vectors. Returns the first difference.
pub fn diff(a: &[Vec<f32>], b: &[Vec<f32>], tol: f32) -> Option<(usize, usize, f32, f32)> {
    for c in 0..a.len() {
        let mut scale = 1.0f32;
        let n = a[c].len().min(b[c].len());
        for i in 0..n {
            let (x, y) = (a[c][i], b[c][i]);
            if x.is_finite() { scale = scale.max(x.abs()); }
            let ok = if x.is_nan() || y.is_nan() { x.is_nan() && y.is_nan() } else if x == y { true } else { (x - y).abs() <= tol * scale };
            if !ok {
                return Some((c, i, x, y));
            }
        }
    }
    None
}

macro_rules! e {
    ($v:ident, $p:expr, $name:expr, [$($k:expr),*], $body:expr) => {
        $v.push(Entry { name: format!("{}{}", $p, $name), make: Box::new(|| Box::new($body) as Box<dyn AudioUnit>), ins: vec![$($k),*], tol: 1e-4, skip: "" });
    };
}
/// Adjust tolerance and exclusions of the latest entry.
fn adj(v: &mut [Entry], tol: f32, skip: &'static str) {
    let e = v.last_mut().unwrap();
    e.tol = tol;
    e.skip = skip;
}

macro_rules! common {
    ($v:ident, $p:expr, [$($m:ident)::+], $T:ty) => {
        use $($m)::+::*;
        let v = &mut *$v;
        let p = $p;
        let f = C(50.0, 3000.0);
        let qq = C(0.3, 5.0);
        let g = C(0.25, 4.0);
        e!(v, p, "constant", [], constant((1.0, -0.5)));
        e!(v, p, "dc", [], dc(0.25));
        e!(v, p, "zero", [], zero());
        e!(v, p, "multizero3", [], multizero::<U3>());
        e!(v, p, "pass", [A], pass());
        e!(v, p, "multipass3", [A, A, A], multipass::<U3>());
        e!(v, p, "sink", [A], sink());
        e!(v, p, "multisink2", [A, A], multisink::<U2>());
        e!(v, p, "reverse3", [A, A, A], reverse::<U3>());
        e!(v, p, "sine", [f], sine());
        adj(v, 1e-3, "");
        e!(v, p, "sine_phase", [f], sine().phase(0.3));
        adj(v, 1e-3, "");
        e!(v, p, "sine_hz", [], sine_hz(440.0));
        adj(v, 1e-3, "");
        e!(v, p, "sine_hz_neg", [C(-3000.0, 3000.0)], sine());
        adj(v, 1e-3, "");
        e!(v, p, "ramp", [f], ramp());
        e!(v, p, "ramp_phase", [f], ramp().phase(0.5));
        e!(v, p, "ramp_hz", [], ramp_hz(441.0));
        e!(v, p, "rossler", [f], rossler());
        e!(v, p, "lorenz", [f], lorenz());
        e!(v, p, "add", [A, A], add((1.0, 2.0)));
        e!(v, p, "sub", [A, A], sub((1.0, 2.0)));
        e!(v, p, "mul", [A, A], mul((0.5, 2.0)));
        e!(v, p, "butterpass", [A, f], butterpass());
        e!(v, p, "butterpass_hz", [A], butterpass_hz(1000.0));
        e!(v, p, "lowpole", [A, f], lowpole());
        e!(v, p, "lowpole_hz", [A], lowpole_hz(1000.0));
        e!(v, p, "allpole", [A, C(0.1, 2.0)], allpole());
        e!(v, p, "allpole_delay", [A], allpole_delay(0.6));
        e!(v, p, "highpole", [A, f], highpole());
        e!(v, p, "highpole_hz", [A], highpole_hz(1000.0));
        e!(v, p, "resonator", [A, f, C(0.5, 8.0)], resonator());
        e!(v, p, "resonator_hz", [A], resonator_hz(1000.0, 100.0));
        e!(v, p, "biquad", [A], biquad(-0.5, 0.2, 0.3, 0.4, 0.1));
        e!(v, p, "moog", [A, f, C(0.0, 0.9)], moog());
        e!(v, p, "moog_q", [A, f], moog_q(0.5));
        e!(v, p, "moog_hz", [A], moog_hz(1000.0, 0.5));
        e!(v, p, "envelope", [], envelope(|t| (sin_hz(5.0, t), exp(-t))));
        e!(v, p, "lfo", [], lfo(|t| 1.0 + cos_hz(7.0, t)));
        e!(v, p, "envelope2", [g], envelope2(|t, x| exp(-t * 3.0) * x));
        e!(v, p, "lfo2", [g], lfo2(|t, x| exp(-t * 3.0) * x));
        e!(v, p, "envelope3", [g, g], envelope3(|t, x, y| (t + x, t - y)));
        e!(v, p, "lfo3", [g, g], lfo3(|t, x, y| t * 2.0 + x - y));
        e!(v, p, "envelope_in", [g, g, g], envelope_in(|t, i: &Frame<f32, U3>| (t + i[0] as $T, t - (i[1] - i[2]) as $T)));
        e!(v, p, "lfo_in", [g, g, g], lfo_in(|t, i: &Frame<f32, U3>| t * i[1] as $T + (i[0] - i[2]) as $T));
        e!(v, p, "adsr_live", [C(-1.0, 1.0)], adsr_live(0.001, 0.0005, 0.6, 0.0007));
        e!(v, p, "mls", [], mls());
        e!(v, p, "mls_bits5", [], mls_bits(5));
        e!(v, p, "noise", [], noise());
        e!(v, p, "noise_seed", [], noise().seed(7));
        e!(v, p, "white", [], white());
        e!(v, p, "hold", [A, f], hold(0.5));
        e!(v, p, "hold_hz", [A], hold_hz(5000.0, 0.0));
        e!(v, p, "fir", [A], fir((0.5, 0.25, -0.25, 0.125)));
        e!(v, p, "fir3", [A], fir3(0.3));
        e!(v, p, "tick", [A], tick());
        e!(v, p, "multitick2", [A, A], multitick::<U2>());
        e!(v, p, "delay0", [A], delay(0.0));
        e!(v, p, "delay", [A], delay(0.0005));
        e!(v, p, "delay_long", [A], delay(0.003));
        e!(v, p, "tap", [A, C(0.0002, 0.0018)], tap(0.0002, 0.0018));
        e!(v, p, "tap_0", [A, C(0.0, 0.0005)], tap(0.0, 0.0005));
        e!(v, p, "multitap3", [A, C(0.0002, 0.0018), C(0.0002, 0.001), C(0.001, 0.0018)], multitap::<U3>(0.0002, 0.0018));
        e!(v, p, "tap_linear", [A, C(0.0, 0.0018)], tap_linear(0.0, 0.0018));
        e!(v, p, "tap_linear_pow2", [A, C(0.0, 62.0 / 44100.0)], tap_linear(0.0, 62.0 / 44100.0));
        e!(v, p, "tap_pow2", [A, C(0.0, 62.0 / 44100.0)], tap(0.0, 62.0 / 44100.0));
        e!(v, p, "multitap_linear2", [A, C(0.0, 0.0018), C(0.0, 0.001)], multitap_linear::<U2>(0.0, 0.0018));
        e!(v, p, "oversample", [A], oversample(shape(Tanh(2.0))));
        e!(v, p, "oversample_gen", [f], oversample(sine()));
        e!(v, p, "resample", [C(0.3, 2.5)], resample(noise() | sine_hz(300.0)));
        e!(v, p, "feedback", [A], feedback(delay(0.0003) * 0.5));
        e!(v, p, "feedback2", [A], feedback2(delay(0.0003) * 0.5, lowpole_hz(1000.0)));
        e!(v, p, "feedback_st", [A, A], feedback((delay(0.0003) * 0.5) | (lowpole_hz(500.0) * 0.7)));
        e!(v, p, "allnest_c", [A], allnest_c(0.5, delay(0.0003)));
        e!(v, p, "allnest", [A, C(-0.7, 0.7)], allnest(tick()));
        e!(v, p, "map", [A, A], map(|i: &Frame<f32, U2>| (i[0] + i[1], i[0] * i[1], i[1])));
        e!(v, p, "dcblock", [A], dcblock());
        e!(v, p, "dcblock_hz", [A], dcblock_hz(200.0));
        e!(v, p, "declick", [A], declick());
        e!(v, p, "declick_s", [A], declick_s(0.001));
        e!(v, p, "shape_fn", [A], shape_fn(|x| x * x));
        e!(v, p, "shape_clip", [A], shape(Clip(2.0)));
        e!(v, p, "shape_clipto", [A], shape(ClipTo(-0.2, 0.4)));
        e!(v, p, "shape_tanh", [A], shape(Tanh(2.0)));
        e!(v, p, "shape_atan", [A], shape(Atan(2.0)));
        e!(v, p, "shape_softsign", [A], shape(Softsign(2.0)));
        e!(v, p, "shape_crush", [A], shape(Crush(7.0)));
        e!(v, p, "shape_crush2", [A], shape(Crush(2.0)));
        e!(v, p, "shape_crush12", [A], shape(Crush(12.0)));
        e!(v, p, "shape_softcrush", [A], shape(SoftCrush(10.0)));
        e!(v, p, "shape_softcrush8", [A], shape(SoftCrush(8.0)));
        adj(v, 1e-3, "");
        e!(v, p, "shape_adaptive", [A], shape(Adaptive::new(0.01, Tanh(1.0))));
        e!(v, p, "clip", [A], clip());
        e!(v, p, "clip_to", [A], clip_to(-0.5, 0.2));
        e!(v, p, "panner", [A, C(-1.0, 1.0)], panner());
        e!(v, p, "pan", [A], pan(0.3));
        e!(v, p, "follow", [A], follow(0.001));
        e!(v, p, "afollow", [A], afollow(0.0005, 0.002));
        e!(v, p, "limiter", [A], limiter(0.0005, 0.002));
        e!(v, p, "limiter_stereo", [A, A], limiter_stereo(0.001, 0.01));
        e!(v, p, "pinkpass", [A], pinkpass());
        e!(v, p, "pink", [], pink());
        e!(v, p, "brown", [], brown());
        e!(v, p, "fdn", [A, A, A, A], fdn::<U4, _>(stacki::<U4, _, _>(|i| delay([0.0002, 0.0003, 0.0004, 0.0007][i as usize]) * 0.5)));
        e!(v, p, "fdn2", [A, A], fdn2::<U2, _, _>(stacki::<U2, _, _>(|i| delay([0.0002, 0.0003, 0.0004, 0.0007][i as usize])), (lowpole_hz(1000.0) | lowpole_hz(3000.0)) * 0.5));
        e!(v, p, "bus", [A], bus(lowpole_hz(1000.0), tick()));
        e!(v, p, "busi", [A], busi::<U3, _, _>(|i| mul(i as f32) >> lowpole_hz([100.0, 1100.0, 2100.0][i as usize])));
        e!(v, p, "busf", [A], busf::<U3, _, _>(|x| lowpole_hz(100.0 + 1000.0 * x)));
        e!(v, p, "stack", [A, A], stack(lowpole_hz(1000.0), tick()));
        e!(v, p, "stacki", [A, A, A], stacki::<U3, _, _>(|i| mul(i as f32)));
        e!(v, p, "stackf", [A, A], stackf::<U2, _, _>(|x| lowpole_hz(100.0 + 1000.0 * x)));
        e!(v, p, "stacki_gen", [], stacki::<U3, _, _>(|i| dc(i as f32)));
        e!(v, p, "stacki_join", [A, A, A, A], stacki::<U2, _, _>(|_| join::<U2>()));
        e!(v, p, "branch", [A], branch(lowpole_hz(1000.0), tick()));
        e!(v, p, "branchi", [A], branchi::<U3, _, _>(|i| mul(i as f32)));
        e!(v, p, "branchf", [A], branchf::<U3, _, _>(|x| lowpole_hz(100.0 + 1000.0 * x)));
        e!(v, p, "thru_sink", [A], !sink());
        e!(v, p, "thru", [A, A, A], thru(join::<U3>()));
        e!(v, p, "thru_more", [A], thru(split::<U3>()));
        e!(v, p, "product", [A, A], product(pass(), tick()));
        e!(v, p, "sum", [A, A], sum(pass(), tick()));
        e!(v, p, "sumi", [A, A, A], sumi::<U3, _, _>(|i| mul(i as f32 + 0.5)));
        e!(v, p, "sumf", [A, A, A], sumf::<U3, _, _>(|x| lowpole_hz(100.0 + 1000.0 * x)));
        e!(v, p, "pipe", [A], pipe(lowpole_hz(1000.0), tick()));
        e!(v, p, "pipei", [A], pipei::<U3, _, _>(|i| mul(i as f32 + 0.5) >> lowpole_hz(1000.0)));
        e!(v, p, "pipef", [A], pipef::<U3, _, _>(|x| lowpole_hz(500.0 + 1000.0 * x)));
        e!(v, p, "split3", [A], split::<U3>());
        e!(v, p, "multisplit", [A, A], multisplit::<U2, U3>());
        e!(v, p, "join3", [A, A, A], join::<U3>());
        e!(v, p, "multijoin", [A, A, A, A, A, A], multijoin::<U2, U3>());
        e!(v, p, "reverb_stereo", [A, A], reverb_stereo(10.0, 1.0, 0.5));
        e!(v, p, "reverb2_stereo", [A, A], reverb2_stereo(10.0, 1.0, 0.5, 1.0, lowpole_hz(2000.0)));
        e!(v, p, "reverb3_stereo", [A, A], reverb3_stereo(1.0, 0.5, lowpole_hz(2000.0)));
        e!(v, p, "reverb4_stereo", [A, A], reverb4_stereo(10.0, 1.0));
        e!(v, p, "dsf_saw", [f, C(0.1, 0.9)], dsf_saw());
        e!(v, p, "dsf_saw_r", [f], dsf_saw_r(0.5));
        e!(v, p, "dsf_square", [f, C(0.1, 0.9)], dsf_square());
        e!(v, p, "dsf_square_r", [f], dsf_square_r(0.5));
        e!(v, p, "pluck", [A], pluck(440.0, 0.5, 0.3));
        e!(v, p, "saw", [C(441.0, 441.0)], saw());
        adj(v, 1e-3, "");
        e!(v, p, "saw_var", [C(200.0, 260.0)], saw());
        adj(v, 1e-1, "");
        e!(v, p, "square", [C(441.0, 441.0)], square());
        adj(v, 1e-3, "");
        e!(v, p, "square_var", [C(200.0, 260.0)], square());
        adj(v, 1e-1, "");
        e!(v, p, "triangle", [C(441.0, 441.0)], triangle());
        adj(v, 1e-3, "");
        e!(v, p, "triangle_var", [C(200.0, 260.0)], triangle());
        adj(v, 2e-2, "");
        e!(v, p, "organ", [C(441.0, 441.0)], organ());
        adj(v, 1e-3, "");
        e!(v, p, "organ_var", [C(200.0, 260.0)], organ());
        adj(v, 2e-2, "");
        e!(v, p, "soft_saw", [C(441.0, 441.0)], soft_saw());
        adj(v, 1e-3, "");
        e!(v, p, "soft_saw_var", [C(200.0, 260.0)], soft_saw());
        adj(v, 2e-2, "");
        e!(v, p, "hammond", [C(441.0, 441.0)], hammond());
        adj(v, 1e-3, "");
        e!(v, p, "hammond_var", [C(200.0, 260.0)], hammond());
        adj(v, 2e-2, "");
        e!(v, p, "saw_neg", [C(-300.0, -270.0)], saw());
        adj(v, 1e-1, "");
        e!(v, p, "saw_hz", [], saw_hz(440.0));
        adj(v, 2e-3, "");
        e!(v, p, "square_hz", [], square_hz(440.0));
        adj(v, 2e-3, "");
        e!(v, p, "triangle_hz", [], triangle_hz(440.0));
        adj(v, 2e-3, "");
        e!(v, p, "organ_hz", [], organ_hz(440.0));
        adj(v, 2e-3, "");
        e!(v, p, "soft_saw_hz", [], soft_saw_hz(440.0));
        adj(v, 2e-3, "");
        e!(v, p, "hammond_hz", [], hammond_hz(440.0));
        adj(v, 2e-3, "");
        e!(v, p, "saw_phase", [C(300.0, 300.0)], saw().phase(0.25));
        adj(v, 1e-3, "");
        e!(v, p, "lowpass", [A, f, qq], lowpass());
        e!(v, p, "lowpass_hz", [A], lowpass_hz(1000.0, 1.0));
        e!(v, p, "lowpass_subsample3", [A, f, qq], lowpass().subsample(3));
        e!(v, p, "bandpass_subsample64", [A, f, qq], bandpass().subsample(64));
        e!(v, p, "lfo_interval", [], lfo(|t| sin_hz(50.0, t)).interval(0.0007));
        e!(v, p, "saw_hz_phase", [], saw_hz(440.0).phase(0.3));
        adj(v, 2e-3, "");
        e!(v, p, "pink_seed", [], pink().seed(7));
        e!(v, p, "lowpass_q", [A, f], lowpass_q(2.0));
        e!(v, p, "highpass", [A, f, qq], highpass());
        e!(v, p, "highpass_hz", [A], highpass_hz(1000.0, 1.0));
        e!(v, p, "highpass_q", [A, f], highpass_q(2.0));
        e!(v, p, "bandpass", [A, f, qq], bandpass());
        e!(v, p, "bandpass_hz", [A], bandpass_hz(1000.0, 1.0));
        e!(v, p, "bandpass_q", [A, f], bandpass_q(2.0));
        e!(v, p, "notch", [A, f, qq], notch());
        e!(v, p, "notch_hz", [A], notch_hz(1000.0, 1.0));
        e!(v, p, "notch_q", [A, f], notch_q(2.0));
        e!(v, p, "peak", [A, f, qq], peak());
        e!(v, p, "peak_hz", [A], peak_hz(1000.0, 1.0));
        e!(v, p, "peak_q", [A, f], peak_q(2.0));
        e!(v, p, "allpass", [A, f, qq], allpass());
        e!(v, p, "allpass_hz", [A], allpass_hz(1000.0, 1.0));
        e!(v, p, "allpass_q", [A, f], allpass_q(2.0));
        e!(v, p, "bell", [A, f, qq, g], bell());
        e!(v, p, "bell_hz", [A], bell_hz(1000.0, 1.0, 2.0));
        e!(v, p, "bell_q", [A, f], bell_q(2.0, 0.5));
        e!(v, p, "lowshelf", [A, f, qq, g], lowshelf());
        e!(v, p, "lowshelf_hz", [A], lowshelf_hz(1000.0, 1.0, 2.0));
        e!(v, p, "lowshelf_q", [A, f], lowshelf_q(2.0, 0.5));
        e!(v, p, "highshelf", [A, f, qq, g], highshelf());
        e!(v, p, "highshelf_hz", [A], highshelf_hz(1000.0, 1.0, 2.0));
        e!(v, p, "highshelf_q", [A, f], highshelf_q(2.0, 0.5));
        e!(v, p, "lowrez", [A, f, C(0.0, 0.9)], lowrez());
        e!(v, p, "lowrez_hz", [A], lowrez_hz(1000.0, 0.5));
        e!(v, p, "lowrez_q", [A, f], lowrez_q(0.5));
        e!(v, p, "bandrez", [A, f, C(0.0, 0.9)], bandrez());
        e!(v, p, "bandrez_hz", [A], bandrez_hz(1000.0, 0.5));
        e!(v, p, "bandrez_q", [A, f], bandrez_q(0.5));
        e!(v, p, "pulse", [C(300.0, 300.0), C(0.1, 0.9)], pulse());
        adj(v, 1e-2, "");
        e!(v, p, "morph", [A, f, qq, C(-1.0, 1.0)], morph());
        e!(v, p, "morph_hz", [A], morph_hz(1000.0, 1.0, 0.5));
        e!(v, p, "wavech", [], wavech(&test_wave(), 0, None));
        e!(v, p, "wavech_loop", [], wavech(&test_wave(), 1, Some(10)));
        e!(v, p, "wavech_at", [], wavech_at(&test_wave(), 1, 5, 30, Some(7)));
        e!(v, p, "chorus", [A], chorus(0, 0.0005, 0.0005, 0.5));
        e!(v, p, "flanger", [A], flanger(0.5, 0.0005, 0.001, |t| lerp11(0.0005, 0.001, sin_hz(30.0, t))));
        e!(v, p, "phaser", [A], phaser(0.5, |t| sin_hz(0.5, t) * 0.5 + 0.5));
        e!(v, p, "var", [], var(&shared(0.75)));
        e!(v, p, "var_fn", [], var_fn(&shared(0.75), |x| (x, x * 2.0)));
        e!(v, p, "resynth", [A], resynth::<U1, U1, _>(32, |w| w.forward(0, 0)));
        e!(v, p, "resynth2", [A, A], resynth::<U2, U2, _>(16, |w| { w.forward(0, 1); w.forward(1, 0); }));
        e!(v, p, "impulse2", [], impulse::<U2>());
        e!(v, p, "rotate", [A, A], rotate(0.5, 0.9));
        e!(v, p, "unit", [A, A], unit::<U2, U3>(Box::new(tick() | split::<U2>())));
        e!(v, p, "meter_sample", [A], meter(Meter::Sample));
        e!(v, p, "meter_peak", [A], meter(Meter::Peak(0.9)));
        e!(v, p, "meter_rms", [A], meter(Meter::Rms(0.9)));
        e!(v, p, "monitor", [A], monitor(&shared(0.0), Meter::Peak(0.9)));
        e!(v, p, "timer", [], timer(&shared(0.0)));
        e!(v, p, "timer_thru", [A], pass() | timer(&shared(0.0)));
        e!(v, p, "snoop", [A], snoop(128).1);
        e!(v, p, "dbell", [A, f, qq, g], dbell(Tanh(1.0)));
        e!(v, p, "dbell_hz", [A], dbell_hz(Softsign(1.0), 1000.0, 1.0, 2.0));
        e!(v, p, "fbell", [A, f, qq, g], fbell(Tanh(1.0)));
        e!(v, p, "fbell_hz", [A], fbell_hz(Tanh(1.0), 1000.0, 1.0, 2.0));
        e!(v, p, "dhighpass", [A, f, qq], dhighpass(Tanh(1.0)));
        e!(v, p, "dhighpass_hz", [A], dhighpass_hz(Tanh(1.0), 1000.0, 1.0));
        e!(v, p, "fhighpass", [A, f, qq], fhighpass(Tanh(1.0)));
        e!(v, p, "fhighpass_hz", [A], fhighpass_hz(Tanh(1.0), 1000.0, 1.0));
        e!(v, p, "dlowpass", [A, f, qq], dlowpass(Tanh(1.0)));
        e!(v, p, "dlowpass_hz", [A], dlowpass_hz(Tanh(1.0), 1000.0, 1.0));
        e!(v, p, "flowpass", [A, f, qq], flowpass(Tanh(1.0)));
        e!(v, p, "flowpass_hz", [A], flowpass_hz(Tanh(1.0), 1000.0, 1.0));
        e!(v, p, "dresonator", [A, f, qq], dresonator(Tanh(1.0)));
        e!(v, p, "dresonator_hz", [A], dresonator_hz(Tanh(1.0), 1000.0, 1.0));
        e!(v, p, "fresonator", [A, f, qq], fresonator(Tanh(1.0)));
        e!(v, p, "fresonator_hz", [A], fresonator_hz(Tanh(1.0), 1000.0, 1.0));
        e!(v, p, "dlowpass_adaptive", [A, f, qq], dlowpass(Adaptive::new(0.01, Tanh(1.0))));
        e!(v, p, "poly_saw", [f], poly_saw());
        e!(v, p, "poly_saw_hz", [], poly_saw_hz(440.0));
        e!(v, p, "poly_square", [f], poly_square());
        e!(v, p, "poly_square_hz", [], poly_square_hz(440.0));
        e!(v, p, "poly_pulse", [f, C(0.1, 0.9)], poly_pulse());
        e!(v, p, "poly_pulse_hz", [], poly_pulse_hz(440.0, 0.3));
        // Operator and combinator compositions.
        e!(v, p, "op_add", [A], (lowpole_hz(1000.0) & tick() * 0.5) - 0.25 >> split::<U3>() >> join::<U3>());
        adj(v, 1e-4, "");
        e!(v, p, "op_mix", [A, A], ((sine_hz(300.0) | dc(0.5)) * (pass() | lowpole_hz(500.0)) >> join::<U2>()) ^ (sink() | pass()));
        adj(v, 1e-3, "x");
        e!(v, p, "op_neg", [A, A], -(tick() | pass()));
        e!(v, p, "op_scalar", [A, A], 2.0 - 0.5 * (tick() | pass()) + 1.0 - 0.25);
        e!(v, p, "op_thru2", [A, A], !(tick() | mul(2.0)) >> join::<U2>());
        e!(v, p, "op_bus_var", [A], (pass() & 0.2 * feedback(delay(0.0005) * 0.5)) >> dcblock() >> limiter(0.0005, 0.001));
        e!(v, p, "fm", [C(50.0, 500.0)], sine() * 100.0 + 440.0 >> sine());
        adj(v, 2e-3, "");
        e!(v, p, "noise_filter", [], noise() >> lowpass_hz(1000.0, 1.0) | pink() >> moog_hz(500.0, 0.3));
        e!(v, p, "net_op", [A], (Net::wrap(Box::new(lowpole_hz(1000.0))) & tick()) >> Net::wrap(Box::new(pass() ^ tick())) >> Net::wrap(Box::new(join::<U2>())));
        e!(v, p, "net_gen", [], Net::wrap(Box::new(noise())) | Net::wrap(Box::new(saw_hz(300.0) * sine_hz(50.0))));
        adj(v, 1e-3, "");
        e!(v, p, "big_block", [A], BigBlockAdapter::new(Box::new(lowpass_hz(500.0, 1.0))));
        e!(v, p, "block_rate", [], BlockRateAdapter::new(Box::new(noise() | sine_hz(400.0))));
        adj(v, 1e-3, "");
        e!(v, p, "feedback_unit0", [A], FeedbackUnit::new(0.0, Box::new(lowpole_hz(1000.0) * 0.5)));
        e!(v, p, "feedback_unit", [A, A], FeedbackUnit::new(0.0005, Box::new((pass() | lowpole_hz(1000.0)) * 0.5)));
        e!(v, p, "feedback_unit_long", [A], FeedbackUnit::new(0.0016, Box::new(mul(-0.7))));
        e!(v, p, "slot", [A], Slot::new(Box::new(lowpass_hz(800.0, 1.0))).1);
        adj(v, 1e-4, "c");
        e!(v, p, "sequencer", [], {
            let mut s = Sequencer::new(true, 2);
            s.push(0.0, 0.002, Fade::Smooth, 0.0005, 0.0003, Box::new(sine_hz(300.0) | dc(1.0)));
            s.push(33.0 / 44100.0, 150.0 / 44100.0, Fade::Power, 0.0, 0.0, Box::new(dc((0.5, 0.25))));
            s.push(70.0 / 44100.0, 1.0, Fade::Power, 0.0, 0.0, Box::new(noise() | noise()));
            s
        });
        adj(v, 1e-3, "");
        e!(v, p, "granular", [], Granular::new(2, 2, 0.01, 4, 1, 0.1, 0.2, 0.0, |_t, _b, w, x, y, _z| (0.002, 0.001, Box::new(sine_hz(xerp11(200.0, 2000.0, x)) * xerp11(0.1, 0.5, y) >> pan(w * 0.5)))));
        adj(v, 1e-2, "");
        e!(v, p, "granular_1", [], Granular::new(2, 1, 0.01, 4, 1, 0.1, 0.2, 0.0, |_t, _b, w, x, y, _z| (0.002, 0.001, Box::new(sine_hz(xerp11(200.0, 2000.0, x)) * xerp11(0.1, 0.5, y) >> pan(w * 0.5)))));
        adj(v, 1e-2, "");
        let _ = (f, qq, g);
    };
}

fn test_wave() -> std::sync::Arc<fundsp::wave::Wave> {
    let mut w = fundsp::wave::Wave::new(2, 44100.0);
    for i in 0..50 {
        w.push((det(i), det(i + 1000)));
    }
    std::sync::Arc::new(w)
}

fn cat32(v: &mut Vec<Entry>) {
    common!(v, "32:", [fundsp::hacker32], f32);
        e!(v, "32:", "biquad_bank", [A, A, A, A, A, A, A, A], {
            let mut b = biquad_bank();
            for i in 0..8 {
                b.set(Setting::biquad(-0.1 * i as f32, 0.02 * i as f32, 0.3, 0.4, 0.1).index(i));
            }
            b
        });
}
fn cat64(v: &mut Vec<Entry>) {
    common!(v, "64:", [fundsp::hacker], f64);
        e!(v, "64:", "biquad_bank", [A, A, A, A], {
            let mut b = biquad_bank();
            for i in 0..4 {
                b.set(Setting::biquad(-0.1 * i as f32, 0.02 * i as f32, 0.3, 0.4, 0.1).index(i));
            }
            b
        });
}

pub fn catalog() -> Vec<Entry> {
    let mut v = vec![];
    cat32(&mut v);
    cat64(&mut v);
    v
}

#[cfg(feature = "env")]
fn pre32(v: &mut Vec<Entry>) {
    common!(v, "p32:", [crate::shim::pre32], f32);
}
#[cfg(feature = "env")]
fn pre64(v: &mut Vec<Entry>) {
    common!(v, "p64:", [crate::shim::pre64], f64);
}
#[cfg(feature = "env")]
/// The same opcodes in four environments, in the same order: hacker32, hacker, prelude with 32 bits, prelude with 64 bits.
pub fn environments() -> [Vec<Entry>; 4] {
    let mut v: [Vec<Entry>; 4] = Default::default();
    cat32(&mut v[0]);
    cat64(&mut v[1]);
    v[0].retain(|e| !e.name.ends_with("biquad_bank"));
    v[1].retain(|e| !e.name.ends_with("biquad_bank"));
    pre32(&mut v[2]);
    pre64(&mut v[3]);
    v
}
