//! C29: opcodes mean the same in every environment.
use crate::catalog::*;
use crate::fw::*;


macro_rules! g {
    ($v:ident, $p:expr, $name:expr, [$($k:expr),*], [$($a:ident in $vals:expr),*], $body:expr) => {
        g!(@ $v, $p, $name, [$($k),*], [], [$($a in $vals),*], $body);
    };
    (@ $v:ident, $p:expr, $name:expr, [$($k:expr),*], [$($done:ident)*], [$a:ident in $vals:expr $(, $b:ident in $w:expr)*], $body:expr) => {
        for $a in $vals { g!(@ $v, $p, $name, [$($k),*], [$($done)* $a], [$($b in $w),*], $body); }
    };
    (@ $v:ident, $p:expr, $name:expr, [$($k:expr),*], [$($done:ident)*], [], $body:expr) => {{
        let mut n = format!("{}{}", $p, $name);
        $( if !stringify!($done).starts_with('_') { n += &format!(" {}={}", stringify!($done), $done); } )*
        $v.push(Entry { name: n, make: Box::new(move || Box::new($body) as Box<dyn fundsp::audiounit::AudioUnit>), ins: vec![$($k),*], tol: 1e-4, skip: "" });
    }};
}

macro_rules! grids {
    ($v:ident, $p:expr, [$($m:ident)::+], $T:ty) => {
        #[allow(unused_imports)]
        use $($m)::+::*;
        let v = &mut *$v;
        let p = $p;
        let f = C(50.0, 3000.0);
        let fs = [30.0, 441.0, 2000.0, 9000.0];
        let qs = [0.3, 1.0, 7.0, 40.0];
        let gs = [0.2, 1.0, 5.0];
        g!(v, p, "constant", [], [x in [-1.5, 0.0, 2.0], y in [0.25, 3.0]], constant((x as f32, y as f32)));
        g!(v, p, "dc", [], [x in [-1.5, 0.0, 2.0]], dc(x as f32));
        g!(v, p, "add", [A, A], [x in [-1.5, 0.0, 2.0], y in [0.25, 3.0]], add((x as f32, y as f32)));
        g!(v, p, "sub", [A, A], [x in [-1.5, 0.0, 2.0], y in [0.25, 3.0]], sub((x as f32, y as f32)));
        g!(v, p, "mul", [A, A], [x in [-1.5, 0.0, 2.0], y in [0.25, 3.0]], mul((x as f32, y as f32)));
        g!(v, p, "sine_hz", [], [x in fs], sine_hz(x as _));
        g!(v, p, "ramp_hz", [], [x in fs], ramp_hz(x as _));
        g!(v, p, "butterpass_hz", [A], [x in fs], butterpass_hz(x as _));
        g!(v, p, "lowpole_hz", [A], [x in fs], lowpole_hz(x as _));
        g!(v, p, "highpole_hz", [A], [x in fs], highpole_hz(x as _));
        g!(v, p, "allpole_delay", [A], [x in [0.1, 0.7, 1.0, 2.5]], allpole_delay(x as _));
        g!(v, p, "resonator_hz", [A], [x in fs, y in [1.0, 20.0, 300.0]], resonator_hz(x as _, y as _));
        g!(v, p, "biquad", [A], [a in [-0.5, 0.4], b in [0.2, -0.1], c in [0.3, 1.0], d in [-0.4, 0.1], e in [0.2, -0.6]], biquad(a as _, b as _, c as _, d as _, e as _));
        g!(v, p, "moog_hz", [A], [x in fs, y in [0.0, 0.3, 0.6]], moog_hz(x as _, y as _));
        g!(v, p, "moog_q", [A, f], [y in [0.0, 0.3, 0.6]], moog_q(y as _));
        g!(v, p, "adsr_live", [C(-1.0, 1.0)], [a in [0.0005, 0.002], b in [0.0004, 0.003], c in [0.2, 0.8], d in [0.0005, 0.003]], adsr_live(a as _, b as _, c as _, d as _));
        g!(v, p, "mls_bits", [], [x in [1, 2, 7, 16, 29, 31]], mls_bits(x as _));
        g!(v, p, "hold", [A, f], [x in [0.0, 0.4, 1.0]], hold(x as _));
        g!(v, p, "hold_hz", [A], [x in fs, y in [0.0, 0.4, 1.0]], hold_hz(x as _, y as _));
        g!(v, p, "fir", [A], [x in [-0.5, 0.8], y in [0.25, 1.5], z in [0.0, -1.0]], fir((x as f32, y as f32, z as f32)));
        g!(v, p, "fir3", [A], [x in [-0.5, 0.0, 0.4, 1.5]], fir3(x as _));
        g!(v, p, "delay", [A], [x in [0.0, 0.00001, 0.0005, 0.002]], delay(x as _));
        g!(v, p, "tap", [A, C(0.0, 0.003)], [x in [0.0, 0.0005], y in [0.0006, 0.002]], tap(x as _, y as _));
        g!(v, p, "multitap", [A, C(0.0, 0.003), C(0.0003, 0.001)], [x in [0.0, 0.0005], y in [0.0006, 0.002]], multitap::<U2>(x as _, y as _));
        g!(v, p, "tap_linear", [A, C(0.0, 0.003)], [x in [0.0, 0.0005], y in [0.0006, 0.002]], tap_linear(x as _, y as _));
        g!(v, p, "multitap_linear", [A, C(0.0, 0.003), C(0.0003, 0.001)], [x in [0.0, 0.0005], y in [0.0006, 0.002]], multitap_linear::<U2>(x as _, y as _));
        g!(v, p, "allnest_c", [A], [x in [-0.7, 0.0, 0.5]], allnest_c(x as _, tick() * 0.9));
        g!(v, p, "dcblock_hz", [A], [x in [1.0, 10.0, 500.0]], dcblock_hz(x as _));
        g!(v, p, "declick_s", [A], [x in [0.0001, 0.002, 0.01]], declick_s(x as _));
        g!(v, p, "clip_to", [A], [x in [-0.8, -0.1], y in [0.1, 0.6]], clip_to(x as _, y as _));
        g!(v, p, "pan", [A], [x in [-1.5, -1.0, -0.3, 0.0, 0.6, 1.0]], pan(x as _));
        g!(v, p, "follow", [A], [x in [0.0002, 0.003, 0.1]], follow(x as _));
        g!(v, p, "afollow", [A], [x in [0.0002, 0.003, 0.1], y in [0.0005, 0.02]], afollow(x as _, y as _));
        g!(v, p, "limiter", [A], [x in [0.0005, 0.002], y in [0.001, 0.01]], mul(3.0) >> limiter(x as _, y as _));
        g!(v, p, "limiter_stereo", [A, A], [x in [0.0005, 0.002], y in [0.001, 0.01]], (mul((3.0, 0.5))) >> limiter_stereo(x as _, y as _));
        g!(v, p, "reverb_stereo", [A, A], [x in [5.0, 20.0], y in [0.5, 3.0], z in [0.0, 0.4, 1.0]], reverb_stereo(x as _, y as _, z as _));
        g!(v, p, "reverb2_stereo", [A, A], [x in [10.0, 20.0], y in [0.5, 3.0], z in [0.0, 1.0], w in [0.0, 1.0]], reverb2_stereo(x as _, y as _, z as _, w as _, lowpole_hz(2000.0)));
        g!(v, p, "reverb3_stereo", [A, A], [y in [0.5, 3.0], z in [0.0, 0.3, 1.0]], reverb3_stereo(y as _, z as _, lowpole_hz(2000.0)));
        g!(v, p, "reverb4_stereo", [A, A], [x in [5.0, 20.0], y in [0.5, 3.0]], reverb4_stereo(x as _, y as _));
        g!(v, p, "reverb4_stereo_delays", [A, A], [x in [0.01, 0.03], y in [0.5, 3.0]], reverb4_stereo_delays(&core::array::from_fn::<f32, 32, _>(|i| x as f32 + i as f32 * 0.00031), y as _));
        g!(v, p, "dsf_saw_r", [f], [x in [0.1, 0.5, 0.9]], dsf_saw_r(x as _));
        g!(v, p, "dsf_square_r", [f], [x in [0.1, 0.5, 0.9]], dsf_square_r(x as _));
        g!(v, p, "pluck", [A], [x in [100.0, 700.0, 3000.0], y in [0.1, 0.6], z in [0.1, 0.7]], pluck(x as _, y as _, z as _));
        g!(v, p, "saw_hz", [], [x in fs], saw_hz(x as _));
        g!(v, p, "square_hz", [], [x in fs], square_hz(x as _));
        g!(v, p, "triangle_hz", [], [x in fs], triangle_hz(x as _));
        g!(v, p, "organ_hz", [], [x in fs], organ_hz(x as _));
        g!(v, p, "soft_saw_hz", [], [x in fs], soft_saw_hz(x as _));
        g!(v, p, "hammond_hz", [], [x in fs], hammond_hz(x as _));
        g!(v, p, "poly_saw_hz", [], [x in fs], poly_saw_hz(x as _));
        g!(v, p, "poly_square_hz", [], [x in fs], poly_square_hz(x as _));
        g!(v, p, "poly_pulse_hz", [], [x in fs, y in [0.1, 0.5, 0.8]], poly_pulse_hz(x as _, y as _));
        g!(v, p, "pulse", [C(300.0, 300.0), C(0.1, 0.9)], [x in [0.0, 0.5]], pulse().phase(x as _));
        g!(v, p, "lowpass_hz", [A], [x in fs, y in qs], lowpass_hz(x as _, y as _));
        g!(v, p, "highpass_hz", [A], [x in fs, y in qs], highpass_hz(x as _, y as _));
        g!(v, p, "bandpass_hz", [A], [x in fs, y in qs], bandpass_hz(x as _, y as _));
        g!(v, p, "notch_hz", [A], [x in fs, y in qs], notch_hz(x as _, y as _));
        g!(v, p, "peak_hz", [A], [x in fs, y in qs], peak_hz(x as _, y as _));
        g!(v, p, "allpass_hz", [A], [x in fs, y in qs], allpass_hz(x as _, y as _));
        g!(v, p, "bell_hz", [A], [x in fs, y in qs, z in gs], bell_hz(x as _, y as _, z as _));
        g!(v, p, "lowshelf_hz", [A], [x in fs, y in qs, z in gs], lowshelf_hz(x as _, y as _, z as _));
        g!(v, p, "highshelf_hz", [A], [x in fs, y in qs, z in gs], highshelf_hz(x as _, y as _, z as _));
        g!(v, p, "lowpass_q", [A, f], [y in qs], lowpass_q(y as _));
        g!(v, p, "highpass_q", [A, f], [y in qs], highpass_q(y as _));
        g!(v, p, "bandpass_q", [A, f], [y in qs], bandpass_q(y as _));
        g!(v, p, "notch_q", [A, f], [y in qs], notch_q(y as _));
        g!(v, p, "peak_q", [A, f], [y in qs], peak_q(y as _));
        g!(v, p, "allpass_q", [A, f], [y in qs], allpass_q(y as _));
        g!(v, p, "bell_q", [A, f], [y in qs, z in gs], bell_q(y as _, z as _));
        g!(v, p, "lowshelf_q", [A, f], [y in qs, z in gs], lowshelf_q(y as _, z as _));
        g!(v, p, "highshelf_q", [A, f], [y in qs, z in gs], highshelf_q(y as _, z as _));
        g!(v, p, "lowrez_hz", [A], [x in fs, y in [0.0, 0.5, 0.9]], lowrez_hz(x as _, y as _));
        g!(v, p, "lowrez_q", [A, f], [y in [0.0, 0.5, 0.9]], lowrez_q(y as _));
        g!(v, p, "bandrez_hz", [A], [x in fs, y in [0.0, 0.5, 0.9]], bandrez_hz(x as _, y as _));
        g!(v, p, "bandrez_q", [A, f], [y in [0.0, 0.5, 0.9]], bandrez_q(y as _));
        g!(v, p, "morph_hz", [A], [x in fs, y in [0.5, 4.0], z in [-1.0, -0.3, 0.6, 1.0]], morph_hz(x as _, y as _, z as _));
        g!(v, p, "chorus", [A], [x in [0, 3], y in [0.0005, 0.003], z in [0.0004, 0.002], w in [0.3, 5.0]], chorus(x as _, y as _, z as _, w as _));
        g!(v, p, "flanger", [A], [x in [0.0, 0.6], y in [0.0005, 0.001], z in [0.001, 0.002]], flanger(x as _, y as _, z as _, move |t| lerp11(y as f32, z as f32, sin_hz(30.0, t))));
        g!(v, p, "phaser", [A], [x in [0.0, 0.4, 0.8], y in [0.5, 9.0]], phaser(x as _, move |t| sin_hz(y as f32, t) * 0.5 + 0.5));
        g!(v, p, "impulse", [], [_x in [0, 1]], impulse::<U3>());
        g!(v, p, "rotate", [A, A], [x in [-1.0, 0.4, 3.0], y in [0.5, 2.0]], rotate(x as _, y as _));
        g!(v, p, "meter_peak", [A], [x in [0.0001, 0.01]], meter(Meter::Peak(x as _)));
        g!(v, p, "meter_rms", [A], [x in [0.0001, 0.01]], meter(Meter::Rms(x as _)));
        g!(v, p, "dbell_hz", [A], [x in fs, y in [0.5, 5.0], z in gs], dbell_hz(Tanh(1.0), x as _, y as _, z as _));
        g!(v, p, "fbell_hz", [A], [x in fs, y in [0.5, 5.0], z in gs], fbell_hz(Tanh(1.0), x as _, y as _, z as _));
        g!(v, p, "dhighpass_hz", [A], [x in fs, y in [0.5, 5.0]], dhighpass_hz(Tanh(1.0), x as _, y as _));
        g!(v, p, "fhighpass_hz", [A], [x in fs, y in [0.5, 5.0]], fhighpass_hz(Tanh(0.5), x as _, y as _));
        g!(v, p, "dlowpass_hz", [A], [x in fs, y in [0.5, 5.0]], dlowpass_hz(Tanh(1.0), x as _, y as _));
        g!(v, p, "flowpass_hz", [A], [x in fs, y in [0.5, 5.0]], flowpass_hz(Tanh(1.0), x as _, y as _));
        g!(v, p, "dresonator_hz", [A], [x in fs, y in [0.5, 5.0]], dresonator_hz(Tanh(1.0), x as _, y as _));
        g!(v, p, "fresonator_hz", [A], [x in fs, y in [0.5, 5.0]], fresonator_hz(Tanh(1.0), x as _, y as _));
        g!(v, p, "resynth", [A], [x in [4, 32, 64]], resynth::<U1, U1, _>(x as _, |w| w.forward(0, 0)));
        let _ = (f, fs, qs, gs);
    };
}
/// Opcodes with fixed parameters (left) and the general opcodes they stand for (right).
macro_rules! pairs {
    ($l:ident, $r:ident, $p:expr, [$($m:ident)::+], $T:ty) => {
        #[allow(unused_imports)]
        use $($m)::+::*;
        let (l, r) = (&mut *$l, &mut *$r);
        let p = $p;
        let f = C(50.0, 3000.0);
        let fs = [30.0, 441.0, 2000.0, 9000.0];
        let qs = [0.3, 1.0, 7.0, 40.0];
        let gs = [0.2, 1.0, 5.0];
        g!(l, p, "sine_hz", [], [x in fs], sine_hz(x as _));
        g!(r, p, "sine_hz", [], [x in fs], dc(x as f32) >> sine());
        g!(l, p, "ramp_hz", [], [x in fs], ramp_hz(x as _));
        g!(r, p, "ramp_hz", [], [x in fs], dc(x as f32) >> ramp());
        g!(l, p, "saw_hz", [], [x in fs], saw_hz(x as _));
        g!(r, p, "saw_hz", [], [x in fs], dc(x as f32) >> saw());
        g!(l, p, "square_hz", [], [x in fs], square_hz(x as _));
        g!(r, p, "square_hz", [], [x in fs], dc(x as f32) >> square());
        g!(l, p, "triangle_hz", [], [x in fs], triangle_hz(x as _));
        g!(r, p, "triangle_hz", [], [x in fs], dc(x as f32) >> triangle());
        g!(l, p, "organ_hz", [], [x in fs], organ_hz(x as _));
        g!(r, p, "organ_hz", [], [x in fs], dc(x as f32) >> organ());
        g!(l, p, "soft_saw_hz", [], [x in fs], soft_saw_hz(x as _));
        g!(r, p, "soft_saw_hz", [], [x in fs], dc(x as f32) >> soft_saw());
        g!(l, p, "hammond_hz", [], [x in fs], hammond_hz(x as _));
        g!(r, p, "hammond_hz", [], [x in fs], dc(x as f32) >> hammond());
        g!(l, p, "poly_saw_hz", [], [x in fs], poly_saw_hz(x as _));
        g!(r, p, "poly_saw_hz", [], [x in fs], dc(x as f32) >> poly_saw());
        g!(l, p, "poly_square_hz", [], [x in fs], poly_square_hz(x as _));
        g!(r, p, "poly_square_hz", [], [x in fs], dc(x as f32) >> poly_square());
        g!(l, p, "poly_pulse_hz", [], [x in fs, y in [0.1, 0.5, 0.8]], poly_pulse_hz(x as _, y as _));
        g!(r, p, "poly_pulse_hz", [], [x in fs, y in [0.1, 0.5, 0.8]], dc((x as f32, y as f32)) >> poly_pulse());
        g!(l, p, "butterpass_hz", [A], [x in fs], butterpass_hz(x as _));
        g!(r, p, "butterpass_hz", [A], [x in fs], (pass() | dc(x as f32)) >> butterpass());
        g!(l, p, "lowpole_hz", [A], [x in fs], lowpole_hz(x as _));
        g!(r, p, "lowpole_hz", [A], [x in fs], (pass() | dc(x as f32)) >> lowpole());
        g!(l, p, "highpole_hz", [A], [x in fs], highpole_hz(x as _));
        g!(r, p, "highpole_hz", [A], [x in fs], (pass() | dc(x as f32)) >> highpole());
        g!(l, p, "allpole_delay", [A], [x in [0.1, 0.7, 1.0, 2.5]], allpole_delay(x as _));
        g!(r, p, "allpole_delay", [A], [x in [0.1, 0.7, 1.0, 2.5]], (pass() | dc(x as f32)) >> allpole());
        g!(l, p, "resonator_hz", [A], [x in fs, y in [1.0, 20.0, 300.0]], resonator_hz(x as _, y as _));
        g!(r, p, "resonator_hz", [A], [x in fs, y in [1.0, 20.0, 300.0]], (pass() | dc((x as f32, y as f32))) >> resonator());
        g!(l, p, "moog_hz", [A], [x in fs, y in [0.0, 0.3, 0.6]], moog_hz(x as _, y as _));
        g!(r, p, "moog_hz", [A], [x in fs, y in [0.0, 0.3, 0.6]], (pass() | dc((x as f32, y as f32))) >> moog());
        g!(l, p, "moog_q", [A, f], [y in [0.0, 0.3, 0.6]], moog_q(y as _));
        g!(r, p, "moog_q", [A, f], [y in [0.0, 0.3, 0.6]], (multipass::<U2>() | dc(y as f32)) >> moog());
        g!(l, p, "hold_hz", [A], [x in fs, y in [0.0, 0.4, 1.0]], hold_hz(x as _, y as _));
        g!(r, p, "hold_hz", [A], [x in fs, y in [0.0, 0.4, 1.0]], (pass() | dc(x as f32)) >> hold(y as _));
        g!(l, p, "white", [], [_x in [0]], white());
        g!(r, p, "white", [], [_x in [0]], noise());
        g!(l, p, "pink", [], [_x in [0]], pink());
        g!(r, p, "pink", [], [_x in [0]], white() >> pinkpass());
        g!(l, p, "mls", [], [_x in [0]], mls());
        g!(r, p, "mls", [], [_x in [0]], mls_bits(29));
        g!(l, p, "zero", [], [_x in [0]], zero());
        g!(r, p, "zero", [], [_x in [0]], dc(0.0));
        g!(l, p, "multizero", [], [_x in [0]], multizero::<U3>());
        g!(r, p, "multizero", [], [_x in [0]], dc((0.0, 0.0, 0.0)));
        g!(l, p, "constant", [], [x in [-1.5, 0.5]], constant((x as f32, 1.0)));
        g!(r, p, "constant", [], [x in [-1.5, 0.5]], dc((x as f32, 1.0)));
        g!(l, p, "add", [A], [x in [-1.5, 0.5]], add(x as f32));
        g!(r, p, "add", [A], [x in [-1.5, 0.5]], pass() + x as f32);
        g!(l, p, "sub", [A], [x in [-1.5, 0.5]], sub(x as f32));
        g!(r, p, "sub", [A], [x in [-1.5, 0.5]], pass() - x as f32);
        g!(l, p, "mul", [A], [x in [-1.5, 0.5]], mul(x as f32));
        g!(r, p, "mul", [A], [x in [-1.5, 0.5]], pass() * x as f32);
        g!(l, p, "dcblock", [A], [_x in [0]], dcblock());
        g!(r, p, "dcblock", [A], [_x in [0]], dcblock_hz(10.0));
        g!(l, p, "declick", [A], [_x in [0]], declick());
        g!(r, p, "declick", [A], [_x in [0]], declick_s(0.01));
        g!(l, p, "clip", [A], [_x in [0]], mul(3.0) >> clip());
        g!(r, p, "clip", [A], [_x in [0]], mul(3.0) >> clip_to(-1.0, 1.0));
        g!(l, p, "shape_fn", [A], [x in [0.5, 2.0]], shape_fn(move |y| y * x as f32));
        g!(r, p, "shape_fn", [A], [x in [0.5, 2.0]], mul(x as f32));
        g!(l, p, "pan", [A], [x in [-1.5, -1.0, -0.3, 0.0, 0.6, 1.0]], pan(x as _));
        g!(r, p, "pan", [A], [x in [-1.5, -1.0, -0.3, 0.0, 0.6, 1.0]], (pass() | dc(x as f32)) >> panner());
        g!(l, p, "allnest_c", [A], [x in [-0.7, 0.0, 0.5]], allnest_c(x as _, tick() * 0.9));
        g!(r, p, "allnest_c", [A], [x in [-0.7, 0.0, 0.5]], (pass() | dc(x as f32)) >> allnest(tick() * 0.9));
        g!(l, p, "multitick", [A, A], [_x in [0]], multitick::<U2>());
        g!(r, p, "multitick", [A, A], [_x in [0]], tick() | tick());
        g!(l, p, "multipass", [A, A], [_x in [0]], multipass::<U2>());
        g!(r, p, "multipass", [A, A], [_x in [0]], pass() | pass());
        g!(l, p, "multisink", [A, A], [_x in [0]], multisink::<U2>());
        g!(r, p, "multisink", [A, A], [_x in [0]], sink() | sink());
        g!(l, p, "tick", [A], [_x in [0]], tick());
        g!(r, p, "tick", [A], [_x in [0]], fir((1.0, 0.0)));
        g!(l, p, "delay1", [A], [_x in [0]], delay(0.0));
        g!(r, p, "delay1", [A], [_x in [0]], pass());
        g!(l, p, "reverse", [A, A], [_x in [0]], reverse::<U2>() >> reverse::<U2>());
        g!(r, p, "reverse", [A, A], [_x in [0]], multipass::<U2>());
        g!(l, p, "split", [A], [_x in [0]], split::<U3>());
        g!(r, p, "split", [A], [_x in [0]], pass() ^ pass() ^ pass());
        g!(l, p, "multisplit", [A, A], [_x in [0]], multisplit::<U2, U2>());
        g!(r, p, "multisplit", [A, A], [_x in [0]], multipass::<U2>() ^ multipass::<U2>());
        g!(l, p, "join", [A, A], [_x in [0]], join::<U2>());
        g!(r, p, "join", [A, A], [_x in [0]], pass() * 0.5 + pass() * 0.5);
        g!(l, p, "multijoin", [A, A, A, A], [_x in [0]], multijoin::<U2, U2>());
        g!(r, p, "multijoin", [A, A, A, A], [_x in [0]], mul((0.5, 0.5)) + mul((0.5, 0.5)));
        g!(l, p, "multitap", [A, C(0.0, 0.002), C(0.0003, 0.001)], [x in [0.0, 0.0005]], multitap::<U2>(x as _, 0.002));
        g!(r, p, "multitap", [A, C(0.0, 0.002), C(0.0003, 0.001)], [x in [0.0, 0.0005]], (pass() | pass() | pass()) >> map(|i: &Frame<f32, U3>| (i[0], i[1], i[0], i[2])) >> (tap(x as _, 0.002) + tap(x as _, 0.002)));
        g!(l, p, "multitap_linear", [A, C(0.0, 0.002), C(0.0003, 0.001)], [x in [0.0, 0.0005]], multitap_linear::<U2>(x as _, 0.002));
        g!(r, p, "multitap_linear", [A, C(0.0, 0.002), C(0.0003, 0.001)], [x in [0.0, 0.0005]], (pass() | pass() | pass()) >> map(|i: &Frame<f32, U3>| (i[0], i[1], i[0], i[2])) >> (tap_linear(x as _, 0.002) + tap_linear(x as _, 0.002)));
        g!(l, p, "rotate", [A, A], [x in [-1.0, 0.4, 3.0], y in [0.5, 2.0]], rotate(x as _, y as _));
        g!(r, p, "rotate", [A, A], [x in [-1.0, 0.4, 3.0], y in [0.5, 2.0]], map(move |i: &Frame<f32, U2>| { let (s, c) = (x as f32).sin_cos(); ((i[0] * c - i[1] * s) * y as f32, (i[0] * s + i[1] * c) * y as f32) }));
        g!(l, p, "morph_hz", [A], [x in fs, y in [0.5, 4.0], z in [-1.0, -0.3, 0.6, 1.0]], morph_hz(x as _, y as _, z as _));
        g!(r, p, "morph_hz", [A], [x in fs, y in [0.5, 4.0], z in [-1.0, -0.3, 0.6, 1.0]], (pass() | dc((x as f32, y as f32, z as f32))) >> morph());
        g!(l, p, "lfo", [], [_x in [0]], lfo(|t| exp(-t)));
        g!(r, p, "lfo", [], [_x in [0]], envelope(|t| exp(-t)));
        g!(l, p, "lfo2", [C(0.0, 2.0)], [_x in [0]], lfo2(|t, x| x * exp(-t)));
        g!(r, p, "lfo2", [C(0.0, 2.0)], [_x in [0]], envelope2(|t, x| x * exp(-t)));
        g!(l, p, "lfo3", [C(0.0, 2.0), C(0.0, 2.0)], [_x in [0]], lfo3(|t, x, y| x * exp(-t * y)));
        g!(r, p, "lfo3", [C(0.0, 2.0), C(0.0, 2.0)], [_x in [0]], envelope3(|t, x, y| x * exp(-t * y)));
        g!(l, p, "lfo_in", [C(0.0, 2.0), C(0.0, 2.0)], [_x in [0]], lfo_in(|t, i: &Frame<f32, U2>| i[0] as $T * exp(-t * i[1] as $T)));
        g!(r, p, "lfo_in", [C(0.0, 2.0), C(0.0, 2.0)], [_x in [0]], lfo3(|t, x, y| x * exp(-t * y)));
        g!(l, p, "wavech", [], [_x in [0]], wavech(&wave(), 1, Some(3)));
        g!(r, p, "wavech", [], [_x in [0]], wavech_at(&wave(), 1, 0, 50, Some(3)));
        g!(l, p, "impulse", [], [_x in [0]], impulse::<U2>());
        g!(r, p, "impulse", [], [_x in [0]], impulse::<U1>() >> split::<U2>());
        g!(l, p, "bus", [A], [_x in [0]], bus(tick(), pass()));
        g!(r, p, "bus", [A], [_x in [0]], tick() & pass());
        g!(l, p, "stack", [A, A], [_x in [0]], stack(tick(), pass()));
        g!(r, p, "stack", [A, A], [_x in [0]], tick() | pass());
        g!(l, p, "branch", [A], [_x in [0]], branch(tick(), pass()));
        g!(r, p, "branch", [A], [_x in [0]], tick() ^ pass());
        g!(l, p, "pipe", [A], [_x in [0]], pipe(tick(), mul(2.0)));
        g!(r, p, "pipe", [A], [_x in [0]], tick() >> mul(2.0));
        g!(l, p, "sum", [A, A], [_x in [0]], sum(tick(), pass()));
        g!(r, p, "sum", [A, A], [_x in [0]], tick() + pass());
        g!(l, p, "product", [A, A], [_x in [0]], product(tick(), pass()));
        g!(r, p, "product", [A, A], [_x in [0]], tick() * pass());
        g!(l, p, "thru", [A, A], [_x in [0]], thru(sum(tick(), pass())));
        g!(r, p, "thru", [A, A], [_x in [0]], !(tick() + pass()));
        g!(l, p, "busi", [A], [_x in [0]], busi::<U3, _, _>(|i| mul(1.0 + i as f32)));
        g!(r, p, "busi", [A], [_x in [0]], mul(1.0) & mul(2.0) & mul(3.0));
        g!(l, p, "stacki", [A, A, A], [_x in [0]], stacki::<U3, _, _>(|i| mul(1.0 + i as f32)));
        g!(r, p, "stacki", [A, A, A], [_x in [0]], mul(1.0) | mul(2.0) | mul(3.0));
        g!(l, p, "branchi", [A], [_x in [0]], branchi::<U3, _, _>(|i| mul(1.0 + i as f32)));
        g!(r, p, "branchi", [A], [_x in [0]], mul(1.0) ^ mul(2.0) ^ mul(3.0));
        g!(l, p, "sumi", [A, A, A], [_x in [0]], sumi::<U3, _, _>(|i| mul(1.0 + i as f32)));
        g!(r, p, "sumi", [A, A, A], [_x in [0]], mul(1.0) + mul(2.0) + mul(3.0));
        g!(l, p, "pipei", [A], [_x in [0]], pipei::<U3, _, _>(|i| add(i as f32) >> tick() >> mul(2.0 + i as f32)));
        g!(r, p, "pipei", [A], [_x in [0]], add(0.0) >> tick() >> mul(2.0) >> add(1.0) >> tick() >> mul(3.0) >> add(2.0) >> tick() >> mul(4.0));
        g!(l, p, "busf", [A], [_x in [0]], busf::<U3, _, _>(|x| mul(1.0 + x as f32)));
        g!(r, p, "busf", [A], [_x in [0]], mul(1.0) & mul(1.5) & mul(2.0));
        g!(l, p, "stackf", [A, A, A], [_x in [0]], stackf::<U3, _, _>(|x| mul(1.0 + x as f32)));
        g!(r, p, "stackf", [A, A, A], [_x in [0]], mul(1.0) | mul(1.5) | mul(2.0));
        g!(l, p, "branchf", [A], [_x in [0]], branchf::<U3, _, _>(|x| mul(1.0 + x as f32)));
        g!(r, p, "branchf", [A], [_x in [0]], mul(1.0) ^ mul(1.5) ^ mul(2.0));
        g!(l, p, "sumf", [A, A, A], [_x in [0]], sumf::<U3, _, _>(|x| mul(1.0 + x as f32)));
        g!(r, p, "sumf", [A, A, A], [_x in [0]], mul(1.0) + mul(1.5) + mul(2.0));
        g!(l, p, "pipef", [A], [_x in [0]], pipef::<U3, _, _>(|x| add(x as f32) >> tick() >> mul(2.0 + x as f32)));
        g!(r, p, "pipef", [A], [_x in [0]], add(0.0) >> tick() >> mul(2.0) >> add(0.5) >> tick() >> mul(2.5) >> add(1.0) >> tick() >> mul(3.0));
        g!(l, p, "feedback2", [A], [_x in [0]], feedback2(tick(), mul(0.5)));
        g!(r, p, "feedback2", [A], [_x in [0]], feedback2(tick() >> pass(), mul(0.25) >> mul(2.0)));
        g!(l, p, "var_fn", [], [_x in [0]], var(&shared(0.75)));
        g!(r, p, "var_fn", [], [_x in [0]], var_fn(&shared(0.75), |x| x));
        g!(l, p, "unit", [A], [_x in [0]], unit::<U1, U1>(Box::new(tick())));
        g!(r, p, "unit", [A], [_x in [0]], tick());
        g!(l, p, "update", [A], [_x in [0]], update(mul(2.0), 0.001, |_t, _dt, _x| {}));
        g!(r, p, "update", [A], [_x in [0]], mul(2.0));
        g!(l, p, "monitor", [A], [_x in [0]], monitor(&shared(0.0), Meter::Sample));
        g!(r, p, "monitor", [A], [_x in [0]], pass());
        g!(l, p, "snoop", [A], [_x in [0]], snoop(64).1);
        g!(r, p, "snoop", [A], [_x in [0]], pass());
        g!(l, p, "lowpass_hz", [A], [x in fs, y in qs], lowpass_hz(x as _, y as _));
        g!(r, p, "lowpass_hz", [A], [x in fs, y in qs], (pass() | dc((x as f32, y as f32))) >> lowpass());
        g!(l, p, "lowpass_q", [A, f], [y in qs], lowpass_q(y as _));
        g!(r, p, "lowpass_q", [A, f], [y in qs], (multipass::<U2>() | dc(y as f32)) >> lowpass());
        g!(l, p, "highpass_hz", [A], [x in fs, y in qs], highpass_hz(x as _, y as _));
        g!(r, p, "highpass_hz", [A], [x in fs, y in qs], (pass() | dc((x as f32, y as f32))) >> highpass());
        g!(l, p, "highpass_q", [A, f], [y in qs], highpass_q(y as _));
        g!(r, p, "highpass_q", [A, f], [y in qs], (multipass::<U2>() | dc(y as f32)) >> highpass());
        g!(l, p, "bandpass_hz", [A], [x in fs, y in qs], bandpass_hz(x as _, y as _));
        g!(r, p, "bandpass_hz", [A], [x in fs, y in qs], (pass() | dc((x as f32, y as f32))) >> bandpass());
        g!(l, p, "bandpass_q", [A, f], [y in qs], bandpass_q(y as _));
        g!(r, p, "bandpass_q", [A, f], [y in qs], (multipass::<U2>() | dc(y as f32)) >> bandpass());
        g!(l, p, "notch_hz", [A], [x in fs, y in qs], notch_hz(x as _, y as _));
        g!(r, p, "notch_hz", [A], [x in fs, y in qs], (pass() | dc((x as f32, y as f32))) >> notch());
        g!(l, p, "notch_q", [A, f], [y in qs], notch_q(y as _));
        g!(r, p, "notch_q", [A, f], [y in qs], (multipass::<U2>() | dc(y as f32)) >> notch());
        g!(l, p, "peak_hz", [A], [x in fs, y in qs], peak_hz(x as _, y as _));
        g!(r, p, "peak_hz", [A], [x in fs, y in qs], (pass() | dc((x as f32, y as f32))) >> peak());
        g!(l, p, "peak_q", [A, f], [y in qs], peak_q(y as _));
        g!(r, p, "peak_q", [A, f], [y in qs], (multipass::<U2>() | dc(y as f32)) >> peak());
        g!(l, p, "allpass_hz", [A], [x in fs, y in qs], allpass_hz(x as _, y as _));
        g!(r, p, "allpass_hz", [A], [x in fs, y in qs], (pass() | dc((x as f32, y as f32))) >> allpass());
        g!(l, p, "allpass_q", [A, f], [y in qs], allpass_q(y as _));
        g!(r, p, "allpass_q", [A, f], [y in qs], (multipass::<U2>() | dc(y as f32)) >> allpass());
        g!(l, p, "bell_hz", [A], [x in fs, y in qs, z in gs], bell_hz(x as _, y as _, z as _));
        g!(r, p, "bell_hz", [A], [x in fs, y in qs, z in gs], (pass() | dc((x as f32, y as f32, z as f32))) >> bell());
        g!(l, p, "bell_q", [A, f], [y in qs, z in gs], bell_q(y as _, z as _));
        g!(r, p, "bell_q", [A, f], [y in qs, z in gs], (multipass::<U2>() | dc((y as f32, z as f32))) >> bell());
        g!(l, p, "lowshelf_hz", [A], [x in fs, y in qs, z in gs], lowshelf_hz(x as _, y as _, z as _));
        g!(r, p, "lowshelf_hz", [A], [x in fs, y in qs, z in gs], (pass() | dc((x as f32, y as f32, z as f32))) >> lowshelf());
        g!(l, p, "lowshelf_q", [A, f], [y in qs, z in gs], lowshelf_q(y as _, z as _));
        g!(r, p, "lowshelf_q", [A, f], [y in qs, z in gs], (multipass::<U2>() | dc((y as f32, z as f32))) >> lowshelf());
        g!(l, p, "highshelf_hz", [A], [x in fs, y in qs, z in gs], highshelf_hz(x as _, y as _, z as _));
        g!(r, p, "highshelf_hz", [A], [x in fs, y in qs, z in gs], (pass() | dc((x as f32, y as f32, z as f32))) >> highshelf());
        g!(l, p, "highshelf_q", [A, f], [y in qs, z in gs], highshelf_q(y as _, z as _));
        g!(r, p, "highshelf_q", [A, f], [y in qs, z in gs], (multipass::<U2>() | dc((y as f32, z as f32))) >> highshelf());
        g!(l, p, "lowrez_hz", [A], [x in fs, y in [0.0, 0.5, 0.9]], lowrez_hz(x as _, y as _));
        g!(r, p, "lowrez_hz", [A], [x in fs, y in [0.0, 0.5, 0.9]], (pass() | dc((x as f32, y as f32))) >> lowrez());
        g!(l, p, "lowrez_q", [A, f], [y in [0.0, 0.5, 0.9]], lowrez_q(y as _));
        g!(r, p, "lowrez_q", [A, f], [y in [0.0, 0.5, 0.9]], (multipass::<U2>() | dc(y as f32)) >> lowrez());
        g!(l, p, "bandrez_hz", [A], [x in fs, y in [0.0, 0.5, 0.9]], bandrez_hz(x as _, y as _));
        g!(r, p, "bandrez_hz", [A], [x in fs, y in [0.0, 0.5, 0.9]], (pass() | dc((x as f32, y as f32))) >> bandrez());
        g!(l, p, "bandrez_q", [A, f], [y in [0.0, 0.5, 0.9]], bandrez_q(y as _));
        g!(r, p, "bandrez_q", [A, f], [y in [0.0, 0.5, 0.9]], (multipass::<U2>() | dc(y as f32)) >> bandrez());
        g!(l, p, "dhighpass_hz", [A], [x in fs, y in [0.5, 5.0]], dhighpass_hz(Tanh(0.5), x as _, y as _));
        g!(r, p, "dhighpass_hz", [A], [x in fs, y in [0.5, 5.0]], (pass() | dc((x as f32, y as f32))) >> dhighpass(Tanh(0.5)));
        g!(l, p, "dlowpass_hz", [A], [x in fs, y in [0.5, 5.0]], dlowpass_hz(Tanh(0.5), x as _, y as _));
        g!(r, p, "dlowpass_hz", [A], [x in fs, y in [0.5, 5.0]], (pass() | dc((x as f32, y as f32))) >> dlowpass(Tanh(0.5)));
        g!(l, p, "dresonator_hz", [A], [x in fs, y in [0.5, 5.0]], dresonator_hz(Tanh(0.5), x as _, y as _));
        g!(r, p, "dresonator_hz", [A], [x in fs, y in [0.5, 5.0]], (pass() | dc((x as f32, y as f32))) >> dresonator(Tanh(0.5)));
        g!(l, p, "dbell_hz", [A], [x in fs, y in [0.5, 5.0], z in gs], dbell_hz(Tanh(0.5), x as _, y as _, z as _));
        g!(r, p, "dbell_hz", [A], [x in fs, y in [0.5, 5.0], z in gs], (pass() | dc((x as f32, y as f32, z as f32))) >> dbell(Tanh(0.5)));
        g!(l, p, "fhighpass_hz", [A], [x in fs, y in [0.5, 5.0]], fhighpass_hz(Tanh(0.5), x as _, y as _));
        g!(r, p, "fhighpass_hz", [A], [x in fs, y in [0.5, 5.0]], (pass() | dc((x as f32, y as f32))) >> fhighpass(Tanh(0.5)));
        g!(l, p, "flowpass_hz", [A], [x in fs, y in [0.5, 5.0]], flowpass_hz(Tanh(0.5), x as _, y as _));
        g!(r, p, "flowpass_hz", [A], [x in fs, y in [0.5, 5.0]], (pass() | dc((x as f32, y as f32))) >> flowpass(Tanh(0.5)));
        g!(l, p, "fresonator_hz", [A], [x in fs, y in [0.5, 5.0]], fresonator_hz(Tanh(0.5), x as _, y as _));
        g!(r, p, "fresonator_hz", [A], [x in fs, y in [0.5, 5.0]], (pass() | dc((x as f32, y as f32))) >> fresonator(Tanh(0.5)));
        g!(l, p, "fbell_hz", [A], [x in fs, y in [0.5, 5.0], z in gs], fbell_hz(Tanh(0.5), x as _, y as _, z as _));
        g!(r, p, "fbell_hz", [A], [x in fs, y in [0.5, 5.0], z in gs], (pass() | dc((x as f32, y as f32, z as f32))) >> fbell(Tanh(0.5)));
    };
}
fn wave() -> std::sync::Arc<fundsp::wave::Wave> {
    let mut w = fundsp::wave::Wave::new(2, 44100.0);
    for i in 0..50 {
        w.push((det(i), det(i + 1000)));
    }
    std::sync::Arc::new(w)
}
fn p32(l: &mut Vec<Entry>, r: &mut Vec<Entry>) {
    pairs!(l, r, "32:", [fundsp::hacker32], f32);
}
fn p64(l: &mut Vec<Entry>, r: &mut Vec<Entry>) {
    pairs!(l, r, "64:", [fundsp::hacker], f64);
}
fn pp32(l: &mut Vec<Entry>, r: &mut Vec<Entry>) {
    pairs!(l, r, "p32:", [crate::shim::pre32], f32);
}
fn pp64(l: &mut Vec<Entry>, r: &mut Vec<Entry>) {
    pairs!(l, r, "p64:", [crate::shim::pre64], f64);
}
fn g32(v: &mut Vec<Entry>) {
    grids!(v, "32:", [fundsp::hacker32], f32);
}
fn g64(v: &mut Vec<Entry>) {
    grids!(v, "64:", [fundsp::hacker], f64);
}
fn gp32(v: &mut Vec<Entry>) {
    grids!(v, "p32:", [crate::shim::pre32], f32);
}
fn gp64(v: &mut Vec<Entry>) {
    grids!(v, "p64:", [crate::shim::pre64], f64);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Tick(usize),
    Block(usize),
    Reset,
    Rate(f64),
}

/// Runs operations on a unit.
fn run(e: &Entry, sig: usize, ops: &[Op]) -> (usize, usize, Vec<Vec<f32>>) {
    let mut u = (e.make)();
    let mut d = Driver::new(&*u);
    let f = |c: usize, i: usize| signal(e.ins[c], sig, c, i);
    let mut out = vec![vec![]; u.outputs()];
    let mut pos = 0;
    for op in ops.iter() {
        match op {
            Op::Tick(n) => for _ in 0..*n { pos = d.step(&mut *u, Step::Tick, pos, &f, &mut out); },
            Op::Block(n) => pos = d.step(&mut *u, Step::Block(*n), pos, &f, &mut out),
            Op::Reset => u.reset(),
            Op::Rate(r) => u.set_sample_rate(*r),
        }
    }
    (u.inputs(), u.outputs(), out)
}

/// First difference between two entries for the operations.
fn compare(x: &Entry, y: &Entry, a: &(usize, usize, Vec<Vec<f32>>), b: &(usize, usize, Vec<Vec<f32>>), tol: f32) -> Option<String> {
    if (a.0, a.1) != (b.0, b.1) {
        return Some(format!("{} has {} inputs and {} outputs, {} has {} and {}", x.name, a.0, a.1, y.name, b.0, b.1));
    }
    if x.name.contains(":ramp") {
        // Values near 0 and 1 are the same phase.
        for (c, i) in (0..a.1).flat_map(|c| (0..a.2[c].len()).map(move |i| (c, i))) {
            let d = a.2[c][i] - b.2[c][i];
            if !((d - d.round()).abs() < tol) {
                return Some(format!("{} and {} differ: channel {} sample {}: {} {}", x.name, y.name, c, i, a.2[c][i], b.2[c][i]));
            }
        }
        return None;
    }
    diff(&a.2, &b.2, tol).map(|(c, i, p, q)| format!("{} and {} differ: channel {} sample {}: {} {}", x.name, y.name, c, i, p, q))
}

/// Relative tolerance for different precision or a differently ordered computation.
fn tolerance(e: &Entry) -> f32 {
    let n = e.name.split_once(':').unwrap().1;
    let loose = n.starts_with("poly_") || n.contains("resonator") || n.contains("bell") || n.contains("pass") || n.contains("shelf");
    e.tol.max(if n.starts_with("fresonator_hz x=30 ") { 1e-1 } else if loose { 1e-2 } else { 1e-3 })
}

pub fn c29(ctx: &Ctx) {
    let mut env = environments();
    let main = env[0].len();
    g32(&mut env[0]);
    g64(&mut env[1]);
    gp32(&mut env[2]);
    gp64(&mut env[3]);
    let n = env[0].len();
    let base = |i: usize| env[0][i].name.split_once(':').unwrap().1.to_string();
    for e in env.iter() {
        assert_eq!(e.len(), n);
        for i in 0..n {
            assert_eq!(e[i].name.split_once(':').unwrap().1, base(i));
        }
    }
    let mut pair: [(Vec<Entry>, Vec<Entry>); 4] = Default::default();
    for (i, f) in [p32, p64, pp32, pp64].iter().enumerate() {
        let p = &mut pair[i];
        f(&mut p.0, &mut p.1);
    }
    let alpha = [Op::Tick(5), Op::Block(64), Op::Block(37), Op::Reset, Op::Rate(88200.0)];
    ctx.par(n, |k| {
        let name = base(k);
        ctx.case(&name.clone(), || {
            let depth = if k < main { ctx.q(4, 6) } else { ctx.q(3, 5) };
            for sig in 0..3 {
                for idx in 0..alpha.len().pow(depth as u32) {
                    let mut ops: Vec<Op> = digits(idx, alpha.len(), depth).iter().map(|x| alpha[*x]).collect();
                    ops.push(Op::Block(64));
                    if k >= main { ops.extend_from_slice(&[Op::Block(64), Op::Block(64), Op::Block(64)]); }
                    let r: Vec<_> = (0..4).map(|i| run(&env[i][k], sig, &ops)).collect();
                    ctx.trans(4 * ops.len() as u64);
                    ctx.trace();
                    let mut h = hmix(k as u64, idx as u64);
                    for c in r[0].2.iter() { h = hmix(h, hashf(c)); }
                    ctx.state(h);
                    for (a, b, t) in [(0, 2, 1e-4), (1, 3, 1e-4), (0, 1, tolerance(&env[0][k]))] {
                        if let Some(m) = compare(&env[a][k], &env[b][k], &r[a], &r[b], t) {
                            ctx.violation(&name, m, format!("signal {} ops {:?}", sig, ops));
                            return;
                        }
                    }
                }
            }
            ctx.part("opcode forms in four environments", 1);
            ctx.sample(|| format!("{}: all sequences of {} operations of {:?} with 3 signals in four environments", name, depth, alpha));
        });
    });
    let m = pair[0].0.len();
    ctx.par(4 * m, |k| {
        let (e, k) = (k / m, k % m);
        let (x, y) = (&pair[e].0[k], &pair[e].1[k]);
        let name = format!("expansion {}", x.name);
        ctx.case(&name.clone(), || {
            let depth = ctx.q(2, 4);
            for sig in 0..3 {
                for idx in 0..alpha.len().pow(depth as u32) {
                    let mut ops: Vec<Op> = digits(idx, alpha.len(), depth).iter().map(|x| alpha[*x]).collect();
                    ops.extend_from_slice(&[Op::Block(64), Op::Block(64), Op::Tick(5)]);
                    let (a, b) = (run(x, sig, &ops), run(y, sig, &ops));
                    ctx.trans(2 * ops.len() as u64);
                    ctx.trace();
                    let mut h = hmix(1 << 40 | k as u64, idx as u64);
                    for c in a.2.iter() { h = hmix(h, hashf(c)); }
                    ctx.state(h);
                    if let Some(m) = compare(x, y, &a, &b, tolerance(x)) {
                        ctx.violation(&name, m, format!("signal {} ops {:?}", sig, ops));
                        return;
                    }
                }
            }
            ctx.part("fixed forms and their expansions", 1);
        });
    });
}
