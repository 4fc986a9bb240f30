//! C18: pseudorandom phase of real generators.
use crate::fw::*;
use fundsp::hacker32::*;

type Gen = (String, Box<dyn Fn() -> Box<dyn AudioUnit> + Send + Sync>);
macro_rules! gens {
    ($v:ident, $pre:expr, $env:ident) => {{
        use fundsp::$env::*;
        macro_rules! g { ($n:expr, $e:expr) => { $v.push((format!("{}:{}", $pre, $n), Box::new(|| -> Box<dyn AudioUnit> { Box::new($e) }) as Box<dyn Fn() -> Box<dyn AudioUnit> + Send + Sync>)); } }
        g!("noise", noise()); g!("white", white()); g!("pink", pink()); g!("brown", brown()); g!("mls", mls()); g!("mls_bits", mls_bits(12));
        g!("sine_hz", sine_hz(440.0)); g!("saw_hz", saw_hz(440.0)); g!("square_hz", square_hz(440.0)); g!("triangle_hz", triangle_hz(440.0));
        g!("organ_hz", organ_hz(440.0)); g!("soft_saw_hz", soft_saw_hz(440.0)); g!("hammond_hz", hammond_hz(440.0)); g!("pulse", dc((440.0, 0.3)) >> pulse());
        g!("ramp_hz", ramp_hz(440.0)); g!("poly_saw_hz", poly_saw_hz(440.0)); g!("poly_square_hz", poly_square_hz(440.0)); g!("poly_pulse", dc((440.0, 0.3)) >> poly_pulse());
        g!("poly_pulse_hz", poly_pulse_hz(440.0, 0.4)); g!("dsf_saw", dc((440.0, 0.5)) >> dsf_saw()); g!("dsf_saw_r", dc(440.0) >> dsf_saw_r(0.5)); g!("dsf_square", dc((440.0, 0.5)) >> dsf_square());
        g!("lfo", lfo(|t| sin_hz(110.0, t))); g!("envelope", envelope(|t| exp(-t * 40.0))); g!("noise_filter", noise() >> lowpass_hz(1000.0, 1.0));
        g!("nested", (noise() & saw_hz(100.0)) * 0.5); g!("resample", dc(0.7) >> resample(noise())); g!("oversample", oversample(noise())); g!("feedback", zero() >> feedback(pass() & (sink() | noise()) * 0.2));
        g!("hold", (dc(0.0) & noise()) >> hold_hz(3000.0, 0.5)); g!("busi", busi::<U3, _, _>(|i| saw_hz(100.0 * (i + 1) as f32)));
    }};
}

fn render(u: &mut dyn AudioUnit, n: usize) -> Vec<Vec<f32>> {
    let mut out = vec![vec![]; u.outputs()];
    let mut o = vec![0.0; u.outputs()];
    for _ in 0..n {
        u.tick(&[], &mut o);
        for c in 0..o.len() {
            out[c].push(o[c]);
        }
    }
    out
}
fn same(a: &[f32], b: &[f32]) -> bool {
    a.iter().zip(b).all(|(x, y)| (x - y).abs() < 1e-6)
}

/// All ways of placing two to four copies of a generator side by side; every pair of channels must differ and two builds must agree.
fn generators(ctx: &Ctx) {
    let mut v: Vec<Gen> = vec![];
    gens!(v, "32", hacker32);
    gens!(v, "64", hacker);
    ctx.part("generators", v.len() as u64);
    let shapes = ["stack", "branch", "stacki", "branchi", "net_stack", "net_branch", "net_push", "nested_stack", "net_in_stack", "net_backend", "slots", "chain", "bus", "sum", "clone"];
    ctx.par(v.len() * shapes.len(), |k| {
        let (name, make) = &v[k / shapes.len()];
        let shape = shapes[k % shapes.len()];
        let key = format!("{} {}", name, shape);
        ctx.case(&key, || {
            let g = || unit::<U0, U1>(make());
            let s = 2000;
            let build = || -> (Box<dyn AudioUnit>, Vec<Box<dyn std::any::Any>>) {
                let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
                let u: Box<dyn AudioUnit> = match shape {
                    "stack" => Box::new(g() | g()),
                    "branch" => Box::new(g() ^ g()),
                    "stacki" => Box::new(stacki::<U4, _, _>(|_| g())),
                    "branchi" => Box::new(branchi::<U4, _, _>(|_| g())),
                    "net_stack" => Box::new(Net::wrap(make()) | Net::wrap(make()) | Net::wrap(make())),
                    "net_branch" => Box::new(Net::wrap(make()) ^ Net::wrap(make())),
                    "net_push" => {
                        let mut net = Net::new(0, 3);
                        for i in 0..3 {
                            let id = net.push(make());
                            net.connect_output(id, 0, i);
                        }
                        Box::new(net)
                    }
                    "nested_stack" => Box::new((g() | g()) | (g() | g())),
                    "net_in_stack" => Box::new(unit::<U0, U1>(Box::new(Net::wrap(make()))) | unit::<U0, U1>(Box::new(Net::wrap(make())))),
                    "net_backend" => {
                        let mut net = Net::wrap(make()) | Net::wrap(make());
                        let b = net.backend();
                        keep.push(Box::new(net));
                        Box::new(b)
                    }
                    "slots" => {
                        let (s0, b0) = Slot::new(make());
                        let (s1, b1) = Slot::new(make());
                        keep.push(Box::new((s0, s1)));
                        Box::new(unit::<U0, U1>(Box::new(b0)) | unit::<U0, U1>(Box::new(b1)))
                    }
                    "chain" => Box::new((g() | g()) >> (pass() | pass())),
                    // Mixed down to one channel together with a single copy: a mix of equal copies would be twice the copy.
                    "bus" => Box::new((g() & g()) | g()),
                    "sum" => Box::new((g() + g()) | g()),
                    "clone" => {
                        let x = g() | g();
                        Box::new(x.clone())
                    }
                    _ => unreachable!(),
                };
                (u, keep)
            };
            let (mut a, _ka) = build();
            let (mut b, _kb) = build();
            let (x, y) = (render(&mut *a, s), render(&mut *b, s));
            ctx.trace();
            ctx.trans(2 * s as u64);
            ctx.state(h64(key.as_bytes()));
            let bad = |what: String| ctx.violation(key.clone(), what.clone(), format!("{}: {}", key, what));
            for c in 0..x.len() {
                if x[c] != y[c] {
                    bad(format!("channel {} differs between two identically built graphs", c));
                }
                for d in c + 1..x.len() {
                    if same(&x[c], &x[d]) {
                        bad(format!("channels {} and {} are identical", c, d));
                    }
                }
            }
            if shape == "bus" || shape == "sum" {
                let h: Vec<f32> = x[0].iter().map(|x| x * 0.5).collect();
                if same(&h, &x[1]) {
                    bad("two copies in a mix are identical".into());
                }
            }
            // Reset brings back the same phases.
            a.reset();
            let z = render(&mut *a, s);
            if z != x {
                bad("phases changed after reset".into());
            }
        });
    });
    // Explicit seeds and phases override pseudorandom phase.
    macro_rules! eq { ($n:expr, $e:expr) => { ctx.case($n, || {
        let mut u = $e;
        let x = render(&mut u, 500);
        ctx.trace();
        ctx.state(h64($n.as_bytes()));
        if !same(&x[0], &x[1]) { ctx.violation($n, "explicit seed or phase does not override pseudorandom phase", $n); }
    }); } }
    for s in [0u64, 1, 2, 1 << 40] {
        eq!("noise seed", noise().seed(s) | noise().seed(s));
        eq!("pink seed", pink().seed(s) | pink().seed(s));
        eq!("brown seed", brown().seed(s) | brown().seed(s));
        eq!("mls seed", mls().seed(s) | mls().seed(s));
        eq!("white seed", white().seed(s) | white().seed(s));
    }
    for p in [0.0, 0.3, 0.75] {
        eq!("sine phase", sine_hz(440.0).phase(p) | sine_hz(440.0).phase(p));
        eq!("saw phase", saw_hz(440.0).phase(p) | saw_hz(440.0).phase(p));
        eq!("square phase", square_hz(440.0).phase(p) | square_hz(440.0).phase(p));
        eq!("triangle phase", triangle_hz(440.0).phase(p) | triangle_hz(440.0).phase(p));
        eq!("organ phase", organ_hz(440.0).phase(p) | organ_hz(440.0).phase(p));
        eq!("ramp phase", ramp_hz(440.0).phase(p) | ramp_hz(440.0).phase(p));
        eq!("poly_saw phase", poly_saw_hz(440.0).phase(p) | poly_saw_hz(440.0).phase(p));
        eq!("poly_square phase", poly_square_hz(440.0).phase(p) | poly_square_hz(440.0).phase(p));
    }
}

pub fn c18(ctx: &Ctx) {
    crate::c_shape::c18_shapes(ctx);
    generators(ctx);
}
