//! C11: reported frequency response and latency against measured behaviour.
use crate::catalog::*;
use crate::fw::*;
use fundsp::hacker32::*;
use fundsp::hacker32::Complex64 as Z;

/// Difference between the response to an impulse on all audio inputs and the response to silence, with constant controls.
fn impulse_response(u: &mut dyn AudioUnit, ctl: &[Option<f32>], n: usize, amp: f32) -> Vec<Vec<f64>> {
    let mut o = vec![0.0f32; u.outputs()];
    let mut i = vec![0.0f32; u.inputs()];
    let mut go = |on: bool| {
        u.reset();
        let mut v = vec![Vec::with_capacity(n); o.len()];
        // Followers jump to the first sample, so start with silence.
        for t in 0..n + 8 {
            for c in 0..i.len() {
                i[c] = ctl[c].unwrap_or(if on && t == 8 { amp } else { 0.0 });
            }
            u.tick(&i, &mut o);
            if t >= 8 {
                for c in 0..o.len() {
                    v[c].push(o[c]);
                }
            }
        }
        v
    };
    let (a, b) = (go(true), go(false));
    a.iter().zip(b.iter()).map(|(x, y)| x.iter().zip(y).map(|(x, y)| (*x as f64 - *y as f64) / amp as f64).collect()).collect()
}
fn dft(h: &[f64], f: f64, rate: f64) -> Z {
    let z1 = Z::from_polar(1.0, -std::f64::consts::TAU * f / rate);
    let last = h.iter().rposition(|x| *x != 0.0).map_or(0, |x| x + 1);
    // Horner's scheme.
    let mut r = Z::new(0.0, 0.0);
    for x in h[..last].iter().rev() {
        r = r * z1 + x;
    }
    r
}

/// Every unit of the catalog at every combination of control values.
fn units(ctx: &Ctx) {
    let cat = catalog();
    let pretends = ["limiter", "declick", "op_bus_var"];
    ctx.par(cat.len(), |k| {
        let e = &cat[k];
        let short = &e.name[3..];
        ctx.case(&format!("response {}", e.name), || {
            let controls: Vec<(f32, f32)> = e.ins.iter().filter_map(|x| if let C(lo, hi) = x { Some((*lo, *hi)) } else { None }).collect();
            let levels = ctx.q(3, 5) as usize;
            let combos = levels.pow(Ord::min(controls.len(), 3) as u32);
            for rate in [44100.0, 48000.0, 96000.0] {
                for combo in 0..combos {
                    let d = digits(combo, levels, controls.len());
                    let mut ctl = vec![];
                    let mut n = 0;
                    for x in e.ins.iter() {
                        match x {
                            A => ctl.push(None),
                            C(lo, hi) => {
                                ctl.push(Some(lo + (hi - lo) * d[n] as f32 / (levels - 1) as f32));
                                n += 1;
                            }
                        }
                    }
                    let mut u = (e.make)();
                    u.set_sample_rate(rate);
                    u.reset();
                    // Let the unit see its parameters.
                    let i: Vec<f32> = ctl.iter().map(|x| x.unwrap_or(0.0)).collect();
                    let mut o = vec![0.0; u.outputs()];
                    u.tick(&i, &mut o);
                    latency(ctx, e, &mut *u, &ctl, rate);
                    if u.outputs() == 0 || pretends.iter().any(|x| short.starts_with(x)) {
                        continue;
                    }
                    let freqs: Vec<f64> = (0..16).map(|i| 30.0 * (rate * 0.495 / 30.0).powf(i as f64 / 15.0)).collect();
                    let claim: Vec<Vec<Option<Z>>> = (0..u.outputs()).map(|c| freqs.iter().map(|f| u.response(c, *f)).collect()).collect();
                    if claim.iter().flatten().all(|x| x.is_none()) {
                        continue;
                    }
                    let len = if controls.is_empty() { 65536 } else { 32768 };
                    let h = impulse_response(&mut *u, &ctl, len, 0.5);
                    ctx.trace();
                    ctx.trans(freqs.len() as u64);
                    for c in 0..h.len() {
                        for (i, f) in freqs.iter().enumerate() {
                            if let Some(r) = claim[c][i] {
                                let m = dft(&h[c], *f, rate);
                                ctx.state(hmix(hmix(k as u64, combo as u64), hmix(rate as u64, i as u64 * 8 + c as u64)));
                                if !((m - r).norm() <= 4e-3 * (1.0 + r.norm())) {
                                    ctx.violation(
                                        &e.name,
                                        format!("output {} at {} Hz: reported response {} measured {} (controls {:?}, sample rate {})", c, f, r, m, ctl, rate),
                                        format!("{} controls {:?} rate {} output {} frequency {}: reported {} measured {}", e.name, ctl, rate, c, f, r, m),
                                    );
                                    return;
                                }
                            }
                        }
                    }
                    ctx.sample(|| format!("{} controls {:?} at {} Hz: response equals transform of impulse response at {} frequencies", e.name, ctl, rate, freqs.len()));
                }
            }
        });
    });
}

/// First sample at which any output reacts to a change of the audio inputs that begins at sample zero after some warmup.
fn reaction(u: &mut dyn AudioUnit, ctl: &[Option<f32>], n: usize) -> Option<usize> {
    // A low level keeps limiters from engaging, as they react ahead of time by design.
    let warm = 40;
    let mut o = vec![0.0f32; u.outputs()];
    let mut i = vec![0.0f32; u.inputs()];
    let mut go = |on: bool| {
        u.reset();
        let mut v = vec![];
        for t in 0..warm + n {
            for c in 0..i.len() {
                i[c] = ctl[c].unwrap_or(0.05 + if on && t >= warm { 0.02 + 0.006 * det((t * 7 + c) as u64) } else { 0.0 });
            }
            u.tick(&i, &mut o);
            if t >= warm {
                v.push(o.clone());
            }
        }
        v
    };
    let (a, b) = (go(true), go(false));
    (0..n).find(|t| a[*t].iter().zip(b[*t].iter()).any(|(x, y)| (x - y).abs() > 1e-7 || x.is_nan() != y.is_nan()))
}

fn latency(ctx: &Ctx, e: &Entry, u: &mut dyn AudioUnit, ctl: &[Option<f32>], rate: f64) {
    if u.outputs() == 0 || u.inputs() == 0 || ctl.iter().all(|x| x.is_some()) {
        return;
    }
    let short = &e.name[3..];
    let l = u.latency();
    let r = reaction(u, ctl, 700);
    ctx.trans(1);
    ctx.state(hmix(h64(e.name.as_bytes()), rate as u64));
    let exact = short.starts_with("limiter") || short.starts_with("resynth");
    let bad = match (l, r) {
        (Some(l), Some(r)) => (r as f64) < l - 1e-6 || exact && r as f64 > l + 1.0,
        (None, Some(_)) => exact,
        _ => false,
    };
    if bad {
        ctx.violation(
            &e.name,
            format!("reported latency {:?}, outputs react after {:?} samples at {} Hz", l, r, rate),
            format!("{} controls {:?} rate {}: reported latency {:?}, first reaction {:?}", e.name, ctl, rate, l, r),
        );
    }
}

// Compositions.
const LEAF: [&str; 8] = ["lowpole", "fir", "mul", "tanh", "const", "lim5", "lim9", "delay"];
const UNARY: [&str; 17] = [
    "neg", "plus", "minus", "from", "times", "thru", "net", "net_backend", "slot", "big_block", "listen", "update", "pan", "thru2", "oversample", "feedback", "twice",
];
const BINARY: [&str; 25] = [
    "pipe", "stack", "branch", "bus", "sum", "difference", "product", "busi", "stacki", "branchi", "sumi", "pipei", "net_pipe", "net_stack", "net_branch", "net_bus", "net_sum",
    "net_product", "stacki_join", "sumi_join", "rotate", "reverse", "multi", "net_difference", "resynth",
];
#[derive(Clone, Debug, PartialEq)]
enum T {
    L(usize),
    U(usize, Box<T>),
    B(usize, Box<T>, Box<T>),
}
impl std::fmt::Display for T {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            T::L(k) => write!(f, "{}", LEAF[*k]),
            T::U(k, x) => write!(f, "{}({})", UNARY[*k], x),
            T::B(k, x, y) => write!(f, "{}({},{})", BINARY[*k], x, y),
        }
    }
}
struct Builder {
    n: usize,
    keep: Vec<Box<dyn std::any::Any>>,
}
type B1 = Box<dyn AudioUnit>;
fn a(x: B1) -> An<Unit<U1, U1>> {
    unit::<U1, U1>(x)
}
impl Builder {
    /// Every leaf has its own gain so that no two branches cancel.
    fn gain(&mut self) -> f32 {
        self.n += 1;
        [1.0, 0.83, 1.17, 0.71, 1.29, 0.59, 1.41, 0.47][self.n % 8]
    }
    fn leaf(&mut self, k: usize) -> B1 {
        let g = self.gain();
        match LEAF[k] {
            "lowpole" => Box::new(lowpole_hz(9000.0) * g),
            "fir" => Box::new(fir((0.25 * g, -0.5, 0.75 * g))),
            "mul" => Box::new(mul(-1.5 * g)),
            "tanh" => Box::new(shape(Tanh(0.7)) * g),
            "const" => Box::new(sink() | dc(0.1 * g)),
            "lim5" => Box::new(limiter(5.0 / 44100.0, 0.001) * g),
            "lim9" => Box::new(limiter(9.0 / 44100.0, 0.001) * g),
            "delay" => Box::new(delay(3.0 / 44100.0) * g),
            _ => unreachable!(),
        }
    }
    fn build(&mut self, t: &T) -> B1 {
        match t {
            T::L(k) => self.leaf(*k),
            T::U(k, x) => {
                let x = self.build(x);
                match UNARY[*k] {
                    "neg" => Box::new(-a(x)),
                    "plus" => Box::new(a(x) + 0.3),
                    "minus" => Box::new(a(x) - 0.3),
                    "from" => Box::new(0.3 - a(x)),
                    "times" => Box::new(0.7 * a(x)),
                    "thru" => Box::new(!a(x)),
                    "thru2" => Box::new(split::<U2>() >> !(a(x) | sink()) >> (mul(0.9) | mul(0.4)) >> join::<U2>()),
                    "net" => Box::new(Net::wrap(x)),
                    "net_backend" => {
                        let mut net = Net::wrap(x);
                        let b = net.backend();
                        self.keep.push(Box::new(net));
                        Box::new(b)
                    }
                    "slot" => {
                        let (s, b) = Slot::new(x);
                        self.keep.push(Box::new(s));
                        Box::new(b)
                    }
                    "big_block" => Box::new(BigBlockAdapter::new(x)),
                    "listen" => {
                        let (s, n) = listen(a(x));
                        self.keep.push(Box::new(s));
                        Box::new(n)
                    }
                    "update" => Box::new(update(a(x), 0.001, |_t, _dt, _x| {})),
                    "pan" => Box::new(a(x) >> pan(0.4) >> (mul(0.9) | mul(-0.3)) >> join::<U2>()),
                    "oversample" => Box::new(oversample(a(x))),
                    "feedback" => Box::new(feedback(a(x) * 0.1)),
                    "twice" => {
                        let y = x.clone();
                        Box::new((a(x) ^ (a(y) * 0.3)) >> join::<U2>())
                    }
                    _ => unreachable!(),
                }
            }
            T::B(k, x, y) => {
                let name = BINARY[*k];
                let (x, y) = (self.build(x), self.build(y));
                if let Some(op) = name.strip_prefix("net_") {
                    let (x, y) = (Net::wrap(x), Net::wrap(y));
                    let s = || Net::wrap(Box::new(split::<U2>() >> (mul(0.8) | mul(1.3))));
                    let j = || Net::wrap(Box::new((pass() | mul(0.6)) >> join::<U2>()));
                    return Box::new(match op {
                        "pipe" => x >> y,
                        "stack" => s() >> (x | y) >> j(),
                        "branch" => (x ^ y) >> j(),
                        "bus" => x & y,
                        "sum" => s() >> (x + y),
                        "difference" => s() >> (x - y),
                        "product" => s() >> (x * y),
                        _ => unreachable!(),
                    });
                }
                let s2 = || split::<U2>() >> (mul(0.8) | mul(1.3));
                let s3 = || split::<U3>() >> (mul(0.8) | mul(1.3) | mul(0.6));
                let s4 = || split::<U4>() >> (mul(0.8) | mul(1.3) | mul(0.6) | mul(1.1));
                let j2 = || (pass() | mul(0.6)) >> join::<U2>();
                let j3 = || (pass() | mul(0.6) | mul(1.2)) >> join::<U3>();
                if ["busi", "stacki", "branchi", "sumi", "pipei"].contains(&name) {
                    let z: B1 = Box::new(mul(self.gain()));
                    let v = std::cell::RefCell::new(vec![Some(x), Some(y), Some(z)]);
                    let f = |i: u64| a(v.borrow_mut()[i as usize].take().unwrap());
                    return match name {
                        "busi" => Box::new(busi::<U3, _, _>(f)),
                        "stacki" => Box::new(s3() >> stacki::<U3, _, _>(f) >> j3()),
                        "branchi" => Box::new(branchi::<U3, _, _>(f) >> j3()),
                        "sumi" => Box::new(s3() >> sumi::<U3, _, _>(f)),
                        "pipei" => Box::new(pipei::<U3, _, _>(f)),
                        _ => unreachable!(),
                    };
                }
                let (x2, y2) = (x.clone(), y.clone());
                let v = std::cell::RefCell::new(vec![Some((x2, y2))]);
                let (x, y) = (a(x), a(y));
                let pair = |i: u64| {
                    let (x, y) = if i == 0 { let p = v.borrow(); p[0].clone().unwrap() } else { v.borrow_mut()[0].take().unwrap() };
                    (a(x) | a(y)) >> join::<U2>()
                };
                match name {
                    "pipe" => Box::new(x >> y),
                    "stack" => Box::new(s2() >> (x | y) >> j2()),
                    "branch" => Box::new((x ^ y) >> j2()),
                    "bus" => Box::new(x & y),
                    "sum" => Box::new(s2() >> (x + y)),
                    "difference" => Box::new(s2() >> (x - y)),
                    "product" => Box::new(s2() >> (x * y)),
                    "rotate" => Box::new((x ^ y) >> rotate(0.5, 0.9) >> j2()),
                    "reverse" => Box::new((x ^ y ^ mul(0.77)) >> reverse::<U3>() >> j3()),
                    "multi" => Box::new((x ^ y) >> multisplit::<U2, U2>() >> (mul(0.8) | mul(1.3) | mul(0.6) | mul(1.1)) >> multijoin::<U2, U2>() >> j2()),
                    "stacki_join" => Box::new(s4() >> stacki::<U2, _, _>(pair) >> j2()),
                    "resynth" => Box::new((x ^ y) >> resynth::<U2, U2, _>(16, |w| { w.forward(0, 0); w.forward(1, 1); }) >> j2()),
                    "sumi_join" => Box::new(s4() >> sumi::<U2, _, _>(pair)),
                    _ => unreachable!(),
                }
            }
        }
    }
}
fn contains(t: &T, p: &dyn Fn(&T) -> bool) -> bool {
    p(t)
        || match t {
            T::L(_) => false,
            T::U(_, x) => contains(x, p),
            T::B(_, x, y) => contains(x, p) || contains(y, p),
        }
}

fn compositions(ctx: &Ctx) {
    let leaves: Vec<T> = (0..LEAF.len()).map(T::L).collect();
    let mut one: Vec<T> = vec![];
    for k in 0..UNARY.len() {
        for x in leaves.iter() {
            one.push(T::U(k, Box::new(x.clone())));
        }
    }
    for k in 0..BINARY.len() {
        for x in leaves.iter() {
            for y in leaves.iter() {
                one.push(T::B(k, Box::new(x.clone()), Box::new(y.clone())));
            }
        }
    }
    let mut all = leaves.clone();
    all.extend(one.iter().cloned());
    for k in 0..UNARY.len() {
        for x in one.iter() {
            all.push(T::U(k, Box::new(x.clone())));
        }
    }
    // The other operand at depth two: a few leaves of each kind, all of them in the thorough tier.
    let second: Vec<T> = if ctx.thorough { leaves.clone() } else { [0, 2, 4, 5].iter().map(|k| T::L(*k)).collect() };
    for k in 0..BINARY.len() {
        for x in one.iter() {
            for y in second.iter() {
                all.push(T::B(k, Box::new(x.clone()), Box::new(y.clone())));
                all.push(T::B(k, Box::new(y.clone()), Box::new(x.clone())));
            }
        }
    }
    ctx.part("compositions", all.len() as u64);
    let leaf = |name: &'static str| move |t: &T| matches!(t, T::L(k) if LEAF[*k] == name);
    let un = |name: &'static str| move |t: &T| matches!(t, T::U(k, _) if UNARY[*k] == name);
    ctx.par(all.len(), |n| {
        let t = &all[n];
        ctx.case(&t.to_string(), || {
            let mut b = Builder { n: 0, keep: vec![] };
            let mut u = b.build(t);
            ctx.trace();
            ctx.trans(1);
            ctx.state(h64(t.to_string().as_bytes()));
            let bad = |what: String| ctx.violation(t.to_string(), what.clone(), format!("{}: {}", t, what));
            let limited = contains(t, &leaf("lim5")) || contains(t, &leaf("lim9"));
            let freqs = [100.0, 1000.0, 5000.0, 11025.0, 20000.0];
            let claim: Vec<Option<Z>> = freqs.iter().map(|f| u.response(0, *f)).collect();
            if !limited && claim.iter().any(|x| x.is_some()) {
                for amp in [1.0, 0.25] {
                    let h = impulse_response(&mut *u, &[None], 400, amp);
                    for (i, f) in freqs.iter().enumerate() {
                        if let Some(r) = claim[i] {
                            let m = dft(&h[0], *f, 44100.0);
                            if !((m - r).norm() <= 2e-3 * (1.0 + r.norm())) {
                                bad(format!("reported response {} at {} Hz, measured {}", r, f, m));
                                return;
                            }
                        }
                    }
                }
            }
            // Linear compositions must have a response.
            let nonlinear = ["tanh", "const"].iter().any(|x| contains(t, &|t: &T| matches!(t, T::L(k) if LEAF[*k] == *x)))
                || contains(t, &un("feedback"))
                || contains(t, &|t: &T| matches!(t, T::B(k, _, _) if BINARY[*k].ends_with("product") || BINARY[*k] == "resynth"));
            if !nonlinear && claim.iter().any(|x| x.is_none()) {
                bad("linear composition reports no response".into());
                return;
            }
            let l = u.latency();
            let r = reaction(&mut *u, &[None], 90);
            let exact = !contains(t, &leaf("delay")) && !contains(t, &un("feedback")) && !contains(t, &un("oversample"));
            let ok = match (l, r) {
                (None, None) => true,
                (Some(l), Some(r)) => if exact { (l - r as f64).abs() < 1e-6 } else { r as f64 >= l - 1e-6 },
                (None, Some(_)) => !exact,
                (Some(_), None) => !exact,
            };
            if !ok {
                bad(format!("reported latency {:?}, output reacts after {:?} samples", l, r));
            }
        });
    });
}

/// Generators followed by units with latency: the reported latency is the number of silent samples at the start.
fn generators(ctx: &Ctx) {
    type Make = Box<dyn Fn() -> B1>;
    let gens: Vec<(&str, Make)> = vec![
        ("noise", Box::new(|| Box::new(noise()))),
        ("mls", Box::new(|| Box::new(mls()))),
        ("pink", Box::new(|| Box::new(pink()))),
        ("impulse", Box::new(|| Box::new(impulse::<U1>()))),
        ("lfo", Box::new(|| Box::new(lfo(|t| 0.5 + 0.1 * t)))),
        ("envelope_in", Box::new(|| Box::new(dc(0.5) >> lfo2(|t, x| t + x)))),
        ("wave", Box::new(|| {
            let mut w = Wave::new(1, 44100.0);
            (0..200).for_each(|i| w.push(0.5 + 0.001 * i as f32));
            Box::new(wavech(&std::sync::Arc::new(w), 0, None))
        })),
        ("lfo_dsf", Box::new(|| Box::new(lfo(|_t| (4000.0, 0.3)) >> dsf_saw()))),
        ("sequencer", Box::new(|| {
            let mut s = Sequencer::new(true, 1);
            s.push(0.0, 1.0, Fade::Smooth, 0.0, 0.0, Box::new(dc(0.5)));
            Box::new(s)
        })),
        ("net", Box::new(|| Box::new(Net::wrap(Box::new(noise()))))),
    ];
    let rates = [44100.0, 22050.0, 48000.0];
    for (name, make) in gens.iter() {
        for t in 0..LEAF.len() * LEAF.len() {
            let (p, q) = (t % LEAF.len(), t / LEAF.len());
            if [p, q].iter().any(|k| ["const", "delay"].contains(&LEAF[*k])) {
                continue;
            }
            let key = format!("{} >> {} >> {}", name, LEAF[p], LEAF[q]);
            ctx.case(&key, || {
                for rate in rates {
                    let mut b = Builder { n: 0, keep: vec![] };
                    let mut u: B1 = Box::new(unit::<U0, U1>(make()) >> a(b.leaf(p)) >> a(b.leaf(q)));
                    u.set_sample_rate(rate);
                    let l = u.latency();
                    u.reset();
                    let mut o = [0.0];
                    let mut n = 0;
                    while n < 100 && o[0] == 0.0 {
                        u.tick(&[], &mut o);
                        n += 1;
                    }
                    ctx.trace();
                    ctx.trans(n);
                    ctx.state(hmix(h64(key.as_bytes()), rate as u64));
                    // Noise may pass through zero or begin with very small values, but not for long.
                    if l != Some((n - 1) as f64) {
                        ctx.violation(&key, format!("reported latency {:?}, signal begins after {} samples", l, n - 1), format!("{} rate {}: latency {:?}, signal begins after {} samples", key, rate, l, n - 1));
                    }
                    // Latency compensated rendering starts with the signal itself and is the plain rendering otherwise.
                    let fresh = || -> B1 { let mut b = Builder { n: 0, keep: vec![] }; Box::new(unit::<U0, U1>(make()) >> a(b.leaf(p)) >> a(b.leaf(q))) };
                    let full = Wave::render(rate, 120.0 / rate, &mut *fresh());
                    let mut used = fresh();
                    used.tick(&[], &mut o);
                    for (how, mut u) in [("fresh", fresh()), ("used", used)] {
                        let cut = Wave::render_latency(rate, 80.0 / rate, &mut *u);
                        ctx.trans(1);
                        let d = (n - 1) as usize;
                        if cut.length() != 80 || (0..80).any(|i| (cut.at(0, i) - full.at(0, i + d)).abs() > 1e-5) {
                            ctx.violation(&key, format!("render_latency of {} unit is not the rendering without the first {} samples", how, d), format!("{} rate {} {}: render_latency differs", key, rate, how));
                        }
                    }
                }
            });
        }
    }
    // Filtering of a wave with latency compensation.
    for t in 0..LEAF.len() * LEAF.len() {
        let (p, q) = (t % LEAF.len(), t / LEAF.len());
        let key = format!("filter {} >> {}", LEAF[p], LEAF[q]);
        ctx.case(&key, || {
            for rate in rates {
                let mut w = Wave::new(1, rate);
                (0..50).for_each(|i| w.push(0.1 * det(i)));
                let fresh = || -> B1 { let mut b = Builder { n: 0, keep: vec![] }; Box::new(a(b.leaf(p)) >> a(b.leaf(q))) };
                let mut u = fresh();
                u.set_sample_rate(rate);
                let d = u.latency().unwrap_or(0.0) as usize;
                for n in [0usize, 1, 30, 50, 80] {
                    let full = w.filter((n + d) as f64 / rate, &mut *fresh());
                    let cut = w.filter_latency(n as f64 / rate, &mut *fresh());
                    ctx.trace();
                    ctx.trans(1);
                    ctx.state(hmix(h64(key.as_bytes()), hmix(rate as u64, n as u64)));
                    if cut.length() != n || (0..n).any(|i| (cut.at(0, i) - full.at(0, i + d)).abs() > 1e-6) {
                        ctx.violation(&key, format!("filter_latency is not the filtered wave without the first {} samples", d), format!("{} rate {} length {}", key, rate, n));
                    }
                }
            }
        });
    }
}

pub fn c11(ctx: &Ctx) {
    generators(ctx);
    units(ctx);
    compositions(ctx);
}
