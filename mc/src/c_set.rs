//! C10: settings. Address paths over shapes, the documented settings table, and setting listeners.
use crate::catalog::{signal, Driver, In, Step};
use crate::fw::*;
use fundsp::hacker32::*;
use std::collections::VecDeque;

type Make = Box<dyn Fn(&[f32]) -> Box<dyn AudioUnit> + Send + Sync>;
/// Setting call and how many leading parameters it sets.
type Call = (usize, fn(&[f32]) -> Setting);
struct Row {
    name: String,
    make: Make,
    calls: Vec<Call>,
    values: Vec<Vec<f32>>,
    ins: Vec<In>,
}
const C: Call = (1, |p| Setting::center(p[0]));
const CQ: Call = (2, |p| Setting::center_q(p[0], p[1]));
const CQG: Call = (3, |p| Setting::center_q_gain(p[0], p[1], p[2]));

fn grid(axes: &[&[f32]]) -> Vec<Vec<f32>> {
    let mut v: Vec<Vec<f32>> = vec![vec![]];
    for a in axes {
        v = v.into_iter().flat_map(|x| a.iter().map(move |y| { let mut z = x.clone(); z.push(*y); z })).collect();
    }
    v
}

macro_rules! rows {
    ($v:ident, $pre:expr, $env:ident) => {{
        use fundsp::$env::*;
        let a = vec![In::A];
        let f: &[f32] = &[90.0, 1000.0, 5000.0];
        let q: &[f32] = &[0.6, 3.0];
        let g: &[f32] = &[0.5, 2.0];
        let mut row = |name: &str, make: Make, calls: Vec<Call>, values: Vec<Vec<f32>>, ins: Vec<In>| {
            $v.push(Row { name: format!("{}:{}", $pre, name), make, calls, values, ins })
        };
        macro_rules! cq { ($n:ident) => { row(stringify!($n), Box::new(|p| Box::new($n(p[0], p[1]))), vec![CQ, C], grid(&[f, q]), a.clone()); } }
        macro_rules! cqg { ($n:ident) => { row(stringify!($n), Box::new(|p| Box::new($n(p[0], p[1], p[2]))), vec![CQG, CQ, C], grid(&[f, q, g]), a.clone()); } }
        macro_rules! c1 { ($n:ident) => { row(stringify!($n), Box::new(|p| Box::new($n(p[0]))), vec![C], grid(&[f]), a.clone()); } }
        macro_rules! dcq { ($n:ident) => { row(stringify!($n), Box::new(|p| Box::new($n(Tanh(1.0), p[0], p[1]))), vec![CQ, C], grid(&[f, q]), a.clone()); } }
        macro_rules! dcqg { ($n:ident) => { row(stringify!($n), Box::new(|p| Box::new($n(Softsign(0.7), p[0], p[1], p[2]))), vec![CQG, CQ, C], grid(&[f, q, g]), a.clone()); } }
        cq!(allpass_hz); cq!(bandpass_hz); cq!(highpass_hz); cq!(lowpass_hz); cq!(notch_hz); cq!(peak_hz); cq!(resonator_hz);
        row("moog_hz", Box::new(|p| Box::new(moog_hz(p[0], p[1]))), vec![CQ, C], grid(&[f, &[0.1, 0.7]]), a.clone());
        row("lowrez_hz", Box::new(|p| Box::new(lowrez_hz(p[0], p[1]))), vec![CQ, C], grid(&[f, &[0.1, 0.7]]), a.clone());
        row("bandrez_hz", Box::new(|p| Box::new(bandrez_hz(p[0], p[1]))), vec![CQ, C], grid(&[f, &[0.1, 0.7]]), a.clone());
        cqg!(bell_hz); cqg!(lowshelf_hz); cqg!(highshelf_hz);
        c1!(butterpass_hz); c1!(dcblock_hz); c1!(highpole_hz); c1!(lowpole_hz);
        dcq!(dhighpass_hz); dcq!(dlowpass_hz); dcq!(dresonator_hz); dcq!(fhighpass_hz); dcq!(flowpass_hz); dcq!(fresonator_hz);
        dcqg!(dbell_hz); dcqg!(fbell_hz);
        row("allpole_delay", Box::new(|p| Box::new(allpole_delay(p[0]))), vec![(1, |p| Setting::delay(p[0]))], grid(&[&[0.3, 1.0, 1.7]]), a.clone());
        row("afollow", Box::new(|p| Box::new(afollow(p[0], p[1]))), vec![(2, |p| Setting::attack_release(p[0], p[1]))], grid(&[&[0.0, 0.001, 0.1], &[0.002, 0.05]]), a.clone());
        row("follow", Box::new(|p| Box::new(follow(p[0]))), vec![(1, |p| Setting::time(p[0]))], grid(&[&[0.0, 0.001, 0.1]]), a.clone());
        row("biquad", Box::new(|p| Box::new(biquad(p[0], p[1], p[2], p[3], p[4]))),
            vec![(5, |p| Setting::biquad(p[0], p[1], p[2], p[3], p[4]))],
            vec![vec![0.0, 0.0, 1.0, 0.0, 0.0], vec![-0.5, 0.2, 0.3, 0.1, 0.4], vec![0.1, -0.3, -0.5, 0.2, 0.6]], a.clone());
        row("dc", Box::new(|p| Box::new(dc((p[0], p[0])))), vec![(1, |p| Setting::value(p[0]))], grid(&[&[0.0, -1.5, 2.0]]), vec![]);
        row("constant", Box::new(|p| Box::new(constant(p[0]))), vec![(1, |p| Setting::value(p[0]))], grid(&[&[0.0, -1.5, 2.0]]), vec![]);
        let fin = vec![In::C(50.0, 3000.0)];
        row("dsf_saw_r", Box::new(|p| Box::new(dsf_saw_r(p[0]).phase(0.0))), vec![(1, |p| Setting::roughness(p[0]))], grid(&[&[0.1, 0.5, 0.9]]), fin.clone());
        row("dsf_square_r", Box::new(|p| Box::new(dsf_square_r(p[0]).phase(0.0))), vec![(1, |p| Setting::roughness(p[0]))], grid(&[&[0.1, 0.5, 0.9]]), fin.clone());
        row("hold", Box::new(|p| Box::new(hold(p[0]))), vec![(1, |p| Setting::variability(p[0]))], grid(&[&[0.0, 0.5, 1.0]]), vec![In::A, In::C(2000.0, 9000.0)]);
        row("pan", Box::new(|p| Box::new(pan(p[0]))), vec![(1, |p| Setting::pan(p[0]))], grid(&[&[-1.0, -0.3, 0.0, 0.8]]), a.clone());
        row("lfo", Box::new(|p| Box::new(lfo(|t| sin_hz(100.0, t)).interval(p[0]))), vec![(1, |p| Setting::interval(p[0]))], grid(&[&[0.0005, 0.002, 0.0031]]), vec![]);
        row("lfo_in", Box::new(|p| Box::new(lfo_in(|t, i: &Frame<f32, U1>| sin_hz(100.0, t) * (if i[0] > 0.0 { 1.0 } else { 0.5 })).interval(p[0]))), vec![(1, |p| Setting::interval(p[0]))], grid(&[&[0.0005, 0.002, 0.0031]]), a.clone());
        macro_rules! ph { ($n:ident, $w:ident) => {
            row(stringify!($n), Box::new(|p| Box::new($n().phase(p[0]))), vec![(1, |p| Setting::phase(p[0]))], grid(&[&[0.0, 0.25, 0.9]]), fin.clone());
            row(stringify!($w), Box::new(|p| Box::new($w(440.0).phase(p[0]))), vec![(1, |p| Setting::phase(p[0]).right())], grid(&[&[0.0, 0.25, 0.9]]), vec![]);
        } }
        ph!(sine, sine_hz); ph!(saw, saw_hz); ph!(square, square_hz); ph!(triangle, triangle_hz); ph!(organ, organ_hz); ph!(soft_saw, soft_saw_hz); ph!(hammond, hammond_hz);
        ph!(ramp, ramp_hz); ph!(poly_saw, poly_saw_hz); ph!(poly_square, poly_square_hz);
        row("poly_pulse", Box::new(|p| Box::new(poly_pulse().phase(p[0]))), vec![(1, |p| Setting::phase(p[0]))], grid(&[&[0.0, 0.25, 0.9]]), vec![In::C(50.0, 3000.0), In::C(0.1, 0.9)]);
        macro_rules! sd { ($n:ident, $s:expr) => {
            row(stringify!($n), Box::new(|p| Box::new($n().seed(p[0] as u64))), vec![(1, $s)], grid(&[&[0.0, 1.0, 77.0]]), vec![]);
        } }
        sd!(noise, |p| Setting::seed(p[0] as u64)); sd!(white, |p| Setting::seed(p[0] as u64)); sd!(mls, |p| Setting::seed(p[0] as u64));
        sd!(pink, |p| Setting::seed(p[0] as u64).left()); sd!(brown, |p| Setting::seed(p[0] as u64).left());
        let sub: &[&[f32]] = &[&[1.0, 2.0, 7.0, 64.0]];
        macro_rules! ss { ($n:ident, $i:expr) => {
            row(stringify!($n), Box::new(|p| Box::new($n().subsample(p[0] as u32))), vec![(1, |p| Setting::subsample(p[0] as u32))], grid(sub), $i);
        } }
        let i3 = vec![In::A, In::C(100.0, 3000.0), In::C(0.5, 4.0)];
        let i4 = vec![In::A, In::C(100.0, 3000.0), In::C(0.5, 4.0), In::C(0.5, 2.0)];
        ss!(lowpass, i3.clone()); ss!(highpass, i3.clone()); ss!(bandpass, i3.clone()); ss!(notch, i3.clone()); ss!(peak, i3.clone()); ss!(allpass, i3.clone());
        ss!(bell, i4.clone()); ss!(lowshelf, i4.clone()); ss!(highshelf, i4.clone());
    }};
}

fn table() -> Vec<Row> {
    let mut v: Vec<Row> = vec![];
    rows!(v, "32", hacker32);
    rows!(v, "64", hacker);
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Set(usize, usize),
    Rate(f64),
    Run,
    Reset,
}

const N: usize = 96;
fn listen_to(unit: &mut dyn AudioUnit, ins: &[In], n: usize) -> Vec<Vec<f32>> {
    let mut driver = Driver::new(unit);
    let mut out = vec![vec![]; unit.outputs()];
    let f = |c: usize, i: usize| signal(ins[c], 0, c, i);
    driver.step(unit, Step::Block(std::cmp::min(40, n)), 0, &f, &mut out);
    let mut pos = std::cmp::min(40, n);
    while pos < n {
        pos = driver.step(unit, Step::Tick, pos, &f, &mut out);
    }
    out
}

/// Every history of settings, sample rate changes, processing and resets: the unit ends up as if constructed with the values.
fn settings_table(ctx: &Ctx) {
    let rows = table();
    ctx.part("settings table rows", rows.len() as u64);
    ctx.par(rows.len(), |r| {
        let row = &rows[r];
        let mut ops = vec![Op::Run, Op::Reset, Op::Rate(48000.0), Op::Rate(22050.0)];
        for c in 0..row.calls.len() {
            for v in 0..row.values.len() {
                // Skip values that differ only in parameters this call does not set.
                let n = row.calls[c].0;
                if (0..v).any(|w| row.values[w][..n] == row.values[v][..n]) {
                    continue;
                }
                ops.push(Op::Set(c, v));
            }
        }
        ctx.case(&row.name, || {
            let limit = ctx.q(40_000usize, 1_500_000);
            let depth = (1..9).filter(|d| ops.len().pow(*d as u32) <= limit).last().unwrap();
            let mut oracle: std::collections::HashMap<Vec<u32>, Vec<Vec<f32>>> = Default::default();
            for len in 1..=depth {
                for h in 0..ops.len().pow(len as u32) {
                    let hist: Vec<Op> = digits(h, ops.len(), len).into_iter().map(|i| ops[i]).collect();
                    // Histories without a setting are covered elsewhere; trailing ones are extended.
                    if !hist.iter().any(|o| matches!(o, Op::Set(..))) {
                        continue;
                    }
                    let mut params = row.values[0].clone();
                    let mut rate = 44100.0;
                    let mut unit = (row.make)(&params);
                    for op in hist.iter() {
                        match *op {
                            Op::Set(c, v) => {
                                let n = row.calls[c].0;
                                params[..n].copy_from_slice(&row.values[v][..n]);
                                unit.set((row.calls[c].1)(&row.values[v]));
                            }
                            Op::Rate(x) => {
                                rate = x;
                                unit.set_sample_rate(x);
                            }
                            Op::Run => {
                                listen_to(&mut *unit, &row.ins, 50);
                            }
                            Op::Reset => unit.reset(),
                        }
                        ctx.trans(1);
                    }
                    unit.reset();
                    let got = listen_to(&mut *unit, &row.ins, N);
                    let mut key: Vec<u32> = params.iter().map(|x| x.to_bits()).collect();
                    key.push(rate as u32);
                    ctx.state(hmix(h64(row.name.as_bytes()), h64(&key.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>())));
                    let want = oracle.entry(key).or_insert_with(|| {
                        let mut unit = (row.make)(&params);
                        unit.set_sample_rate(rate);
                        unit.reset();
                        listen_to(&mut *unit, &row.ins, N)
                    });
                    ctx.trace();
                    if let Some((c, i, x, y)) = crate::catalog::diff(want, &got, 1.0e-5) {
                        ctx.violation(
                            row.name.clone(),
                            format!("channel {} sample {}: {} but a unit constructed with {:?} gives {}, after {:?}", c, i, y, params, x, hist),
                            format!("{} made with {:?}, history {:?} (Set(call, value index)), then reset; expected the unit made with {:?}", row.name, row.values[0], hist, params),
                        );
                        return;
                    }
                }
            }
        });
    });
    // Biquad banks: every sequence of three channel settings equals a stack of single biquads.
    let coefs = [[0.0, 0.0, 1.0, 0.0, 0.0], [-0.5, 0.2, 0.3, 0.1, 0.4], [0.1, -0.3, -0.5, 0.2, 0.6f32]];
    for bank in [4usize, 8] {
        let alphabet = bank * coefs.len();
        ctx.par(alphabet.pow(3), |h| {
            let hist = digits(h, alphabet, 3);
            let name = format!("biquad_bank {} {:?}", bank, hist);
            ctx.case(&name, || {
                let mut unit: Box<dyn AudioUnit> = if bank == 8 { Box::new(fundsp::hacker32::biquad_bank()) } else { Box::new(fundsp::hacker::biquad_bank()) };
                if unit.inputs() != bank {
                    return;
                }
                let mut model = vec![[0.0f32; 5]; bank];
                // A new bank passes silence or signal; only channels that have been set are compared.
                let mut set = vec![false; bank];
                for d in hist.iter() {
                    let (ch, k) = (d % bank, d / bank);
                    model[ch] = coefs[k];
                    set[ch] = true;
                    let c = coefs[k];
                    unit.set(Setting::biquad(c[0], c[1], c[2], c[3], c[4]).index(ch));
                    ctx.trans(1);
                }
                let ins = vec![In::A; bank];
                let got = listen_to(&mut *unit, &ins, 30);
                ctx.trace();
                ctx.state(h64(name.as_bytes()));
                for ch in 0..bank {
                    let c = model[ch];
                    let mut one = fundsp::hacker::biquad(c[0], c[1], c[2], c[3], c[4]);
                    for i in 0..30 {
                        let y = one.filter_mono(signal(In::A, 0, ch, i));
                        if set[ch] && (y - got[ch][i]).abs() > 1e-4 {
                            ctx.violation(format!("biquad_bank {}", bank), format!("channel {} sample {}: {} expected {} after {:?}", ch, i, got[ch][i], y, hist), name.clone());
                            return;
                        }
                    }
                }
            });
        });
    }
}

/// A node that hashes all settings it receives and outputs (number of settings, hash).
#[derive(Clone)]
struct Recorder {
    count: u32,
    hash: u32,
}
impl AudioNode for Recorder {
    const ID: u64 = 90001;
    type Inputs = U0;
    type Outputs = U2;
    fn tick(&mut self, _input: &Frame<f32, U0>) -> Frame<f32, U2> {
        [self.count as f32, self.hash as f32].into()
    }
    fn set(&mut self, setting: Setting) {
        if let Parameter::Value(x) = setting.parameter() {
            self.count += 1;
            self.hash = (self.hash * 31 + *x as u32) % 65521;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Lop {
    Send(bool, u32),
    Clone(bool, u32),
    Tick,
    Block,
    Reset,
    Rate,
}

fn listeners(ctx: &Ctx) {
    // Left and right recorders behind one listener; messages through the sender and its clone.
    let ops = [
        Lop::Send(false, 3), Lop::Send(true, 5), Lop::Clone(false, 7), Lop::Clone(true, 11), Lop::Tick, Lop::Block, Lop::Reset, Lop::Rate,
    ];
    let depth = ctx.q(6, 8);
    ctx.par(ops.len().pow(2), |p| {
        ctx.case(&format!("listener {}", p), || {
            for h in 0..ops.len().pow(depth as u32 - 2) {
                let mut hist: Vec<Lop> = digits(p, ops.len(), 2).into_iter().map(|i| ops[i]).collect();
                hist.extend(digits(h, ops.len(), depth - 2).into_iter().map(|i| ops[i]));
                hist.push(Lop::Tick);
                let (sender, mut node) = listen(An(Recorder { count: 0, hash: 1 }) | An(Recorder { count: 0, hash: 1 }));
                let other = sender.clone();
                let mut queue: VecDeque<(bool, u32)> = VecDeque::new();
                let mut model = [(0u32, 1u32); 2];
                for (k, op) in hist.iter().enumerate() {
                    ctx.trans(1);
                    let mut out = vec![];
                    match *op {
                        Lop::Send(right, x) | Lop::Clone(right, x) => {
                            let s = Setting::value(x as f32);
                            let s = if right { s.right() } else { s.left() };
                            let sender = if matches!(op, Lop::Send(..)) { &sender } else { &other };
                            if sender.try_send(s).is_err() {
                                ctx.violation("listener send", "send failed", format!("{:?}", hist));
                                return;
                            }
                            queue.push_back((right, x));
                        }
                        Lop::Tick => out = node.tick(&Frame::default()).to_vec(),
                        Lop::Block => {
                            let mut b = BufferVec::new(4);
                            AudioNode::process(&mut node.0, 9, &BufferRef::empty(), &mut b.buffer_mut());
                            let x: Vec<f32> = (0..4).map(|c| b.at_f32(c, 0)).collect();
                            let y: Vec<f32> = (0..4).map(|c| b.at_f32(c, 8)).collect();
                            if x != y {
                                ctx.violation("listener block", "settings changed inside a block", format!("{:?}", hist));
                                return;
                            }
                            out = x;
                        }
                        Lop::Reset => AudioNode::reset(&mut node.0),
                        Lop::Rate => AudioNode::set_sample_rate(&mut node.0, 48000.0),
                    }
                    if !out.is_empty() {
                        while let Some((right, x)) = queue.pop_front() {
                            let m = &mut model[right as usize];
                            *m = (m.0 + 1, (m.1 * 31 + x) % 65521);
                        }
                        let want = vec![model[0].0 as f32, model[0].1 as f32, model[1].0 as f32, model[1].1 as f32];
                        if want != out {
                            ctx.violation("listener order", format!("(count, hash) pairs {:?} expected {:?} after {:?}", out, want, &hist[..=k]), format!("{:?}", &hist[..=k]));
                            return;
                        }
                    }
                }
                ctx.trace();
                ctx.state(hmix(p as u64, h as u64));
            }
        });
    });
    // Capacity: any number of settings sent between two processing calls; the accepted ones arrive in order.
    for burst in 0..200u32 {
        ctx.case(&format!("burst {}", burst), || {
            let (sender, mut node) = listen(An(Recorder { count: 0, hash: 1 }));
            for round in 0..2 {
                let before = node.tick(&Frame::default());
                let (mut count, mut hash) = (before[0] as u32, before[1] as u32);
                for i in 0..burst {
                    if sender.try_send(Setting::value((i + round) as f32)).is_ok() {
                        count += 1;
                        hash = (hash * 31 + i + round) % 65521;
                    }
                    ctx.trans(1);
                }
                let after = node.tick(&Frame::default());
                ctx.trace();
                ctx.state(hmix(777, (burst * 2 + round) as u64));
                if after[0] != count as f32 || after[1] != hash as f32 || (count - before[0] as u32) < std::cmp::min(burst, 64) {
                    ctx.violation("listener capacity", format!("{} settings: {} accepted, {} received", burst, count - before[0] as u32, after[0] - before[0]), format!("burst {} round {}", burst, round));
                }
            }
        });
    }
}

pub fn c10(ctx: &Ctx) {
    crate::c_shape::c10_shapes(ctx);
    settings_table(ctx);
    listeners(ctx);
    ctx.note("invalid indices into indexed structures are outside the explored space");
}
