//! C08: slot frontend and backend, all interleavings against a reference crossfader.
use crate::c_net::guard;
use crate::c_realnet::{fade_at, real_fade, real_unit, RUnit};
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::hacker32::*;
use std::collections::VecDeque;

const SR: f64 = 65536.0;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Tick,
    Block(usize),
    /// Kind, fade shape, fade length.
    Set(usize, usize, usize),
    Reset,
    Rate(usize),
}
use Op::*;

type Pair = [RUnit; 2];
fn pair(kind: usize) -> Pair {
    [RUnit::new(kind), RUnit::new(if kind == 0 { 1 } else { kind })]
}
fn stereo(kind: usize) -> Box<dyn AudioUnit> {
    let mut net = Net::wrap(real_unit(kind));
    net = net | Net::wrap(real_unit(if kind == 0 { 1 } else { kind }));
    Box::new(net)
}

#[derive(Clone, Debug)]
struct Model {
    rate: f32,
    current: Pair,
    next: Option<(Pair, usize, usize)>,
    latest: Option<(Pair, usize, usize)>,
    phase: f64,
    hold: bool,
    queue: VecDeque<(Pair, usize, usize)>,
}
impl Model {
    fn drain(&mut self) {
        while let Some(m) = self.queue.pop_front() {
            if self.next.is_some() {
                self.latest = Some(m);
            } else {
                self.next = Some(m);
                self.phase = 0.0;
            }
        }
    }
    fn step(&mut self, x: [f32; 2], block: bool) -> [f32; 2] {
        let mut y = [0.0; 2];
        for c in 0..2 {
            y[c] = self.current[c].step(&[x[c]], self.rate);
        }
        if let (Some((n, fade, len)), false) = (&mut self.next, self.hold) {
            for c in 0..2 {
                let z = n[c].step(&[x[c]], self.rate);
                y[c] = y[c] * fade_at(*fade, 1.0 - self.phase as f32) + z * fade_at(*fade, self.phase as f32);
            }
            self.phase += 1.0 / (*len as f64 * self.rate as f64 / SR);
            if self.phase >= 1.0 {
                self.current = *n;
                self.next = self.latest.take();
                self.phase = 0.0;
                self.hold = block;
            }
        }
        y
    }
}

struct Sim {
    slot: Slot,
    back: fundsp::slot::SlotBackend,
    model: Model,
    driver: Driver,
    pos: usize,
    gen: bool,
}
impl Sim {
    fn new(gen: bool) -> Sim {
        let k = if gen { 3 } else { 5 };
        let (slot, mut back) = Slot::new(stereo(k));
        back.set_sample_rate(SR);
        let driver = Driver::new(&back);
        Sim { slot, back, driver, pos: 0, gen, model: Model { rate: SR as f32, current: pair(k), next: None, latest: None, phase: 0.0, hold: false, queue: VecDeque::new() } }
    }
    fn process(&mut self, step: Step) -> Result<(), String> {
        self.model.drain();
        let mut out = vec![vec![]; 2];
        let f = |c: usize, i: usize| det(i as u64 * 2 + c as u64);
        let begin = self.pos;
        self.pos = self.driver.step(&mut self.back, step, self.pos, &f, &mut out);
        for i in begin..self.pos {
            let y = self.model.step([f(0, i), f(1, i)], step != Step::Tick);
            for c in 0..2 {
                let z = out[c][i - begin];
                if !((y[c] - z).abs() <= 2e-4 * (1.0 + y[c].abs())) {
                    return Err(format!("channel {} index {} of {:?}: expected {} got {}", c, i - begin, step, y[c], z));
                }
            }
        }
        self.model.hold = false;
        crate::rt::check()
    }
    fn apply(&mut self, op: Op) -> Result<bool, String> {
        match op {
            Tick => self.process(Step::Tick)?,
            Block(n) => self.process(Step::Block(n))?,
            Set(k, fade, len) => {
                let k = if self.gen { if k == 0 { 2 } else { 3 } } else { k };
                self.slot.set(real_fade(fade), len as f64 / SR, stereo(k));
                self.model.queue.push_back((pair(k), fade, len));
            }
            Reset => {
                if !self.model.queue.is_empty() {
                    return Ok(false);
                }
                self.back.reset();
                let m = &mut self.model;
                let next = m.next.take();
                if let Some((u, ..)) = m.latest.take().or(next) {
                    m.current = u;
                }
                m.current.iter_mut().for_each(|u| u.state = 0.0);
            }
            Rate(r) => {
                self.back.set_sample_rate(SR * r as f64);
                self.model.rate = (SR * r as f64) as f32;
            }
        }
        Ok(true)
    }
}

/// A single crossfade of every length in a range at an ordinary sample rate, from every starting position, in every step size.
fn grid(ctx: &Ctx) {
    let steps = [Step::Tick, Step::Block(1), Step::Block(5), Step::Block(8), Step::Block(33), Step::Block(64)];
    for sr in [44100.0, 48000.0] {
        ctx.par(ctx.q(140, 400), |len| {
            for (fade, step) in steps.iter().flat_map(|s| [(0usize, *s), (1, *s)]) {
                let len = len + 1;
                let key = format!("grid sr={} length={} fade={} {:?}", sr, len, fade, step);
                ctx.case(&key, || {
                    let (mut slot, mut back) = Slot::new(Box::new(dc((1.0, -2.0))));
                    back.set_sample_rate(sr);
                    let mut driver = Driver::new(&back);
                    let mut out = vec![vec![]; 2];
                    driver.step(&mut back, step, 0, &|_, _| 0.0, &mut out);
                    let begin = out[0].len();
                    slot.set(real_fade(fade), len as f64 / sr, Box::new(dc((3.0, 0.5))));
                    while out[0].len() < begin + len + 10 {
                        driver.step(&mut back, step, 0, &|_, _| 0.0, &mut out);
                    }
                    ctx.trace();
                    ctx.trans(out[0].len() as u64);
                    ctx.state(hmix(hashf(&out[0]), fade as u64));
                    for (c, (a, b)) in [(1.0, 3.0), (-2.0, 0.5)].into_iter().enumerate() {
                        for k in 0..out[0].len() {
                            let p = if k < begin { 0.0 } else { ((k - begin) as f32 / len as f32).min(1.0) };
                            let x = a * fade_at(fade, 1.0 - p) + b * fade_at(fade, p);
                            // The final sample of the fade may be rounded either way.
                            let tol = if k + 1 == begin + len || k == begin + len { 0.02 } else { 1e-3 };
                            if !((x - out[c][k]).abs() <= tol * 4.0 + if k + 1 == begin + len { (b - x).abs() } else { 0.0 }) {
                                ctx.violation(&key, format!("channel {} sample {}: expected {} got {}", c, k, x, out[c][k]), key.clone());
                                return;
                            }
                        }
                    }
                });
            }
        });
    }
}

pub fn c08(ctx: &Ctx) {
    grid(ctx);
    explore(ctx, ctx.q(6, 7));
}

pub fn explore(ctx: &Ctx, depth: usize) {
    let alpha = vec![Tick, Block(2), Block(9), Block(64), Set(0, 0, 4), Set(5, 1, 8), Set(1, 1, 1), Set(0, 1, 32), Reset, Rate(2)];
    for gen in [false, true] {
        let n = alpha.len().pow(depth as u32);
        let chunk = 512;
        ctx.sample(|| format!("generator={}: all {} interleavings of length {} over {:?}", gen, n, depth, alpha));
        ctx.par(n.div_ceil(chunk), |c| {
            let key = if gen { "generators" } else { "processors" };
            ctx.case(key, || {
                'seq: for idx in c * chunk..core::cmp::min(n, c * chunk + chunk) {
                    let ops: Vec<Op> = digits(idx, alpha.len(), depth).iter().map(|x| alpha[*x]).collect();
                    // Symmetry: without replacements there is only the identity to check.
                    if !ops.iter().any(|o| matches!(o, Set(..))) {
                        continue;
                    }
                    let mut trail = vec![];
                    let r = guard(|| {
                        let mut s = Sim::new(gen);
                        for op in ops.iter() {
                            trail.push(*op);
                            if !s.apply(*op)? {
                                return Err("n/a".into());
                            }
                            ctx.trans(1);
                        }
                        ctx.state(h64(format!("{} {:?}", gen, s.model).as_bytes()));
                        for op in [Tick, Block(11), Tick, Block(64)] {
                            trail.push(op);
                            s.apply(op)?;
                        }
                        ctx.trace();
                        Ok(())
                    });
                    match r {
                        Err(e) if e == "n/a" => continue 'seq,
                        Err(e) => {
                            ctx.violation(key, format!("{} after {:?}", e, trail), format!("{}: {:?}: {}", key, trail, e));
                            return;
                        }
                        Ok(()) => (),
                    }
                }
            });
        });
    }
}
