//! C06: sequencer against a reference scheduler. C07: sequencer frontend and backend, all interleavings.
use crate::c_net::guard;
use crate::c_realnet::{fade_at, real_fade};
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::hacker32::*;
use fundsp::sequencer::EventId;
use std::collections::VecDeque;

const SR: f64 = 1024.0;
const CH: usize = 2;

/// All times are in samples at the base sample rate.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SOp {
    Tick,
    Block(usize),
    /// Start, end, fade in, fade out, fade shape.
    Push(f64, f64, f64, f64, usize),
    PushDuration(f64, f64, f64, f64, usize),
    PushRel(f64, f64, f64, f64, usize),
    /// Edit event: true = latest, false = first; end time, fade out.
    Edit(bool, f64, f64),
    EditRel(bool, f64, f64),
    Reset,
    Rate(usize),
}
use SOp::*;

#[derive(Clone, Debug)]
struct Ev {
    start: f64,
    end: f64,
    fi: f64,
    fo: f64,
    shape: usize,
    serial: usize,
    n: usize,
}
fn slope(serial: usize, ch: usize) -> f32 {
    (1.0 / (3.0 + serial as f64 * 2.3) + 0.05 * ch as f64) as f32
}
fn unit(serial: usize) -> Box<dyn AudioUnit> {
    Box::new((dc(slope(serial, 0)) >> feedback(pass())) | (dc(slope(serial, 1)) >> feedback(pass())))
}

/// Reference scheduler.
#[derive(Clone, Debug)]
struct Model {
    replay: bool,
    events: Vec<Ev>,
    t: f64,
    rate: f64,
    /// Events ever pushed.
    serial: usize,
}
impl Model {
    fn push(&mut self, start: f64, end: f64, fi: f64, fo: f64, shape: usize) {
        self.events.push(Ev { start, end, fi, fo, shape, serial: self.serial, n: 0 });
        self.serial += 1;
    }
    fn step(&mut self) -> [f32; CH] {
        let d = 1.0 / self.rate;
        let mut out = [0.0; CH];
        for e in self.events.iter_mut() {
            if e.start < self.t + 0.5 * d && e.end > self.t + 0.5 * d {
                e.n += 1;
                let mut w = 1.0;
                if e.fi > 0.0 && self.t < e.start + e.fi {
                    w *= fade_at(e.shape, ((self.t - e.start) / e.fi) as f32);
                }
                if e.fo > 0.0 && self.t > e.end - e.fo {
                    w *= fade_at(e.shape, ((e.end - self.t) / e.fo) as f32);
                }
                for (c, o) in out.iter_mut().enumerate() {
                    *o += slope(e.serial, c) * e.n as f32 * w;
                }
            }
        }
        self.t += d;
        out
    }
    /// Resolve the event an edit refers to, and whether the edit is in contract (it shortens an event that has not ended).
    fn target(&self, last: bool, end: f64) -> Option<usize> {
        let i = if last { self.events.len().checked_sub(1)? } else { 0 };
        let e = self.events.get(i)?;
        (end <= e.end && e.end > self.t).then_some(i)
    }
    /// Returns None if not applicable. Returns the event index edited otherwise.
    fn apply(&mut self, op: SOp) -> Option<usize> {
        // After a change of sample rate, act at whole base samples only so that no time falls halfway between samples.
        if self.t.fract() != 0.0 {
            return None;
        }
        match op {
            Push(s, e, fi, fo, f) | PushDuration(s, e, fi, fo, f) => self.push(s, e, fi, fo, f),
            PushRel(s, e, fi, fo, f) => self.push(self.t + s, self.t + e, fi, fo, f),
            Edit(last, end, fo) => {
                let i = self.target(last, end)?;
                self.events[i].end = end;
                self.events[i].fo = fo;
                return Some(i);
            }
            EditRel(last, end, fo) => {
                let end = self.t + end;
                let i = self.target(last, end)?;
                self.events[i].end = end;
                self.events[i].fo = fo;
                return Some(i);
            }
            Reset => {
                if self.replay {
                    self.events.iter_mut().for_each(|e| e.n = 0);
                } else {
                    self.events.clear();
                }
                self.t = 0.0;
            }
            Rate(r) => self.rate = r as f64,
            _ => (),
        }
        Some(0)
    }
}

fn push_real(seq: &mut Sequencer, op: SOp, serial: usize) -> Option<EventId> {
    let k = |x: f64| x / SR;
    match op {
        Push(s, e, fi, fo, f) => Some(seq.push(k(s), k(e), real_fade(f), k(fi), k(fo), unit(serial))),
        PushDuration(s, e, fi, fo, f) => Some(seq.push_duration(k(s), k(e - s), real_fade(f), k(fi), k(fo), unit(serial))),
        PushRel(s, e, fi, fo, f) => Some(seq.push_relative(k(s), k(e), real_fade(f), k(fi), k(fo), unit(serial))),
        _ => None,
    }
}

struct Play {
    model: Model,
    ids: Vec<EventId>,
    seq: Sequencer,
    driver: Driver,
}
impl Play {
    fn new(replay: bool) -> Play {
        let mut seq = Sequencer::new(replay, CH);
        seq.set_sample_rate(SR);
        let driver = Driver::new(&seq);
        Play { model: Model { replay, events: vec![], t: 0.0, rate: 1.0, serial: 0 }, ids: vec![], seq, driver }
    }
    fn process(&mut self, step: Step) -> Result<(), String> {
        let mut out = vec![vec![]; CH];
        self.driver.step(&mut self.seq, step, 0, &|_, _| 0.0, &mut out);
        let t0 = self.model.t;
        for i in 0..out[0].len() {
            let t = self.model.t;
            let y = self.model.step();
            for c in 0..CH {
                if !((y[c] - out[c][i]).abs() <= 2e-4 * (1.0 + y[c].abs())) {
                    return Err(format!("channel {} at time {} samples (index {} of {:?}): expected {} got {}", c, t, i, step, y[c], out[c][i]));
                }
            }
        }
        let _ = t0;
        if (self.seq.time() * SR - self.model.t).abs() > 1e-6 {
            return Err(format!("time() is {} samples, expected {}", self.seq.time() * SR, self.model.t));
        }
        Ok(())
    }
    fn apply(&mut self, op: SOp) -> Result<bool, String> {
        match op {
            Tick => return self.process(Step::Tick).map(|_| true),
            Block(n) => return self.process(Step::Block(n)).map(|_| true),
            _ => (),
        }
        let serial = self.model.serial;
        let i = match self.model.apply(op) {
            Some(i) => i,
            None => return Ok(false),
        };
        match op {
            Edit(_, end, fo) => self.seq.edit(self.ids[self.model.events[i].serial], end / SR, fo / SR),
            EditRel(_, end, fo) => self.seq.edit_relative(self.ids[self.model.events[i].serial], end / SR, fo / SR),
            Reset => self.seq.reset(),
            Rate(r) => self.seq.set_sample_rate(SR * r as f64),
            op => {
                let id = push_real(&mut self.seq, op, serial).unwrap();
                if self.ids.contains(&id) {
                    return Err("event ID is not unique".into());
                }
                self.ids.push(id);
            }
        }
        Ok(true)
    }
}

const INF: f64 = f64::INFINITY;

fn scenarios(ctx: &Ctx) -> Vec<(&'static str, Vec<SOp>, usize)> {
    vec![
        ("push", vec![Push(3.0, 10.0, 0.0, 0.0, 0), Push(6.25, 17.75, 0.0, 0.0, 0), Push(0.0, 40.0, 4.0, 8.0, 1), PushDuration(5.0, 13.0, 8.0, 8.0, 0), PushRel(0.0, 9.0, 2.0, 0.0, 0), PushRel(70.0, 80.0, 0.0, 4.0, 1), Tick, Block(4), Block(13), Block(64), Reset], ctx.q(6, 7)),
        ("edit", vec![Push(2.0, 30.0, 4.0, 4.0, 1), PushRel(6.0, INF, 0.0, 0.0, 0), PushRel(0.0, INF, 8.0, 2.0, 0), EditRel(true, 4.0, 4.0), EditRel(false, 0.0, 0.0), EditRel(true, 20.0, 8.0), Edit(true, 12.0, 5.0), Edit(false, 1.0, 0.0), Tick, Block(5), Block(16), Reset], ctx.q(6, 7)),
        ("rate", vec![Push(3.0, 10.0, 0.0, 0.0, 0), PushRel(4.0, 20.0, 4.0, 4.0, 1), EditRel(true, 6.0, 2.0), Rate(2), Rate(1), Tick, Block(7), Block(32), Reset], ctx.q(6, 7)),
    ]
}

pub fn c06(ctx: &Ctx) {
    grid(ctx);
    for replay in [false, true] {
        for (name, alpha, depth) in scenarios(ctx).iter() {
            let n = alpha.len().pow(*depth as u32);
            ctx.sample(|| format!("{} replay={}: all {} sequences of length {} over {:?}", name, replay, n, depth, alpha));
            let chunk = 512;
            ctx.par(n.div_ceil(chunk), |c| {
                let key = format!("{} replay={}", name, replay);
                ctx.case(&key, || {
                    'seq: for idx in c * chunk..core::cmp::min(n, c * chunk + chunk) {
                        let ops: Vec<SOp> = digits(idx, alpha.len(), *depth).iter().map(|x| alpha[*x]).collect();
                        let mut trail = vec![];
                        let r = guard(|| {
                            let mut s = Play::new(replay);
                            for op in ops.iter() {
                                trail.push(*op);
                                if !s.apply(*op)? {
                                    return Err("n/a".into());
                                }
                                ctx.trans(1);
                            }
                            for op in [Tick, Block(64), Tick, Block(29)] {
                                trail.push(op);
                                s.apply(op)?;
                            }
                            ctx.trace();
                            ctx.state(h64(format!("{} {:?}", name, s.model).as_bytes()));
                            Ok(())
                        });
                        match r {
                            Err(e) if e == "n/a" => continue 'seq,
                            Err(e) => {
                                ctx.violation(&key, format!("{} after {:?}", e, trail), format!("{}: {:?}: {}", key, trail, e));
                                return;
                            }
                            Ok(()) => (),
                        }
                    }
                });
            });
        }
    }
}

/// All start positions, durations, fades and block sizes of one event at an ordinary sample rate.
fn grid(ctx: &Ctx) {
    let steps = [Step::Tick, Step::Block(1), Step::Block(3), Step::Block(8), Step::Block(13), Step::Block(64)];
    let durations: Vec<usize> = vec![1, 2, 7, 8, 9, 63, 64, 65, 130];
    let max = ctx.q(70, 140);
    for sr in [44100.0, 48000.0] {
        ctx.par(max * durations.len(), |i| {
            let (start, duration) = (i / durations.len(), durations[i % durations.len()]);
            for (f, (fi, fo, shape)) in [(0, 0, 0), (duration, 0, 0), (0, duration, 1), (duration / 2, duration - duration / 2, 0), (duration, duration, 1)].into_iter().enumerate() {
                for (offset, step) in steps.iter().flat_map(|s| [(0.0, *s), (0.3, *s), (-0.3, *s)]) {
                    if offset != 0.0 && f > 0 {
                        continue;
                    }
                    let key = format!("grid sr={} start={} duration={} fade={} offset={} {:?}", sr, start, duration, f, offset, step);
                    ctx.case(&key, || {
                        let mut seq = Sequencer::new(false, CH);
                        seq.set_sample_rate(sr);
                        let t = |x: usize| x as f64 / sr;
                        let begin = (start as f64 + offset).max(0.0) / sr;
                        seq.push_duration(begin, t(duration), real_fade(shape), t(fi) * 0.9999, t(fo) * 0.9999, unit(0));
                        let mut driver = Driver::new(&seq);
                        let mut out = vec![vec![]; CH];
                        while out[0].len() < start + duration + 10 {
                            driver.step(&mut seq, step, 0, &|_, _| 0.0, &mut out);
                        }
                        ctx.trace();
                        ctx.state(hashf(&out[0]));
                        ctx.trans(out[0].len() as u64);
                        for (c, o) in out.iter().enumerate() {
                            for (k, y) in o.iter().enumerate() {
                                let mut x = 0.0;
                                if k >= start && k < start + duration {
                                    let n = k - start;
                                    x = slope(0, c) * (n + 1) as f32;
                                    if n < fi {
                                        x *= fade_at(shape, n as f32 / fi as f32);
                                    }
                                    if duration - n < fo {
                                        x *= fade_at(shape, (duration - n) as f32 / fo as f32);
                                    }
                                }
                                if !((x - y).abs() <= 5e-4 * (1.0 + x.abs())) {
                                    ctx.violation(&key, format!("sample {} expected {} got {}", k, x, y), key.clone());
                                    return;
                                }
                            }
                        }
                    });
                }
            }
        });
    }
}

/// A frontend operation waiting for the backend.
struct Back {
    front: Sequencer,
    back: fundsp::realseq::SequencerBackend,
    model: Model,
    queue: VecDeque<(SOp, usize)>,
    ids: Vec<EventId>,
    pushed: usize,
    driver: Driver,
}
impl Back {
    fn new(replay: bool, initial: bool) -> Back {
        let mut front = Sequencer::new(replay, CH);
        front.set_sample_rate(SR);
        let mut model = Model { replay, events: vec![], t: 0.0, rate: 1.0, serial: 0 };
        let mut ids = vec![];
        if initial {
            let op = Push(2.0, 60.0, 4.0, 4.0, 1);
            ids.push(push_real(&mut front, op, 0).unwrap());
            model.apply(op);
        }
        let back = front.backend();
        let driver = Driver::new(&back);
        Back { front, back, model, queue: VecDeque::new(), pushed: ids.len(), ids, driver }
    }
    fn drain(&mut self) -> bool {
        if self.model.t.fract() != 0.0 && !self.queue.is_empty() {
            return false;
        }
        while let Some((op, serial)) = self.queue.pop_front() {
            match op {
                Edit(_, end, fo) | EditRel(_, end, fo) => {
                    let end = if let EditRel(..) = op { self.model.t + end } else { end };
                    // The event may have ended or been cleared, in which case the edit has no effect.
                    let t = self.model.t;
                    if let Some(e) = self.model.events.iter_mut().find(|e| e.serial == serial) {
                        if end > e.end || e.end <= t {
                            return false;
                        }
                        e.end = end;
                        e.fo = fo;
                    }
                }
                Push(..) | PushRel(..) | PushDuration(..) => {
                    self.model.serial = serial;
                    self.model.apply(op);
                }
                op => {
                    self.model.apply(op);
                }
            }
        }
        true
    }
    fn apply(&mut self, op: SOp) -> Result<bool, String> {
        match op {
            Tick | Block(_) => {
                if !self.drain() {
                    return Ok(false);
                }
                let step = if let Block(n) = op { Step::Block(n) } else { Step::Tick };
                let mut out = vec![vec![]; CH];
                self.driver.step(&mut self.back, step, 0, &|_, _| 0.0, &mut out);
                for i in 0..out[0].len() {
                    let y = self.model.step();
                    for c in 0..CH {
                        if !((y[c] - out[c][i]).abs() <= 2e-4 * (1.0 + y[c].abs())) {
                            return Err(format!("channel {} index {} of {:?}: expected {} got {}", c, i, op, y[c], out[c][i]));
                        }
                    }
                }
                crate::rt::check()?;
            }
            Edit(last, end, fo) | EditRel(last, end, fo) => {
                let serial = if last { self.pushed.wrapping_sub(1) } else { 0 };
                if serial >= self.pushed {
                    return Ok(false);
                }
                self.queue.push_back((op, serial));
                if let EditRel(..) = op {
                    self.front.edit_relative(self.ids[serial], end / SR, fo / SR);
                } else {
                    self.front.edit(self.ids[serial], end / SR, fo / SR);
                }
            }
            Reset => {
                self.front.reset();
                self.queue.push_back((op, 0));
            }
            // Reset the backend directly.
            Rate(0) => {
                if !self.drain() || self.model.t.fract() != 0.0 {
                    return Ok(false);
                }
                self.back.reset();
                self.model.apply(Reset);
            }
            Rate(r) => {
                if !self.drain() || self.model.t.fract() != 0.0 {
                    return Ok(false);
                }
                self.back.set_sample_rate(SR * r as f64);
                self.model.apply(op);
            }
            op => {
                self.queue.push_back((op, self.pushed));
                let id = push_real(&mut self.front, op, self.pushed).unwrap();
                self.ids.push(id);
                self.pushed += 1;
            }
        }
        Ok(true)
    }
}

pub fn c07(ctx: &Ctx) {
    explore(ctx, ctx.q(6, 7));
}

pub fn explore(ctx: &Ctx, depth: usize) {
    let alphas: Vec<(&str, Vec<SOp>, usize)> = vec![
        ("mixed", vec![Push(5.0, 24.0, 4.0, 4.0, 1), PushRel(0.0, INF, 0.0, 0.0, 0), PushRel(8.0, 20.0, 2.0, 2.0, 0), EditRel(true, 4.0, 4.0), Edit(false, 20.0, 8.0), Reset, Rate(0), Tick, Block(6), Block(16)], depth),
        ("cancel", vec![PushRel(12.0, INF, 0.0, 0.0, 0), PushDuration(3.0, 90.0, 0.0, 8.0, 1), EditRel(true, 0.0, 0.0), EditRel(false, 3.0, 3.0), Edit(true, 2.0, 0.0), Reset, Rate(2), Tick, Block(6)], depth),
    ];
    for (name, alpha, depth) in alphas.iter() {
        for mode in 0..4 {
            let (replay, initial) = (mode & 1 > 0, mode & 2 > 0);
            let n = alpha.len().pow(*depth as u32);
            ctx.sample(|| format!("{} replay={} initial={}: all {} interleavings of length {} over {:?}", name, replay, initial, n, depth, alpha));
            let chunk = 512;
            ctx.par(n.div_ceil(chunk), |c| {
                let key = format!("{} replay={} initial={}", name, replay, initial);
                ctx.case(&key, || {
                    'seq: for idx in c * chunk..core::cmp::min(n, c * chunk + chunk) {
                        let ops: Vec<SOp> = digits(idx, alpha.len(), *depth).iter().map(|x| alpha[*x]).collect();
                        let mut trail = vec![];
                        let r = guard(|| {
                            let mut s = Back::new(replay, initial);
                            for op in ops.iter() {
                                trail.push(*op);
                                if !s.apply(*op)? {
                                    return Err("n/a".into());
                                }
                                ctx.trans(1);
                            }
                            for op in [Tick, Block(64)] {
                                trail.push(op);
                                if !s.apply(op)? {
                                    return Err("n/a".into());
                                }
                            }
                            ctx.trace();
                            ctx.state(h64(format!("{} {:?}", key, s.model).as_bytes()));
                            Ok(())
                        });
                        match r {
                            Err(e) if e == "n/a" => continue 'seq,
                            Err(e) => {
                                ctx.violation(&key, format!("{} after {:?}", e, trail), format!("{}: {:?}: {}", key, trail, e));
                                return;
                            }
                            Ok(()) => (),
                        }
                    }
                });
            });
        }
    }
}
