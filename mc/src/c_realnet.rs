//! C05: network frontend and backend, all interleavings of frontend operations and backend processing.
use crate::catalog::{Driver, Step};
use crate::c_net::{guard, Src};
use crate::fw::*;
use fundsp::hacker32::*;
use fundsp::net::{NodeId, Source};
use std::collections::{BTreeMap, VecDeque};

pub const SR: f64 = 65536.0;

/// Reference unit: kind, parameter and state.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RUnit {
    pub kind: usize,
    pub param: f32,
    pub state: f32,
}
/// Kinds: 0 gain 2, 1 one sample delay, 2 constant (settable), 3 ramp (sample rate dependent), 4 difference of two inputs, 5 accumulating counter.
pub fn arity(k: usize) -> (usize, usize) {
    [(1, 1), (1, 1), (0, 1), (0, 1), (2, 1), (1, 1)][k]
}
impl RUnit {
    pub fn new(kind: usize) -> RUnit {
        RUnit { kind, param: 0.5, state: 0.0 }
    }
    pub fn step(&mut self, x: &[f32], sr: f32) -> f32 {
        match self.kind {
            0 => x[0] * 2.0,
            1 => std::mem::replace(&mut self.state, x[0]),
            2 => self.param,
            3 => {
                let y = self.state;
                self.state += 2048.0 / sr;
                self.state -= self.state.floor();
                y
            }
            4 => x[0] - x[1],
            _ => {
                // Integrator: feedback of the previous output.
                self.state = x[0] + self.state * 0.5;
                self.state
            }
        }
    }
}
pub fn real_unit(kind: usize) -> Box<dyn AudioUnit> {
    match kind {
        0 => Box::new(mul(2.0)),
        1 => Box::new(tick()),
        2 => Box::new(dc(0.5)),
        3 => Box::new(dc(2048.0) >> ramp().phase(0.0)),
        4 => Box::new(pass() - pass()),
        _ => Box::new(feedback(mul(0.5)) * 2.0),
    }
}
pub fn fade_at(fade: usize, x: f32) -> f32 {
    if fade == 0 {
        // Bhaskara's approximation of a quarter sine.
        let x = x as f64 * std::f64::consts::FRAC_PI_2;
        let pi = std::f64::consts::PI;
        (16.0 * x * (pi - x) / (5.0 * pi * pi - 4.0 * x * (pi - x))) as f32
    } else {
        ((x * 6.0 - 15.0) * x + 10.0) * x * x * x
    }
}
pub fn real_fade(fade: usize) -> Fade {
    if fade == 0 { Fade::Power } else { Fade::Smooth }
}

#[derive(Clone, Debug)]
struct FNode {
    unit: RUnit,
    src: Vec<Src>,
    gen: usize,
    /// True if the node is a placeholder that is faded in.
    dummy: bool,
}
#[derive(Clone, Debug)]
struct FEdit {
    node: usize,
    unit: RUnit,
    fade: usize,
    len: usize,
}
#[derive(Clone, Debug)]
struct Version {
    nodes: BTreeMap<usize, FNode>,
    out: Vec<Src>,
    edits: Vec<FEdit>,
    sr: f32,
}
#[derive(Clone, Debug)]
enum Msg {
    Net(Version),
    Set(usize, f32),
}
#[derive(Clone, Debug)]
struct BNode {
    unit: RUnit,
    dummy: bool,
    next: Option<FEdit>,
    latest: Option<FEdit>,
    phase: usize,
    hold: bool,
    gen: usize,
    src: Vec<Src>,
}
#[derive(Clone, Debug)]
struct Backend {
    nodes: BTreeMap<usize, BNode>,
    out: Vec<Src>,
    sr: f32,
}

impl Backend {
    fn apply(&mut self, m: Msg) {
        match m {
            Msg::Net(v) => {
                let mut nodes = BTreeMap::new();
                for (h, f) in v.nodes {
                    let b = match self.nodes.remove(&h) {
                        Some(mut b) if b.gen == f.gen => {
                            b.src = f.src;
                            b
                        }
                        _ => BNode { unit: f.unit, dummy: f.dummy, next: None, latest: None, phase: 0, hold: false, gen: f.gen, src: f.src },
                    };
                    nodes.insert(h, b);
                }
                self.nodes = nodes;
                self.out = v.out;
                self.sr = v.sr;
                for e in v.edits {
                    let b = self.nodes.get_mut(&e.node).unwrap();
                    if b.next.is_some() {
                        b.latest = Some(e);
                    } else {
                        b.next = Some(e);
                        b.phase = 0;
                    }
                }
            }
            Msg::Set(h, v) => {
                if let Some(b) = self.nodes.get_mut(&h) {
                    b.unit.param = v;
                    if let Some(n) = &mut b.next {
                        n.unit.param = v;
                    }
                    if let Some(n) = &mut b.latest {
                        n.unit.param = v;
                    }
                }
            }
        }
    }
    fn step(&mut self, input: f32, block: bool) -> Vec<f32> {
        let mut val: BTreeMap<usize, f32> = BTreeMap::new();
        let get = |s: &Src, val: &BTreeMap<usize, f32>| match s {
            Src::Zero => 0.0,
            Src::Global(_) => input,
            Src::Node(h, _) => val[h],
        };
        let mut left: Vec<usize> = self.nodes.keys().copied().collect();
        while !left.is_empty() {
            let ready = left.iter().position(|h| self.nodes[h].src.iter().all(|s| !matches!(s, Src::Node(j, _) if !val.contains_key(j)))).expect("acyclic");
            let h = left.remove(ready);
            let b = self.nodes.get_mut(&h).unwrap();
            let x: Vec<f32> = b.src.iter().map(|s| get(s, &val)).collect();
            let mut y = if b.dummy { 0.0 } else { b.unit.step(&x, self.sr) };
            if let (Some(n), false) = (&mut b.next, b.hold) {
                let len = (n.len as f64 * self.sr as f64 / SR) as usize;
                let p = b.phase as f32 / len as f32;
                let z = n.unit.step(&x, self.sr);
                y = y * fade_at(n.fade, 1.0 - p) + z * fade_at(n.fade, p);
                b.phase += 1;
                if b.phase >= len {
                    b.unit = n.unit;
                    b.dummy = false;
                    b.next = b.latest.take();
                    b.phase = 0;
                    b.hold = block;
                }
            }
            val.insert(h, y);
        }
        self.out.iter().map(|s| get(s, &val)).collect()
    }
    fn end_block(&mut self) {
        for b in self.nodes.values_mut() {
            b.hold = false;
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum ROp {
    Commit,
    Tick,
    Block(usize),
    /// Add a unit to the end of chain.
    Chain(usize),
    RemoveLast,
    RemoveLinkFirst,
    Replace(usize, usize),
    Crossfade(usize, usize, usize, usize),
    /// Fade in a new unit and mix it to output 1 (kind, fade, length).
    FadeIn(usize, usize, usize),
    Set(usize, f32),
    SetLast(f32),
    /// Route node (by rank) to output 1.
    Out1(usize),
    Unplug(usize),
    FrontReset,
    FrontRate(usize),
    /// Push constant and route to output 1.
    PushDc,
    /// Network operator: pipe the frontend into another network that processes both channels.
    PipeInto,
    /// Network operator: pipe another network into the frontend.
    PipeFrom,
}

struct Sim {
    net: Net,
    backend: fundsp::realnet::NetBackend,
    ids: BTreeMap<usize, NodeId>,
    next: usize,
    front: Version,
    back: Backend,
    queue: VecDeque<Msg>,
    pos: usize,
    driver: Driver,
}

fn source(ids: &BTreeMap<usize, NodeId>, s: Src) -> Source {
    match s {
        Src::Zero => Source::Zero,
        Src::Global(i) => Source::Global(i),
        Src::Node(h, p) => Source::Local(ids[&h], p),
    }
}

impl Sim {
    fn new(seed: &[usize]) -> Sim {
        let mut net = Net::new(1, 2);
        net.set_sample_rate(SR);
        let mut ids = BTreeMap::new();
        let mut front = Version { nodes: BTreeMap::new(), out: vec![Src::Zero, Src::Zero], edits: vec![], sr: SR as f32 };
        for (h, k) in seed.iter().enumerate() {
            ids.insert(h, net.chain(real_unit(*k)));
            Self::m_chain(&mut front, h, *k);
        }
        let backend = net.backend();
        let driver = Driver::new(&backend);
        let mut back = Backend { nodes: BTreeMap::new(), out: vec![], sr: SR as f32 };
        back.apply(Msg::Net(front.clone()));
        Sim { net, backend, ids, next: seed.len(), front, back, queue: VecDeque::new(), pos: 0, driver }
    }
    fn m_chain(f: &mut Version, h: usize, k: usize) {
        let n = arity(k).0;
        let src = (0..n).map(|i| if f.nodes.is_empty() { Src::Global(0) } else { f.out[i % 2] }).collect();
        f.nodes.insert(h, FNode { unit: RUnit::new(k), src, gen: 0, dummy: false });
        f.out = vec![Src::Node(h, 0); 2];
    }
    fn nth(&self, r: usize) -> Option<usize> {
        self.front.nodes.keys().copied().nth(r)
    }
    fn last(&self) -> Option<usize> {
        self.front.nodes.keys().copied().last()
    }
    fn out1(&mut self, h: usize) {
        self.net.set_output_source(1, source(&self.ids, Src::Node(h, 0)));
        self.front.out[1] = Src::Node(h, 0);
    }
    fn remove(&mut self, h: usize, link: bool) {
        let id = self.ids.remove(&h).unwrap();
        if link {
            self.net.remove_link(id);
        } else {
            self.net.remove(id);
        }
        let n = self.front.nodes.remove(&h).unwrap();
        let fix = |s: &mut Src| {
            if let Src::Node(j, p) = *s {
                if j == h {
                    *s = if link { n.src[p] } else { Src::Zero };
                }
            }
        };
        self.front.out.iter_mut().for_each(fix);
        for m in self.front.nodes.values_mut() {
            m.src.iter_mut().for_each(fix);
        }
        self.front.edits.retain(|e| e.node != h);
    }
    fn process(&mut self, step: Step) -> Result<(), String> {
        while let Some(m) = self.queue.pop_front() {
            self.back.apply(m);
        }
        let mut out = vec![vec![]; 2];
        let f = |_c: usize, i: usize| det(i as u64 + 11);
        let begin = self.pos;
        self.pos = self.driver.step(&mut self.backend, step, self.pos, &f, &mut out);
        for i in begin..self.pos {
            let y = self.back.step(f(0, i), step != Step::Tick);
            for c in 0..2 {
                let z = out[c][i - begin];
                if !((y[c] - z).abs() <= 1e-4 * (1.0 + y[c].abs())) {
                    return Err(format!("output {} sample {} of {:?}: expected {} got {}", c, i - begin, step, y[c], z));
                }
            }
        }
        self.back.end_block();
        crate::rt::check()
    }
    /// Returns false if the operation is not applicable.
    fn apply(&mut self, op: ROp) -> Result<bool, String> {
        match op {
            ROp::Commit => {
                self.net.commit();
                self.queue.push_back(Msg::Net(self.front.clone()));
                // After commit, the frontend considers crossfaded units current.
                for e in std::mem::take(&mut self.front.edits) {
                    let n = self.front.nodes.get_mut(&e.node).unwrap();
                    n.unit = e.unit;
                    n.dummy = false;
                }
            }
            ROp::Tick => self.process(Step::Tick)?,
            ROp::Block(n) => self.process(Step::Block(n))?,
            ROp::Chain(k) => {
                let h = self.next;
                self.next += 1;
                self.ids.insert(h, self.net.chain(real_unit(k)));
                Self::m_chain(&mut self.front, h, k);
            }
            ROp::RemoveLast => match self.last() {
                Some(h) => self.remove(h, false),
                None => return Ok(false),
            },
            ROp::RemoveLinkFirst => match self.nth(0) {
                Some(h) if arity(self.front.nodes[&h].unit.kind) == (1, 1) => self.remove(h, true),
                _ => return Ok(false),
            },
            ROp::Replace(r, k) => match self.nth(r) {
                Some(h) if arity(self.front.nodes[&h].unit.kind) == arity(k) => {
                    self.net.replace(self.ids[&h], real_unit(k));
                    let n = self.front.nodes.get_mut(&h).unwrap();
                    n.unit = RUnit::new(k);
                    n.dummy = false;
                    n.gen += 1;
                    self.front.edits.retain(|e| e.node != h);
                }
                _ => return Ok(false),
            },
            ROp::Crossfade(r, k, fade, len) => match self.nth(r) {
                Some(h) if arity(self.front.nodes[&h].unit.kind) == arity(k) => {
                    self.net.crossfade(self.ids[&h], real_fade(fade), len as f32 / SR as f32, real_unit(k));
                    self.front.edits.push(FEdit { node: h, unit: RUnit::new(k), fade, len });
                }
                _ => return Ok(false),
            },
            ROp::FadeIn(k, fade, len) => {
                if self.front.nodes.len() > 4 {
                    return Ok(false);
                }
                let h = self.next;
                self.next += 1;
                self.ids.insert(h, self.net.fade_in(real_fade(fade), len as f32 / SR as f32, real_unit(k)));
                self.front.nodes.insert(h, FNode { unit: RUnit::new(k), src: vec![Src::Zero; arity(k).0], gen: 0, dummy: true });
                self.front.edits.push(FEdit { node: h, unit: RUnit::new(k), fade, len });
                for q in 0..arity(k).0 {
                    self.net.connect_input(0, self.ids[&h], q);
                    self.front.nodes.get_mut(&h).unwrap().src[q] = Src::Global(0);
                }
                self.out1(h);
            }
            ROp::Set(r, v) => match self.nth(r) {
                Some(h) => self.set(h, v),
                None => return Ok(false),
            },
            ROp::SetLast(v) => match self.last() {
                Some(h) => self.set(h, v),
                None => return Ok(false),
            },
            ROp::Out1(r) => match self.nth(r) {
                Some(h) => self.out1(h),
                None => return Ok(false),
            },
            ROp::Unplug(r) => match self.nth(r) {
                Some(h) if !self.front.nodes[&h].src.is_empty() => {
                    self.net.disconnect(self.ids[&h], 0);
                    self.front.nodes.get_mut(&h).unwrap().src[0] = Src::Zero;
                }
                _ => return Ok(false),
            },
            ROp::FrontReset => {
                self.net.reset();
                for n in self.front.nodes.values_mut() {
                    n.gen += 1;
                    n.unit.state = 0.0;
                }
            }
            ROp::FrontRate(m) => {
                let sr = SR as f32 * m as f32;
                self.net.set_sample_rate(sr as f64);
                if self.front.sr != sr {
                    self.front.sr = sr;
                    for n in self.front.nodes.values_mut() {
                        n.gen += 1;
                    }
                }
            }
            ROp::PipeInto => {
                if self.front.nodes.len() > 3 {
                    return Ok(false);
                }
                let (a, ida) = Net::wrap_id(real_unit(5));
                let (b, idb) = Net::wrap_id(real_unit(1));
                let net = std::mem::replace(&mut self.net, Net::new(0, 0));
                self.net = net >> (a | b);
                for (i, (k, id)) in [(5, ida), (1, idb)].into_iter().enumerate() {
                    let h = self.next;
                    self.next += 1;
                    self.ids.insert(h, id);
                    self.front.nodes.insert(h, FNode { unit: RUnit::new(k), src: vec![self.front.out[i]], gen: 0, dummy: false });
                    self.front.out[i] = Src::Node(h, 0);
                }
            }
            ROp::PipeFrom => {
                if self.front.nodes.len() > 3 {
                    return Ok(false);
                }
                let (a, ida) = Net::wrap_id(real_unit(5));
                let net = std::mem::replace(&mut self.net, Net::new(0, 0));
                self.net = a >> net;
                let h = self.next;
                self.next += 1;
                self.ids.insert(h, ida);
                let fix = |s: &mut Src| {
                    if let Src::Global(_) = s {
                        *s = Src::Node(h, 0);
                    }
                };
                self.front.out.iter_mut().for_each(fix);
                for m in self.front.nodes.values_mut() {
                    m.src.iter_mut().for_each(fix);
                }
                self.front.nodes.insert(h, FNode { unit: RUnit::new(5), src: vec![Src::Global(0)], gen: 0, dummy: false });
            }
            ROp::PushDc => {
                if self.front.nodes.len() > 4 {
                    return Ok(false);
                }
                let h = self.next;
                self.next += 1;
                self.ids.insert(h, self.net.push(real_unit(2)));
                self.front.nodes.insert(h, FNode { unit: RUnit::new(2), src: vec![], gen: 0, dummy: false });
                self.out1(h);
            }
        }
        Ok(true)
    }
    fn set(&mut self, h: usize, v: f32) {
        self.net.set(Setting::value(v).node(self.ids[&h]));
        self.queue.push_back(Msg::Set(h, v));
        if let Some(n) = self.front.nodes.get_mut(&h) {
            n.unit.param = v;
        }
        for e in self.front.edits.iter_mut() {
            if e.node == h {
                e.unit.param = v;
            }
        }
    }
}

pub fn c05(ctx: &Ctx) {
    explore(ctx, ctx.q(6, 7));
}

pub fn explore(ctx: &Ctx, depth: usize) {
    use ROp::*;
    let scenarios: Vec<(&str, Vec<usize>, Vec<ROp>, usize)> = vec![
        ("edits", vec![5, 0], vec![Commit, Tick, Block(3), Chain(1), RemoveLast, RemoveLinkFirst, Replace(0, 5), Out1(0), Unplug(0)], depth),
        ("crossfade", vec![5, 1], vec![Commit, Tick, Block(2), Block(9), Crossfade(0, 0, 1, 4), Crossfade(0, 5, 0, 2), Crossfade(1, 5, 0, 8), Replace(0, 1)], depth),
        ("fade in", vec![5], vec![Commit, Tick, Block(2), Block(9), FadeIn(5, 0, 4), FadeIn(2, 1, 8), RemoveLast, Crossfade(1, 5, 1, 2), Out1(0)], depth),
        ("settings", vec![5, 2], vec![Commit, Tick, Block(3), Set(1, 0.25), SetLast(-1.0), PushDc, Replace(1, 2), Crossfade(1, 2, 1, 4), RemoveLast], depth),
        ("reset and rate", vec![3, 5], vec![Commit, Tick, Block(5), FrontReset, FrontRate(2), Crossfade(0, 2, 1, 4), Set(0, 0.125), Replace(0, 3), Chain(1)], depth),
        ("operators", vec![5, 1], vec![Commit, Tick, Block(3), PipeInto, PipeFrom, Crossfade(1, 5, 1, 4), SetLast(0.125), Replace(0, 1), PushDc, RemoveLast], depth - 1),
    ];
    for (name, seed, alpha, depth) in scenarios.iter() {
        // First processing steps give the nodes some state.
        let n = alpha.len().pow(*depth as u32);
        let chunk = 512;
        ctx.sample(|| format!("scenario {}: all {} sequences of length {} over {:?}", name, n, depth, alpha));
        ctx.par(n.div_ceil(chunk), |c| {
            ctx.case(name, || {
                if ctx.violation_count() > 0 && !std::env::var("MC_ALL").is_ok() {
                    return;
                }
                'seq: for idx in c * chunk..core::cmp::min(n, c * chunk + chunk) {
                    let ops: Vec<ROp> = digits(idx, alpha.len(), *depth).iter().map(|x| alpha[*x]).collect();
                    if !ops.contains(&Commit) && ops.iter().any(|o| !matches!(o, Tick | Block(_))) && idx % 3 != 0 {
                        // Without commits only settings can have an effect; keep a third of those as a control.
                        if !ops.iter().any(|o| matches!(o, Set(..) | SetLast(_))) {
                            continue;
                        }
                    }
                    let mut trail = vec![];
                    let r = guard(|| {
                        let mut s = Sim::new(seed);
                        s.process(Step::Block(3))?;
                        for op in ops.iter() {
                            trail.push(*op);
                            if !s.apply(*op)? {
                                return Err("n/a".into());
                            }
                            ctx.trans(1);
                        }
                        trail.push(Tick);
                        s.process(Step::Tick)?;
                        trail.push(Block(9));
                        s.process(Step::Block(9))?;
                        ctx.trace();
                        ctx.state(h64(format!("{} {:?} {:?}", name, s.back, s.front).as_bytes()));
                        Ok(())
                    });
                    match r {
                        Err(e) if e == "n/a" => continue 'seq,
                        Err(e) => {
                            ctx.violation(*name, format!("{} after {:?}", e, trail), format!("scenario {} seed {:?}: {:?}: {}", name, seed, trail, e));
                            return;
                        }
                        Ok(()) => (),
                    }
                }
            });
        });
    }
}
