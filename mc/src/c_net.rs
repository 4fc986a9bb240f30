//! C04: dynamic network editing against a reference graph model; network operators against the denotational reference.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use crate::term::{self, t, Term};
use fundsp::hacker32::*;
use fundsp::net::{NodeId, Source};
use std::collections::BTreeMap;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Src {
    Zero,
    Global(usize),
    Node(usize, usize),
}

pub const KINDS: usize = 8;
pub fn kind_arity(k: usize) -> (usize, usize) {
    [(1, 1), (1, 1), (2, 1), (1, 2), (0, 1), (2, 2), (1, 0), (2, 2)][k]
}
pub fn kind_unit(k: usize) -> Box<dyn AudioUnit> {
    match k {
        0 => Box::new(mul(2.0) + 0.125),
        1 => Box::new(tick()),
        2 => Box::new(pass() - pass() * 0.5),
        3 => Box::new(pass() ^ mul(3.0)),
        4 => Box::new(dc(0.5)),
        5 => Box::new(mul((0.5, -1.0)) >> reverse::<U2>()),
        6 => Box::new(sink()),
        _ => Box::new(pass() | tick()),
    }
}
/// One step of the reference node. State is a single sample.
pub fn kind_step(k: usize, state: &mut f32, x: &[f32]) -> Vec<f32> {
    match k {
        0 => vec![x[0] * 2.0 + 0.125],
        1 => {
            let y = *state;
            *state = x[0];
            vec![y]
        }
        2 => vec![x[0] - x[1] * 0.5],
        3 => vec![x[0], x[0] * 3.0],
        4 => vec![0.5],
        5 => vec![-x[1], x[0] * 0.5],
        6 => vec![],
        _ => {
            let y = *state;
            *state = x[1];
            vec![x[0], y]
        }
    }
}

#[derive(Clone, Debug)]
pub struct MNode {
    pub kind: usize,
    pub src: Vec<Src>,
    pub state: f32,
}

/// Reference model of a network.
#[derive(Clone, Debug)]
pub struct Model {
    pub inputs: usize,
    pub nodes: BTreeMap<usize, MNode>,
    pub out: Vec<Src>,
    pub next: usize,
}

impl Model {
    pub fn new(inputs: usize, outputs: usize) -> Model {
        Model { inputs, nodes: BTreeMap::new(), out: vec![Src::Zero; outputs], next: 0 }
    }
    pub fn push(&mut self, kind: usize) -> usize {
        let h = self.next;
        self.next += 1;
        self.nodes.insert(h, MNode { kind, src: vec![Src::Zero; kind_arity(kind).0], state: 0.0 });
        h
    }
    /// Nodes in dependency order, or None if there is a cycle.
    pub fn order(&self) -> Option<Vec<usize>> {
        let mut done: Vec<usize> = vec![];
        loop {
            let before = done.len();
            for (h, n) in self.nodes.iter() {
                if !done.contains(h) && n.src.iter().all(|s| !matches!(s, Src::Node(j, _) if !done.contains(j))) {
                    done.push(*h);
                }
            }
            if done.len() == self.nodes.len() {
                return Some(done);
            }
            if done.len() == before {
                return None;
            }
        }
    }
    pub fn step(&mut self, input: &[f32]) -> Vec<f32> {
        let order = self.order().unwrap();
        let mut val: BTreeMap<usize, Vec<f32>> = BTreeMap::new();
        let get = |s: &Src, val: &BTreeMap<usize, Vec<f32>>| match s {
            Src::Zero => 0.0,
            Src::Global(i) => input[*i],
            Src::Node(h, p) => val[h][*p],
        };
        for h in order {
            let n = self.nodes.get_mut(&h).unwrap();
            let x: Vec<f32> = n.src.iter().map(|s| get(s, &val)).collect();
            let y = kind_step(n.kind, &mut n.state, &x);
            val.insert(h, y);
        }
        self.out.iter().map(|s| get(s, &val)).collect()
    }
    pub fn outs(&self, h: usize) -> usize {
        kind_arity(self.nodes[&h].kind).1
    }
    pub fn ins(&self, h: usize) -> usize {
        kind_arity(self.nodes[&h].kind).0
    }
    pub fn remove(&mut self, h: usize, link: bool) {
        let n = self.nodes.remove(&h).unwrap();
        // A pass-through that would connect a node to itself is replaced with zero: self connections are prohibited.
        let fix = |s: &mut Src, me: Option<usize>| {
            if let Src::Node(j, p) = *s {
                if j == h {
                    *s = if link { n.src[p] } else { Src::Zero };
                    if let (Src::Node(k, _), Some(m)) = (*s, me) {
                        if k == m {
                            *s = Src::Zero;
                        }
                    }
                }
            }
        };
        for o in self.out.iter_mut() {
            fix(o, None);
        }
        for (k, m) in self.nodes.iter_mut() {
            for s in m.src.iter_mut() {
                fix(s, Some(*k));
            }
        }
    }
    pub fn hash(&self) -> u64 {
        let mut h = 7u64;
        let enc = |s: &Src| match s {
            Src::Zero => 1u64,
            Src::Global(i) => 2 + *i as u64,
            Src::Node(a, b) => 10 + (*a as u64) * 8 + *b as u64,
        };
        for (k, n) in self.nodes.iter() {
            h = hmix(h, *k as u64);
            h = hmix(h, n.kind as u64);
            h = hmix(h, n.state.to_bits() as u64);
            for s in n.src.iter() {
                h = hmix(h, enc(s));
            }
        }
        for s in self.out.iter() {
            h = hmix(h, enc(s));
        }
        h
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum NOp {
    Push(usize),
    Chain(usize),
    Remove(usize),
    RemoveLink(usize),
    Replace(usize, usize),
    Connect(usize, usize, usize, usize),
    ConnectInput(usize, usize, usize),
    ConnectOutput(usize, usize, usize),
    Disconnect(usize, usize),
    DisconnectOutput(usize),
    PipeAll(usize, usize),
    PipeInput(usize),
    PipeOutput(usize),
    PassThrough(usize, usize),
    SetSource(usize, usize, Src),
    SetOutputSource(usize, Src),
    Run(usize),
    Block(usize),
}

#[derive(Clone)]
pub struct Sys {
    pub net: Net,
    pub model: Model,
    pub ids: BTreeMap<usize, NodeId>,
    pub pos: usize,
}

pub fn input_at(c: usize, i: usize) -> f32 {
    det((c * 7919 + i + 3) as u64)
}

impl Sys {
    pub fn new(i: usize, o: usize) -> Sys {
        Sys { net: Net::new(i, o), model: Model::new(i, o), ids: BTreeMap::new(), pos: 0 }
    }
    pub fn src(&self, s: Src) -> Source {
        match s {
            Src::Zero => Source::Zero,
            Src::Global(i) => Source::Global(i),
            Src::Node(h, p) => Source::Local(self.ids[&h], p),
        }
    }
    /// Apply a graph edit to the model only.
    pub fn apply_model(m: &mut Model, op: NOp) {
        match op {
            NOp::Push(k) => {
                m.push(k);
            }
            NOp::Chain(k) => {
                let h = m.push(k);
                let n = m.ins(h);
                for i in 0..n {
                    let s = if m.nodes.len() == 1 {
                        if m.inputs > 0 { Src::Global(i % m.inputs) } else { Src::Zero }
                    } else if m.out.is_empty() {
                        Src::Zero
                    } else {
                        m.out[i % m.out.len()]
                    };
                    m.nodes.get_mut(&h).unwrap().src[i] = s;
                }
                Self::apply_model(m, NOp::PipeOutput(h));
            }
            NOp::Remove(h) => m.remove(h, false),
            NOp::RemoveLink(h) => m.remove(h, true),
            NOp::Replace(h, k) => {
                let n = m.nodes.get_mut(&h).unwrap();
                n.kind = k;
                n.state = 0.0;
            }
            NOp::Connect(a, p, b, q) => m.nodes.get_mut(&b).unwrap().src[q] = Src::Node(a, p),
            NOp::ConnectInput(g, b, q) => m.nodes.get_mut(&b).unwrap().src[q] = Src::Global(g),
            NOp::ConnectOutput(a, p, o) => m.out[o] = Src::Node(a, p),
            NOp::Disconnect(b, q) => m.nodes.get_mut(&b).unwrap().src[q] = Src::Zero,
            NOp::DisconnectOutput(o) => m.out[o] = Src::Zero,
            NOp::PipeAll(a, b) => {
                let n = m.outs(a);
                for (i, s) in m.nodes.get_mut(&b).unwrap().src.iter_mut().enumerate() {
                    *s = if n > 0 { Src::Node(a, i % n) } else { Src::Zero };
                }
            }
            NOp::PipeInput(b) => {
                let n = m.inputs;
                for (i, s) in m.nodes.get_mut(&b).unwrap().src.iter_mut().enumerate() {
                    *s = if n > 0 { Src::Global(i % n) } else { Src::Zero };
                }
            }
            NOp::PipeOutput(a) => {
                let n = m.outs(a);
                for (i, s) in m.out.iter_mut().enumerate() {
                    *s = if n > 0 { Src::Node(a, i % n) } else { Src::Zero };
                }
            }
            NOp::PassThrough(i, o) => m.out[o] = Src::Global(i),
            NOp::SetSource(b, q, s) => m.nodes.get_mut(&b).unwrap().src[q] = s,
            NOp::SetOutputSource(o, s) => m.out[o] = s,
            NOp::Run(_) | NOp::Block(_) => (),
        }
    }
    /// Apply a graph edit to a network.
    pub fn apply_net(net: &mut Net, ids: &mut BTreeMap<usize, NodeId>, next: usize, op: NOp) -> Option<Box<dyn AudioUnit>> {
        let src = |ids: &BTreeMap<usize, NodeId>, s: Src| match s {
            Src::Zero => Source::Zero,
            Src::Global(i) => Source::Global(i),
            Src::Node(h, p) => Source::Local(ids[&h], p),
        };
        match op {
            NOp::Push(k) => {
                ids.insert(next, net.push(kind_unit(k)));
            }
            NOp::Chain(k) => {
                ids.insert(next, net.chain(kind_unit(k)));
            }
            NOp::Remove(h) => {
                let id = ids.remove(&h).unwrap();
                return Some(net.remove(id));
            }
            NOp::RemoveLink(h) => {
                let id = ids.remove(&h).unwrap();
                return Some(net.remove_link(id));
            }
            NOp::Replace(h, k) => return Some(net.replace(ids[&h], kind_unit(k))),
            NOp::Connect(a, p, b, q) => net.connect(ids[&a], p, ids[&b], q),
            NOp::ConnectInput(g, b, q) => net.connect_input(g, ids[&b], q),
            NOp::ConnectOutput(a, p, o) => net.connect_output(ids[&a], p, o),
            NOp::Disconnect(b, q) => net.disconnect(ids[&b], q),
            NOp::DisconnectOutput(o) => net.disconnect_output(o),
            NOp::PipeAll(a, b) => net.pipe_all(ids[&a], ids[&b]),
            NOp::PipeInput(b) => net.pipe_input(ids[&b]),
            NOp::PipeOutput(a) => net.pipe_output(ids[&a]),
            NOp::PassThrough(i, o) => net.pass_through(i, o),
            NOp::SetSource(b, q, s) => {
                let s = src(ids, s);
                net.set_source(ids[&b], q, s)
            }
            NOp::SetOutputSource(o, s) => {
                let s = src(ids, s);
                net.set_output_source(o, s)
            }
            NOp::Run(_) | NOp::Block(_) => (),
        }
        None
    }
    /// Apply to both. Returns an error description on disagreement.
    pub fn apply(&mut self, op: NOp) -> Result<(), String> {
        match op {
            NOp::Run(n) => return self.run(&vec![Step::Tick; n]),
            NOp::Block(n) => return self.run(&[Step::Block(n)]),
            _ => (),
        }
        let removed = match op {
            NOp::Remove(h) | NOp::RemoveLink(h) | NOp::Replace(h, _) => Some(self.model.nodes[&h].clone()),
            _ => None,
        };
        let next = self.model.next;
        Self::apply_model(&mut self.model, op);
        let unit = Self::apply_net(&mut self.net, &mut self.ids, next, op);
        // The unit returned is the one that was in the network, with its state.
        if let (Some(node), Some(mut unit)) = (removed, unit) {
            let (i, o) = kind_arity(node.kind);
            if unit.inputs() != i || unit.outputs() != o {
                return Err(format!("{:?} returned a unit of wrong arity", op));
            }
            let mut state = node.state;
            for k in 0..2 {
                let x: Vec<f32> = (0..i).map(|c| input_at(c, 500 + k)).collect();
                let mut y = vec![0.0; o];
                unit.tick(&x, &mut y);
                let e = kind_step(node.kind, &mut state, &x);
                if e.iter().zip(y.iter()).any(|(a, b)| (a - b).abs() > 1e-5) {
                    return Err(format!("{:?} returned the wrong unit: output {:?}, expected {:?}", op, y, e));
                }
            }
        }
        Ok(())
    }
    /// Process audio and compare with the model. Not applicable to cyclic networks.
    pub fn run(&mut self, steps: &[Step]) -> Result<(), String> {
        if self.model.order().is_none() {
            return Ok(());
        }
        let mut d = Driver::new(&self.net);
        let mut out = vec![vec![]; self.net.outputs()];
        let begin = self.pos;
        for s in steps {
            self.pos = d.step(&mut self.net, *s, self.pos, &input_at, &mut out);
        }
        for i in begin..self.pos {
            let x: Vec<f32> = (0..self.model.inputs).map(|c| input_at(c, i)).collect();
            let y = self.model.step(&x);
            for c in 0..y.len() {
                let z = out[c][i - begin];
                if !((y[c] - z).abs() <= 1e-4 * (1.0 + y[c].abs())) {
                    return Err(format!("output {} sample {}: expected {} got {}", c, i - begin, y[c], z));
                }
            }
        }
        Ok(())
    }
    /// Check structure queries against the model.
    pub fn check(&mut self) -> Result<(), String> {
        self.net.check();
        if self.net.size() != self.model.nodes.len() {
            return Err(format!("size is {}, expected {}", self.net.size(), self.model.nodes.len()));
        }
        if self.net.ids().count() != self.ids.len() {
            return Err("ids() count".into());
        }
        for (h, id) in self.ids.iter() {
            if !self.net.contains(*id) {
                return Err(format!("node {} is missing", h));
            }
            let (i, o) = kind_arity(self.model.nodes[h].kind);
            if self.net.inputs_in(*id) != i || self.net.outputs_in(*id) != o || self.net.node(*id).inputs() != i || self.net.node(*id).outputs() != o {
                return Err(format!("arity of node {}", h));
            }
            for q in 0..i {
                let s = self.src(self.model.nodes[h].src[q]);
                if self.net.source(*id, q) != s {
                    return Err(format!("source of node {} input {} is {:?}, expected {:?}", h, q, self.net.source(*id, q), s));
                }
            }
        }
        for o in 0..self.model.out.len() {
            if self.net.output_source(o) != self.src(self.model.out[o]) {
                return Err(format!("source of output {}", o));
            }
        }
        let cyclic = self.model.order().is_none();
        if self.net.error().is_some() != cyclic {
            return Err(format!("error() is {:?} but the graph is {}", self.net.error(), if cyclic { "cyclic" } else { "acyclic" }));
        }
        Ok(())
    }
    /// All operations applicable in the current state.
    pub fn ops(&self, kinds: &[usize], max_nodes: usize) -> Vec<NOp> {
        let m = &self.model;
        let mut v = vec![NOp::Run(2), NOp::Block(9)];
        if m.nodes.len() < max_nodes {
            for k in kinds {
                v.push(NOp::Push(*k));
                v.push(NOp::Chain(*k));
            }
        }
        for (h, n) in m.nodes.iter() {
            let (i, o) = kind_arity(n.kind);
            v.push(NOp::Remove(*h));
            if i == o {
                v.push(NOp::RemoveLink(*h));
            }
            for k in 0..KINDS {
                if k != n.kind && kind_arity(k) == (i, o) {
                    v.push(NOp::Replace(*h, k));
                }
            }
            v.push(NOp::PipeInput(*h));
            v.push(NOp::PipeOutput(*h));
            for q in 0..i {
                v.push(NOp::Disconnect(*h, q));
                for g in 0..m.inputs {
                    v.push(NOp::ConnectInput(g, *h, q));
                }
                if m.inputs > 0 {
                    v.push(NOp::SetSource(*h, q, Src::Global(q % m.inputs)));
                }
                v.push(NOp::SetSource(*h, q, Src::Zero));
            }
            for (h2, _) in m.nodes.iter() {
                if h2 != h {
                    v.push(NOp::PipeAll(*h, *h2));
                    for q in 0..m.ins(*h2) {
                        for p in 0..o {
                            v.push(if (p + q) % 2 == 0 { NOp::Connect(*h, p, *h2, q) } else { NOp::SetSource(*h2, q, Src::Node(*h, p)) });
                        }
                    }
                }
            }
            for out in 0..m.out.len() {
                for p in 0..o {
                    v.push(if (out + p) % 2 == 0 { NOp::ConnectOutput(*h, p, out) } else { NOp::SetOutputSource(out, Src::Node(*h, p)) });
                }
            }
        }
        for out in 0..m.out.len() {
            v.push(NOp::DisconnectOutput(out));
            v.push(NOp::SetOutputSource(out, Src::Zero));
            for g in 0..m.inputs {
                v.push(NOp::PassThrough(g, out));
            }
        }
        v
    }
}

/// Verify everything observable in a state without changing it.
fn verify(ctx: &Ctx, s: &Sys) -> Result<(), String> {
    let mut a = s.clone();
    a.check()?;
    ctx.trace();
    if a.model.order().is_none() {
        // Processing a cyclic network is not meaningful but must not panic.
        let mut d = Driver::new(&a.net);
        let mut out = vec![vec![]; a.net.outputs()];
        d.step(&mut a.net, Step::Tick, 0, &input_at, &mut out);
        d.step(&mut a.net, Step::Block(10), 1, &input_at, &mut out);
        return Ok(());
    }
    a.run(&[Step::Tick; 3])?;
    a.run(&[Step::Block(11), Step::Tick])?;
    let mut b = s.clone();
    b.run(&[Step::Block(9), Step::Tick, Step::Block(2)])
}

/// Turn a panic into an error.
pub fn guard(f: impl FnOnce() -> Result<(), String>) -> Result<(), String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", last_panic())),
    }
}

fn explore(ctx: &Ctx, key: &str, s: &Sys, kinds: &[usize], max_nodes: usize, depth: usize, trail: &mut Vec<NOp>, stop: &std::sync::atomic::AtomicBool) {
    if depth == 0 || stop.load(std::sync::atomic::Ordering::Relaxed) {
        return;
    }
    for op in s.ops(kinds, max_nodes) {
        let mut n = s.clone();
        trail.push(op);
        ctx.trans(1);
        let r = guard(|| n.apply(op).and_then(|_| verify(ctx, &n)));
        ctx.state(n.model.hash());
        if let Err(e) = r {
            ctx.violation(key, format!("{} after {:?}", e, trail), format!("{}: history {:?}: {}\nmodel {:?}", key, trail, e, n.model));
            stop.store(true, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        explore(ctx, key, &n, kinds, max_nodes, depth - 1, trail, stop);
        trail.pop();
    }
}

fn seeds() -> Vec<(&'static str, usize, usize, Vec<NOp>)> {
    use NOp::*;
    vec![
        ("empty", 2, 2, vec![]),
        ("chain", 2, 2, vec![Chain(5), Chain(1), Run(2), Chain(3)]),
        ("diamond", 1, 2, vec![Push(3), Push(1), Push(0), Push(2), PipeInput(0), Connect(0, 0, 1, 0), Connect(0, 1, 2, 0), Connect(1, 0, 3, 0), Connect(2, 0, 3, 1), PipeOutput(3), Block(3)]),
        ("generators", 0, 2, vec![Push(4), Push(4), Push(2), Connect(0, 0, 2, 0), Connect(1, 0, 2, 1), ConnectOutput(2, 0, 0), ConnectOutput(0, 0, 1)]),
        ("reordered", 2, 1, vec![Push(1), Push(0), Push(7), Connect(2, 1, 0, 0), Connect(0, 0, 1, 0), PipeInput(2), ConnectOutput(1, 0, 0), Run(3), Remove(1), Push(0)]),
        ("cyclic", 1, 1, vec![Push(0), Push(1), Push(0), Connect(0, 0, 1, 0), Connect(1, 0, 2, 0), Connect(2, 0, 0, 0), ConnectOutput(2, 0, 0)]),
        ("twocycle", 1, 1, vec![Push(0), Push(1), Connect(0, 0, 1, 0), Connect(1, 0, 0, 0), ConnectOutput(1, 0, 0)]),
    ]
}

fn leaf_unit(n: &str) -> Box<dyn AudioUnit> {
    match n {
        "T" => Box::new(tick()),
        "D" => Box::new(dc(0.75)),
        "J" => Box::new(join::<U2>()),
        "B" => Box::new(split::<U2>()),
        "M" => Box::new(mul((2.0, 3.0))),
        "G" => Box::new(mul(0.5)),
        "N" => Box::new(dc((2.0, -3.0))),
        "S" => Box::new(sink()),
        "R" => Box::new(reverse::<U2>()),
        "A" => Box::new(add(1.5)),
        "Z" => Box::new(zero()),
        "P" => Box::new(pass()),
        "I" => Box::new(sub((1.0, 2.0))),
        "Q" => Box::new(delay(3.0 / 44100.0)),
        _ => panic!(),
    }
}

/// Build a network for a term using network operators.
pub fn build(x: &Term) -> Net {
    match x {
        Term::Leaf(n) => Net::wrap(leaf_unit(n)),
        Term::Gain(g) => Net::wrap(Box::new(mul(*g))),
        Term::Delay(_) => Net::wrap(Box::new(tick())),
        Term::Dc(v) => Net::scalar(1, *v),
        Term::Pipe(a, b) => build(a) >> build(b),
        Term::Stack(a, b) => build(a) | build(b),
        Term::Branch(a, b) => build(a) ^ build(b),
        Term::Bus(a, b) => build(a) & build(b),
        Term::Arith('+', a, b) => build(a) + build(b),
        Term::Arith('-', a, b) => build(a) - build(b),
        Term::Arith(_, a, b) => build(a) * build(b),
        Term::Scalar('+', a, c) => build(a) + *c,
        Term::Scalar('-', a, c) => build(a) - *c,
        Term::Scalar('r', a, c) => *c - build(a),
        Term::Scalar('l', a, c) => *c + build(a),
        Term::Scalar('m', a, c) => *c * build(a),
        Term::Scalar(_, a, c) => build(a) * *c,
        Term::Neg(a) => -build(a),
        Term::Thru(a) => !build(a),
    }
}

pub fn unops(x: &Term) -> Vec<Term> {
    let mut v = vec![t::thru(x.clone())];
    if x.arity().1 > 0 {
        v.push(t::neg(x.clone()));
        for op in ['+', '-', 'r', '*'] {
            v.push(t::sc(op, x.clone(), 0.25));
        }
    }
    v
}
pub fn binops(x: &Term, y: &Term) -> Vec<Term> {
    let (xi, xo) = x.arity();
    let (yi, yo) = y.arity();
    let mut v = vec![t::stack(x.clone(), y.clone())];
    if xo == yi {
        v.push(t::pipe(x.clone(), y.clone()));
    }
    if xi == yi {
        v.push(t::branch(x.clone(), y.clone()));
        if xo == yo {
            v.push(t::bus(x.clone(), y.clone()));
        }
    }
    if xo == yo {
        v.push(t::sum(x.clone(), y.clone()));
        v.push(t::diff(x.clone(), y.clone()));
        v.push(t::prod(x.clone(), y.clone()));
    }
    v
}

pub const LEAVES: [&str; 14] = ["T", "D", "J", "B", "M", "G", "N", "S", "R", "A", "Z", "P", "I", "Q"];

fn operators(ctx: &Ctx) {
    let leaves: Vec<Term> = LEAVES.iter().map(|n| t::l(n)).collect();
    let mut d1: Vec<Term> = leaves.iter().flat_map(unops).collect();
    for x in leaves.iter() {
        for y in leaves.iter() {
            d1.extend(binops(x, y));
        }
    }
    let small = if ctx.thorough { &leaves[..] } else { &leaves[..8] };
    let mut d2: Vec<Term> = d1.iter().flat_map(unops).collect();
    for x in d1.iter() {
        if x.arity().0 > 4 || x.arity().1 > 4 {
            continue;
        }
        for y in small.iter() {
            d2.extend(binops(x, y));
            d2.extend(binops(y, x));
        }
    }
    ctx.part("network operator terms", (leaves.len() + d1.len() + d2.len()) as u64);
    let all: Vec<&Term> = leaves.iter().chain(d1.iter()).chain(d2.iter()).collect();
    let chunk = 64;
    ctx.par(all.len().div_ceil(chunk), |c| {
        for x in all[c * chunk..core::cmp::min(c * chunk + chunk, all.len())].iter() {
            ctx.case("network operators", || {
                let mut net = build(x);
                net.check();
                let (i, o) = x.arity();
                if (net.inputs(), net.outputs()) != (i, o) {
                    ctx.violation("network operators", format!("arity of {:?} is {:?}", x, (net.inputs(), net.outputs())), format!("{:?}", x));
                    return;
                }
                let input = term::inputs(i, 0, 40);
                let y = x.eval(&input, 40);
                for steps in [vec![Step::Tick; 6], vec![Step::Block(9), Step::Tick, Step::Block(3)]] {
                    let mut n = net.clone();
                    ctx.trace();
                    ctx.trans(steps.len() as u64);
                    if let Some(e) = term::compare(&mut n, &input, &y, &steps, 1e-4) {
                        ctx.violation("network operators", format!("{} in {:?}", e, x), format!("{:?}: {}", x, e));
                        return;
                    }
                }
            });
        }
    });
    ctx.sample(|| format!("network operator term {:?}", d2[d2.len() / 2]));
    mixed(ctx);
}

/// Operators that combine a network with a static node, in both orders.
fn mixed(ctx: &Ctx) {
    macro_rules! m {
        ($($an:expr, $s:expr);*) => { $(
            for n in LEAVES {
                let other = t::l(n);
                let me = t::l($s);
                for (flip, terms) in [(false, binops(&other, &me)), (true, binops(&me, &other))] {
                    for x in terms {
                        ctx.case("mixed operators", || {
                            let w = Net::wrap(leaf_unit(n));
                            let mut net = match (&x, flip) {
                                (Term::Pipe(..), false) => w >> $an,
                                (Term::Pipe(..), true) => $an >> w,
                                (Term::Stack(..), false) => w | $an,
                                (Term::Stack(..), true) => $an | w,
                                (Term::Branch(..), false) => w ^ $an,
                                (Term::Branch(..), true) => $an ^ w,
                                (Term::Bus(..), false) => w & $an,
                                (Term::Bus(..), true) => $an & w,
                                (Term::Arith('+', ..), false) => w + $an,
                                (Term::Arith('+', ..), true) => $an + w,
                                (Term::Arith('-', ..), false) => w - $an,
                                (Term::Arith('-', ..), true) => $an - w,
                                (Term::Arith(..), false) => w * $an,
                                (_, _) => $an * w,
                            };
                            net.check();
                            let (i, o) = x.arity();
                            assert_eq!((net.inputs(), net.outputs()), (i, o));
                            let input = term::inputs(i, 0, 40);
                            let y = x.eval(&input, 40);
                            ctx.trace();
                            ctx.trans(3);
                            if let Some(e) = term::compare(&mut net, &input, &y, &[Step::Block(9), Step::Tick, Step::Block(3)], 1e-4) {
                                ctx.violation("mixed operators", format!("{} in {:?}", e, x), format!("{:?}: {}", x, e));
                            }
                        });
                    }
                }
            }
        )* }
    }
    m!(tick(), "T"; dc(0.75), "D"; mul((2.0, 3.0)), "M"; join::<U2>(), "J"; split::<U2>(), "B"; dc((2.0, -3.0)), "N");
    // Scalar on the left.
    for n in LEAVES {
        let x = t::l(n);
        if x.arity().1 == 0 {
            continue;
        }
        for (op, r) in [('l', '+'), ('m', '*')] {
            ctx.case("scalar operators", || {
                let mut net = build(&t::sc(op, x.clone(), 0.25));
                let reference = t::sc(r, x.clone(), 0.25);
                let input = term::inputs(x.arity().0, 0, 40);
                let y = reference.eval(&input, 40);
                ctx.trace();
                if let Some(e) = term::compare(&mut net, &input, &y, &[Step::Block(9), Step::Tick, Step::Block(3)], 1e-4) {
                    ctx.violation("scalar operators", format!("{} in {:?}", e, x), format!("{:?}: {}", x, e));
                }
            });
        }
    }
}

pub fn c04(ctx: &Ctx) {
    let seeds = seeds();
    let depth = ctx.q(3, 4);
    // Jobs: seed and first operation.
    let mut jobs = vec![];
    for (name, i, o, ops) in seeds.iter() {
        let r = std::panic::catch_unwind(|| {
            let mut s = Sys::new(*i, *o);
            for op in ops {
                if let Err(e) = s.apply(*op) {
                    return Err((e, s));
                }
            }
            Ok(s)
        });
        match r {
            Ok(Ok(s)) => {
                let kinds: &[usize] = if *name == "empty" { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[1, 3] };
                let extra = if *name == "empty" && !ctx.thorough { 1 } else { 0 };
                for op in s.ops(kinds, 5) {
                    jobs.push((*name, s.clone(), op, kinds, extra));
                }
            }
            Ok(Err((e, _))) => ctx.violation(*name, e.clone(), format!("seed {} {:?}: {}", name, ops, e)),
            Err(_) => ctx.violation(*name, last_panic(), format!("seed {} {:?}: panic {}", name, ops, last_panic())),
        }
    }
    ctx.sample(|| format!("seed graphs {:?}", seeds.iter().map(|x| x.0).collect::<Vec<_>>()));
    let jobs: Vec<std::sync::Mutex<_>> = jobs.into_iter().map(std::sync::Mutex::new).collect();
    let stop = std::sync::atomic::AtomicBool::new(false);
    ctx.par(jobs.len(), |j| {
        let g = jobs[j].lock().unwrap();
        let (name, s, op, kinds, extra) = &*g;
        ctx.case(name, || {
            let mut n = s.clone();
            let mut trail = vec![*op];
            ctx.trans(1);
            let r = guard(|| n.apply(*op).and_then(|_| verify(ctx, &n)));
            if let Err(e) = r {
                ctx.violation(*name, format!("{} after {:?}", e, trail), format!("{}: {:?}: {}", name, trail, e));
                return;
            }
            ctx.sample(|| format!("seed {} first operation {:?}", name, op));
            explore(ctx, name, &n, kinds, 5, depth + extra - 1, &mut trail, &stop);
        });
    });
    operators(ctx);
}
