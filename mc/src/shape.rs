//! Runtime enumeration of composition shapes over probe units.
//! A probe keeps its own state (no sharing between clones) and reports it to a thread local table when it is processed,
//! so what is observed is always the state of the instance that actually produces audio.
use fundsp::hacker32::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Seen {
    pub value: f32,
    pub rate: f64,
    /// Samples processed since the last reset before this call.
    pub age: u64,
    pub allocated: bool,
    pub hash: u64,
}

thread_local! { static TABLE: RefCell<BTreeMap<usize, Seen>> = const { RefCell::new(BTreeMap::new()) }; }
pub fn clear() {
    TABLE.with(|t| t.borrow_mut().clear());
}
pub fn seen() -> BTreeMap<usize, Seen> {
    TABLE.with(|t| t.borrow().clone())
}

#[derive(Clone)]
pub struct Probe {
    id: usize,
    s: Seen,
}
impl Probe {
    pub fn new(id: usize) -> Probe {
        Probe { id, s: Seen { value: 0.0, rate: 44100.0, age: 0, allocated: false, hash: 0 } }
    }
    fn note(&mut self, n: u64) {
        if n > 0 {
            TABLE.with(|t| {
                t.borrow_mut().entry(self.id).or_insert(self.s);
            });
            self.s.age += n;
        }
    }
}
impl AudioUnit for Probe {
    fn reset(&mut self) {
        self.s.age = 0;
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        if self.s.rate != sample_rate {
            self.s.allocated = false;
        }
        self.s.rate = sample_rate;
    }
    fn tick(&mut self, _input: &[f32], output: &mut [f32]) {
        self.note(1);
        output[0] = 1.0;
    }
    fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
        self.note(size as u64);
        output.channel_f32_mut(0)[..size].fill(1.0);
    }
    fn set(&mut self, setting: Setting) {
        if let (Parameter::Value(x), Address::Null) = (setting.parameter(), setting.direction()) {
            self.s.value = *x;
        }
    }
    fn inputs(&self) -> usize {
        1
    }
    fn outputs(&self) -> usize {
        1
    }
    fn route(&mut self, _input: &SignalFrame, _frequency: f64) -> SignalFrame {
        SignalFrame::new(1)
    }
    fn get_id(&self) -> u64 {
        7777
    }
    fn set_hash(&mut self, hash: u64) {
        self.s.hash = hash;
    }
    fn footprint(&self) -> usize {
        0
    }
    fn allocate(&mut self) {
        self.s.allocated = true;
    }
}

/// Transparent adapter: `inputs` inputs and one output, feeds ones to the contained unit and outputs ones.
#[derive(Clone)]
struct Norm {
    inputs: usize,
    x: Box<dyn AudioUnit>,
    i: BufferVec,
    o: BufferVec,
}
pub fn norm(inputs: usize, x: Box<dyn AudioUnit>) -> Box<dyn AudioUnit> {
    let mut i = BufferVec::new(x.inputs());
    for c in 0..x.inputs() {
        i.channel_f32_mut(c).fill(1.0);
    }
    let o = BufferVec::new(x.outputs());
    Box::new(Norm { inputs, x, i, o })
}
impl AudioUnit for Norm {
    fn reset(&mut self) {
        self.x.reset();
    }
    fn set_sample_rate(&mut self, sample_rate: f64) {
        self.x.set_sample_rate(sample_rate);
    }
    fn tick(&mut self, _input: &[f32], output: &mut [f32]) {
        let i = vec![1.0; self.x.inputs()];
        let mut o = vec![0.0; self.x.outputs()];
        self.x.tick(&i, &mut o);
        output[0] = 1.0;
    }
    fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
        self.x.process(size, &self.i.buffer_ref(), &mut self.o.buffer_mut());
        output.channel_f32_mut(0)[..size].fill(1.0);
    }
    fn set(&mut self, setting: Setting) {
        self.x.set(setting);
    }
    fn inputs(&self) -> usize {
        self.inputs
    }
    fn outputs(&self) -> usize {
        1
    }
    fn route(&mut self, _input: &SignalFrame, _frequency: f64) -> SignalFrame {
        SignalFrame::new(1)
    }
    fn get_id(&self) -> u64 {
        self.x.get_id()
    }
    fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
        self.x.ping(probe, hash)
    }
    fn footprint(&self) -> usize {
        0
    }
    fn allocate(&mut self) {
        self.x.allocate();
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dir {
    L,
    R,
    I(usize),
    N(NodeId),
}
pub fn address(mut s: Setting, path: &[Dir]) -> Setting {
    for d in path {
        s = match d {
            Dir::L => s.left(),
            Dir::R => s.right(),
            Dir::I(i) => s.index(*i),
            Dir::N(n) => s.node(*n),
        };
    }
    s
}

#[derive(Clone, Debug)]
pub struct Leaf {
    pub id: usize,
    pub path: Vec<Dir>,
    /// Ratio of the sample rate of the probe to that of the whole.
    pub factor: f64,
    /// Whether settings can be addressed to it.
    pub settable: bool,
    /// Whether it takes part in pinging.
    pub pinged: bool,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Probe,
    U(usize, Box<Tree>),
    B(usize, Box<Tree>, Box<Tree>),
}
pub const UNARY: [&str; 22] = [
    "thru", "neg", "add", "mul", "update", "feedback", "oversample", "feedback_unit", "big_block", "listen", "net", "net_backend", "resample",
    "block_rate", "slot", "sequencer", "sequencer_backend", "clone", "fdn", "allnest_c", "allnest", "net_in_crossfade",
];
pub const BINARY: [&str; 19] = [
    "pipe", "stack", "bus", "branch", "sum", "difference", "product", "feedback2", "fdn2", "net_pipe", "net_stack", "net_bus", "busi", "stacki", "branchi",
    "sumi", "pipei", "net_product", "net_branch",
];
impl std::fmt::Display for Tree {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Tree::Probe => write!(f, "p"),
            Tree::U(k, x) => write!(f, "{}({})", UNARY[*k], x),
            Tree::B(k, x, y) => write!(f, "{}({},{})", BINARY[*k], x, y),
        }
    }
}

pub struct Built {
    pub unit: Box<dyn AudioUnit>,
    pub leaves: Vec<Leaf>,
    /// Things that must be kept alive.
    pub keep: Vec<Box<dyn std::any::Any>>,
}

struct Builder {
    next: usize,
    keep: Vec<Box<dyn std::any::Any>>,
}
type Part = (Box<dyn AudioUnit>, Vec<Leaf>);
fn prefix(mut v: Vec<Leaf>, d: Dir) -> Vec<Leaf> {
    for l in v.iter_mut() {
        l.path.insert(0, d);
    }
    v
}
fn join2(a: Vec<Leaf>, da: Dir, b: Vec<Leaf>, db: Dir) -> Vec<Leaf> {
    let mut v = prefix(a, da);
    v.extend(prefix(b, db));
    v
}
impl Builder {
    fn probe(&mut self) -> Part {
        let id = self.next;
        self.next += 1;
        (Box::new(Probe::new(id)), vec![Leaf { id, path: vec![], factor: 1.0, settable: true, pinged: true }])
    }
    fn build(&mut self, t: &Tree) -> Part {
        type A = An<Unit<U1, U1>>;
        match t {
            Tree::Probe => self.probe(),
            Tree::U(k, x) => {
                let (x, mut leaves) = self.build(x);
                let a = |x: Box<dyn AudioUnit>| -> A { unit::<U1, U1>(x) };
                let g = |x: Box<dyn AudioUnit>| -> An<Unit<U0, U1>> { unit::<U0, U1>(norm(0, x)) };
                let u: Box<dyn AudioUnit> = match UNARY[*k] {
                    "thru" => Box::new(!a(x)),
                    "neg" => Box::new(-a(x)),
                    "add" => Box::new(a(x) + 1.0),
                    "mul" => Box::new(a(x) * 2.0),
                    "update" => Box::new(update(a(x), 0.001, |_t, _dt, _x| {})),
                    "feedback" => Box::new(feedback(a(x))),
                    "fdn" => Box::new(fdn::<U1, _>(a(x))),
                    "oversample" => {
                        leaves.iter_mut().for_each(|l| l.factor *= 2.0);
                        Box::new(oversample(a(x)))
                    }
                    "feedback_unit" => Box::new(FeedbackUnit::new(0.001, x)),
                    "big_block" => Box::new(BigBlockAdapter::new(x)),
                    "listen" => {
                        let (s, n) = listen(a(x));
                        self.keep.push(Box::new(s));
                        Box::new(n)
                    }
                    "net" => {
                        let (net, id) = Net::wrap_id(x);
                        leaves = prefix(leaves, Dir::N(id));
                        Box::new(net)
                    }
                    "net_backend" => {
                        let (mut net, id) = Net::wrap_id(x);
                        leaves = prefix(leaves, Dir::N(id));
                        let b = net.backend();
                        self.keep.push(Box::new(net));
                        Box::new(b)
                    }
                    "net_in_crossfade" => {
                        let (mut net, id) = Net::wrap_id(norm(1, Box::new(pass())));
                        let mut b = net.backend();
                        net.crossfade(id, Fade::Smooth, 1.0, x);
                        net.commit();
                        // Receive the unit.
                        b.tick(&[1.0], &mut [0.0]);
                        b.reset();
                        leaves.iter_mut().for_each(|l| l.pinged = false);
                        leaves = prefix(leaves, Dir::N(id));
                        self.keep.push(Box::new(net));
                        Box::new(b)
                    }
                    "resample" => Box::new(resample(g(x))),
                    "block_rate" => Box::new(BlockRateAdapter::new(norm(0, x))),
                    "slot" => {
                        let (s, b) = Slot::new(x);
                        self.keep.push(Box::new(s));
                        Box::new(b)
                    }
                    "sequencer" | "sequencer_backend" => {
                        leaves.iter_mut().for_each(|l| {
                            l.settable = false;
                            l.pinged = false;
                        });
                        let mut s = Sequencer::new(true, 1);
                        s.push(0.0, f64::INFINITY, Fade::Smooth, 0.0, 0.0, norm(0, x));
                        if UNARY[*k] == "sequencer" {
                            Box::new(s)
                        } else {
                            let b = s.backend();
                            self.keep.push(Box::new(s));
                            Box::new(b)
                        }
                    }
                    "clone" => {
                        let c = x.clone();
                        self.keep.push(Box::new(x));
                        c
                    }
                    "allnest_c" | "allnest" => {
                        leaves.iter_mut().for_each(|l| l.settable = false);
                        if UNARY[*k] == "allnest" {
                            Box::new(allnest(a(x)))
                        } else {
                            Box::new(allnest_c(0.5, a(x)))
                        }
                    }
                    _ => unreachable!(),
                };
                (norm(1, u), leaves)
            }
            Tree::B(k, x, y) => {
                let name = BINARY[*k];
                let (x, lx) = self.build(x);
                let (y, ly) = self.build(y);
                let a = |x: Box<dyn AudioUnit>| -> A { unit::<U1, U1>(x) };
                if name.starts_with("net_") {
                    let (nx, ix) = Net::wrap_id(x);
                    let (ny, iy) = Net::wrap_id(y);
                    let leaves = join2(lx, Dir::N(ix), ly, Dir::N(iy));
                    let net = match name {
                        "net_pipe" => nx >> ny,
                        "net_stack" => nx | ny,
                        "net_bus" => nx & ny,
                        "net_branch" => nx ^ ny,
                        "net_product" => nx * ny,
                        _ => unreachable!(),
                    };
                    return (norm(1, Box::new(net)), leaves);
                }
                if ["busi", "stacki", "branchi", "sumi", "pipei"].contains(&name) {
                    let (z, lz) = self.probe();
                    let mut leaves = join2(lx, Dir::I(0), ly, Dir::I(1));
                    leaves.extend(prefix(lz, Dir::I(2)));
                    let v = RefCell::new(vec![Some(x), Some(y), Some(z)]);
                    let f = |i: u64| a(v.borrow_mut()[i as usize].take().unwrap());
                    let u: Box<dyn AudioUnit> = match name {
                        "busi" => Box::new(busi::<U3, _, _>(f)),
                        "stacki" => Box::new(stacki::<U3, _, _>(f)),
                        "branchi" => Box::new(branchi::<U3, _, _>(f)),
                        "sumi" => Box::new(sumi::<U3, _, _>(f)),
                        "pipei" => Box::new(pipei::<U3, _, _>(f)),
                        _ => unreachable!(),
                    };
                    return (norm(1, u), leaves);
                }
                let leaves = join2(lx, Dir::L, ly, Dir::R);
                let (a, b) = (a(x), a(y));
                let u: Box<dyn AudioUnit> = match name {
                    "pipe" => Box::new(a >> b),
                    "stack" => Box::new(a | b),
                    "bus" => Box::new(a & b),
                    "branch" => Box::new(a ^ b),
                    "sum" => Box::new(a + b),
                    "difference" => Box::new(a - b),
                    "product" => Box::new(a * b),
                    "feedback2" => Box::new(feedback2(a, b)),
                    "fdn2" => Box::new(fdn2::<U1, _, _>(a, b)),
                    _ => unreachable!(),
                };
                (norm(1, u), leaves)
            }
        }
    }
}
pub fn build(t: &Tree) -> Built {
    let mut b = Builder { next: 0, keep: vec![] };
    let (unit, leaves) = b.build(t);
    Built { unit, leaves, keep: b.keep }
}
impl Built {
    /// Process until every probe has been observed.
    pub fn observe(&mut self, block: bool) -> BTreeMap<usize, Seen> {
        clear();
        self.run(block);
        for _ in 0..200 {
            if seen().len() == self.leaves.len() {
                break;
            }
            self.run(block);
        }
        seen()
    }
    pub fn run(&mut self, block: bool) {
        if block {
            let mut i = BufferVec::new(1);
            i.channel_f32_mut(0).fill(1.0);
            let mut o = BufferVec::new(1);
            self.unit.process(64, &i.buffer_ref(), &mut o.buffer_mut());
        } else {
            self.unit.tick(&[1.0], &mut [0.0]);
        }
    }
}

/// All trees with at most the given nesting depth; `wide` limits the second operand of binary nodes to smaller trees.
pub fn trees(depth: usize) -> Vec<Tree> {
    let mut level: Vec<Vec<Tree>> = vec![vec![Tree::Probe]];
    for d in 1..=depth {
        let prev: Vec<Tree> = level.iter().flatten().cloned().collect();
        let last = level[d - 1].clone();
        let mut v = vec![];
        for k in 0..UNARY.len() {
            for x in last.iter() {
                v.push(Tree::U(k, Box::new(x.clone())));
            }
        }
        for k in 0..BINARY.len() {
            for x in last.iter() {
                if d <= 2 {
                    for y in prev.iter() {
                        v.push(Tree::B(k, Box::new(x.clone()), Box::new(y.clone())));
                        if !last.contains(y) {
                            v.push(Tree::B(k, Box::new(y.clone()), Box::new(x.clone())));
                        }
                    }
                } else {
                    v.push(Tree::B(k, Box::new(x.clone()), Box::new(Tree::Probe)));
                    v.push(Tree::B(k, Box::new(Tree::Probe), Box::new(x.clone())));
                }
            }
        }
        level.push(v);
    }
    level.into_iter().flatten().collect()
}
