//! C16: identifiers are unique in all interleavings and memory model behaviours of concurrent generation.
//!
//! The 32-bit atomics behind the identifier generators are forwarded to this program (hook `fundsp_mc`).
//! Each thread runs the real code. Its continuation is a function of the results of its atomic operations, so that
//! a state of the system is the results so far of every thread plus the contents of memory, and a thread is advanced by
//! replaying its results and intercepting the next operation. All states are explored. Memory follows
//! the release-acquire fragment of the C11 model: every location keeps its modification order, a load may return any value
//! that is not older than what the thread has already seen, and views travel through release/acquire pairs.
#[path = "../../mc/src/fw.rs"]
#[allow(dead_code)]
mod fw;
use fundsp::mcatomic::{Op, HANDLER};
use fundsp::net::NodeId;
use fundsp::prelude::{dc, Fade, Net, Sequencer};
use fundsp::sequencer::EventId;
use fundsp::shared::IdGenerator;
use fw::*;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::Ordering;

type View = Vec<u32>;

/// One write in the modification order of a location.
#[derive(Clone, Hash)]
struct Msg {
    val: u32,
    view: View,
}

#[derive(Clone, Hash, Default)]
struct Memory {
    locs: Vec<Vec<Msg>>,
}

/// How operations are handled at the moment.
enum Mode {
    /// Not part of any model.
    Off,
    /// Sequential execution on plain values.
    Direct(Vec<u32>),
    /// Results of the operations of a thread so far, the position, and initial values of locations.
    Replay(Vec<Result<u32, u32>>, usize),
}

struct Env {
    mode: Mode,
    /// Addresses of the modelled atomics and their initial values.
    addrs: Vec<(usize, u32)>,
}

thread_local! { static ENV: RefCell<Env> = const { RefCell::new(Env { mode: Mode::Off, addrs: Vec::new() }) }; }

/// Unwinding payload: the thread is about to do this operation at this location.
struct Pending(usize, Op);

fn handler(addr: usize, initial: u32, op: Op) -> Option<Result<u32, u32>> {
    let mut pending = None;
    let r = ENV.with(|e| {
        let e = &mut *e.borrow_mut();
        if matches!(e.mode, Mode::Off) {
            return None;
        }
        let loc = e.addrs.iter().position(|x| x.0 == addr).unwrap_or_else(|| {
            e.addrs.push((addr, initial));
            e.addrs.len() - 1
        });
        match &mut e.mode {
            Mode::Off => None,
            Mode::Direct(mem) => {
                while mem.len() <= loc {
                    mem.push(e.addrs[mem.len()].1);
                }
                let old = mem[loc];
                Some(match op {
                    Op::Load(_) => Ok(old),
                    Op::Store(x, _) => {
                        mem[loc] = x;
                        Ok(x)
                    }
                    Op::Swap(x, _) => {
                        mem[loc] = x;
                        Ok(old)
                    }
                    Op::Add(x, _) => {
                        mem[loc] = old.wrapping_add(x);
                        Ok(old)
                    }
                    Op::CompareExchange(a, b, _, _) => {
                        if a == old {
                            mem[loc] = b;
                            Ok(old)
                        } else {
                            Err(old)
                        }
                    }
                })
            }
            Mode::Replay(results, i) => {
                if *i < results.len() {
                    *i += 1;
                    Some(results[*i - 1])
                } else {
                    pending = Some(Pending(loc, op));
                    None
                }
            }
        }
    });
    if let Some(p) = pending {
        std::panic::resume_unwind(Box::new(p));
    }
    r
}

/// Event identifiers are compared by their hash.
fn event(id: EventId) -> u64 {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();
    id.hash(&mut h);
    h.finish()
}

/// Finds by bisection the first value of the counting word at which making an identifier changes the other word as well.
fn boundary() -> u32 {
    let at = |low: u32| -> bool {
        let g = Box::new(IdGenerator::new());
        let direct = |m: Mode| ENV.with(|e| std::mem::replace(&mut e.borrow_mut().mode, m));
        ENV.with(|e| *e.borrow_mut() = Env { mode: Mode::Direct(vec![]), addrs: vec![] });
        g.get_id();
        let Mode::Direct(mem) = direct(Mode::Off) else { return false };
        let initial: Vec<u32> = ENV.with(|e| e.borrow().addrs.iter().map(|x| x.1).collect());
        let moved: Vec<usize> = (0..mem.len()).filter(|i| mem[*i] != initial[*i]).collect();
        if mem.len() != 2 || moved.len() != 1 {
            return false;
        }
        let mut m = mem.clone();
        m[moved[0]] = low;
        direct(Mode::Direct(m));
        g.get_id();
        let Mode::Direct(after) = direct(Mode::Off) else { return false };
        after[1 - moved[0]] != mem[1 - moved[0]]
    };
    let (mut a, mut b) = (0u32, u32::MAX);
    if at(a) || !at(b) {
        return 0xfff00000;
    }
    while b - a > 1 {
        let c = a + (b - a) / 2;
        if at(c) {
            b = c;
        } else {
            a = c;
        }
    }
    b
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Source {
    Generator,
    Node,
    Event,
}

#[derive(Clone, Debug)]
struct Scenario {
    source: Source,
    /// Identifiers made by each thread.
    threads: Vec<usize>,
    /// Values of the counting word and the other word at the start.
    low: u32,
    high: u32,
    /// Are stale loads explored as well as interleavings?
    weak: bool,
}

#[derive(Clone)]
struct Thread {
    results: Vec<Result<u32, u32>>,
    view: View,
    /// Identifiers made so far.
    ids: Vec<u64>,
    finished: bool,
    /// Number of results that belong to finished identifiers.
    settled: usize,
    /// Next operation.
    pending: Option<(usize, Op)>,
    /// Consecutive operations that brought no new information.
    stale: usize,
}

#[derive(Clone)]
struct State {
    mem: Memory,
    threads: Vec<Thread>,
    trail: Vec<(u8, u8)>,
}

fn acquires(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn releases(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}
fn join(a: &mut View, b: &View) {
    while a.len() < b.len() {
        a.push(0);
    }
    for (x, y) in a.iter_mut().zip(b) {
        *x = (*x).max(*y);
    }
}
fn set(v: &mut View, loc: usize, i: u32) {
    while v.len() <= loc {
        v.push(0);
    }
    v[loc] = v[loc].max(i);
}

struct Explorer<'a> {
    ctx: &'a Ctx,
    s: Scenario,
    generator: Box<IdGenerator>,
    seen: HashSet<u64>,
    states: u64,
    transitions: u64,
    executions: u64,
    cut: u64,
    /// Location of the counting word, if known.
    low: Option<usize>,
    danger: u32,
    start: std::time::Instant,
    /// The state space was not exhausted.
    incomplete: bool,
    /// Identifiers made before the threads started.
    before: Vec<u64>,
    bad: Option<String>,
}

impl Explorer<'_> {
    fn make(&self) -> u64 {
        match self.s.source {
            Source::Generator => self.generator.get_id(),
            Source::Node => NodeId::new().value(),
            Source::Event => event(EventId::new()),
        }
    }
    /// Replays a thread up to its next operation.
    fn replay(&self, t: &mut Thread, n: usize) {
        ENV.with(|e| e.borrow_mut().mode = Mode::Replay(t.results.clone(), 0));
        let mut ids = vec![];
        let mut settled = 0;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for _ in 0..n {
                ids.push(self.make());
                settled = ENV.with(|e| match &e.borrow().mode {
                    Mode::Replay(_, i) => *i,
                    _ => 0,
                });
            }
        }));
        ENV.with(|e| e.borrow_mut().mode = Mode::Off);
        t.ids = ids;
        t.settled = settled;
        match r {
            Ok(()) => {
                t.finished = true;
                t.pending = None;
            }
            Err(p) => match p.downcast::<Pending>() {
                Ok(p) => t.pending = Some((p.0, p.1)),
                Err(e) => std::panic::resume_unwind(e),
            },
        }
    }
    fn run(&mut self) {
        ENV.with(|e| *e.borrow_mut() = Env { mode: Mode::Direct(vec![]), addrs: vec![] });
        // The first identifier shows which atomics are involved and which of them counts.
        let first = self.make();
        let direct = |m: Mode| ENV.with(|e| std::mem::replace(&mut e.borrow_mut().mode, m));
        let Mode::Direct(mut mem) = direct(Mode::Off) else { return };
        let initial: Vec<u32> = ENV.with(|e| e.borrow().addrs.iter().map(|x| x.1).collect());
        let moved: Vec<usize> = (0..mem.len()).filter(|i| mem[*i] != initial[*i]).collect();
        if mem.len() == 2 && moved.len() == 1 {
            self.low = Some(moved[0]);
        }
        if self.s.low != 0 || self.s.high != 0 {
            // Another kind of generator is explored from the start only.
            let Some(l) = self.low else { return };
            mem[l] = self.s.low;
            mem[1 - l] = self.s.high;
        } else {
            self.before.push(first);
        }
        let mem = Memory { locs: mem.iter().map(|v| vec![Msg { val: *v, view: vec![] }]).collect() };
        let mut threads = vec![];
        for n in self.s.threads.clone() {
            let mut t = Thread { results: vec![], view: vec![], ids: vec![], finished: false, settled: 0, pending: None, stale: 0 };
            self.replay(&mut t, n);
            threads.push(t);
        }
        let mut stack = vec![State { mem, threads, trail: vec![] }];
        while let Some(st) = stack.pop() {
            if self.bad.is_some() {
                return;
            }
            if self.start.elapsed().as_secs() >= if self.ctx.thorough { 1500 } else { 100 } || self.seen.len() > 30_000_000 {
                self.incomplete = true;
                return;
            }
            if st.threads.iter().all(|t| t.finished) {
                self.finish(&st);
                continue;
            }
            for i in 0..st.threads.len() {
                if st.threads[i].pending.is_some() {
                    for next in self.step(&st, i) {
                        self.transitions += 1;
                        if self.seen.insert(self.hash(&next)) {
                            self.states += 1;
                            stack.push(next);
                        }
                    }
                }
            }
        }
    }
    /// Hash of what the future can depend on: the continuation of each thread, the part of memory that can still be read, and the identifiers made.
    fn hash(&self, s: &State) -> u64 {
        use std::hash::{Hash, Hasher};
        let mut h = std::collections::hash_map::DefaultHasher::new();
        let mut ids: Vec<u64> = s.threads.iter().flat_map(|t| t.ids.iter().copied()).collect();
        ids.sort();
        ids.hash(&mut h);
        let oldest: Vec<u32> = (0..s.mem.locs.len())
            .map(|l| if self.s.weak { s.threads.iter().filter(|t| !t.finished).map(|t| t.view.get(l).copied().unwrap_or(0)).min().unwrap_or(0) } else { s.mem.locs[l].len() as u32 - 1 })
            .collect();
        let relative = |v: &View| -> Vec<u32> { oldest.iter().enumerate().map(|(i, o)| v.get(i).copied().unwrap_or(0).saturating_sub(*o)).collect() };
        // Threads are symmetric.
        let mut hashes: Vec<u64> = vec![];
        for (i, t) in s.threads.iter().enumerate() {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (t.finished, self.s.threads[i] - t.ids.len(), t.stale).hash(&mut h);
            t.results[t.settled..].hash(&mut h);
            if self.s.weak && !t.finished {
                relative(&t.view).hash(&mut h);
            }
            hashes.push(h.finish());
        }
        hashes.sort();
        hashes.hash(&mut h);
        for (l, msgs) in s.mem.locs.iter().enumerate() {
            for m in &msgs[oldest[l] as usize..] {
                m.val.hash(&mut h);
                if self.s.weak {
                    relative(&m.view).hash(&mut h);
                }
            }
        }
        h.finish()
    }
    /// All outcomes of the next operation of a thread.
    fn step(&mut self, st: &State, i: usize) -> Vec<State> {
        let (loc, op) = st.threads[i].pending.unwrap();
        let mut base = st.clone();
        while base.mem.locs.len() <= loc {
            let n = base.mem.locs.len();
            let v = ENV.with(|e| e.borrow().addrs[n].1);
            base.mem.locs.push(vec![Msg { val: v, view: vec![] }]);
        }
        let latest = base.mem.locs[loc].len() - 1;
        let seen = base.threads[i].view.get(loc).copied().unwrap_or(0) as usize;
        let mut out = vec![];
        let mut outcome = |read: Option<(usize, Ordering)>, write: Option<(u32, Ordering)>, result: Result<u32, u32>| {
            let mut n = base.clone();
            let mut stale = false;
            let t = &mut n.threads[i];
            let mut carried: View = vec![];
            if let Some((m, o)) = read {
                stale = write.is_none() && result.is_err() && m < latest && m == seen;
                set(&mut t.view, loc, m as u32);
                if acquires(o) {
                    join(&mut t.view, &n.mem.locs[loc][m].view);
                }
                if write.is_some() {
                    // A read-modify-write continues a release sequence.
                    carried = n.mem.locs[loc][m].view.clone();
                }
            }
            if let Some((v, o)) = write {
                set(&mut t.view, loc, latest as u32 + 1);
                let mut view = carried;
                if releases(o) {
                    join(&mut view, &t.view);
                }
                n.mem.locs[loc].push(Msg { val: v, view });
            }
            t.results.push(result);
            t.stale = if stale { t.stale + 1 } else { 0 };
            n.trail.push((i as u8, (latest - read.map_or(latest, |r| r.0)) as u8));
            out.push(n);
        };
        let oldest = if self.s.weak { seen } else { latest };
        match op {
            Op::Load(o) => {
                for m in oldest..=latest {
                    outcome(Some((m, o)), None, Ok(base.mem.locs[loc][m].val));
                }
            }
            Op::Store(x, o) => outcome(None, Some((x, o)), Ok(x)),
            Op::Swap(x, o) => outcome(Some((latest, o)), Some((x, o)), Ok(base.mem.locs[loc][latest].val)),
            Op::Add(x, o) => {
                let v = base.mem.locs[loc][latest].val;
                outcome(Some((latest, o)), Some((v.wrapping_add(x), o)), Ok(v));
            }
            Op::CompareExchange(a, b, s, f) => {
                for m in oldest..=latest {
                    let v = base.mem.locs[loc][m].val;
                    if v != a {
                        outcome(Some((m, f)), None, Err(v));
                    } else if m == latest {
                        outcome(Some((m, s)), Some((b, s)), Ok(v));
                    }
                }
            }
        }
        let mut cut = 0;
        out.retain(|n| {
            // Executions in which a thread keeps failing without seeing anything new are not explored further.
            let keep = n.threads[i].stale < 2 && n.threads[i].results.len() < 120;
            cut += !keep as u64;
            keep
        });
        self.cut += cut;
        let k = self.s.threads[i];
        for n in out.iter_mut() {
            let t = &mut n.threads[i];
            self.replay(t, k);
        }
        out
    }
    /// All threads are done: further identifiers are made sequentially.
    fn finish(&mut self, st: &State) {
        self.executions += 1;
        let mut ids = self.before.clone();
        for t in &st.threads {
            ids.extend(&t.ids);
        }
        let end: Vec<u32> = st.mem.locs.iter().map(|l| l.last().unwrap().val).collect();
        ENV.with(|e| e.borrow_mut().mode = Mode::Direct(end));
        for _ in 0..3 {
            ids.push(self.make());
        }
        // Identifiers that are made when the counter has advanced further.
        if let Some(l) = self.low {
            for target in [10, self.danger - 8] {
                let advanced = ENV.with(|e| match &mut e.borrow_mut().mode {
                    Mode::Direct(m) if m[l] < target => {
                        m[l] = target;
                        true
                    }
                    _ => false,
                });
                if advanced {
                    for _ in 0..12 {
                        ids.push(self.make());
                    }
                }
            }
        }
        ENV.with(|e| e.borrow_mut().mode = Mode::Off);
        let mut sorted = ids.clone();
        sorted.sort();
        sorted.dedup();
        if sorted.len() != ids.len() {
            let mut s = format!("identifiers {:x?} are not unique; schedule (thread, age of value read) {:?}", ids, st.trail);
            for (i, t) in st.threads.iter().enumerate() {
                s += &format!("; thread {} operations {:x?}", i, t.results);
            }
            self.bad = Some(s);
        }
    }
}

fn explore(ctx: &Ctx, s: &Scenario, danger: u32) {
    let name = format!("{:?} threads {:?} from {:#x}", s.source, s.threads, s.low);
    ctx.case(&name, || {
        let mut e = Explorer {
            ctx,
            s: s.clone(),
            generator: Box::new(IdGenerator::new()),
            seen: HashSet::new(),
            states: 0,
            transitions: 0,
            executions: 0,
            cut: 0,
            low: None,
            danger,
            start: std::time::Instant::now(),
            incomplete: false,
            before: vec![],
            bad: None,
        };
        e.run();
        ENV.with(|e| e.borrow_mut().mode = Mode::Off);
        for h in &e.seen {
            e.ctx.state(hmix(*h, h64(name.as_bytes())));
        }
        ctx.trans(e.transitions);
        for _ in 0..e.executions {
            ctx.trace();
        }
        ctx.part(&format!("end states, threads {:?}, {}", s.threads, if s.weak { "release-acquire memory" } else { "sequentially consistent" }), e.executions);
        ctx.part("transitions cut because a thread kept reading the same old value", e.cut);
        if e.incomplete {
            ctx.set_capped();
            ctx.part(&format!("scenarios not exhausted in the time allowed: {:?}", s), 1);
        }
        if let Some(b) = e.bad {
            ctx.violation(&name, b.clone(), format!("{:?}: {}", s, b));
        }
        ctx.sample(|| format!("{:?}: {} states, {} transitions, {} end states", s, e.states, e.transitions, e.executions));
    });
}

fn c16(ctx: &Ctx) {
    let _ = HANDLER.set(handler);
    // The identifier before the boundary may already be made again beyond it.
    let danger = boundary() + 1;
    ctx.note(format!("the counting word is rewound from {:#x}", danger));
    let mut v = vec![];
    for source in [Source::Generator, Source::Node, Source::Event] {
        let mut add = |low: u32, high: u32, threads: &[usize], weak: bool| v.push(Scenario { source, threads: threads.to_vec(), low, high, weak });
        // The largest ones come first.
        if source == Source::Generator {
            if ctx.thorough {
                add(danger - 3, 0, &[1, 1, 1], true);
                add(danger - 3, 0, &[1, 1, 1], false);
                add(danger - 2, 0, &[2, 1, 1], false);
                add(danger - 1, 0, &[2, 1, 1], true);
                add(danger, 0, &[2, 2, 1], true);
                add(danger - 2, 0, &[1, 1, 1], true);
                add(danger, 0, &[1, 1, 1, 1], false);
            }
            add(danger - 2, 0, &[1, 1, 1], false);
            add(danger - 1, 0, &[2, 1, 1], false);
        }
        if source == Source::Generator || ctx.thorough {
            for low in [0, danger - 1, danger, danger + 1] {
                add(low, 0, &[1, 1, 1], true);
            }
            for low in [0, danger, danger + 1] {
                add(low, 0, &[2, 1, 1], true);
            }
        }
        let lows: Vec<u32> = (0..8).map(|i| danger - 6 + i).chain([0, 1, 1000, danger + 5]).collect();
        for low in lows {
            for high in [0, 7] {
                if low == 0 && high != 0 {
                    continue;
                }
                for a in 1..=if ctx.thorough { 4 } else { 3 } {
                    for b in 1..=a {
                        add(low, high, &[a, b], true);
                        add(low, high, &[a, b], false);
                    }
                }
            }
        }
    }
    ctx.par(v.len(), |k| explore(ctx, &v[k], danger));
    // Units and events of any number of networks and sequencers have different identifiers.
    ctx.case("networks and sequencers", || {
        let mut nodes = HashSet::new();
        let mut events = HashSet::new();
        for _ in 0..50 {
            let mut nets: Vec<Net> = (0..5).map(|_| Net::new(0, 1)).collect();
            let mut seqs: Vec<Sequencer> = (0..5).map(|_| Sequencer::new(true, 1)).collect();
            for i in 0..20 {
                for n in nets.iter_mut() {
                    let id = if i % 2 == 0 { n.push(Box::new(dc(1.0))) } else { n.chain(Box::new(dc(1.0))) };
                    ctx.trans(1);
                    if !nodes.insert(id.value()) {
                        ctx.violation("networks", format!("node identifier {} was given twice", id.value()), "networks".to_string());
                    }
                }
                for s in seqs.iter_mut() {
                    let id = s.push(0.0, 1.0, Fade::Smooth, 0.0, 0.0, Box::new(dc(1.0)));
                    let id2 = s.push_relative(0.0, 1.0, Fade::Smooth, 0.0, 0.0, Box::new(dc(1.0)));
                    ctx.trans(2);
                    if !events.insert(event(id)) || !events.insert(event(id2)) {
                        ctx.violation("sequencers", "event identifier was given twice", "sequencers".to_string());
                    }
                }
            }
        }
        ctx.trace();
    });
}

fn main() {
    main_with(&[("C16", c16)]);
}
