//! C13: wave editing against plain sample vectors; rendering, filtering and playback.
use crate::catalog::*;
use crate::fw::*;
use fundsp::prelude::{wavech, wavech_at, AudioUnit, Wave};
use std::collections::HashSet;

/// Model of a wave: channels of samples and a sample rate.
#[derive(Clone, PartialEq, Debug)]
struct M {
    ch: Vec<Vec<f32>>,
    sr: f64,
}

impl M {
    fn of(w: &Wave) -> M {
        M { ch: (0..w.channels()).map(|c| w.channel(c).clone()).collect(), sr: w.sample_rate() }
    }
    fn wave(&self) -> Wave {
        let mut w = Wave::new(0, self.sr);
        for c in &self.ch {
            w.push_channel(c);
        }
        w
    }
    fn len(&self) -> usize {
        self.ch.first().map_or(0, |x| x.len())
    }
    fn hash(&self) -> u64 {
        let mut h = hmix(self.ch.len() as u64, self.sr.to_bits());
        for c in &self.ch {
            h = hmix(hmix(h, c.len() as u64), hashf(c));
        }
        h
    }
    fn peak(&self) -> f32 {
        self.ch.iter().flatten().fold(0.0, |a, x| a.max(x.abs()))
    }
    /// Scale sample `i` of all channels.
    fn gain(&mut self, i: usize, a: f64) {
        for c in self.ch.iter_mut() {
            c[i] = (c[i] as f64 * a) as f32;
        }
    }
}

#[derive(Clone, Debug)]
enum Op {
    Push(f32),
    Push2(f32, f32),
    Push3(f32, f32, f32),
    PushChannel(Vec<f32>),
    InsertChannel(usize, Vec<f32>),
    RemoveChannel(usize),
    MixChannel(usize, isize, Vec<f32>),
    Append(M),
    AppendSelf,
    Set(usize, usize, f32),
    Mix(usize, usize, f32),
    ChannelMut(usize, usize, f32),
    Resize(usize),
    Retain(isize, usize),
    Amplify(f32),
    Normalize,
    /// Fades, with the time in samples.
    FadeIn(f64),
    FadeOut(f64),
    Fade(f64),
    Rate(f64),
}

fn smooth5_ref(x: f64) -> f64 {
    let x = x.clamp(0.0, 1.0);
    x * x * x * (x * (x * 6.0 - 15.0) + 10.0)
}

/// Fade length in samples; `None` when it is at the rounding boundary.
fn fade_len(m: &M, t: f64) -> usize {
    t.min(m.len() as f64).round() as usize
}

/// Apply to the model. Returns whether samples should be compared exactly.
fn model(m: &mut M, op: &Op) -> bool {
    let n = m.len();
    match op {
        Op::Push(x) => m.ch.iter_mut().for_each(|c| c.push(*x)),
        Op::Push2(a, b) => {
            m.ch[0].push(*a);
            m.ch[1].push(*b);
        }
        Op::Push3(a, b, d) => {
            m.ch[0].push(*a);
            m.ch[1].push(*b);
            m.ch[2].push(*d);
        }
        Op::PushChannel(v) => m.ch.push(v.clone()),
        Op::InsertChannel(i, v) => m.ch.insert(*i, v.clone()),
        Op::RemoveChannel(i) => {
            m.ch.remove(*i);
        }
        Op::MixChannel(c, o, v) => {
            for (j, x) in v.iter().enumerate() {
                let i = *o + j as isize;
                if i >= 0 && i < n as isize {
                    m.ch[*c][i as usize] += *x;
                }
            }
        }
        Op::Append(o) => {
            for (c, d) in m.ch.iter_mut().zip(o.ch.iter()) {
                c.extend_from_slice(d);
            }
        }
        Op::AppendSelf => {
            for c in m.ch.iter_mut() {
                let d = c.clone();
                c.extend(d);
            }
        }
        Op::Set(c, i, x) | Op::ChannelMut(c, i, x) => m.ch[*c][*i] = *x,
        Op::Mix(c, i, x) => m.ch[*c][*i] += *x,
        Op::Resize(k) => m.ch.iter_mut().for_each(|c| c.resize(*k, 0.0)),
        Op::Retain(s, l) => {
            for c in m.ch.iter_mut() {
                *c = c.iter().enumerate().filter(|(i, _)| (*i as isize) >= *s && (*i as i128) < *s as i128 + *l as i128).map(|x| *x.1).collect();
            }
        }
        Op::Amplify(a) => {
            (0..n).for_each(|i| m.gain(i, *a as f64));
            return false;
        }
        Op::Normalize => {
            let p = m.peak();
            if p > 0.0 {
                (0..n).for_each(|i| m.gain(i, 1.0 / p as f64));
            }
            return false;
        }
        Op::FadeIn(t) | Op::FadeOut(t) | Op::Fade(t) => {
            let k = fade_len(m, *t);
            for i in 0..k {
                let a = smooth5_ref((i + 1) as f64 / (k + 1) as f64);
                if !matches!(op, Op::FadeOut(_)) {
                    m.gain(i, a);
                }
                if !matches!(op, Op::FadeIn(_)) {
                    m.gain(n - 1 - i, a);
                }
            }
            return false;
        }
        Op::Rate(r) => m.sr = *r,
    }
    true
}

fn real(w: &mut Wave, op: &Op) -> Option<Vec<f32>> {
    let sr = w.sample_rate();
    match op {
        Op::Push(x) => w.push(*x),
        Op::Push2(a, b) => w.push((*a, *b)),
        Op::Push3(a, b, d) => w.push((*a, *b, *d)),
        Op::PushChannel(v) => w.push_channel(v),
        Op::InsertChannel(i, v) => w.insert_channel(*i, v),
        Op::RemoveChannel(i) => return Some(w.remove_channel(*i)),
        Op::MixChannel(c, o, v) => w.mix_channel(*c, *o, v),
        Op::Append(o) => {
            let o2 = o.wave();
            w.append(&o2);
            if M::of(&o2) != *o {
                return Some(vec![f32::INFINITY]);
            }
        }
        Op::AppendSelf => {
            let o = w.clone();
            w.append(&o);
        }
        Op::Set(c, i, x) => w.set(*c, *i, *x),
        Op::ChannelMut(c, i, x) => w.channel_mut(*c)[*i] = *x,
        Op::Mix(c, i, x) => w.mix(*c, *i, *x),
        Op::Resize(k) => w.resize(*k),
        Op::Retain(s, l) => w.retain(*s, *l),
        Op::Amplify(a) => w.amplify(*a),
        Op::Normalize => w.normalize(),
        Op::FadeIn(t) => w.fade_in(*t / sr),
        Op::FadeOut(t) => w.fade_out(*t / sr),
        Op::Fade(t) => w.fade(*t / sr),
        Op::Rate(r) => w.set_sample_rate(*r),
    }
    None
}

/// Operations available in state `m`.
fn ops(m: &M, thorough: bool) -> Vec<Op> {
    let mut v = vec![];
    let n = m.len();
    let c = m.ch.len();
    let maxlen = if thorough { 7 } else { 6 };
    let vals = |k: usize, s: f32| -> Vec<f32> { (0..k).map(|i| s + i as f32 * 0.25).collect() };
    if n < maxlen {
        v.push(Op::Push(0.5));
        match c {
            2 => v.push(Op::Push2(-1.5, 0.25)),
            3 => v.push(Op::Push3(1.0, -0.25, 0.125)),
            _ => {}
        }
    }
    if c == 0 {
        for k in [0, 1, 3] {
            v.push(Op::PushChannel(vals(k, 0.5)));
            v.push(Op::InsertChannel(0, vals(k, -1.0)));
        }
    } else if c < 3 {
        v.push(Op::PushChannel(vals(n, -0.5)));
        for i in 0..=c {
            v.push(Op::InsertChannel(i, vals(n, 1.0)));
        }
    }
    for i in 0..c {
        v.push(Op::RemoveChannel(i));
        for o in -3..=(n as isize + 1) {
            v.push(Op::MixChannel(i, o, vals(2, 0.5)));
        }
        v.push(Op::MixChannel(i, -1, vals(n + 2, 0.25)));
        v.push(Op::MixChannel(i, 0, vec![]));
        for j in [0, n.saturating_sub(1)] {
            if j < n {
                v.push(Op::Set(i, j, 2.0));
                v.push(Op::Mix(i, j, -0.75));
                v.push(Op::ChannelMut(i, j, -0.125));
            }
        }
    }
    if c > 0 {
        for k in 0..=2 {
            if n + k <= maxlen {
                v.push(Op::Append(M { ch: (0..c).map(|i| vals(k, i as f32 - 1.0)).collect(), sr: 100.0 }));
            }
        }
        if n * 2 <= maxlen {
            v.push(Op::AppendSelf);
        }
        for k in 0..=maxlen.min(n + 2) {
            v.push(Op::Resize(k));
        }
        for s in -3..=(n as isize + 2) {
            for l in [0, 1, 2, 4, 9, usize::MAX] {
                v.push(Op::Retain(s, l));
            }
        }
    }
    v.push(Op::Amplify(-0.5));
    v.push(Op::Normalize);
    for t in [0.0, 0.7, 2.0, 3.3, 100.0] {
        v.push(Op::FadeIn(t));
        v.push(Op::FadeOut(t));
        v.push(Op::Fade(t));
    }
    v.push(Op::Rate(8000.0));
    v.push(Op::Rate(11025.0));
    v
}

/// Name of an operation, made only when it is needed.
struct Key<'a>(&'a Op);
impl Key<'_> {
    fn name(&self) -> String {
        format!("edit {}", format!("{:?}", self.0).split('(').next().unwrap())
    }
}

fn check(pre: &M, w: &Wave, op: &Op, removed: Option<Vec<f32>>) -> Option<String> {
    let mut m = pre.clone();
    let exact = model(&mut m, op);
    if w.channels() != m.ch.len() {
        return Some(format!("channels {} expected {}", w.channels(), m.ch.len()));
    }
    if w.len() != m.len() || w.length() != m.len() || w.is_empty() != (m.len() == 0) {
        return Some(format!("length {} {} empty {} expected length {}", w.len(), w.length(), w.is_empty(), m.len()));
    }
    if w.sample_rate() != m.sr || (w.duration() - m.len() as f64 / m.sr).abs() > 1e-12 {
        return Some(format!("sample rate {} duration {}, expected {} {}", w.sample_rate(), w.duration(), m.sr, m.len() as f64 / m.sr));
    }
    for c in 0..m.ch.len() {
        if w.channel(c).len() != m.len() {
            return Some(format!("channel {} has {} samples, expected {}", c, w.channel(c).len(), m.len()));
        }
        for i in 0..m.len() {
            let (x, y) = (w.at(c, i), m.ch[c][i]);
            let same = if exact { x == y } else { (x - y).abs() <= 2e-6 * y.abs().max(1e-3) };
            if !same || w.channel(c)[i] != x {
                return Some(format!("channel {} sample {} is {} expected {}", c, i, x, y));
            }
        }
    }
    if (w.amplitude() - M::of(w).peak()).abs() > 0.0 {
        return Some(format!("amplitude {} expected {}", w.amplitude(), m.peak()));
    }
    if let Op::RemoveChannel(i) = op {
        if removed.as_ref() != Some(&pre.ch[*i]) {
            return Some(format!("removed channel is {:?} expected {:?}", removed, pre.ch[*i]));
        }
    } else if removed.is_some() {
        return Some("source of append was changed".into());
    }
    None
}

fn editing(ctx: &Ctx) {
    let inits: Vec<M> = vec![
        M { ch: vec![], sr: 44100.0 },
        M { ch: vec![vec![]], sr: 44100.0 },
        M { ch: vec![vec![0.5, -1.25, 0.75]], sr: 44100.0 },
        M { ch: vec![vec![0.5, -0.25], vec![0.125, 0.75]], sr: 44100.0 },
        M { ch: vec![vec![0.0; 4], vec![0.25, 0.5, 0.75, 1.0]], sr: 48000.0 },
        M { ch: vec![vec![1.0], vec![2.0], vec![-3.0]], sr: 44100.0 },
    ];
    let depth = ctx.q(4, 5);
    let mut frontier: Vec<(M, Vec<Op>)> = vec![];
    let mut seen: HashSet<u64> = HashSet::new();
    for m in inits {
        if seen.insert(m.hash()) {
            frontier.push((m, vec![]));
        }
    }
    for level in 0..depth {
        let last = level + 1 == depth;
        let next: Vec<std::sync::Mutex<Vec<(u64, M, Vec<Op>)>>> = (0..64).map(|_| std::sync::Mutex::new(vec![])).collect();
        ctx.part(&format!("states at depth {}", level), frontier.len() as u64);
        ctx.par(frontier.len().div_ceil(256), |chunk| {
            for (m, path) in frontier[chunk * 256..(chunk * 256 + 256).min(frontier.len())].iter() {
                ctx.state(m.hash());
                for op in ops(m, ctx.thorough) {
                    let show = || format!("{:?} then {:?} then {:?}", path, m, op);
                    let key = Key(&op);
                    {
                        let pre = m.wave();
                        let mut w = pre.clone();
                        ctx.trans(1);
                        let removed = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| real(&mut w, &op))) {
                            Ok(r) => r,
                            Err(_) => {
                                ctx.violation(key.name(), format!("panic {}: {}", last_panic(), show()), show());
                                continue;
                            }
                        };
                        if let Some(e) = check(m, &w, &op, removed) {
                            ctx.violation(key.name(), format!("{}: {}", e, show()), show());
                        } else if M::of(&pre) != *m {
                            ctx.violation(key.name(), format!("clone of the wave was changed: {}", show()), show());
                        } else if !last {
                            let m2 = M::of(&w);
                            let h = m2.hash();
                            let mut p2 = path.clone();
                            p2.push(op.clone());
                            next[(h & 63) as usize].lock().unwrap().push((h, m2, p2));
                        }
                    }
                }
                ctx.trace();
            }
        });
        frontier = vec![];
        for b in next {
            for (h, m, p) in b.into_inner().unwrap() {
                if seen.insert(h) {
                    frontier.push((m, p));
                }
            }
        }
    }
    // Constructors.
    for c in 1..4 {
        for sr in [44100.0, 8000.0, 48000.0] {
            for n in 0..200 {
                for f in [-0.3, 0.0, 0.3] {
                    let dur = (n as f64 + f) / sr;
                    if dur < 0.0 { continue; }
                    let w = Wave::zero(c, sr, dur);
                    if w.len() != n || w.channels() != c || w.sample_rate() != sr || w.amplitude() != 0.0 || (0..c).any(|i| w.channel(i).len() != n) {
                        ctx.violation("zero", "wrong wave", format!("Wave::zero({}, {}, {})", c, sr, dur));
                    }
                }
                let w = Wave::with_capacity(c, sr, n);
                let v: Vec<f32> = (0..n).map(|i| det(i as u64)).collect();
                let s = Wave::from_samples(sr, &v);
                if w.len() != 0 || w.channels() != c || s.len() != n || s.channels() != 1 || s.channel(0) != &v || s.sample_rate() != sr {
                    ctx.violation("constructors", "wrong wave", format!("channels {} rate {} length {}", c, sr, n));
                }
                ctx.trans(5);
            }
        }
    }
}

/// Rendering and filtering produce the unit's output over the rounded duration.
fn rendering(ctx: &Ctx) {
    let cat = catalog();
    let rates: Vec<f64> = ctx.q(vec![44100.0, 8000.0], vec![44100.0, 8000.0, 48000.0, 32000.0]);
    ctx.par(cat.len(), |k| {
        let e = &cat[k];
        ctx.case(&e.name, || {
            let lens: Vec<usize> = if e.ins.is_empty() { (0..=ctx.q(140, 300)).collect() } else { vec![0, 1, 7, 8, 9, 63, 64, 65, 100, 128, 129] };
            for &sr in &rates {
                let ilens: Vec<usize> = if e.ins.is_empty() { vec![0] } else { vec![0, 1, 5, 64, 70, 128, 200] };
                let mut cache: std::collections::HashMap<usize, Vec<Vec<f32>>> = Default::default();
                for &il in &ilens {
                    let max = *lens.last().unwrap();
                    let reference = cache.entry(il).or_insert_with(|| {
                        let mut u = (e.make)();
                        u.set_sample_rate(sr);
                        let mut out = vec![vec![]; u.outputs()];
                        let mut d = Driver::new(&*u);
                        let f = |c: usize, i: usize| if i < il { signal(e.ins[c], 0, c, i) } else { 0.0 };
                        let mut pos = 0;
                        while pos < max {
                            pos = d.step(&mut *u, Step::Tick, pos, &f, &mut out);
                        }
                        out
                    }).clone();
                    let mut input = Wave::new(0, sr);
                    for c in 0..e.ins.len() {
                        input.push_channel(&(0..il).map(|i| signal(e.ins[c], 0, c, i)).collect::<Vec<f32>>());
                    }
                    let before = M::of(&input);
                    for &n in &lens {
                        for f in [0.0, -0.3, 0.3] {
                            let dur = (n as f64 + f) / sr;
                            if dur < 0.0 { continue; }
                            let mut u = (e.make)();
                            if u.outputs() == 0 { continue; }
                            let w = if e.ins.is_empty() { Wave::render(sr, dur, &mut *u) } else { input.filter(dur, &mut *u) };
                            ctx.trans(n.div_ceil(64) as u64);
                            ctx.trace();
                            ctx.state(hmix(hmix(k as u64, n as u64 * 1000 + il as u64), (dur.to_bits()) ^ sr.to_bits()));
                            let what = || format!("{} {} samples (duration {}) at {} Hz, input length {}", e.name, n, dur, sr, il);
                            if w.len() != n || w.channels() != u.outputs() || w.sample_rate() != sr || (0..w.channels()).any(|c| w.channel(c).len() != n) {
                                ctx.violation(&e.name, format!("wave has {} channels, {} samples: {}", w.channels(), w.len(), what()), what());
                                return;
                            }
                            let out: Vec<Vec<f32>> = (0..w.channels()).map(|c| w.channel(c).clone()).collect();
                            let r: Vec<Vec<f32>> = reference.iter().map(|x| x[..n].to_vec()).collect();
                            if let Some((c, i, x, y)) = diff(&r, &out, (e.tol * 10.0).max(2e-3)) {
                                ctx.violation(&e.name, format!("channel {} sample {}: unit {} wave {}: {}", c, i, x, y, what()), what());
                                return;
                            }
                        }
                    }
                    if M::of(&input) != before {
                        ctx.violation(&e.name, "filtering changed the input wave", e.name.clone());
                    }
                }
            }
            ctx.sample(|| format!("{} rendered or filtered at every listed length and rate", e.name));
        });
    });
}

/// Playback of a span with optional looping.
fn playback(ctx: &Ctx) {
    let len = 7;
    let mut w = Wave::new(2, 44100.0);
    for i in 0..len {
        w.push((i as f32 + 1.0, -(i as f32) - 11.0));
    }
    let w = std::sync::Arc::new(w);
    let alpha = 6;
    let depth = ctx.q(4, 5);
    let mut configs = vec![];
    for ch in 0..2 {
        for end in 0..=len {
            for start in 0..=end {
                for lp in 0..=end {
                    configs.push((ch, start, end, if lp == end { None } else { Some(lp) }));
                }
            }
        }
    }
    ctx.par(configs.len(), |k| {
        let (ch, start, end, lp) = configs[k];
        let name = format!("player {} {}..{} loop {:?}", ch, start, end, lp);
        ctx.case(&name, || {
            // Expected sample at a position.
            let expect = |t: usize| -> f32 {
                let mut i = start + t;
                if start >= end { return 0.0; }
                if i >= end {
                    match lp {
                        Some(p) => i = p + (i - end) % (end - p),
                        None => return 0.0,
                    }
                }
                if ch == 0 { i as f32 + 1.0 } else { -(i as f32) - 11.0 }
            };
            let make = || -> Box<dyn AudioUnit> {
                if start == 0 && end == len { Box::new(wavech(&w, ch, lp)) } else { Box::new(wavech_at(&w, ch, start, end, lp)) }
            };
            for idx in 0..(alpha as usize).pow(depth as u32) {
                let seq = digits(idx, alpha, depth);
                let mut u = make();
                let mut t = 0;
                let mut d = Driver::new(&*u);
                let mut bad = None;
                for s in &seq {
                    let step = match s {
                        0 => Step::Tick,
                        1 => Step::Block(3),
                        2 => Step::Block(8),
                        3 => Step::Block(64),
                        4 => {
                            u.reset();
                            t = 0;
                            continue;
                        }
                        _ => {
                            u = u.clone();
                            continue;
                        }
                    };
                    let mut out = vec![vec![]];
                    let t2 = d.step(&mut *u, step, t, &|_, _| 0.0, &mut out);
                    for i in t..t2 {
                        if out[0][i - t] != expect(i) {
                            bad = Some(format!("sample {} is {} expected {}", i, out[0][i - t], expect(i)));
                        }
                    }
                    t = t2;
                    ctx.trans(1);
                }
                ctx.trace();
                ctx.state(hmix(hmix(777, k as u64), idx as u64));
                if let Some(b) = bad {
                    ctx.violation(&name, b.clone(), format!("{} steps {:?} (0 tick 1 block3 2 block8 3 block64 4 reset 5 clone): {}", name, seq, b));
                    return;
                }
            }
        });
    });
}

pub fn c13(ctx: &Ctx) {
    editing(ctx);
    rendering(ctx);
    playback(ctx);
}
