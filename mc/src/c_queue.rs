//! C15: ring buffers, snoops and shared variables.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::prelude::{shared, snoop, timer, var, var_fn, AtomicTable, AudioUnit, Frame, Ring, U1, U2, U3};
use std::collections::VecDeque;

/// Ring buffer: all interleavings of sends and reads.
fn ring(ctx: &Ctx) {
    macro_rules! ring {
        ($n:ty, $ch:expr) => {{
            let caps: Vec<usize> = (1..=ctx.q(9, 17)).collect();
            let depth = ctx.q(6, 8);
            let alpha = 6usize;
            ctx.par(caps.len() * alpha, |k| {
                let cap = caps[k / alpha];
                let first = k % alpha;
                let name = format!("ring of {} channels, capacity {}", $ch, cap);
                ctx.case(&name, || {
                    for idx in 0..alpha.pow(depth as u32 - 1) {
                        let mut seq = vec![first];
                        seq.extend(digits(idx, alpha, depth - 1));
                        let (sender, mut r) = Ring::<$n>::new(cap);
                        let mut sender = Some(sender);
                        let u: &mut dyn AudioUnit = &mut r;
                        let mut d = Driver::new(u);
                        let mut model: VecDeque<[f32; $ch]> = VecDeque::new();
                        let mut next = 1.0f32;
                        let mut bad = None;
                        for s in &seq {
                            let mut send = |n: usize, model: &mut VecDeque<[f32; $ch]>, bad: &mut Option<String>| {
                                for _ in 0..n {
                                    if let Some(q) = sender.as_ref() {
                                        let a: [f32; $ch] = std::array::from_fn(|c| next + c as f32 * 0.125);
                                        next += 1.0;
                                        let ok = q.try_send(Frame::<f32, $n>::from(a)).is_ok();
                                        let fits = model.len() < cap;
                                        if ok != fits {
                                            *bad = Some(format!("send with {} of {} frames in the buffer: accepted {}", model.len(), cap, ok));
                                        }
                                        if ok {
                                            model.push_back(a);
                                        }
                                    }
                                }
                            };
                            let step = match s {
                                0 => { send(1, &mut model, &mut bad); None }
                                1 => { send(5, &mut model, &mut bad); None }
                                2 => Some(Step::Tick),
                                3 => Some(Step::Block(3)),
                                4 => Some(Step::Block(64)),
                                _ => { u.reset(); u.set_sample_rate(48000.0); u.allocate(); None }
                            };
                            if let Some(step) = step {
                                let n = match step { Step::Tick => 1, Step::Block(n) => n };
                                let mut out = vec![vec![]; $ch];
                                d.step(u, step, 0, &|_, _| 0.0, &mut out);
                                for i in 0..n {
                                    let e = model.pop_front().unwrap_or([0.0; $ch]);
                                    for c in 0..$ch {
                                        if out[c][i] != e[c] {
                                            bad = Some(format!("read {} expected {}", out[c][i], e[c]));
                                        }
                                    }
                                }
                            }
                            ctx.trans(1);
                            ctx.state(hmix(hmix(cap as u64 * 10 + $ch, model.len() as u64), next.to_bits() as u64));
                        }
                        // The frontend goes away: what was sent is still delivered.
                        sender = None;
                        let _ = &sender;
                        let mut out = vec![vec![]; $ch];
                        d.step(u, Step::Block(64), 0, &|_, _| 0.0, &mut out);
                        for i in 0..64 {
                            let e = model.pop_front().unwrap_or([0.0; $ch]);
                            for c in 0..$ch {
                                if out[c][i] != e[c] {
                                    bad = Some(format!("after the sender was dropped, read {} expected {}", out[c][i], e[c]));
                                }
                            }
                        }
                        ctx.trace();
                        if let Some(b) = bad {
                            ctx.violation(&name, b.clone(), format!("{} operations {:?} (0 send 1, 1 send 5, 2 tick, 3 block 3, 4 block 64, 5 reset): {}", name, seq, b));
                            return;
                        }
                    }
                });
            });
        }};
    }
    ring!(U1, 1);
    ring!(U2, 2);
    ring!(U3, 3);
}

fn snoops(ctx: &Ctx) {
    let caps = [1usize, 2, 16, 63, 64, 65, 100, 128, 200, 1000];
    let alpha = 7usize;
    let depth = ctx.q(6, 7);
    ctx.par(caps.len() * alpha, |k| {
        let cap = caps[k / alpha];
        let first = k % alpha;
        let name = format!("snoop of capacity {}", cap);
        ctx.case(&name, || {
            for idx in 0..alpha.pow(depth as u32 - 1) {
                let mut seq = vec![first];
                seq.extend(digits(idx, alpha, depth - 1));
                let (mut front, mut back) = snoop(cap);
                let u: &mut dyn AudioUnit = &mut back;
                let mut d = Driver::new(u);
                let mut pos = 0;
                // Samples gathered into the current buffer, buffers in transit, samples received by the frontend.
                let mut partial: Vec<f32> = vec![];
                let mut queue: VecDeque<Vec<f32>> = VecDeque::new();
                let mut seen: Vec<f32> = vec![];
                let mut bad: Option<String> = None;
                for s in &seq {
                    let step = match s {
                        0 => Some(vec![Step::Tick]),
                        1 => Some(vec![Step::Block(13)]),
                        2 => Some(vec![Step::Block(64)]),
                        3 => Some(vec![Step::Block(64), Step::Block(37), Step::Tick, Step::Block(60)]),
                        4 => {
                            let got = front.get();
                            let e = queue.pop_front();
                            match (&got, &e) {
                                (Some(g), Some(e)) => {
                                    if g.size() != 64 || g.len() != 64 || (0..64).any(|i| g.at(i) != e[i]) {
                                        bad = Some("buffer contents differ".into());
                                    }
                                    seen.extend(e);
                                }
                                (None, None) => {}
                                _ => bad = Some(format!("buffer available {} expected {}", got.is_some(), e.is_some())),
                            }
                            None
                        }
                        5 => {
                            front.update();
                            while let Some(e) = queue.pop_front() {
                                seen.extend(e);
                            }
                            None
                        }
                        _ => {
                            u.reset();
                            partial.clear();
                            None
                        }
                    };
                    for step in step.unwrap_or_default() {
                        let p0 = pos;
                        let mut out = vec![vec![]];
                        pos = d.step(u, step, pos, &|_, i| det(i as u64), &mut out);
                        for i in p0..pos {
                            if out[0][i - p0] != det(i as u64) {
                                bad = Some(format!("sample {} is not passed through", i));
                            }
                            partial.push(det(i as u64));
                            if partial.len() == 64 {
                                queue.push_back(std::mem::take(&mut partial));
                            }
                        }
                    }
                    // The latest samples.
                    let room = front.capacity();
                    if room < cap {
                        bad = Some(format!("room for {} samples instead of {}", room, cap));
                    }
                    if front.total() != seen.len() as u64 {
                        bad = Some(format!("total {} expected {}", front.total(), seen.len()));
                    }
                    for i in 0..room {
                        let e = if i < seen.len() { seen[seen.len() - 1 - i] } else { 0.0 };
                        if front.at(i) != e {
                            bad = Some(format!("latest sample {} is {} expected {}", i, front.at(i), e));
                            break;
                        }
                    }
                    ctx.trans(1);
                    ctx.state(hmix(hmix(cap as u64, queue.len() as u64 * 64 + partial.len() as u64), seen.len() as u64 * 100000 + pos as u64));
                    if bad.is_some() {
                        break;
                    }
                }
                ctx.trace();
                if let Some(b) = bad {
                    ctx.violation(&name, b.clone(), format!("{} operations {:?} (0 tick, 1 block 13, 2 block 64, 3 many, 4 get, 5 update, 6 reset): {}", name, seq, b));
                    return;
                }
            }
        });
    });
    // A frontend that falls behind for `k` buffers still receives a contiguous stretch in order; nothing is lost while the queue has room.
    ctx.par(ctx.q(40, 120), |k| {
        ctx.case("snoop overflow", || {
            let buffers = 1 + k * 31;
            let (mut front, mut back) = snoop(256);
            let u: &mut dyn AudioUnit = &mut back;
            let mut d = Driver::new(u);
            let mut pos = 0;
            let mut out = vec![vec![]];
            for _ in 0..buffers {
                out[0].clear();
                pos = d.step(u, Step::Block(64), pos, &|_, i| i as f32, &mut out);
            }
            let mut n = 0;
            while let Some(b) = front.get() {
                for i in 0..64 {
                    if b.at(i) != (n * 64 + i) as f32 {
                        ctx.violation("snoop overflow", format!("after {} buffers, buffer {} sample {} is {}", buffers, n, i, b.at(i)), format!("{} buffers", buffers));
                        return;
                    }
                }
                n += 1;
            }
            if n != buffers.min(1024) {
                ctx.violation("snoop overflow", format!("{} buffers of {} received", n, buffers), format!("{} buffers", buffers));
            }
            // Reception continues.
            let p0 = pos;
            d.step(u, Step::Block(64), pos, &|_, i| i as f32, &mut out);
            let b = front.get();
            if b.map(|b| b.at(0)) != Some(p0 as f32) {
                ctx.violation("snoop overflow", "reception does not continue", format!("{} buffers", buffers));
            }
            ctx.trans(buffers as u64);
            ctx.trace();
        });
    });
}

/// Shared variables: all sequences of writes through any handle and reads through any unit.
fn variables(ctx: &Ctx) {
    let depth = ctx.q(6, 7);
    let alpha = 9usize;
    ctx.par(alpha * alpha, |k| {
        ctx.case("shared", || {
            for idx in 0..alpha.pow(depth as u32 - 2) {
                let mut seq = vec![k % alpha, k / alpha];
                seq.extend(digits(idx, alpha, depth - 2));
                let a = shared(0.25);
                let b = a.clone();
                let other = shared(-7.0);
                let mut v1 = var(&a);
                let handle = var(&b);
                let mut v2 = var_fn(&b, |x| (x + 1.0, x * 2.0));
                let mut v3: Box<dyn AudioUnit> = Box::new(var(&a) | var(&other));
                let mut t = timer(&shared(0.0));
                let mut value = 0.25f32;
                let mut bad = None;
                for (n, s) in seq.iter().enumerate() {
                    let w = [1.5f32, -0.0, 3e-39, f32::MAX, -123.456, 0.1, 77.0][n % 7];
                    let mut expect = |what: &str, x: &[f32], y: &[f32]| {
                        if x.iter().zip(y).any(|(x, y)| x != y) {
                            bad = Some(format!("{} gives {:?} expected {:?}", what, x, y));
                        }
                    };
                    match s {
                        0 => { a.set_value(w); value = w; }
                        1 => { b.set(w); value = w; }
                        2 => { handle.set_value(w); value = w; }
                        3 => {
                            let mut o = [0.0];
                            AudioUnit::tick(&mut v1, &[], &mut o);
                            expect("var tick", &o, &[value]);
                        }
                        4 => {
                            let mut o = vec![vec![]; 2];
                            Driver::new(&v2).step(&mut v2, Step::Block(13), 0, &|_, _| 0.0, &mut o);
                            for i in 0..13 {
                                expect("var_fn block", &[o[0][i], o[1][i]], &[value + 1.0, value * 2.0]);
                            }
                        }
                        5 => {
                            let mut o = vec![vec![]; 2];
                            Driver::new(&*v3).step(&mut *v3, Step::Block(64), 0, &|_, _| 0.0, &mut o);
                            for i in 0..64 {
                                expect("var block", &[o[0][i], o[1][i]], &[value, -7.0]);
                            }
                        }
                        6 => {
                            let mut c = v3.clone();
                            v3.reset();
                            let mut o = [0.0; 2];
                            c.tick(&[], &mut o);
                            expect("cloned var", &o, &[value, -7.0]);
                            let mut o = [0.0; 2];
                            AudioUnit::tick(&mut v2, &[], &mut o);
                            expect("var_fn tick", &o, &[value + 1.0, value * 2.0]);
                        }
                        7 => expect("value", &[a.value(), b.value(), handle.value(), other.value()], &[value, value, value, -7.0]),
                        _ => {
                            AudioUnit::tick(&mut t, &[], &mut []);
                        }
                    }
                    ctx.trans(1);
                }
                ctx.trace();
                ctx.state(hmix(hmix(31, k as u64), idx as u64));
                if let Some(b) = bad {
                    ctx.violation("shared", b.clone(), format!("operations {:?}: {}", seq, b));
                    return;
                }
            }
        });
    });
    // Timers.
    ctx.par(3, |k| {
        ctx.case("timer", || {
            let depth = ctx.q(6, 8);
            for idx in 0..6usize.pow(depth as u32) {
                let seq = digits(idx, 6, depth);
                let s = shared(55.0);
                let mut u: Box<dyn AudioUnit> = match k {
                    0 => Box::new(timer(&s)),
                    1 => Box::new(timer(&s) | fundsp::prelude::pass()),
                    _ => Box::new(fundsp::prelude::pass() | timer(&s)),
                };
                let mut d = Driver::new(&*u);
                let (mut time, mut sr) = (0.0f64, 44100.0);
                let mut out = vec![vec![]; u.outputs()];
                let mut bad = None;
                for op in &seq {
                    let mut run = |u: &mut dyn AudioUnit, st: Step, n: usize| {
                        d.step(u, st, 0, &|_, _| 0.0, &mut out);
                        time += n as f64 / sr;
                    };
                    match op {
                        0 => run(&mut *u, Step::Tick, 1),
                        1 => run(&mut *u, Step::Block(64), 64),
                        2 => run(&mut *u, Step::Block(13), 13),
                        3 => { u.reset(); time = 0.0; }
                        4 => { sr = if sr == 44100.0 { 8000.0 } else { 44100.0 }; u.set_sample_rate(sr); }
                        _ => u = u.clone(),
                    }
                    if (s.value() as f64 - time).abs() > 1e-6 * time.max(1e-3) {
                        bad = Some(format!("timer shows {} expected {}", s.value(), time));
                    }
                    ctx.trans(1);
                }
                ctx.trace();
                ctx.state(hmix(hmix(32, k as u64), idx as u64));
                if let Some(b) = bad {
                    ctx.violation("timer", b.clone(), format!("operations {:?} (0 tick 1 block 64 2 block 13 3 reset 4 sample rate 5 clone): {}", seq, b));
                    return;
                }
            }
        });
    });
    // Tables: writes are read back by index and at the same phase.
    ctx.case("atomic table", || {
        for p in 0..8 {
            let n = 1usize << p;
            let base: Vec<f32> = (0..n).map(|i| det(i as u64)).collect();
            for w in 0..=n {
                let t = AtomicTable::new(&base);
                let mut m = base.clone();
                if w < n {
                    t.set(w, 9.5);
                    m[w] = 9.5;
                }
                for i in 0..n {
                    for f in [0.0f32, 0.25, 0.5, 0.75] {
                        let phase = (i as f32 + f) / n as f32;
                        let at = |k: usize| m[k % n] as f64;
                        let (y0, y1, y2, y3, x) = (at(i + n - 1), at(i), at(i + 1), at(i + 2), f as f64);
                        let cubic = y1 + x * 0.5 * (y2 - y0 + x * (2.0 * y0 - 5.0 * y1 + 4.0 * y2 - y3 + x * (3.0 * (y1 - y2) + y3 - y0)));
                        let lin = y1 * (1.0 - x) + y2 * x;
                        let ok = t.at(i) == m[i]
                            && t.len() == n
                            && t.read_nearest(phase) == m[i]
                            && (t.read_linear(phase) as f64 - lin).abs() < 1e-4
                            && (t.read_cubic(phase) as f64 - cubic).abs() < 1e-4;
                        ctx.trans(4);
                        if !ok {
                            ctx.violation("atomic table", format!("length {} index {} phase {}: {} {} {} {}, expected {} {} {}", n, i, phase, t.at(i), t.read_nearest(phase), t.read_linear(phase), t.read_cubic(phase), m[i], lin, cubic), format!("length {} write {} phase {}", n, w, phase));
                            return;
                        }
                    }
                }
                ctx.trace();
            }
        }
    });
}

pub fn c15(ctx: &Ctx) {
    ring(ctx);
    snoops(ctx);
    variables(ctx);
}
