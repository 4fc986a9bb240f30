//! C01: block processing equals sample by sample processing. C02: reset and clone.
use crate::catalog::*;
use crate::fw::*;
use fundsp::prelude::AudioUnit;

fn run(e: &Entry, unit: &mut dyn AudioUnit, sig: usize, steps: &[Step]) -> Vec<Vec<f32>> {
    let mut out = vec![vec![]; unit.outputs()];
    let mut d = Driver::new(unit);
    let ins = &e.ins;
    let f = |c: usize, i: usize| signal(ins[c], sig, c, i);
    let mut pos = 0;
    for s in steps {
        pos = d.step(unit, *s, pos, &f, &mut out);
    }
    out
}

pub fn c01(ctx: &Ctx) {
    let cat = catalog();
    let alpha = [Step::Tick, Step::Block(1), Step::Block(7), Step::Block(8), Step::Block(13), Step::Block(64), Step::Block(0)];
    let depth = ctx.q(4, 5);
    ctx.par(cat.len(), |k| {
        let e = &cat[k];
        ctx.case(&e.name, || {
            for sig in 0..3 {
                let mut u = (e.make)();
                assert_eq!(u.inputs(), e.ins.len(), "arity");
                let reference = run(e, &mut *u, sig, &vec![Step::Tick; depth * 64]);
                let n = alpha.len().pow(depth as u32);
                for idx in 0..n {
                    let dg = digits(idx, alpha.len(), depth);
                    let steps: Vec<Step> = dg.iter().map(|x| alpha[*x]).collect();
                    if sig > 0 && idx % 7 >= 7 { continue; }
                    let mut u = (e.make)();
                    let out = run(e, &mut *u, sig, &steps);
                    ctx.trans(depth as u64);
                    ctx.trace();
                    ctx.state(hmix(hmix(k as u64, sig as u64), idx as u64));
                    if let Some((c, i, x, y)) = diff(&reference, &out, e.tol) {
                        ctx.violation(&e.name, format!("channel {} sample {}: tick {} block {}", c, i, x, y), format!("{} signal {} steps {:?}: channel {} sample {} tick {} block {}", e.name, sig, steps, c, i, x, y));
                        return;
                    }
                }
            }
            // Periodic schedules: every block size, over a longer run, at several sample rates.
            for sr in [44100.0, 48000.0, 16000.0] {
                let len = ctx.q(1024, 4096);
                let mut u = (e.make)();
                u.set_sample_rate(sr);
                let reference = run(e, &mut *u, 0, &vec![Step::Tick; len]);
                for size in 1..=64 {
                    let mut u = (e.make)();
                    u.set_sample_rate(sr);
                    let steps = vec![Step::Block(size); len / size];
                    let out = run(e, &mut *u, 0, &steps);
                    ctx.trans(steps.len() as u64);
                    ctx.trace();
                    ctx.state(hmix(hmix(k as u64, 99 + sr as u64), size as u64));
                    if let Some((c, i, x, y)) = diff(&reference, &out, (e.tol * 10.0).max(2e-3)) {
                        ctx.violation(&e.name, format!("channel {} sample {}: tick {} block {}", c, i, x, y), format!("{} sample rate {} block size {}: channel {} sample {} tick {} block {}", e.name, sr, size, c, i, x, y));
                        return;
                    }
                }
            }
            ctx.sample(|| format!("{}: every sequence of {} steps over {:?}, 3 input signals; every block size 1..=64 at 3 sample rates", e.name, depth, alpha));
        });
    });
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Op {
    Run(Step),
    Long,
    Reset,
    /// Replace the unit with its clone.
    Clone,
    /// Clone and run the clone elsewhere with other inputs.
    Fork,
}

fn bits_eq(a: &[Vec<f32>], b: &[Vec<f32>]) -> Option<(usize, usize, f32, f32)> {
    for c in 0..a.len() {
        if a[c].len() != b[c].len() {
            return Some((c, a[c].len().min(b[c].len()), f32::NAN, f32::NAN));
        }
        for i in 0..a[c].len() {
            if a[c][i] != b[c][i] && !(a[c][i].is_nan() && b[c][i].is_nan()) {
                return Some((c, i, a[c][i], b[c][i]));
            }
        }
    }
    None
}

/// Executes operations. Input position restarts at reset. Returns the outputs since the latest reset.
fn exec(e: &Entry, sig: usize, ops: &[Op]) -> Vec<Vec<f32>> {
    let mut u = (e.make)();
    let mut d = Driver::new(&*u);
    let f = |c: usize, i: usize| signal(e.ins[c], sig, c, i);
    let g = |c: usize, i: usize| signal(e.ins[c], (sig + 1) % 3, c, i + 5);
    let mut out = vec![vec![]; u.outputs()];
    let mut pos = 0;
    for op in ops {
        match op {
            Op::Run(s) => pos = d.step(&mut *u, *s, pos, &f, &mut out),
            Op::Long => {
                for _ in 0..48 {
                    pos = d.step(&mut *u, Step::Block(64), pos, &f, &mut out);
                }
            }
            Op::Reset => {
                u.reset();
                pos = 0;
                out = vec![vec![]; u.outputs()];
            }
            Op::Clone => {
                let c = u.clone();
                u = c;
            }
            Op::Fork => {
                let mut c = u.clone();
                let mut scratch = vec![vec![]; c.outputs()];
                let mut d2 = Driver::new(&*c);
                d2.step(&mut *c, Step::Block(29), pos, &g, &mut scratch);
                d2.step(&mut *c, Step::Tick, pos + 29, &g, &mut scratch);
                c.reset();
                d2.step(&mut *c, Step::Block(64), 0, &g, &mut scratch);
            }
        }
    }
    out
}

pub fn c02(ctx: &Ctx) {
    let cat = catalog();
    let alpha = [Op::Run(Step::Tick), Op::Run(Step::Block(64)), Op::Run(Step::Block(13)), Op::Reset, Op::Clone, Op::Fork];
    let depth = ctx.q(4, 6);
    ctx.par(cat.len(), |k| {
        let e = &cat[k];
        ctx.case(&e.name, || {
            for sig in 0..2 {
                let n = alpha.len().pow(depth as u32);
                // Reference outputs are produced by fresh units that are neither reset nor cloned, keyed by the run steps.
                let mut refs: std::collections::HashMap<Vec<usize>, Vec<Vec<f32>>> = Default::default();
                let tail = [Op::Run(Step::Block(64)), Op::Run(Step::Tick), Op::Run(Step::Block(13))];
                for idx in 0..n {
                    let dg = digits(idx, alpha.len(), depth);
                    let mut ops: Vec<Op> = dg.iter().map(|x| alpha[*x]).collect();
                    if ops.iter().all(|x| matches!(x, Op::Run(_))) { continue; }
                    if e.skip.contains('c') && ops.iter().any(|x| matches!(x, Op::Clone | Op::Fork)) { continue; }
                    if e.skip.contains('r') && ops.iter().any(|x| matches!(x, Op::Reset | Op::Fork)) { continue; }
                    // Skip sequences with redundant prefix: the first operation should be observable.
                    ops.extend_from_slice(&tail);
                    let last = ops.iter().rposition(|x| *x == Op::Reset).map(|x| x + 1).unwrap_or(0);
                    let plain: Vec<Op> = ops[last..].iter().copied().filter(|x| matches!(x, Op::Run(_))).collect();
                    let key: Vec<usize> = plain.iter().map(|x| alpha.iter().position(|y| x == y).unwrap()).collect();
                    let reference = refs.entry(key).or_insert_with(|| exec(e, sig, &plain));
                    let out = exec(e, sig, &ops);
                    ctx.trans(ops.len() as u64);
                    ctx.trace();
                    let mut h = hmix(k as u64, sig as u64);
                    for c in out.iter() { h = hmix(h, hashf(c)); }
                    for d in dg.iter() { h = hmix(h, *d as u64); }
                    ctx.state(h);
                    if let Some((c, i, x, y)) = bits_eq(reference, &out) {
                        ctx.violation(&e.name, format!("channel {} sample {}: fresh {} after history {}", c, i, x, y), format!("{} signal {} ops {:?}: channel {} sample {} fresh {} got {}", e.name, sig, ops, c, i, x, y));
                        return;
                    }
                }
                if sig == 0 {
                    let beta = [Op::Long, Op::Reset, Op::Clone, Op::Fork];
                    let d2 = ctx.q(2, 3);
                    let reference2 = exec(e, sig, &vec![Op::Long; 1 + d2 as usize]);
                    for idx in 0..beta.len().pow(d2 as u32) {
                        let mut ops: Vec<Op> = digits(idx, beta.len(), d2).iter().map(|x| beta[*x]).collect();
                        if !ops.contains(&Op::Long) { continue; }
                        if e.skip.contains('c') && ops.iter().any(|x| matches!(x, Op::Clone | Op::Fork)) { continue; }
                        ops.push(Op::Long);
                        let out = exec(e, sig, &ops);
                        ctx.trans(ops.len() as u64);
                        ctx.trace();
                        let r: Vec<Vec<f32>> = reference2.iter().map(|x| x[..out.get(0).map_or(0, |x| x.len())].to_vec()).collect();
                        if let Some((c, i, x, y)) = bits_eq(&r, &out) {
                            ctx.violation(&e.name, format!("channel {} sample {}: fresh {} after history {}", c, i, x, y), format!("{} signal {} ops {:?}: channel {} sample {} fresh {} got {}", e.name, sig, ops, c, i, x, y));
                            return;
                        }
                    }
                }
                ctx.sample(|| format!("{} signal {}: {} histories compared with fresh unit", e.name, sig, n));
            }
        });
    });
}
