//! C20: lifecycle propagation; C18: pseudorandom phase; part of C10: address paths. All over enumerated composition shapes.
use crate::fw::*;
use crate::shape::*;
use fundsp::hacker32::*;
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Rate(f64),
    Reset,
    Allocate,
    Tick,
    Block,
}
const OPS: [Op; 6] = [Op::Rate(44100.0), Op::Rate(32000.0), Op::Reset, Op::Allocate, Op::Tick, Op::Block];

fn apply(b: &mut Built, op: Op) {
    match op {
        Op::Rate(r) => b.unit.set_sample_rate(r),
        Op::Reset => b.unit.reset(),
        Op::Allocate => b.unit.allocate(),
        Op::Tick => b.run(false),
        Op::Block => b.run(true),
    }
}

/// Longer histories for shallow shapes, shorter ones for deep shapes; every history of that length is explored.
pub fn c20(ctx: &Ctx) {
    let all = trees(ctx.q(2, 3));
    ctx.part("shapes", all.len() as u64);
    let depth = ctx.q(5, 6);
    let mid = trees(2).len();
    ctx.par(all.len(), |n| {
        let t = &all[n];
        let small = n < 1 + UNARY.len() + BINARY.len();
        let len = if small { depth } else if n < mid { 3 } else { 2 };
        ctx.case(&t.to_string(), || {
            for h in 0..OPS.len().pow(len as u32) {
                let ops: Vec<Op> = digits(h, OPS.len(), len).into_iter().map(|i| OPS[i]).collect();
                let mut b = build(t);
                let (mut rate, mut fresh, mut alloc) = (44100.0, true, false);
                for op in ops.iter() {
                    apply(&mut b, *op);
                    match *op {
                        Op::Rate(r) => {
                            if rate != r {
                                alloc = false;
                            }
                            rate = r;
                        }
                        Op::Reset => fresh = true,
                        Op::Allocate => alloc = true,
                        Op::Tick | Op::Block => fresh = false,
                    }
                    ctx.trans(1);
                }
                let seen = b.observe(h % 2 == 0);
                ctx.trace();
                ctx.state(hmix(h64(t.to_string().as_bytes()), h as u64));
                for l in b.leaves.iter() {
                    let what = match seen.get(&l.id) {
                        None => "is never processed".to_string(),
                        Some(s) => {
                            if s.rate != rate * l.factor {
                                format!("runs at {} Hz, expected {} Hz", s.rate, rate * l.factor)
                            } else if fresh && s.age != 0 {
                                format!("has processed {} samples although the whole was reset", s.age)
                            } else if alloc && !s.allocated {
                                "was not allocated with the whole".to_string()
                            } else {
                                continue;
                            }
                        }
                    };
                    ctx.violation(t.to_string(), format!("probe {} {} after {:?}", l.id, what, ops), format!("shape {} operations {:?}: probe {} {}", t, ops, l.id, what));
                    return;
                }
            }
        });
    });
    ctx.note("probes are harness units; what is decided is how every library structure forwards to the units inside it");
}

pub fn c18_shapes(ctx: &Ctx) {
    let all = trees(2);
    ctx.part("shapes", all.len() as u64);
    ctx.par(all.len(), |n| {
        let t = &all[n];
        ctx.case(&t.to_string(), || {
            let hashes = |b: &mut Built, custom: Option<u64>| -> BTreeMap<usize, u64> {
                if let Some(c) = custom {
                    let h = b.unit.ping(true, AttoHash::new(c));
                    b.unit.ping(false, h);
                }
                b.observe(false).into_iter().map(|(k, s)| (k, s.hash)).collect()
            };
            for custom in [Some(1u64), Some(2)] {
                let (mut a, mut b) = (build(t), build(t));
                let (x, y) = (hashes(&mut a, custom), hashes(&mut b, custom));
                ctx.trace();
                ctx.trans(1);
                ctx.state(hmix(h64(t.to_string().as_bytes()), custom.unwrap_or(0)));
                let bad = |what: String| ctx.violation(t.to_string(), what.clone(), format!("shape {} ping {:?}: {}", t, custom, what));
                for l in a.leaves.iter().filter(|l| l.pinged) {
                    if x.get(&l.id) != y.get(&l.id) {
                        bad(format!("probe {} hash differs between two identical graphs", l.id));
                    }
                    for m in a.leaves.iter().filter(|m| m.pinged && m.id > l.id) {
                        if x.get(&l.id) == x.get(&m.id) {
                            bad(format!("probes {} and {} have the same hash", l.id, m.id));
                        }
                    }
                }
                // A different seed for the whole gives every unit a different phase.
                let mut c = build(t);
                let z = hashes(&mut c, Some(3));
                for l in a.leaves.iter().filter(|l| l.pinged) {
                    if x.get(&l.id) == z.get(&l.id) {
                        bad(format!("probe {} hash does not depend on the hash of the whole", l.id));
                    }
                }
            }
        });
    });
}

/// Every address path of up to four levels over the directions that occur, sent to every shape.
pub fn c10_shapes(ctx: &Ctx) {
    let all = trees(ctx.q(2, 3));
    ctx.part("shapes", all.len() as u64);
    ctx.par(all.len(), |n| {
        let t = &all[n];
        ctx.case(&t.to_string(), || {
            let b0 = build(t);
            // Addresses: every prefix-closed path to a probe, its strict prefixes and its one step deviations.
            let mut paths: Vec<Vec<usize>> = vec![];
            drop(b0);
            for l in 0..build(t).leaves.len() {
                paths.push(vec![l]);
            }
            for p in paths.iter() {
                for variant in 0..6 {
                    let mut b = build(t);
                    let leaf = b.leaves[p[0]].clone();
                    if leaf.path.len() > 4 {
                        continue;
                    }
                    let mut path = leaf.path.clone();
                    // Multi structures panic on an index out of range, which is not examined here.
                    match variant {
                        0 => (),
                        1 => {
                            if path.pop().is_none() {
                                continue;
                            }
                        }
                        2 => path.push(Dir::L),
                        3..=5 => {
                            let i = variant - 3;
                            if i >= path.len() {
                                continue;
                            }
                            path[i] = match path[i] {
                                Dir::L => Dir::R,
                                Dir::R => Dir::L,
                                Dir::I(k) => Dir::I((k + 1) % 3),
                                Dir::N(_) => Dir::L,
                            };
                        }
                        _ => unreachable!(),
                    }
                    if path.len() > 4 {
                        continue;
                    }
                    let before = b.observe(true);
                    b.unit.set(address(Setting::value(5.0), &path));
                    let mid = b.observe(false);
                    b.unit.set(address(Setting::value(6.0), &path));
                    b.unit.set(address(Setting::value(7.0), &path));
                    let after = b.observe(true);
                    ctx.trace();
                    ctx.trans(3);
                    ctx.state(hmix(h64(t.to_string().as_bytes()), (p[0] * 8 + variant) as u64));
                    for l in b.leaves.iter() {
                        // Only the probe with exactly this path takes the setting.
                        let hit = l.settable && l.path == path;
                        for (s, x) in [(&before, 0.0), (&mid, 5.0), (&after, 7.0)] {
                            let want = if hit { x } else { 0.0 };
                            let got = s.get(&l.id).map(|s| s.value);
                            if got != Some(want) {
                                ctx.violation(
                                    t.to_string(),
                                    format!("probe {} has value {:?}, expected {}, after settings 5, 6, 7 to {:?}", l.id, got, want, path),
                                    format!("shape {} address {:?}: probe {} at {:?} has value {:?}, expected {}", t, path, l.id, l.path, got, want),
                                );
                                return;
                            }
                        }
                    }
                }
            }
        });
    });
}
