//! C31: elementary nodes, sample access and adapters.
use crate::catalog::*;
use crate::fw::*;
use fundsp::hacker32::*;

type Frames = Vec<Vec<f32>>;
struct El {
    name: String,
    make: Box<dyn Fn() -> Box<dyn AudioUnit> + Send + Sync>,
    /// Output frame at a sample since the latest reset, from the inputs since the reset.
    f: Box<dyn Fn(&Frames, usize) -> Vec<f32> + Send + Sync>,
    ins: usize,
    outs: usize,
}

fn x(channel: usize, i: usize) -> f32 {
    match i % 11 {
        3 => 0.0,
        5 => 1.0e20 * (channel + 1) as f32,
        7 => -1.0e-20 * (channel + 1) as f32,
        _ => det((i * 16 + channel) as u64),
    }
}

macro_rules! per_n {
    ($m:ident) => { $m!(U1, 1); $m!(U2, 2); $m!(U3, 3); $m!(U4, 4); $m!(U5, 5); $m!(U7, 7); $m!(U8, 8); $m!(U9, 9); };
}

fn elements() -> Vec<El> {
    let mut v: Vec<El> = vec![];
    macro_rules! el {
        ($name:expr, $ins:expr, $outs:expr, $make:expr, $f:expr) => {
            v.push(El { name: $name.to_string(), make: Box::new(move || Box::new($make)), f: Box::new($f), ins: $ins, outs: $outs });
        };
    }
    el!("pass", 1, 1, pass(), |h, i| h[i].clone());
    el!("sink", 1, 0, sink(), |_, _| vec![]);
    el!("tick", 1, 1, tick(), |h, i| if i == 0 { vec![0.0] } else { h[i - 1].clone() });
    el!("zero", 0, 1, zero(), |_, _| vec![0.0]);
    el!("dc 3", 0, 3, dc((0.5, -1.5, 2.0e10)), |_, _| vec![0.5, -1.5, 2.0e10]);
    el!("constant 5", 0, 5, constant((1.0, 2.0, 3.0, 4.0, 5.0)), |_, _| vec![1.0, 2.0, 3.0, 4.0, 5.0]);
    el!("unit", 2, 2, unit::<U2, U2>(Box::new(reverse::<U2>())), |h, i| vec![h[i][1], h[i][0]]);
    macro_rules! n {
        ($N:ident, $n:expr) => {
            el!(format!("multipass {}", $n), $n, $n, multipass::<$N>(), |h, i| h[i].clone());
            el!(format!("multisink {}", $n), $n, 0, multisink::<$N>(), |_, _| vec![]);
            el!(format!("multizero {}", $n), 0, $n, multizero::<$N>(), |_, _| vec![0.0; $n]);
            el!(format!("reverse {}", $n), $n, $n, reverse::<$N>(), |h, i| h[i].iter().rev().copied().collect());
            el!(format!("multitick {}", $n), $n, $n, multitick::<$N>(), |h, i| if i == 0 { vec![0.0; $n] } else { h[i - 1].clone() });
            el!(format!("impulse {}", $n), 0, $n, impulse::<$N>(), |_, i| vec![if i == 0 { 1.0 } else { 0.0 }; $n]);
            el!(format!("split {}", $n), 1, $n, split::<$N>(), |h, i| vec![h[i][0]; $n]);
            el!(format!("join {}", $n), $n, 1, join::<$N>(), |h, i| vec![(h[i].iter().map(|x| *x as f64).sum::<f64>() / $n as f64) as f32]);
            el!(format!("multisplit 2 {}", $n), 2, 2 * $n, multisplit::<U2, $N>(), |h, i| (0..2 * $n).map(|c| h[i][c % 2]).collect());
            el!(format!("multisplit {} 3", $n), $n, 3 * $n, multisplit::<$N, U3>(), |h, i| (0..3 * $n).map(|c| h[i][c % $n]).collect());
            el!(format!("multijoin 2 {}", $n), 2 * $n, 2, multijoin::<U2, $N>(), |h, i| (0..2).map(|c| ((0..$n).map(|j| h[i][j * 2 + c] as f64).sum::<f64>() / $n as f64) as f32).collect());
            el!(format!("multijoin {} 3", $n), 3 * $n, $n, multijoin::<$N, U3>(), |h, i| (0..$n).map(|c| ((0..3).map(|j| h[i][j * $n + c] as f64).sum::<f64>() / 3.0) as f32).collect());
            el!(format!("map {} to 2", $n), $n, 2, map(|x: &Frame<f32, $N>| (x[0] - x[$n - 1] * 0.5, max(x[0], x[$n / 2]))), |h, i| vec![h[i][0] - h[i][$n - 1] * 0.5, h[i][0].max(h[i][$n / 2])]);
            el!(format!("map 2 to {}", $n), 2, $n, map(|x: &Frame<f32, U2>| Frame::<f32, $N>::generate(|c| x[c & 1] * (c + 1) as f32)), |h, i| (0..$n).map(|c| h[i][c & 1] * (c + 1) as f32).collect());
            el!(format!("add {}", $n), $n, $n, add(Frame::<f32, $N>::generate(|c| c as f32 - 1.5)), |h, i| (0..$n).map(|c| h[i][c] + (c as f32 - 1.5)).collect());
            el!(format!("sub {}", $n), $n, $n, sub(Frame::<f32, $N>::generate(|c| c as f32 - 1.5)), |h, i| (0..$n).map(|c| h[i][c] - (c as f32 - 1.5)).collect());
            el!(format!("mul {}", $n), $n, $n, mul(Frame::<f32, $N>::generate(|c| c as f32 - 1.5)), |h, i| (0..$n).map(|c| h[i][c] * (c as f32 - 1.5)).collect());
        };
    }
    per_n!(n);
    for k in 0..25 {
        for gain in [1.0f32, 0.25, -2.0] {
            let angle = (k as f32 - 12.0) * 0.3;
            el!(format!("rotate {} {}", angle, gain), 2, 2, rotate(angle, gain), move |h, i| {
                let (s, c) = (angle as f64).sin_cos();
                let (x, y) = (h[i][0] as f64, h[i][1] as f64);
                vec![(gain as f64 * (c * x - s * y)) as f32, (gain as f64 * (s * x + c * y)) as f32]
            });
        }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Step(Step),
    Reset,
    Clone,
}

fn elementary(ctx: &Ctx) {
    let els = elements();
    let ops = [Op::Step(Step::Tick), Op::Step(Step::Block(1)), Op::Step(Step::Block(7)), Op::Step(Step::Block(8)), Op::Step(Step::Block(21)), Op::Step(Step::Block(64)), Op::Reset, Op::Clone];
    let depth = ctx.q(5, 6);
    ctx.part("elementary nodes", els.len() as u64);
    ctx.par(els.len(), |k| {
        let e = &els[k];
        ctx.case(&e.name, || {
            {
                let u = (e.make)();
                if u.inputs() != e.ins || u.outputs() != e.outs {
                    ctx.violation(&e.name, format!("{} inputs and {} outputs", u.inputs(), u.outputs()), "arity".to_string());
                    return;
                }
            }
            for h in 0..ops.len().pow(depth as u32) {
                let seq: Vec<Op> = digits(h, ops.len(), depth).into_iter().map(|i| ops[i]).collect();
                let mut u = (e.make)();
                let mut d = Driver::new(&*u);
                let mut out = vec![vec![]; e.outs];
                let mut pos = 0;
                let mut frames: Frames = vec![];
                for op in seq.iter() {
                    match *op {
                        Op::Reset => {
                            u.reset();
                            frames.clear();
                        }
                        Op::Clone => u = u.clone(),
                        Op::Step(s) => {
                            let from = pos;
                            pos = d.step(&mut *u, s, pos, &|c, i| x(c, i), &mut out);
                            for i in from..pos {
                                frames.push((0..e.ins).map(|c| x(c, i)).collect());
                                let want = (e.f)(&frames, frames.len() - 1);
                                for c in 0..e.outs {
                                    let got = out[c][i];
                                    let scale = 1e-20 + frames.last().unwrap().iter().fold(want[c].abs(), |a, x| a.max(x.abs()));
                                    if !((got - want[c]).abs() <= 3e-6 * scale) {
                                        ctx.violation(&e.name, format!("output {} sample {} is {} expected {}", c, i, got, want[c]), format!("{} operations {:?}: output {} sample {} is {} expected {}", e.name, seq, c, i, got, want[c]));
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
                ctx.trace();
                ctx.trans(seq.len() as u64);
                ctx.state(hmix(h as u64, k as u64));
            }
        });
    });
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Get {
    Mono,
    Stereo,
    Tick,
    Block,
    Reset,
}

/// Reading single samples advances a unit by exactly one sample and presents its output.
fn access(ctx: &Ctx) {
    let ops = [Get::Mono, Get::Stereo, Get::Tick, Get::Block, Get::Reset];
    let depth = ctx.q(5, 7);
    let run = |name: &str, seq: &[Get], reference: &[Vec<f32>], one: &mut dyn FnMut(Get, usize) -> Vec<(f32, f32)>| {
        let outs = reference.len();
        let mut pos = 0;
        for op in seq.iter() {
            let got = one(*op, pos);
            if *op == Get::Reset {
                pos = 0;
                continue;
            }
            for (k, g) in got.iter().enumerate() {
                let (l, r) = (reference[0][pos + k], reference[outs - 1][pos + k]);
                let want = match op {
                    Get::Mono if outs == 2 => ((l + r) * 0.5, (l + r) * 0.5),
                    _ => (l, r),
                };
                if !((g.0 - want.0).abs() < 1e-5 && (g.1 - want.1).abs() < 1e-5) {
                    let s = format!("{} accesses {:?}: {:?} at sample {} gave {:?} expected {:?}", name, seq, op, pos + k, g, want);
                    ctx.violation(name, s.clone(), s);
                    return;
                }
            }
            pos += got.len();
        }
        ctx.trace();
        ctx.trans(seq.len() as u64);
    };
    let input = |c: usize, i: usize| det((i * 2 + c) as u64 + 17);
    macro_rules! node {
        ($name:expr, $ins:expr, $outs:expr, $make:expr) => {
            ctx.case($name, || {
                let len = 64 * depth + 64;
                let reference: Vec<Vec<f32>> = {
                    let mut u: Box<dyn AudioUnit> = Box::new($make);
                    let mut o = vec![0.0; $outs];
                    let mut v = vec![vec![]; $outs];
                    for i in 0..len {
                        let inp: Vec<f32> = (0..$ins).map(|c| input(c, i)).collect();
                        u.tick(&inp, &mut o);
                        for c in 0..$outs {
                            v[c].push(o[c]);
                        }
                    }
                    v
                };
                ctx.state(hashf(&reference[0]));
                for h in 0..ops.len().pow(depth as u32) {
                    let seq: Vec<Get> = digits(h, ops.len(), depth).into_iter().map(|i| ops[i]).collect();
                    // Filters have the access that fits their channels.
                    if ($ins == 1 && seq.contains(&Get::Stereo)) || ($ins == 2 && seq.contains(&Get::Mono)) {
                        continue;
                    }
                    ctx.state(hmix(h64($name.as_bytes()), h as u64));
                    let block = |u: &mut dyn AudioUnit, pos: usize| {
                        let mut d = Driver::new(u);
                        let mut out = vec![vec![]; $outs];
                        d.step(u, Step::Block(50), pos, &input, &mut out);
                        (0..50).map(|i| (out[0][i], out[$outs - 1][i])).collect::<Vec<_>>()
                    };
                    // As a boxed unit.
                    let mut u: Box<dyn AudioUnit> = Box::new($make);
                    run($name, &seq, &reference, &mut |op, pos| match op {
                        Get::Mono if $ins == 1 => { let y = u.filter_mono(input(0, pos)); vec![(y, y)] }
                        Get::Stereo if $ins == 2 => vec![u.filter_stereo(input(0, pos), input(1, pos))],
                        Get::Mono => { let y = u.get_mono(); vec![(y, y)] }
                        Get::Stereo => vec![u.get_stereo()],
                        Get::Tick => {
                            let inp: Vec<f32> = (0..$ins).map(|c| input(c, pos)).collect();
                            let mut o = vec![0.0; $outs];
                            u.tick(&inp, &mut o);
                            vec![(o[0], o[$outs - 1])]
                        }
                        Get::Block => block(&mut *u, pos),
                        Get::Reset => { u.reset(); vec![] }
                    });
                    // As a node.
                    let mut n = $make;
                    run($name, &seq, &reference, &mut |op, pos| match op {
                        Get::Mono if $ins == 1 => { let y = n.filter_mono(input(0, pos)); vec![(y, y)] }
                        Get::Stereo if $ins == 2 => vec![n.filter_stereo(input(0, pos), input(1, pos))],
                        Get::Mono => { let y = n.get_mono(); vec![(y, y)] }
                        Get::Stereo => vec![n.get_stereo()],
                        Get::Tick => {
                            let o = n.tick(&Frame::generate(|c| input(c, pos)));
                            vec![(o[0], o[$outs - 1])]
                        }
                        Get::Block => block(&mut n, pos),
                        Get::Reset => { n.reset(); vec![] }
                    });
                }
            })
        };
    }
    ctx.par(9, |k| match k {
        0 => node!("sine", 0, 1, sine_hz(440.0)),
        1 => node!("noise", 0, 1, noise()),
        2 => node!("noises", 0, 2, noise() | sine_hz(300.0)),
        3 => node!("panned noise", 0, 2, noise() >> pan(0.3)),
        4 => node!("dc", 0, 2, dc((3.0, 4.0))),
        5 => node!("lowpole", 1, 1, lowpole_hz(1000.0)),
        6 => node!("delay", 1, 1, delay(0.001)),
        7 => node!("stereo", 2, 2, lowpole_hz(500.0) | highpole_hz(300.0)),
        _ => node!("rotated", 2, 2, rotate(0.5, 1.0) >> (tick() | delay(0.0005))),
    });
}

/// Blocks of any length through the adapters equal sample by sample processing.
fn adapters(ctx: &Ctx) {
    let cat = catalog();
    let sizes = [0usize, 1, 8, 63, 64, 65, 127, 128, 200];
    let depth = ctx.q(2, 3);
    ctx.part("adapted units", cat.len() as u64);
    ctx.par(cat.len(), |k| {
        let e = &cat[k];
        ctx.case(&format!("adapter {}", e.name), || {
            let f = |c: usize, i: usize| signal(e.ins[c], 0, c, i);
            let len = 200 * depth;
            let reference = {
                let mut u = (e.make)();
                let mut d = Driver::new(&*u);
                let mut out = vec![vec![]; u.outputs()];
                d.ticks(&mut *u, 0, len, &f, &mut out);
                out
            };
            for h in 0..sizes.len().pow(depth as u32) {
                let seq: Vec<usize> = digits(h, sizes.len(), depth).into_iter().map(|i| sizes[i]).collect();
                let mut a = BigBlockAdapter::new((e.make)());
                let mut got: Vec<Vec<f32>> = vec![vec![]; reference.len()];
                let mut pos = 0;
                for n in seq.iter().copied() {
                    // Buffers may be longer than the block; the rest is not touched.
                    let input: Vec<Vec<f32>> = (0..e.ins.len()).map(|c| (0..n).map(|i| f(c, pos + i)).chain([77.0; 3]).collect()).collect();
                    let mut output: Vec<Vec<f32>> = vec![vec![555.0; n + 3]; reference.len()];
                    let ir: Vec<&[f32]> = input.iter().map(|v| &v[..]).collect();
                    let mut or: Vec<&mut [f32]> = output.iter_mut().map(|v| &mut v[..]).collect();
                    a.process_big(n, &ir, &mut or);
                    for c in 0..reference.len() {
                        if output[c][n..].iter().any(|x| *x != 555.0) {
                            let s = format!("process_big({}) of {} wrote beyond the block", n, e.name);
                            ctx.violation(&e.name, s.clone(), s);
                            return;
                        }
                        got[c].extend_from_slice(&output[c][..n]);
                    }
                    pos += n;
                }
                ctx.trace();
                ctx.trans(seq.len() as u64);
                ctx.state(hmix(hmix(k as u64, h as u64), 1));
                if let Some((c, i, x, y)) = diff(&reference, &got, e.tol) {
                    ctx.violation(&e.name, format!("process_big: channel {} sample {} is {} expected {}", c, i, y, x), format!("{} process_big blocks {:?}: channel {} sample {} is {} expected {}", e.name, seq, c, i, y, x));
                    return;
                }
                if e.ins.is_empty() && !reference.is_empty() {
                    let mut u = BlockRateAdapter::new((e.make)());
                    let mut d = Driver::new(&u);
                    let mut got = vec![vec![]; reference.len()];
                    let mut pos = 0;
                    for n in seq.iter().copied() {
                        if n <= 64 && n > 0 {
                            pos = d.step(&mut u, Step::Block(n), pos, &f, &mut got);
                        }
                        pos = d.step(&mut u, Step::Tick, pos, &f, &mut got);
                    }
                    if let Some((c, i, x, y)) = diff(&reference, &got, e.tol) {
                        ctx.violation(&e.name, format!("BlockRateAdapter: channel {} sample {} is {} expected {}", c, i, y, x), format!("{} BlockRateAdapter blocks {:?}: channel {} sample {} is {} expected {}", e.name, seq, c, i, y, x));
                        return;
                    }
                }
            }
        });
    });
}

/// Access to operands of combinators addresses exactly the operand named.
fn operands(ctx: &Ctx) {
    // Sets one operand through an accessor and sees the effect in the output.
    macro_rules! pair {
        ($name:expr, $make:expr, $out:expr) => {
            ctx.case($name, || {
                let out: fn(f32, f32) -> Vec<f32> = $out;
                for seq in 0..16 * 16 {
                    let mut n = $make;
                    let (mut a, mut b) = (3.0f32, 5.0f32);
                    for op in digits(seq, 4, 4) {
                        match op {
                            0 => { a += 7.0; n.0.left_mut().set_scalar(a); }
                            1 => { b *= 2.0; n.0.right_mut().set_scalar(b); }
                            2 => n.reset(),
                            _ => n = n.clone(),
                        }
                        let (x, y) = (n.0.left().value()[0], n.0.right().value()[0]);
                        let o: Vec<f32> = n.tick(&Frame::default()).to_vec();
                        ctx.trans(1);
                        if x != a || y != b || o != out(a, b) {
                            let s = format!("{} after operations {:?}: left {} right {} output {:?}, expected {} {} {:?}", $name, digits(seq, 4, 4), x, y, o, a, b, out(a, b));
                            ctx.violation($name, s.clone(), s);
                            return;
                        }
                    }
                    ctx.trace();
                    ctx.state(hmix(h64($name.as_bytes()), seq as u64));
                }
            });
        };
    }
    pair!("stack", dc(3.0) | dc(5.0), |a, b| vec![a, b]);
    pair!("branch", dc(3.0) ^ dc(5.0), |a, b| vec![a, b]);
    pair!("bus", dc(3.0) & dc(5.0), |a, b| vec![a + b]);
    pair!("sum", dc(3.0) + dc(5.0), |a, b| vec![a + b]);
    pair!("difference", dc(3.0) - dc(5.0), |a, b| vec![a - b]);
    pair!("product", dc(3.0) * dc(5.0), |a, b| vec![a * b]);
    macro_rules! many {
        ($name:expr, $make:expr, $n:expr, $out:expr) => {
            ctx.case($name, || {
                let out: fn(&[f32]) -> Vec<f32> = $out;
                for i in 0..$n {
                    for j in 0..$n {
                        let mut n = $make;
                        let mut v: Vec<f32> = (0..$n).map(|i| (i + 1) as f32).collect();
                        v[i] = 20.0;
                        n.0.node_mut(i).set_scalar(20.0);
                        v[j] = -9.0;
                        n.0.node_mut(j).set_scalar(-9.0);
                        let o: Vec<f32> = n.tick(&Frame::default()).to_vec();
                        ctx.trans(1);
                        ctx.trace();
                        ctx.state(hmix(h64($name.as_bytes()), (i * 16 + j) as u64));
                        if (0..$n).any(|k| n.0.node(k).value()[0] != v[k]) || o != out(&v) {
                            let s = format!("{} with nodes {} and {} set: output {:?} expected {:?}", $name, i, j, o, out(&v));
                            ctx.violation($name, s.clone(), s);
                            return;
                        }
                    }
                }
            });
        };
    }
    macro_rules! n {
        ($N:ident, $n:expr) => {
            many!(&format!("stacki {}", $n), stacki::<$N, _, _>(|i| dc((i + 1) as f32)), $n, |v| v.to_vec());
            many!(&format!("branchi {}", $n), branchi::<$N, _, _>(|i| dc((i + 1) as f32)), $n, |v| v.to_vec());
            many!(&format!("busi {}", $n), busi::<$N, _, _>(|i| dc((i + 1) as f32)), $n, |v| vec![v.iter().sum()]);
            many!(&format!("sumi {}", $n), sumi::<$N, _, _>(|i| dc((i + 1) as f32)), $n, |v| vec![v.iter().sum()]);
        };
    }
    per_n!(n);
}

/// Decibels of a response are those of its magnitude.
fn decibels(ctx: &Ctx) {
    let cat = catalog();
    ctx.par(cat.len(), |k| {
        let e = &cat[k];
        ctx.case(&format!("decibels {}", e.name), || {
            let mut u = (e.make)();
            for o in 0..u.outputs() {
                for j in 0..24 {
                    let f = 20.0 * 2f64.powf(j as f64 * 0.4);
                    let (a, b) = (u.response(o, f), u.response_db(o, f));
                    ctx.trace();
                    ctx.trans(1);
                    let ok = match (a, b) {
                        (None, None) => true,
                        (Some(a), Some(b)) => {
                            let want = 20.0 * a.norm().log10();
                            want == b || (want - b).abs() < 1e-6 * (1.0 + want.abs()) || (want.is_nan() && b.is_nan())
                        }
                        _ => false,
                    };
                    if !ok {
                        let s = format!("{} output {} at {} Hz: response {:?} but {:?} decibels", e.name, o, f, a, b);
                        ctx.violation(&e.name, s.clone(), s);
                        return;
                    }
                }
                ctx.state(hmix(h64(e.name.as_bytes()), o as u64));
            }
        });
    });
}

pub fn c31(ctx: &Ctx) {
    elementary(ctx);
    access(ctx);
    adapters(ctx);
    operands(ctx);
    decibels(ctx);
}
