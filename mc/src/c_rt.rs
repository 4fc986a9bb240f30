//! C09: processing neither allocates nor frees heap memory.
use crate::catalog::*;
use crate::fw::*;
use crate::rt;

pub fn c09(ctx: &Ctx) {
    rt::CHECK.store(true, std::sync::atomic::Ordering::Relaxed);
    let cat = catalog();
    let alpha = [Step::Tick, Step::Block(1), Step::Block(8), Step::Block(13), Step::Block(64)];
    let depth = ctx.q(4, 5);
    ctx.par(cat.len(), |k| {
        let e = &cat[k];
        ctx.case(&e.name, || {
            for sr in [44100.0, 48000.0, 192000.0] {
                // Long run for rarely taken paths, then all step sequences.
                let n = alpha.len().pow(depth as u32);
                for idx in 0..=n {
                    let steps: Vec<Step> = if idx == n {
                        (0..ctx.q(2000, 20000)).map(|i| alpha[(i * i + i / 7) % alpha.len()]).collect()
                    } else {
                        digits(idx, alpha.len(), depth).iter().map(|x| alpha[*x]).collect()
                    };
                    let mut u = (e.make)();
                    if sr == 192000.0 {
                        // Allocate first at another sample rate.
                        u.allocate();
                    }
                    u.set_sample_rate(sr);
                    u.allocate();
                    let mut d = Driver::new(&*u);
                    let mut out = vec![Vec::with_capacity(64 * steps.len()); u.outputs()];
                    let f = |c: usize, i: usize| signal(e.ins[c], idx % 3, c, i);
                    let mut pos = 0;
                    rt::take();
                    for (i, s) in steps.iter().enumerate() {
                        pos = d.step(&mut *u, *s, pos, &f, &mut out);
                        let (a, fr) = rt::take();
                        if a + fr > 0 {
                            ctx.violation(&e.name, format!("{} allocations and {} frees in step {} ({:?})", a, fr, i, s), format!("{} at {} Hz: steps {:?}", e.name, sr, &steps[..=i]));
                            return;
                        }
                    }
                    ctx.trans(steps.len() as u64);
                    ctx.trace();
                    ctx.state(hmix(hmix(k as u64, sr as u64), idx as u64));
                }
            }
            ctx.sample(|| format!("{}: no heap operation in any sequence of {} steps over {:?} at 3 sample rates", e.name, depth, alpha));
        });
    });
    // Backends under all interleavings with their frontends.
    crate::c_realnet::explore(ctx, ctx.q(5, 6));
    crate::c_seq::explore(ctx, ctx.q(5, 6));
    crate::c_slot::explore(ctx, ctx.q(5, 6));
}
