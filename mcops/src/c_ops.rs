//! C03: operators and combinators against a denotational reference.
use crate::fw::*;
use crate::term::*;
use fundsp::hacker32::*;

fn chain(n: usize, f: impl Fn(usize) -> Term, op: impl Fn(Term, Term) -> Term) -> Term {
    let mut t = f(0);
    for i in 1..n {
        t = op(t, f(i));
    }
    t
}

/// Gain coefficient of node `i` out of generator values.
fn gi(i: u64) -> f32 {
    [0.5, 2.0, -1.5, 3.0, 0.25, -0.75, 1.25, -2.5][i as usize % 8]
}
fn gf(x: f32) -> f32 {
    1.0 + x * 4.0
}
fn fx(i: usize, n: usize) -> f32 {
    if n > 1 { i as f32 / (n - 1) as f32 } else { 0.5 }
}

fn indexed(v: &mut Vec<(String, Box<dyn AudioUnit>, Term)>) {
    macro_rules! both {
        ($($N:ident $n:expr),*) => { $(
            let n = $n;
            let g = |i: usize| Term::Gain(gi(i as u64));
            let gff = |i: usize| Term::Gain(gf(fx(i, n)));
            // Nodes with state and two channels, to expose channel mixups.
            let two = |i: usize| Term::Pipe(Box::new(Term::Stack(Box::new(Term::Delay(1)), Box::new(Term::Gain(gi(i as u64))))), Box::new(t::l("R")));
            let widen = |i: usize| Term::Branch(Box::new(Term::Gain(gi(i as u64))), Box::new(Term::Delay(1)));
            let narrow = |i: usize| Term::Arith('+', Box::new(Term::Gain(gi(i as u64))), Box::new(Term::Delay(1)));
            v.push((format!("busi{}", n), Box::new(busi::<$N, _, _>(|i| mul(gi(i)))), chain(n, g, t::bus)));
            v.push((format!("busf{}", n), Box::new(busf::<$N, _, _>(|x| mul(gf(x as f32)))), chain(n, gff, t::bus)));
            v.push((format!("stacki{}", n), Box::new(stacki::<$N, _, _>(|i| mul(gi(i)))), chain(n, g, t::stack)));
            v.push((format!("stackf{}", n), Box::new(stackf::<$N, _, _>(|x| mul(gf(x as f32)))), chain(n, gff, t::stack)));
            v.push((format!("branchi{}", n), Box::new(branchi::<$N, _, _>(|i| mul(gi(i)))), chain(n, g, t::branch)));
            v.push((format!("branchf{}", n), Box::new(branchf::<$N, _, _>(|x| mul(gf(x as f32)))), chain(n, gff, t::branch)));
            v.push((format!("sumi{}", n), Box::new(sumi::<$N, _, _>(|i| mul(gi(i)))), chain(n, g, t::sum)));
            v.push((format!("sumf{}", n), Box::new(sumf::<$N, _, _>(|x| mul(gf(x as f32)))), chain(n, gff, t::sum)));
            v.push((format!("pipei{}", n), Box::new(pipei::<$N, _, _>(|i| mul(gi(i)))), chain(n, g, t::pipe)));
            v.push((format!("pipef{}", n), Box::new(pipef::<$N, _, _>(|x| mul(gf(x as f32)))), chain(n, gff, t::pipe)));
            v.push((format!("busi_two{}", n), Box::new(busi::<$N, _, _>(|i| (tick() | mul(gi(i))) >> reverse::<U2>())), chain(n, two, t::bus)));
            v.push((format!("stacki_two{}", n), Box::new(stacki::<$N, _, _>(|i| (tick() | mul(gi(i))) >> reverse::<U2>())), chain(n, two, t::stack)));
            v.push((format!("branchi_two{}", n), Box::new(branchi::<$N, _, _>(|i| (tick() | mul(gi(i))) >> reverse::<U2>())), chain(n, two, t::branch)));
            v.push((format!("sumi_two{}", n), Box::new(sumi::<$N, _, _>(|i| (tick() | mul(gi(i))) >> reverse::<U2>())), chain(n, two, t::sum)));
            v.push((format!("pipei_two{}", n), Box::new(pipei::<$N, _, _>(|i| (tick() | mul(gi(i))) >> reverse::<U2>())), chain(n, two, t::pipe)));
            v.push((format!("stacki_widen{}", n), Box::new(stacki::<$N, _, _>(|i| mul(gi(i)) ^ tick())), chain(n, widen, t::stack)));
            v.push((format!("branchi_widen{}", n), Box::new(branchi::<$N, _, _>(|i| mul(gi(i)) ^ tick())), chain(n, widen, t::branch)));
            v.push((format!("sumi_widen{}", n), Box::new(sumi::<$N, _, _>(|i| mul(gi(i)) ^ tick())), chain(n, widen, t::sum)));
            v.push((format!("busi_widen{}", n), Box::new(busi::<$N, _, _>(|i| mul(gi(i)) ^ tick())), chain(n, widen, t::bus)));
            v.push((format!("stacki_narrow{}", n), Box::new(stacki::<$N, _, _>(|i| mul(gi(i)) + tick())), chain(n, narrow, t::stack)));
            v.push((format!("branchi_narrow{}", n), Box::new(branchi::<$N, _, _>(|i| mul(gi(i)) + tick())), chain(n, narrow, t::branch)));
            v.push((format!("sumi_narrow{}", n), Box::new(sumi::<$N, _, _>(|i| mul(gi(i)) + tick())), chain(n, narrow, t::sum)));
            v.push((format!("busi_narrow{}", n), Box::new(busi::<$N, _, _>(|i| mul(gi(i)) + tick())), chain(n, narrow, t::bus)));
            v.push((format!("stacki_gen{}", n), Box::new(stacki::<$N, _, _>(|i| dc(gi(i)))), chain(n, |i| Term::Dc(gi(i as u64)), t::stack)));
            v.push((format!("busi_gen{}", n), Box::new(busi::<$N, _, _>(|i| dc(gi(i)))), chain(n, |i| Term::Dc(gi(i as u64)), t::bus)));
            v.push((format!("branchi_gen{}", n), Box::new(branchi::<$N, _, _>(|i| dc(gi(i)))), chain(n, |i| Term::Dc(gi(i as u64)), t::branch)));
            v.push((format!("sumi_gen{}", n), Box::new(sumi::<$N, _, _>(|i| dc(gi(i)))), chain(n, |i| Term::Dc(gi(i as u64)), t::sum)));
            v.push((format!("multitick{}", n), Box::new(multitick::<$N>()), chain(n, |_| Term::Delay(1), t::stack)));
            v.push((format!("multipass{}", n), Box::new(multipass::<$N>()), chain(n, |_| t::l("P"), t::stack)));
            v.push((format!("multizero{}", n), Box::new(multizero::<$N>()), chain(n, |_| t::l("Z"), t::stack)));
            v.push((format!("multisink{}", n), Box::new(multisink::<$N>()), chain(n, |_| t::l("S"), t::stack)));
            v.push((format!("split{}", n), Box::new(split::<$N>()), chain(n, |_| t::l("P"), t::branch)));
            v.push((format!("join{}", n), Box::new(join::<$N>()), t::pipe(chain(n, |_| t::l("P"), t::sum), Term::Gain(1.0 / n as f32))));
        )* }
    }
    both!(U1 1, U2 2, U3 3, U4 4, U5 5, U8 8);
}

/// multisplit, multijoin and reverse for every small shape.
fn shapes(v: &mut Vec<(String, Box<dyn AudioUnit>, Box<dyn Fn(&Streams) -> Streams>)>) {
    macro_rules! mn {
        ($($M:ident $m:expr, $N:ident $n:expr);*) => { $(
            v.push((format!("multisplit{}x{}", $m, $n), Box::new(multisplit::<$M, $N>()), Box::new(|x: &Streams| (0..$m * $n).map(|i| x[i % $m].clone()).collect())));
            v.push((format!("multijoin{}x{}", $m, $n), Box::new(multijoin::<$M, $N>()), Box::new(|x: &Streams| (0..$m).map(|i| (0..x[0].len()).map(|t| (0..$n).map(|j| x[j * $m + i][t]).sum::<f32>() / $n as f32).collect()).collect())));
        )* }
    }
    mn!(U1 1, U1 1; U1 1, U2 2; U2 2, U1 1; U2 2, U2 2; U2 2, U3 3; U3 3, U2 2; U3 3, U3 3; U4 4, U2 2; U2 2, U4 4; U1 1, U5 5);
    macro_rules! rev {
        ($($N:ident $n:expr),*) => { $(
            v.push((format!("reverse{}", $n), Box::new(reverse::<$N>()), Box::new(|x: &Streams| (0..$n).map(|i| x[$n - 1 - i].clone()).collect())));
        )* }
    }
    rev!(U1 1, U2 2, U3 3, U4 4, U5 5);
}

pub fn c03(ctx: &Ctx) {
    let mut terms: Vec<(String, Box<dyn AudioUnit>, Term)> = crate::terms::terms()
        .into_iter()
        .map(|(n, u, t, i, o)| {
            assert_eq!(t.arity(), (i, o));
            (n.to_string(), u, t)
        })
        .collect();
    ctx.part("operator terms", terms.len() as u64);
    let k = terms.len();
    indexed(&mut terms);
    ctx.part("indexed combinator forms", (terms.len() - k) as u64);
    let cells: Vec<std::sync::Mutex<(String, Box<dyn AudioUnit>, Term)>> = terms.into_iter().map(std::sync::Mutex::new).collect();
    ctx.par(cells.len(), |k| {
        let mut g = cells[k].lock().unwrap();
        let (name, unit, term) = &mut *g;
        ctx.case(&name.clone(), || {
            ctx.sample(|| format!("{} = {:?}", name, term));
            check(ctx, name, &mut **unit, term)
        });
    });
    let mut sh = vec![];
    shapes(&mut sh);
    for (name, mut unit, f) in sh {
        ctx.case(&name.clone(), || {
            for sig in 0..3 {
                let x = inputs(unit.inputs(), sig, 160);
                let y = f(&x);
                assert_eq!(y.len(), unit.outputs(), "arity");
                for steps in schedules() {
                    unit.reset();
                    ctx.trace();
                    ctx.trans(steps.len() as u64);
                    if let Some(e) = compare(&mut *unit, &x, &y, &steps, 1e-5) {
                        ctx.violation(&name, e.clone(), e);
                        return;
                    }
                }
            }
        });
    }
}
