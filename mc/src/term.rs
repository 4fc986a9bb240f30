//! Denotational reference for operator terms.
use crate::catalog::{Driver, Step};
use crate::fw::*;
use fundsp::hacker32::*;

/// Reference term: a causal function from input streams to output streams.
#[derive(Clone, Debug)]
pub enum Term {
    Leaf(&'static str),
    Gain(f32),
    Delay(usize),
    Dc(f32),
    Pipe(Box<Term>, Box<Term>),
    Stack(Box<Term>, Box<Term>),
    Branch(Box<Term>, Box<Term>),
    Bus(Box<Term>, Box<Term>),
    Arith(char, Box<Term>, Box<Term>),
    Scalar(char, Box<Term>, f32),
    Neg(Box<Term>),
    Thru(Box<Term>),
}
use Term::*;
pub mod t {
    use super::Term;
    use super::Term::*;
    pub fn l(n: &'static str) -> Term { Leaf(n) }
    pub fn pipe(x: Term, y: Term) -> Term { Pipe(x.into(), y.into()) }
    pub fn stack(x: Term, y: Term) -> Term { Stack(x.into(), y.into()) }
    pub fn branch(x: Term, y: Term) -> Term { Branch(x.into(), y.into()) }
    pub fn bus(x: Term, y: Term) -> Term { Bus(x.into(), y.into()) }
    pub fn sum(x: Term, y: Term) -> Term { Arith('+', x.into(), y.into()) }
    pub fn diff(x: Term, y: Term) -> Term { Arith('-', x.into(), y.into()) }
    pub fn prod(x: Term, y: Term) -> Term { Arith('*', x.into(), y.into()) }
    pub fn neg(x: Term) -> Term { Neg(x.into()) }
    pub fn thru(x: Term) -> Term { Thru(x.into()) }
    pub fn sc(op: char, x: Term, c: f32) -> Term { Scalar(op, x.into(), c) }
}

pub type Streams = Vec<Vec<f32>>;

impl Term {
    pub fn arity(&self) -> (usize, usize) {
        match self {
            Leaf(n) => match *n {
                "T" | "G" | "A" | "P" | "Q" => (1, 1),
                "D" | "Z" => (0, 1),
                "J" => (2, 1),
                "B" => (1, 2),
                "M" | "R" | "I" => (2, 2),
                "N" => (0, 2),
                "S" => (1, 0),
                _ => panic!(),
            },
            Gain(_) | Delay(_) => (1, 1),
            Dc(_) => (0, 1),
            Pipe(x, y) => (x.arity().0, y.arity().1),
            Stack(x, y) => (x.arity().0 + y.arity().0, x.arity().1 + y.arity().1),
            Branch(x, y) => (x.arity().0, x.arity().1 + y.arity().1),
            Bus(x, _) => x.arity(),
            Arith(_, x, y) => (x.arity().0 + y.arity().0, x.arity().1),
            Scalar(_, x, _) | Neg(x) => x.arity(),
            Thru(x) => (x.arity().0, x.arity().0),
        }
    }
    pub fn eval(&self, input: &[Vec<f32>], n: usize) -> Streams {
        let map = |x: &Vec<f32>, f: &dyn Fn(f32) -> f32| x.iter().map(|v| f(*v)).collect::<Vec<f32>>();
        let shift = |x: &Vec<f32>, k: usize| (0..n).map(|i| if i >= k { x[i - k] } else { 0.0 }).collect::<Vec<f32>>();
        let zip = |x: &Vec<f32>, y: &Vec<f32>, f: &dyn Fn(f32, f32) -> f32| x.iter().zip(y.iter()).map(|(a, b)| f(*a, *b)).collect::<Vec<f32>>();
        let one = |v: f32| vec![v; n];
        match self {
            Leaf(k) => match *k {
                "T" => vec![shift(&input[0], 1)],
                "G" => vec![map(&input[0], &|x| x * 0.5)],
                "A" => vec![map(&input[0], &|x| x + 1.5)],
                "P" => vec![input[0].clone()],
                "Q" => vec![shift(&input[0], 3)],
                "D" => vec![one(0.75)],
                "Z" => vec![one(0.0)],
                "J" => vec![zip(&input[0], &input[1], &|x, y| (x + y) * 0.5)],
                "B" => vec![input[0].clone(), input[0].clone()],
                "M" => vec![map(&input[0], &|x| x * 2.0), map(&input[1], &|x| x * 3.0)],
                "R" => vec![input[1].clone(), input[0].clone()],
                "I" => vec![map(&input[0], &|x| x - 1.0), map(&input[1], &|x| x - 2.0)],
                "N" => vec![one(2.0), one(-3.0)],
                "S" => vec![],
                _ => panic!(),
            },
            Gain(g) => vec![map(&input[0], &|x| x * g)],
            Delay(k) => vec![shift(&input[0], *k)],
            Dc(v) => vec![one(*v)],
            Pipe(x, y) => y.eval(&x.eval(input, n), n),
            Stack(x, y) => {
                let k = x.arity().0;
                let mut v = x.eval(&input[..k], n);
                v.extend(y.eval(&input[k..], n));
                v
            }
            Branch(x, y) => {
                let mut v = x.eval(input, n);
                v.extend(y.eval(input, n));
                v
            }
            Bus(x, y) => {
                let (a, b) = (x.eval(input, n), y.eval(input, n));
                a.iter().zip(b.iter()).map(|(p, q)| zip(p, q, &|x, y| x + y)).collect()
            }
            Arith(op, x, y) => {
                let k = x.arity().0;
                let (a, b) = (x.eval(&input[..k], n), y.eval(&input[k..], n));
                let f: &dyn Fn(f32, f32) -> f32 = match op {
                    '+' => &|x, y| x + y,
                    '-' => &|x, y| x - y,
                    _ => &|x, y| x * y,
                };
                a.iter().zip(b.iter()).map(|(p, q)| zip(p, q, f)).collect()
            }
            Scalar(op, x, c) => {
                let f: &dyn Fn(f32) -> f32 = match op {
                    '+' => &|x| x + c,
                    '-' => &|x| x - c,
                    'r' => &|x| c - x,
                    _ => &|x| x * c,
                };
                x.eval(input, n).iter().map(|s| map(s, f)).collect()
            }
            Neg(x) => x.eval(input, n).iter().map(|s| map(s, &|x| -x)).collect(),
            Thru(x) => {
                let a = x.eval(input, n);
                (0..x.arity().0).map(|i| if i < a.len() { a[i].clone() } else { input[i].clone() }).collect()
            }
        }
    }
}

pub fn inputs(channels: usize, sig: usize, n: usize) -> Streams {
    (0..channels).map(|c| (0..n).map(|i| crate::catalog::signal(crate::catalog::In::A, sig, c, i)).collect()).collect()
}

/// Compare a unit with reference streams under a step schedule.
pub fn compare(unit: &mut dyn AudioUnit, input: &Streams, reference: &Streams, steps: &[Step], tol: f32) -> Option<String> {
    let mut d = Driver::new(unit);
    let mut out = vec![vec![]; unit.outputs()];
    let mut pos = 0;
    let f = |c: usize, i: usize| input[c][i];
    for s in steps {
        pos = d.step(unit, *s, pos, &f, &mut out);
    }
    for c in 0..reference.len() {
        for i in 0..pos {
            let (x, y) = (reference[c][i], out[c][i]);
            if !((x - y).abs() <= tol * (1.0 + x.abs())) {
                return Some(format!("channel {} sample {}: expected {} got {} (steps {:?})", c, i, x, y, steps));
            }
        }
    }
    None
}

pub fn schedules() -> Vec<Vec<Step>> {
    use Step::*;
    vec![
        vec![Tick; 24],
        vec![Block(24)],
        vec![Block(8), Block(16)],
        vec![Block(5), Tick, Block(7), Block(0), Block(9)],
        vec![Tick, Block(1), Tick, Block(13), Tick, Tick],
        vec![Block(64), Block(3), Block(64)],
    ]
}

pub fn check(ctx: &Ctx, name: &str, unit: &mut dyn AudioUnit, term: &Term) {
    let (i, o) = term.arity();
    if unit.inputs() != i || unit.outputs() != o {
        ctx.violation(name, format!("arity is {} -> {}, expected {} -> {}", unit.inputs(), unit.outputs(), i, o), format!("{} arity", name));
        return;
    }
    for sig in 0..3 {
        let x = inputs(i, sig, 160);
        let y = term.eval(&x, 160);
        for (k, steps) in schedules().iter().enumerate() {
            unit.reset();
            ctx.trace();
            ctx.trans(steps.len() as u64);
            ctx.state(hmix(h64(name.as_bytes()), (sig * 16 + k) as u64));
            if let Some(e) = compare(unit, &x, &y, steps, 1e-5) {
                ctx.violation(name, e.clone(), format!("term {} = {:?}, input signal {}: {}", name, term, sig, e));
                return;
            }
        }
    }
}

