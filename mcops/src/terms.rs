// Generated by gen_terms.py. All operator terms within the bounds stated there.
#![allow(unused_parens, clippy::all)]
use super::term::{t, Term};
use fundsp::hacker32::*;

#[inline(never)]
fn chunk0(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("T", Box::new(tick()), t::l("T"), 1, 1));
    v.push(("D", Box::new(dc(0.75)), t::l("D"), 0, 1));
    v.push(("J", Box::new(join::<U2>()), t::l("J"), 2, 1));
    v.push(("B", Box::new(split::<U2>()), t::l("B"), 1, 2));
    v.push(("M", Box::new(mul((2.0, 3.0))), t::l("M"), 2, 2));
    v.push(("G", Box::new(mul(0.5)), t::l("G"), 1, 1));
    v.push(("N", Box::new(dc((2.0, -3.0))), t::l("N"), 0, 2));
    v.push(("S", Box::new(sink()), t::l("S"), 1, 0));
    v.push(("R", Box::new(reverse::<U2>()), t::l("R"), 2, 2));
    v.push(("A", Box::new(add(1.5)), t::l("A"), 1, 1));
    v.push(("Z", Box::new(zero()), t::l("Z"), 0, 1));
    v.push(("P", Box::new(pass()), t::l("P"), 1, 1));
    v.push(("I", Box::new(sub((1.0, 2.0))), t::l("I"), 2, 2));
    v.push(("Q", Box::new(delay(3.0 / 44100.0)), t::l("Q"), 1, 1));
    v.push(("!T", Box::new((!tick())), t::thru(t::l("T")), 1, 1));
    v.push(("-T", Box::new((-tick())), t::neg(t::l("T")), 1, 1));
    v.push(("T+c", Box::new((tick() + 0.25)), t::sc('+', t::l("T"), 0.25), 1, 1));
    v.push(("c+T", Box::new((0.25 + tick())), t::sc('+', t::l("T"), 0.25), 1, 1));
    v.push(("T-c", Box::new((tick() - 0.25)), t::sc('-', t::l("T"), 0.25), 1, 1));
    v.push(("c-T", Box::new((0.25 - tick())), t::sc('r', t::l("T"), 0.25), 1, 1));
    v.push(("T*c", Box::new((tick() * 0.25)), t::sc('*', t::l("T"), 0.25), 1, 1));
    v.push(("c*T", Box::new((0.25 * tick())), t::sc('*', t::l("T"), 0.25), 1, 1));
    v.push(("!D", Box::new((!dc(0.75))), t::thru(t::l("D")), 0, 0));
    v.push(("-D", Box::new((-dc(0.75))), t::neg(t::l("D")), 0, 1));
    v.push(("D+c", Box::new((dc(0.75) + 0.25)), t::sc('+', t::l("D"), 0.25), 0, 1));
    v.push(("c+D", Box::new((0.25 + dc(0.75))), t::sc('+', t::l("D"), 0.25), 0, 1));
    v.push(("D-c", Box::new((dc(0.75) - 0.25)), t::sc('-', t::l("D"), 0.25), 0, 1));
    v.push(("c-D", Box::new((0.25 - dc(0.75))), t::sc('r', t::l("D"), 0.25), 0, 1));
    v.push(("D*c", Box::new((dc(0.75) * 0.25)), t::sc('*', t::l("D"), 0.25), 0, 1));
    v.push(("c*D", Box::new((0.25 * dc(0.75))), t::sc('*', t::l("D"), 0.25), 0, 1));
    v.push(("!J", Box::new((!join::<U2>())), t::thru(t::l("J")), 2, 2));
    v.push(("-J", Box::new((-join::<U2>())), t::neg(t::l("J")), 2, 1));
    v.push(("J+c", Box::new((join::<U2>() + 0.25)), t::sc('+', t::l("J"), 0.25), 2, 1));
    v.push(("c+J", Box::new((0.25 + join::<U2>())), t::sc('+', t::l("J"), 0.25), 2, 1));
    v.push(("J-c", Box::new((join::<U2>() - 0.25)), t::sc('-', t::l("J"), 0.25), 2, 1));
    v.push(("c-J", Box::new((0.25 - join::<U2>())), t::sc('r', t::l("J"), 0.25), 2, 1));
    v.push(("J*c", Box::new((join::<U2>() * 0.25)), t::sc('*', t::l("J"), 0.25), 2, 1));
    v.push(("c*J", Box::new((0.25 * join::<U2>())), t::sc('*', t::l("J"), 0.25), 2, 1));
    v.push(("!B", Box::new((!split::<U2>())), t::thru(t::l("B")), 1, 1));
    v.push(("-B", Box::new((-split::<U2>())), t::neg(t::l("B")), 1, 2));
    v.push(("B+c", Box::new((split::<U2>() + 0.25)), t::sc('+', t::l("B"), 0.25), 1, 2));
    v.push(("c+B", Box::new((0.25 + split::<U2>())), t::sc('+', t::l("B"), 0.25), 1, 2));
    v.push(("B-c", Box::new((split::<U2>() - 0.25)), t::sc('-', t::l("B"), 0.25), 1, 2));
    v.push(("c-B", Box::new((0.25 - split::<U2>())), t::sc('r', t::l("B"), 0.25), 1, 2));
    v.push(("B*c", Box::new((split::<U2>() * 0.25)), t::sc('*', t::l("B"), 0.25), 1, 2));
    v.push(("c*B", Box::new((0.25 * split::<U2>())), t::sc('*', t::l("B"), 0.25), 1, 2));
    v.push(("!M", Box::new((!mul((2.0, 3.0)))), t::thru(t::l("M")), 2, 2));
    v.push(("-M", Box::new((-mul((2.0, 3.0)))), t::neg(t::l("M")), 2, 2));
    v.push(("M+c", Box::new((mul((2.0, 3.0)) + 0.25)), t::sc('+', t::l("M"), 0.25), 2, 2));
    v.push(("c+M", Box::new((0.25 + mul((2.0, 3.0)))), t::sc('+', t::l("M"), 0.25), 2, 2));
    v.push(("M-c", Box::new((mul((2.0, 3.0)) - 0.25)), t::sc('-', t::l("M"), 0.25), 2, 2));
    v.push(("c-M", Box::new((0.25 - mul((2.0, 3.0)))), t::sc('r', t::l("M"), 0.25), 2, 2));
    v.push(("M*c", Box::new((mul((2.0, 3.0)) * 0.25)), t::sc('*', t::l("M"), 0.25), 2, 2));
    v.push(("c*M", Box::new((0.25 * mul((2.0, 3.0)))), t::sc('*', t::l("M"), 0.25), 2, 2));
    v.push(("!G", Box::new((!mul(0.5))), t::thru(t::l("G")), 1, 1));
    v.push(("-G", Box::new((-mul(0.5))), t::neg(t::l("G")), 1, 1));
    v.push(("G+c", Box::new((mul(0.5) + 0.25)), t::sc('+', t::l("G"), 0.25), 1, 1));
    v.push(("c+G", Box::new((0.25 + mul(0.5))), t::sc('+', t::l("G"), 0.25), 1, 1));
    v.push(("G-c", Box::new((mul(0.5) - 0.25)), t::sc('-', t::l("G"), 0.25), 1, 1));
    v.push(("c-G", Box::new((0.25 - mul(0.5))), t::sc('r', t::l("G"), 0.25), 1, 1));
}
#[inline(never)]
fn chunk1(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("G*c", Box::new((mul(0.5) * 0.25)), t::sc('*', t::l("G"), 0.25), 1, 1));
    v.push(("c*G", Box::new((0.25 * mul(0.5))), t::sc('*', t::l("G"), 0.25), 1, 1));
    v.push(("!N", Box::new((!dc((2.0, -3.0)))), t::thru(t::l("N")), 0, 0));
    v.push(("-N", Box::new((-dc((2.0, -3.0)))), t::neg(t::l("N")), 0, 2));
    v.push(("N+c", Box::new((dc((2.0, -3.0)) + 0.25)), t::sc('+', t::l("N"), 0.25), 0, 2));
    v.push(("c+N", Box::new((0.25 + dc((2.0, -3.0)))), t::sc('+', t::l("N"), 0.25), 0, 2));
    v.push(("N-c", Box::new((dc((2.0, -3.0)) - 0.25)), t::sc('-', t::l("N"), 0.25), 0, 2));
    v.push(("c-N", Box::new((0.25 - dc((2.0, -3.0)))), t::sc('r', t::l("N"), 0.25), 0, 2));
    v.push(("N*c", Box::new((dc((2.0, -3.0)) * 0.25)), t::sc('*', t::l("N"), 0.25), 0, 2));
    v.push(("c*N", Box::new((0.25 * dc((2.0, -3.0)))), t::sc('*', t::l("N"), 0.25), 0, 2));
    v.push(("!S", Box::new((!sink())), t::thru(t::l("S")), 1, 1));
    v.push(("!R", Box::new((!reverse::<U2>())), t::thru(t::l("R")), 2, 2));
    v.push(("-R", Box::new((-reverse::<U2>())), t::neg(t::l("R")), 2, 2));
    v.push(("R+c", Box::new((reverse::<U2>() + 0.25)), t::sc('+', t::l("R"), 0.25), 2, 2));
    v.push(("c+R", Box::new((0.25 + reverse::<U2>())), t::sc('+', t::l("R"), 0.25), 2, 2));
    v.push(("R-c", Box::new((reverse::<U2>() - 0.25)), t::sc('-', t::l("R"), 0.25), 2, 2));
    v.push(("c-R", Box::new((0.25 - reverse::<U2>())), t::sc('r', t::l("R"), 0.25), 2, 2));
    v.push(("R*c", Box::new((reverse::<U2>() * 0.25)), t::sc('*', t::l("R"), 0.25), 2, 2));
    v.push(("c*R", Box::new((0.25 * reverse::<U2>())), t::sc('*', t::l("R"), 0.25), 2, 2));
    v.push(("!A", Box::new((!add(1.5))), t::thru(t::l("A")), 1, 1));
    v.push(("-A", Box::new((-add(1.5))), t::neg(t::l("A")), 1, 1));
    v.push(("A+c", Box::new((add(1.5) + 0.25)), t::sc('+', t::l("A"), 0.25), 1, 1));
    v.push(("c+A", Box::new((0.25 + add(1.5))), t::sc('+', t::l("A"), 0.25), 1, 1));
    v.push(("A-c", Box::new((add(1.5) - 0.25)), t::sc('-', t::l("A"), 0.25), 1, 1));
    v.push(("c-A", Box::new((0.25 - add(1.5))), t::sc('r', t::l("A"), 0.25), 1, 1));
    v.push(("A*c", Box::new((add(1.5) * 0.25)), t::sc('*', t::l("A"), 0.25), 1, 1));
    v.push(("c*A", Box::new((0.25 * add(1.5))), t::sc('*', t::l("A"), 0.25), 1, 1));
    v.push(("!Z", Box::new((!zero())), t::thru(t::l("Z")), 0, 0));
    v.push(("-Z", Box::new((-zero())), t::neg(t::l("Z")), 0, 1));
    v.push(("Z+c", Box::new((zero() + 0.25)), t::sc('+', t::l("Z"), 0.25), 0, 1));
    v.push(("c+Z", Box::new((0.25 + zero())), t::sc('+', t::l("Z"), 0.25), 0, 1));
    v.push(("Z-c", Box::new((zero() - 0.25)), t::sc('-', t::l("Z"), 0.25), 0, 1));
    v.push(("c-Z", Box::new((0.25 - zero())), t::sc('r', t::l("Z"), 0.25), 0, 1));
    v.push(("Z*c", Box::new((zero() * 0.25)), t::sc('*', t::l("Z"), 0.25), 0, 1));
    v.push(("c*Z", Box::new((0.25 * zero())), t::sc('*', t::l("Z"), 0.25), 0, 1));
    v.push(("!P", Box::new((!pass())), t::thru(t::l("P")), 1, 1));
    v.push(("-P", Box::new((-pass())), t::neg(t::l("P")), 1, 1));
    v.push(("P+c", Box::new((pass() + 0.25)), t::sc('+', t::l("P"), 0.25), 1, 1));
    v.push(("c+P", Box::new((0.25 + pass())), t::sc('+', t::l("P"), 0.25), 1, 1));
    v.push(("P-c", Box::new((pass() - 0.25)), t::sc('-', t::l("P"), 0.25), 1, 1));
    v.push(("c-P", Box::new((0.25 - pass())), t::sc('r', t::l("P"), 0.25), 1, 1));
    v.push(("P*c", Box::new((pass() * 0.25)), t::sc('*', t::l("P"), 0.25), 1, 1));
    v.push(("c*P", Box::new((0.25 * pass())), t::sc('*', t::l("P"), 0.25), 1, 1));
    v.push(("!I", Box::new((!sub((1.0, 2.0)))), t::thru(t::l("I")), 2, 2));
    v.push(("-I", Box::new((-sub((1.0, 2.0)))), t::neg(t::l("I")), 2, 2));
    v.push(("I+c", Box::new((sub((1.0, 2.0)) + 0.25)), t::sc('+', t::l("I"), 0.25), 2, 2));
    v.push(("c+I", Box::new((0.25 + sub((1.0, 2.0)))), t::sc('+', t::l("I"), 0.25), 2, 2));
    v.push(("I-c", Box::new((sub((1.0, 2.0)) - 0.25)), t::sc('-', t::l("I"), 0.25), 2, 2));
    v.push(("c-I", Box::new((0.25 - sub((1.0, 2.0)))), t::sc('r', t::l("I"), 0.25), 2, 2));
    v.push(("I*c", Box::new((sub((1.0, 2.0)) * 0.25)), t::sc('*', t::l("I"), 0.25), 2, 2));
    v.push(("c*I", Box::new((0.25 * sub((1.0, 2.0)))), t::sc('*', t::l("I"), 0.25), 2, 2));
    v.push(("!Q", Box::new((!delay(3.0 / 44100.0))), t::thru(t::l("Q")), 1, 1));
    v.push(("-Q", Box::new((-delay(3.0 / 44100.0))), t::neg(t::l("Q")), 1, 1));
    v.push(("Q+c", Box::new((delay(3.0 / 44100.0) + 0.25)), t::sc('+', t::l("Q"), 0.25), 1, 1));
    v.push(("c+Q", Box::new((0.25 + delay(3.0 / 44100.0))), t::sc('+', t::l("Q"), 0.25), 1, 1));
    v.push(("Q-c", Box::new((delay(3.0 / 44100.0) - 0.25)), t::sc('-', t::l("Q"), 0.25), 1, 1));
    v.push(("c-Q", Box::new((0.25 - delay(3.0 / 44100.0))), t::sc('r', t::l("Q"), 0.25), 1, 1));
    v.push(("Q*c", Box::new((delay(3.0 / 44100.0) * 0.25)), t::sc('*', t::l("Q"), 0.25), 1, 1));
    v.push(("c*Q", Box::new((0.25 * delay(3.0 / 44100.0))), t::sc('*', t::l("Q"), 0.25), 1, 1));
    v.push(("(T*Z)", Box::new((tick() * zero())), t::prod(t::l("T"), t::l("Z")), 1, 1));
}
#[inline(never)]
fn chunk2(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("(D>>G)", Box::new((dc(0.75) >> mul(0.5))), t::pipe(t::l("D"), t::l("G")), 0, 1));
    v.push(("(D*G)", Box::new((dc(0.75) * mul(0.5))), t::prod(t::l("D"), t::l("G")), 1, 1));
    v.push(("(D>>S)", Box::new((dc(0.75) >> sink())), t::pipe(t::l("D"), t::l("S")), 0, 0));
    v.push(("(D>>A)", Box::new((dc(0.75) >> add(1.5))), t::pipe(t::l("D"), t::l("A")), 0, 1));
    v.push(("(D*A)", Box::new((dc(0.75) * add(1.5))), t::prod(t::l("D"), t::l("A")), 1, 1));
    v.push(("(D>>P)", Box::new((dc(0.75) >> pass())), t::pipe(t::l("D"), t::l("P")), 0, 1));
    v.push(("(D*P)", Box::new((dc(0.75) * pass())), t::prod(t::l("D"), t::l("P")), 1, 1));
    v.push(("(D>>Q)", Box::new((dc(0.75) >> delay(3.0 / 44100.0))), t::pipe(t::l("D"), t::l("Q")), 0, 1));
    v.push(("(D*Q)", Box::new((dc(0.75) * delay(3.0 / 44100.0))), t::prod(t::l("D"), t::l("Q")), 1, 1));
    v.push(("(J^R)", Box::new((join::<U2>() ^ reverse::<U2>())), t::branch(t::l("J"), t::l("R")), 2, 3));
    v.push(("(J*Z)", Box::new((join::<U2>() * zero())), t::prod(t::l("J"), t::l("Z")), 2, 1));
    v.push(("(J^I)", Box::new((join::<U2>() ^ sub((1.0, 2.0)))), t::branch(t::l("J"), t::l("I")), 2, 3));
    v.push(("(B^G)", Box::new((split::<U2>() ^ mul(0.5))), t::branch(t::l("B"), t::l("G")), 1, 3));
    v.push(("(B^S)", Box::new((split::<U2>() ^ sink())), t::branch(t::l("B"), t::l("S")), 1, 2));
    v.push(("(B^A)", Box::new((split::<U2>() ^ add(1.5))), t::branch(t::l("B"), t::l("A")), 1, 3));
    v.push(("(B^P)", Box::new((split::<U2>() ^ pass())), t::branch(t::l("B"), t::l("P")), 1, 3));
    v.push(("(B^Q)", Box::new((split::<U2>() ^ delay(3.0 / 44100.0))), t::branch(t::l("B"), t::l("Q")), 1, 3));
    v.push(("(M*N)", Box::new((mul((2.0, 3.0)) * dc((2.0, -3.0)))), t::prod(t::l("M"), t::l("N")), 2, 2));
    v.push(("(M>>R)", Box::new((mul((2.0, 3.0)) >> reverse::<U2>())), t::pipe(t::l("M"), t::l("R")), 2, 2));
    v.push(("(M^R)", Box::new((mul((2.0, 3.0)) ^ reverse::<U2>())), t::branch(t::l("M"), t::l("R")), 2, 4));
    v.push(("(M&R)", Box::new((mul((2.0, 3.0)) & reverse::<U2>())), t::bus(t::l("M"), t::l("R")), 2, 2));
    v.push(("(M*R)", Box::new((mul((2.0, 3.0)) * reverse::<U2>())), t::prod(t::l("M"), t::l("R")), 4, 2));
    v.push(("(M>>I)", Box::new((mul((2.0, 3.0)) >> sub((1.0, 2.0)))), t::pipe(t::l("M"), t::l("I")), 2, 2));
    v.push(("(M^I)", Box::new((mul((2.0, 3.0)) ^ sub((1.0, 2.0)))), t::branch(t::l("M"), t::l("I")), 2, 4));
    v.push(("(M&I)", Box::new((mul((2.0, 3.0)) & sub((1.0, 2.0)))), t::bus(t::l("M"), t::l("I")), 2, 2));
    v.push(("(M*I)", Box::new((mul((2.0, 3.0)) * sub((1.0, 2.0)))), t::prod(t::l("M"), t::l("I")), 4, 2));
    v.push(("(G*D)", Box::new((mul(0.5) * dc(0.75))), t::prod(t::l("G"), t::l("D")), 1, 1));
    v.push(("(G>>B)", Box::new((mul(0.5) >> split::<U2>())), t::pipe(t::l("G"), t::l("B")), 1, 2));
    v.push(("(G^B)", Box::new((mul(0.5) ^ split::<U2>())), t::branch(t::l("G"), t::l("B")), 1, 3));
    v.push(("(N>>J)", Box::new((dc((2.0, -3.0)) >> join::<U2>())), t::pipe(t::l("N"), t::l("J")), 0, 1));
    v.push(("(N>>M)", Box::new((dc((2.0, -3.0)) >> mul((2.0, 3.0)))), t::pipe(t::l("N"), t::l("M")), 0, 2));
    v.push(("(N*M)", Box::new((dc((2.0, -3.0)) * mul((2.0, 3.0)))), t::prod(t::l("N"), t::l("M")), 2, 2));
    v.push(("(S^B)", Box::new((sink() ^ split::<U2>())), t::branch(t::l("S"), t::l("B")), 1, 2));
    v.push(("(R>>J)", Box::new((reverse::<U2>() >> join::<U2>())), t::pipe(t::l("R"), t::l("J")), 2, 1));
    v.push(("(R^J)", Box::new((reverse::<U2>() ^ join::<U2>())), t::branch(t::l("R"), t::l("J")), 2, 3));
    v.push(("(R>>M)", Box::new((reverse::<U2>() >> mul((2.0, 3.0)))), t::pipe(t::l("R"), t::l("M")), 2, 2));
    v.push(("(R^M)", Box::new((reverse::<U2>() ^ mul((2.0, 3.0)))), t::branch(t::l("R"), t::l("M")), 2, 4));
    v.push(("(R&M)", Box::new((reverse::<U2>() & mul((2.0, 3.0)))), t::bus(t::l("R"), t::l("M")), 2, 2));
    v.push(("(R*M)", Box::new((reverse::<U2>() * mul((2.0, 3.0)))), t::prod(t::l("R"), t::l("M")), 4, 2));
    v.push(("(A*D)", Box::new((add(1.5) * dc(0.75))), t::prod(t::l("A"), t::l("D")), 1, 1));
    v.push(("(A>>B)", Box::new((add(1.5) >> split::<U2>())), t::pipe(t::l("A"), t::l("B")), 1, 2));
    v.push(("(A^B)", Box::new((add(1.5) ^ split::<U2>())), t::branch(t::l("A"), t::l("B")), 1, 3));
    v.push(("(Z>>T)", Box::new((zero() >> tick())), t::pipe(t::l("Z"), t::l("T")), 0, 1));
    v.push(("(Z*T)", Box::new((zero() * tick())), t::prod(t::l("Z"), t::l("T")), 1, 1));
    v.push(("(Z*J)", Box::new((zero() * join::<U2>())), t::prod(t::l("Z"), t::l("J")), 2, 1));
    v.push(("(P*D)", Box::new((pass() * dc(0.75))), t::prod(t::l("P"), t::l("D")), 1, 1));
    v.push(("(P>>B)", Box::new((pass() >> split::<U2>())), t::pipe(t::l("P"), t::l("B")), 1, 2));
    v.push(("(P^B)", Box::new((pass() ^ split::<U2>())), t::branch(t::l("P"), t::l("B")), 1, 3));
    v.push(("(I>>J)", Box::new((sub((1.0, 2.0)) >> join::<U2>())), t::pipe(t::l("I"), t::l("J")), 2, 1));
    v.push(("(I^J)", Box::new((sub((1.0, 2.0)) ^ join::<U2>())), t::branch(t::l("I"), t::l("J")), 2, 3));
    v.push(("(I>>M)", Box::new((sub((1.0, 2.0)) >> mul((2.0, 3.0)))), t::pipe(t::l("I"), t::l("M")), 2, 2));
    v.push(("(I^M)", Box::new((sub((1.0, 2.0)) ^ mul((2.0, 3.0)))), t::branch(t::l("I"), t::l("M")), 2, 4));
    v.push(("(I&M)", Box::new((sub((1.0, 2.0)) & mul((2.0, 3.0)))), t::bus(t::l("I"), t::l("M")), 2, 2));
    v.push(("(I*M)", Box::new((sub((1.0, 2.0)) * mul((2.0, 3.0)))), t::prod(t::l("I"), t::l("M")), 4, 2));
    v.push(("(Q*D)", Box::new((delay(3.0 / 44100.0) * dc(0.75))), t::prod(t::l("Q"), t::l("D")), 1, 1));
    v.push(("(Q>>B)", Box::new((delay(3.0 / 44100.0) >> split::<U2>())), t::pipe(t::l("Q"), t::l("B")), 1, 2));
    v.push(("(Q^B)", Box::new((delay(3.0 / 44100.0) ^ split::<U2>())), t::branch(t::l("Q"), t::l("B")), 1, 3));
    v.push(("(T>>T)", Box::new((tick() >> tick())), t::pipe(t::l("T"), t::l("T")), 1, 1));
    v.push(("(T|T)", Box::new((tick() | tick())), t::stack(t::l("T"), t::l("T")), 2, 2));
    v.push(("(T^T)", Box::new((tick() ^ tick())), t::branch(t::l("T"), t::l("T")), 1, 2));
}
#[inline(never)]
fn chunk3(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("(T&T)", Box::new((tick() & tick())), t::bus(t::l("T"), t::l("T")), 1, 1));
    v.push(("(T+T)", Box::new((tick() + tick())), t::sum(t::l("T"), t::l("T")), 2, 1));
    v.push(("(T-T)", Box::new((tick() - tick())), t::diff(t::l("T"), t::l("T")), 2, 1));
    v.push(("(T*T)", Box::new((tick() * tick())), t::prod(t::l("T"), t::l("T")), 2, 1));
    v.push(("(T|D)", Box::new((tick() | dc(0.75))), t::stack(t::l("T"), t::l("D")), 1, 2));
    v.push(("(T+D)", Box::new((tick() + dc(0.75))), t::sum(t::l("T"), t::l("D")), 1, 1));
    v.push(("(T-D)", Box::new((tick() - dc(0.75))), t::diff(t::l("T"), t::l("D")), 1, 1));
    v.push(("(T*D)", Box::new((tick() * dc(0.75))), t::prod(t::l("T"), t::l("D")), 1, 1));
    v.push(("(T|J)", Box::new((tick() | join::<U2>())), t::stack(t::l("T"), t::l("J")), 3, 2));
    v.push(("(T+J)", Box::new((tick() + join::<U2>())), t::sum(t::l("T"), t::l("J")), 3, 1));
    v.push(("(T-J)", Box::new((tick() - join::<U2>())), t::diff(t::l("T"), t::l("J")), 3, 1));
    v.push(("(T*J)", Box::new((tick() * join::<U2>())), t::prod(t::l("T"), t::l("J")), 3, 1));
    v.push(("(T>>B)", Box::new((tick() >> split::<U2>())), t::pipe(t::l("T"), t::l("B")), 1, 2));
    v.push(("(T|B)", Box::new((tick() | split::<U2>())), t::stack(t::l("T"), t::l("B")), 2, 3));
    v.push(("(T^B)", Box::new((tick() ^ split::<U2>())), t::branch(t::l("T"), t::l("B")), 1, 3));
    v.push(("(T|M)", Box::new((tick() | mul((2.0, 3.0)))), t::stack(t::l("T"), t::l("M")), 3, 3));
    v.push(("(D>>T)", Box::new((dc(0.75) >> tick())), t::pipe(t::l("D"), t::l("T")), 0, 1));
    v.push(("(D|T)", Box::new((dc(0.75) | tick())), t::stack(t::l("D"), t::l("T")), 1, 2));
    v.push(("(D+T)", Box::new((dc(0.75) + tick())), t::sum(t::l("D"), t::l("T")), 1, 1));
    v.push(("(D-T)", Box::new((dc(0.75) - tick())), t::diff(t::l("D"), t::l("T")), 1, 1));
    v.push(("(D*T)", Box::new((dc(0.75) * tick())), t::prod(t::l("D"), t::l("T")), 1, 1));
    v.push(("(D|D)", Box::new((dc(0.75) | dc(0.75))), t::stack(t::l("D"), t::l("D")), 0, 2));
    v.push(("(D^D)", Box::new((dc(0.75) ^ dc(0.75))), t::branch(t::l("D"), t::l("D")), 0, 2));
    v.push(("(D&D)", Box::new((dc(0.75) & dc(0.75))), t::bus(t::l("D"), t::l("D")), 0, 1));
    v.push(("(D+D)", Box::new((dc(0.75) + dc(0.75))), t::sum(t::l("D"), t::l("D")), 0, 1));
    v.push(("(D-D)", Box::new((dc(0.75) - dc(0.75))), t::diff(t::l("D"), t::l("D")), 0, 1));
    v.push(("(D*D)", Box::new((dc(0.75) * dc(0.75))), t::prod(t::l("D"), t::l("D")), 0, 1));
    v.push(("(D|J)", Box::new((dc(0.75) | join::<U2>())), t::stack(t::l("D"), t::l("J")), 2, 2));
    v.push(("(D+J)", Box::new((dc(0.75) + join::<U2>())), t::sum(t::l("D"), t::l("J")), 2, 1));
    v.push(("(D-J)", Box::new((dc(0.75) - join::<U2>())), t::diff(t::l("D"), t::l("J")), 2, 1));
    v.push(("(D*J)", Box::new((dc(0.75) * join::<U2>())), t::prod(t::l("D"), t::l("J")), 2, 1));
    v.push(("(D>>B)", Box::new((dc(0.75) >> split::<U2>())), t::pipe(t::l("D"), t::l("B")), 0, 2));
    v.push(("(D|B)", Box::new((dc(0.75) | split::<U2>())), t::stack(t::l("D"), t::l("B")), 1, 3));
    v.push(("(D|M)", Box::new((dc(0.75) | mul((2.0, 3.0)))), t::stack(t::l("D"), t::l("M")), 2, 3));
    v.push(("(J>>T)", Box::new((join::<U2>() >> tick())), t::pipe(t::l("J"), t::l("T")), 2, 1));
    v.push(("(J|T)", Box::new((join::<U2>() | tick())), t::stack(t::l("J"), t::l("T")), 3, 2));
    v.push(("(J+T)", Box::new((join::<U2>() + tick())), t::sum(t::l("J"), t::l("T")), 3, 1));
    v.push(("(J-T)", Box::new((join::<U2>() - tick())), t::diff(t::l("J"), t::l("T")), 3, 1));
    v.push(("(J*T)", Box::new((join::<U2>() * tick())), t::prod(t::l("J"), t::l("T")), 3, 1));
    v.push(("(J|D)", Box::new((join::<U2>() | dc(0.75))), t::stack(t::l("J"), t::l("D")), 2, 2));
    v.push(("(J+D)", Box::new((join::<U2>() + dc(0.75))), t::sum(t::l("J"), t::l("D")), 2, 1));
    v.push(("(J-D)", Box::new((join::<U2>() - dc(0.75))), t::diff(t::l("J"), t::l("D")), 2, 1));
    v.push(("(J*D)", Box::new((join::<U2>() * dc(0.75))), t::prod(t::l("J"), t::l("D")), 2, 1));
    v.push(("(J|J)", Box::new((join::<U2>() | join::<U2>())), t::stack(t::l("J"), t::l("J")), 4, 2));
    v.push(("(J^J)", Box::new((join::<U2>() ^ join::<U2>())), t::branch(t::l("J"), t::l("J")), 2, 2));
    v.push(("(J&J)", Box::new((join::<U2>() & join::<U2>())), t::bus(t::l("J"), t::l("J")), 2, 1));
    v.push(("(J+J)", Box::new((join::<U2>() + join::<U2>())), t::sum(t::l("J"), t::l("J")), 4, 1));
    v.push(("(J-J)", Box::new((join::<U2>() - join::<U2>())), t::diff(t::l("J"), t::l("J")), 4, 1));
    v.push(("(J*J)", Box::new((join::<U2>() * join::<U2>())), t::prod(t::l("J"), t::l("J")), 4, 1));
    v.push(("(J>>B)", Box::new((join::<U2>() >> split::<U2>())), t::pipe(t::l("J"), t::l("B")), 2, 2));
    v.push(("(J|B)", Box::new((join::<U2>() | split::<U2>())), t::stack(t::l("J"), t::l("B")), 3, 3));
    v.push(("(J|M)", Box::new((join::<U2>() | mul((2.0, 3.0)))), t::stack(t::l("J"), t::l("M")), 4, 3));
    v.push(("(J^M)", Box::new((join::<U2>() ^ mul((2.0, 3.0)))), t::branch(t::l("J"), t::l("M")), 2, 3));
    v.push(("(B|T)", Box::new((split::<U2>() | tick())), t::stack(t::l("B"), t::l("T")), 2, 3));
    v.push(("(B^T)", Box::new((split::<U2>() ^ tick())), t::branch(t::l("B"), t::l("T")), 1, 3));
    v.push(("(B|D)", Box::new((split::<U2>() | dc(0.75))), t::stack(t::l("B"), t::l("D")), 1, 3));
    v.push(("(B>>J)", Box::new((split::<U2>() >> join::<U2>())), t::pipe(t::l("B"), t::l("J")), 1, 1));
    v.push(("(B|J)", Box::new((split::<U2>() | join::<U2>())), t::stack(t::l("B"), t::l("J")), 3, 3));
    v.push(("(B|B)", Box::new((split::<U2>() | split::<U2>())), t::stack(t::l("B"), t::l("B")), 2, 4));
    v.push(("(B^B)", Box::new((split::<U2>() ^ split::<U2>())), t::branch(t::l("B"), t::l("B")), 1, 4));
}
#[inline(never)]
fn chunk4(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("(B&B)", Box::new((split::<U2>() & split::<U2>())), t::bus(t::l("B"), t::l("B")), 1, 2));
    v.push(("(B+B)", Box::new((split::<U2>() + split::<U2>())), t::sum(t::l("B"), t::l("B")), 2, 2));
    v.push(("(B-B)", Box::new((split::<U2>() - split::<U2>())), t::diff(t::l("B"), t::l("B")), 2, 2));
    v.push(("(B*B)", Box::new((split::<U2>() * split::<U2>())), t::prod(t::l("B"), t::l("B")), 2, 2));
    v.push(("(B>>M)", Box::new((split::<U2>() >> mul((2.0, 3.0)))), t::pipe(t::l("B"), t::l("M")), 1, 2));
    v.push(("(B|M)", Box::new((split::<U2>() | mul((2.0, 3.0)))), t::stack(t::l("B"), t::l("M")), 3, 4));
    v.push(("(B+M)", Box::new((split::<U2>() + mul((2.0, 3.0)))), t::sum(t::l("B"), t::l("M")), 3, 2));
    v.push(("(B-M)", Box::new((split::<U2>() - mul((2.0, 3.0)))), t::diff(t::l("B"), t::l("M")), 3, 2));
    v.push(("(B*M)", Box::new((split::<U2>() * mul((2.0, 3.0)))), t::prod(t::l("B"), t::l("M")), 3, 2));
    v.push(("(M|T)", Box::new((mul((2.0, 3.0)) | tick())), t::stack(t::l("M"), t::l("T")), 3, 3));
    v.push(("(M|D)", Box::new((mul((2.0, 3.0)) | dc(0.75))), t::stack(t::l("M"), t::l("D")), 2, 3));
    v.push(("(M>>J)", Box::new((mul((2.0, 3.0)) >> join::<U2>())), t::pipe(t::l("M"), t::l("J")), 2, 1));
    v.push(("(M|J)", Box::new((mul((2.0, 3.0)) | join::<U2>())), t::stack(t::l("M"), t::l("J")), 4, 3));
    v.push(("(M^J)", Box::new((mul((2.0, 3.0)) ^ join::<U2>())), t::branch(t::l("M"), t::l("J")), 2, 3));
    v.push(("(M|B)", Box::new((mul((2.0, 3.0)) | split::<U2>())), t::stack(t::l("M"), t::l("B")), 3, 4));
    v.push(("(M+B)", Box::new((mul((2.0, 3.0)) + split::<U2>())), t::sum(t::l("M"), t::l("B")), 3, 2));
    v.push(("(M-B)", Box::new((mul((2.0, 3.0)) - split::<U2>())), t::diff(t::l("M"), t::l("B")), 3, 2));
    v.push(("(M*B)", Box::new((mul((2.0, 3.0)) * split::<U2>())), t::prod(t::l("M"), t::l("B")), 3, 2));
    v.push(("(M>>M)", Box::new((mul((2.0, 3.0)) >> mul((2.0, 3.0)))), t::pipe(t::l("M"), t::l("M")), 2, 2));
    v.push(("(M|M)", Box::new((mul((2.0, 3.0)) | mul((2.0, 3.0)))), t::stack(t::l("M"), t::l("M")), 4, 4));
    v.push(("(M^M)", Box::new((mul((2.0, 3.0)) ^ mul((2.0, 3.0)))), t::branch(t::l("M"), t::l("M")), 2, 4));
    v.push(("(M&M)", Box::new((mul((2.0, 3.0)) & mul((2.0, 3.0)))), t::bus(t::l("M"), t::l("M")), 2, 2));
    v.push(("(M+M)", Box::new((mul((2.0, 3.0)) + mul((2.0, 3.0)))), t::sum(t::l("M"), t::l("M")), 4, 2));
    v.push(("(M-M)", Box::new((mul((2.0, 3.0)) - mul((2.0, 3.0)))), t::diff(t::l("M"), t::l("M")), 4, 2));
    v.push(("(M*M)", Box::new((mul((2.0, 3.0)) * mul((2.0, 3.0)))), t::prod(t::l("M"), t::l("M")), 4, 2));
    v.push(("!(T>>T)", Box::new((!(tick() >> tick()))), t::thru(t::pipe(t::l("T"), t::l("T"))), 1, 1));
    v.push(("-(T>>T)", Box::new((-(tick() >> tick()))), t::neg(t::pipe(t::l("T"), t::l("T"))), 1, 1));
    v.push(("(T>>T)+c", Box::new(((tick() >> tick()) + 0.25)), t::sc('+', t::pipe(t::l("T"), t::l("T")), 0.25), 1, 1));
    v.push(("(D>>(T>>T))", Box::new((dc(0.75) >> (tick() >> tick()))), t::pipe(t::l("D"), t::pipe(t::l("T"), t::l("T"))), 0, 1));
    v.push(("(D+(T>>T))", Box::new((dc(0.75) + (tick() >> tick()))), t::sum(t::l("D"), t::pipe(t::l("T"), t::l("T"))), 1, 1));
    v.push(("((T>>T)+J)", Box::new(((tick() >> tick()) + join::<U2>())), t::sum(t::pipe(t::l("T"), t::l("T")), t::l("J")), 3, 1));
    v.push(("!(T|T)", Box::new((!(tick() | tick()))), t::thru(t::stack(t::l("T"), t::l("T"))), 2, 2));
    v.push(("-(T|T)", Box::new((-(tick() | tick()))), t::neg(t::stack(t::l("T"), t::l("T"))), 2, 2));
    v.push(("c*(T|T)", Box::new((0.25 * (tick() | tick()))), t::sc('*', t::stack(t::l("T"), t::l("T")), 0.25), 2, 2));
    v.push(("(J^(T|T))", Box::new((join::<U2>() ^ (tick() | tick()))), t::branch(t::l("J"), t::stack(t::l("T"), t::l("T"))), 2, 3));
    v.push(("(J|(T|T))", Box::new((join::<U2>() | (tick() | tick()))), t::stack(t::l("J"), t::stack(t::l("T"), t::l("T"))), 4, 3));
    v.push(("((T|T)|B)", Box::new(((tick() | tick()) | split::<U2>())), t::stack(t::stack(t::l("T"), t::l("T")), t::l("B")), 3, 4));
    v.push(("!(T^T)", Box::new((!(tick() ^ tick()))), t::thru(t::branch(t::l("T"), t::l("T"))), 1, 1));
    v.push(("-(T^T)", Box::new((-(tick() ^ tick()))), t::neg(t::branch(t::l("T"), t::l("T"))), 1, 2));
    v.push(("(T^T)*c", Box::new(((tick() ^ tick()) * 0.25)), t::sc('*', t::branch(t::l("T"), t::l("T")), 0.25), 1, 2));
    v.push(("((T^T)^T)", Box::new(((tick() ^ tick()) ^ tick())), t::branch(t::branch(t::l("T"), t::l("T")), t::l("T")), 1, 3));
    v.push(("(D>>(T^T))", Box::new((dc(0.75) >> (tick() ^ tick()))), t::pipe(t::l("D"), t::branch(t::l("T"), t::l("T"))), 0, 2));
    v.push(("(B^(T^T))", Box::new((split::<U2>() ^ (tick() ^ tick()))), t::branch(t::l("B"), t::branch(t::l("T"), t::l("T"))), 1, 4));
    v.push(("(B&(T^T))", Box::new((split::<U2>() & (tick() ^ tick()))), t::bus(t::l("B"), t::branch(t::l("T"), t::l("T"))), 1, 2));
    v.push(("(B*(T^T))", Box::new((split::<U2>() * (tick() ^ tick()))), t::prod(t::l("B"), t::branch(t::l("T"), t::l("T"))), 2, 2));
    v.push(("((T^T)>>M)", Box::new(((tick() ^ tick()) >> mul((2.0, 3.0)))), t::pipe(t::branch(t::l("T"), t::l("T")), t::l("M")), 1, 2));
    v.push(("((T^T)*M)", Box::new(((tick() ^ tick()) * mul((2.0, 3.0)))), t::prod(t::branch(t::l("T"), t::l("T")), t::l("M")), 3, 2));
    v.push(("!(T&T)", Box::new((!(tick() & tick()))), t::thru(t::bus(t::l("T"), t::l("T"))), 1, 1));
    v.push(("-(T&T)", Box::new((-(tick() & tick()))), t::neg(t::bus(t::l("T"), t::l("T"))), 1, 1));
    v.push(("c-(T&T)", Box::new((0.25 - (tick() & tick()))), t::sc('r', t::bus(t::l("T"), t::l("T")), 0.25), 1, 1));
    v.push(("((T&T)|D)", Box::new(((tick() & tick()) | dc(0.75))), t::stack(t::bus(t::l("T"), t::l("T")), t::l("D")), 1, 2));
    v.push(("(J>>(T&T))", Box::new((join::<U2>() >> (tick() & tick()))), t::pipe(t::l("J"), t::bus(t::l("T"), t::l("T"))), 2, 1));
    v.push(("(J+(T&T))", Box::new((join::<U2>() + (tick() & tick()))), t::sum(t::l("J"), t::bus(t::l("T"), t::l("T"))), 3, 1));
    v.push(("!(T+T)", Box::new((!(tick() + tick()))), t::thru(t::sum(t::l("T"), t::l("T"))), 2, 2));
    v.push(("-(T+T)", Box::new((-(tick() + tick()))), t::neg(t::sum(t::l("T"), t::l("T"))), 2, 1));
    v.push(("(T+T)-c", Box::new(((tick() + tick()) - 0.25)), t::sc('-', t::sum(t::l("T"), t::l("T")), 0.25), 2, 1));
    v.push(("((T+T)>>T)", Box::new(((tick() + tick()) >> tick())), t::pipe(t::sum(t::l("T"), t::l("T")), t::l("T")), 2, 1));
    v.push(("((T+T)-T)", Box::new(((tick() + tick()) - tick())), t::diff(t::sum(t::l("T"), t::l("T")), t::l("T")), 3, 1));
    v.push(("((T+T)^J)", Box::new(((tick() + tick()) ^ join::<U2>())), t::branch(t::sum(t::l("T"), t::l("T")), t::l("J")), 2, 2));
    v.push(("((T+T)&J)", Box::new(((tick() + tick()) & join::<U2>())), t::bus(t::sum(t::l("T"), t::l("T")), t::l("J")), 2, 1));
}
#[inline(never)]
fn chunk5(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("((T+T)*J)", Box::new(((tick() + tick()) * join::<U2>())), t::prod(t::sum(t::l("T"), t::l("T")), t::l("J")), 4, 1));
    v.push(("(B>>(T+T))", Box::new((split::<U2>() >> (tick() + tick()))), t::pipe(t::l("B"), t::sum(t::l("T"), t::l("T"))), 1, 1));
    v.push(("(B|(T+T))", Box::new((split::<U2>() | (tick() + tick()))), t::stack(t::l("B"), t::sum(t::l("T"), t::l("T"))), 3, 3));
    v.push(("!(T-T)", Box::new((!(tick() - tick()))), t::thru(t::diff(t::l("T"), t::l("T"))), 2, 2));
    v.push(("-(T-T)", Box::new((-(tick() - tick()))), t::neg(t::diff(t::l("T"), t::l("T"))), 2, 1));
    v.push(("c+(T-T)", Box::new((0.25 + (tick() - tick()))), t::sc('+', t::diff(t::l("T"), t::l("T")), 0.25), 2, 1));
    v.push(("(T+(T-T))", Box::new((tick() + (tick() - tick()))), t::sum(t::l("T"), t::diff(t::l("T"), t::l("T"))), 3, 1));
    v.push(("((T-T)+D)", Box::new(((tick() - tick()) + dc(0.75))), t::sum(t::diff(t::l("T"), t::l("T")), t::l("D")), 2, 1));
    v.push(("((T-T)>>B)", Box::new(((tick() - tick()) >> split::<U2>())), t::pipe(t::diff(t::l("T"), t::l("T")), t::l("B")), 2, 2));
    v.push(("(M>>(T-T))", Box::new((mul((2.0, 3.0)) >> (tick() - tick()))), t::pipe(t::l("M"), t::diff(t::l("T"), t::l("T"))), 2, 1));
    v.push(("(M^(T-T))", Box::new((mul((2.0, 3.0)) ^ (tick() - tick()))), t::branch(t::l("M"), t::diff(t::l("T"), t::l("T"))), 2, 3));
    v.push(("!(T*T)", Box::new((!(tick() * tick()))), t::thru(t::prod(t::l("T"), t::l("T"))), 2, 2));
    v.push(("-(T*T)", Box::new((-(tick() * tick()))), t::neg(t::prod(t::l("T"), t::l("T"))), 2, 1));
    v.push(("(T*T)+c", Box::new(((tick() * tick()) + 0.25)), t::sc('+', t::prod(t::l("T"), t::l("T")), 0.25), 2, 1));
    v.push(("(D|(T*T))", Box::new((dc(0.75) | (tick() * tick()))), t::stack(t::l("D"), t::prod(t::l("T"), t::l("T"))), 2, 2));
    v.push(("((T*T)^J)", Box::new(((tick() * tick()) ^ join::<U2>())), t::branch(t::prod(t::l("T"), t::l("T")), t::l("J")), 2, 2));
    v.push(("((T*T)&J)", Box::new(((tick() * tick()) & join::<U2>())), t::bus(t::prod(t::l("T"), t::l("T")), t::l("J")), 2, 1));
    v.push(("((T*T)|J)", Box::new(((tick() * tick()) | join::<U2>())), t::stack(t::prod(t::l("T"), t::l("T")), t::l("J")), 4, 2));
    v.push(("((T*T)^M)", Box::new(((tick() * tick()) ^ mul((2.0, 3.0)))), t::branch(t::prod(t::l("T"), t::l("T")), t::l("M")), 2, 3));
    v.push(("!(T|D)", Box::new((!(tick() | dc(0.75)))), t::thru(t::stack(t::l("T"), t::l("D"))), 1, 1));
    v.push(("-(T|D)", Box::new((-(tick() | dc(0.75)))), t::neg(t::stack(t::l("T"), t::l("D"))), 1, 2));
    v.push(("c*(T|D)", Box::new((0.25 * (tick() | dc(0.75)))), t::sc('*', t::stack(t::l("T"), t::l("D")), 0.25), 1, 2));
    v.push(("(T>>(T|D))", Box::new((tick() >> (tick() | dc(0.75)))), t::pipe(t::l("T"), t::stack(t::l("T"), t::l("D"))), 1, 2));
    v.push(("(T^(T|D))", Box::new((tick() ^ (tick() | dc(0.75)))), t::branch(t::l("T"), t::stack(t::l("T"), t::l("D"))), 1, 3));
    v.push(("(J>>(T|D))", Box::new((join::<U2>() >> (tick() | dc(0.75)))), t::pipe(t::l("J"), t::stack(t::l("T"), t::l("D"))), 2, 2));
    v.push(("((T|D)^B)", Box::new(((tick() | dc(0.75)) ^ split::<U2>())), t::branch(t::stack(t::l("T"), t::l("D")), t::l("B")), 1, 4));
    v.push(("((T|D)&B)", Box::new(((tick() | dc(0.75)) & split::<U2>())), t::bus(t::stack(t::l("T"), t::l("D")), t::l("B")), 1, 2));
    v.push(("((T|D)*B)", Box::new(((tick() | dc(0.75)) * split::<U2>())), t::prod(t::stack(t::l("T"), t::l("D")), t::l("B")), 2, 2));
    v.push(("!(T+D)", Box::new((!(tick() + dc(0.75)))), t::thru(t::sum(t::l("T"), t::l("D"))), 1, 1));
    v.push(("-(T+D)", Box::new((-(tick() + dc(0.75)))), t::neg(t::sum(t::l("T"), t::l("D"))), 1, 1));
    v.push(("(T+D)*c", Box::new(((tick() + dc(0.75)) * 0.25)), t::sc('*', t::sum(t::l("T"), t::l("D")), 0.25), 1, 1));
    v.push(("((T+D)>>T)", Box::new(((tick() + dc(0.75)) >> tick())), t::pipe(t::sum(t::l("T"), t::l("D")), t::l("T")), 1, 1));
    v.push(("((T+D)^T)", Box::new(((tick() + dc(0.75)) ^ tick())), t::branch(t::sum(t::l("T"), t::l("D")), t::l("T")), 1, 2));
    v.push(("((T+D)&T)", Box::new(((tick() + dc(0.75)) & tick())), t::bus(t::sum(t::l("T"), t::l("D")), t::l("T")), 1, 1));
    v.push(("((T+D)|T)", Box::new(((tick() + dc(0.75)) | tick())), t::stack(t::sum(t::l("T"), t::l("D")), t::l("T")), 2, 2));
    v.push(("(D>>(T+D))", Box::new((dc(0.75) >> (tick() + dc(0.75)))), t::pipe(t::l("D"), t::sum(t::l("T"), t::l("D"))), 0, 1));
    v.push(("(D+(T+D))", Box::new((dc(0.75) + (tick() + dc(0.75)))), t::sum(t::l("D"), t::sum(t::l("T"), t::l("D"))), 1, 1));
    v.push(("(B^(T+D))", Box::new((split::<U2>() ^ (tick() + dc(0.75)))), t::branch(t::l("B"), t::sum(t::l("T"), t::l("D"))), 1, 3));
    v.push(("!(T-D)", Box::new((!(tick() - dc(0.75)))), t::thru(t::diff(t::l("T"), t::l("D"))), 1, 1));
    v.push(("-(T-D)", Box::new((-(tick() - dc(0.75)))), t::neg(t::diff(t::l("T"), t::l("D"))), 1, 1));
    v.push(("c-(T-D)", Box::new((0.25 - (tick() - dc(0.75)))), t::sc('r', t::diff(t::l("T"), t::l("D")), 0.25), 1, 1));
    v.push(("((T-D)*D)", Box::new(((tick() - dc(0.75)) * dc(0.75))), t::prod(t::diff(t::l("T"), t::l("D")), t::l("D")), 1, 1));
    v.push(("(J>>(T-D))", Box::new((join::<U2>() >> (tick() - dc(0.75)))), t::pipe(t::l("J"), t::diff(t::l("T"), t::l("D"))), 2, 1));
    v.push(("(J|(T-D))", Box::new((join::<U2>() | (tick() - dc(0.75)))), t::stack(t::l("J"), t::diff(t::l("T"), t::l("D"))), 3, 2));
    v.push(("!(T*D)", Box::new((!(tick() * dc(0.75)))), t::thru(t::prod(t::l("T"), t::l("D"))), 1, 1));
    v.push(("-(T*D)", Box::new((-(tick() * dc(0.75)))), t::neg(t::prod(t::l("T"), t::l("D"))), 1, 1));
    v.push(("(T*D)-c", Box::new(((tick() * dc(0.75)) - 0.25)), t::sc('-', t::prod(t::l("T"), t::l("D")), 0.25), 1, 1));
    v.push(("((T*D)>>T)", Box::new(((tick() * dc(0.75)) >> tick())), t::pipe(t::prod(t::l("T"), t::l("D")), t::l("T")), 1, 1));
    v.push(("((T*D)^T)", Box::new(((tick() * dc(0.75)) ^ tick())), t::branch(t::prod(t::l("T"), t::l("D")), t::l("T")), 1, 2));
    v.push(("((T*D)&T)", Box::new(((tick() * dc(0.75)) & tick())), t::bus(t::prod(t::l("T"), t::l("D")), t::l("T")), 1, 1));
    v.push(("((T*D)+T)", Box::new(((tick() * dc(0.75)) + tick())), t::sum(t::prod(t::l("T"), t::l("D")), t::l("T")), 2, 1));
    v.push(("((T*D)-J)", Box::new(((tick() * dc(0.75)) - join::<U2>())), t::diff(t::prod(t::l("T"), t::l("D")), t::l("J")), 3, 1));
    v.push(("(B^(T*D))", Box::new((split::<U2>() ^ (tick() * dc(0.75)))), t::branch(t::l("B"), t::prod(t::l("T"), t::l("D"))), 1, 3));
    v.push(("!(T|J)", Box::new((!(tick() | join::<U2>()))), t::thru(t::stack(t::l("T"), t::l("J"))), 3, 3));
    v.push(("-(T|J)", Box::new((-(tick() | join::<U2>()))), t::neg(t::stack(t::l("T"), t::l("J"))), 3, 2));
    v.push(("c+(T|J)", Box::new((0.25 + (tick() | join::<U2>()))), t::sc('+', t::stack(t::l("T"), t::l("J")), 0.25), 3, 2));
    v.push(("(T|(T|J))", Box::new((tick() | (tick() | join::<U2>()))), t::stack(t::l("T"), t::stack(t::l("T"), t::l("J"))), 4, 3));
    v.push(("((T|J)|D)", Box::new(((tick() | join::<U2>()) | dc(0.75))), t::stack(t::stack(t::l("T"), t::l("J")), t::l("D")), 3, 3));
    v.push(("((T|J)+B)", Box::new(((tick() | join::<U2>()) + split::<U2>())), t::sum(t::stack(t::l("T"), t::l("J")), t::l("B")), 4, 2));
    v.push(("(M-(T|J))", Box::new((mul((2.0, 3.0)) - (tick() | join::<U2>()))), t::diff(t::l("M"), t::stack(t::l("T"), t::l("J"))), 5, 2));
}
#[inline(never)]
fn chunk6(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("!(T+J)", Box::new((!(tick() + join::<U2>()))), t::thru(t::sum(t::l("T"), t::l("J"))), 3, 3));
    v.push(("-(T+J)", Box::new((-(tick() + join::<U2>()))), t::neg(t::sum(t::l("T"), t::l("J"))), 3, 1));
    v.push(("(T+J)+c", Box::new(((tick() + join::<U2>()) + 0.25)), t::sc('+', t::sum(t::l("T"), t::l("J")), 0.25), 3, 1));
    v.push(("(D*(T+J))", Box::new((dc(0.75) * (tick() + join::<U2>()))), t::prod(t::l("D"), t::sum(t::l("T"), t::l("J"))), 3, 1));
    v.push(("((T+J)*J)", Box::new(((tick() + join::<U2>()) * join::<U2>())), t::prod(t::sum(t::l("T"), t::l("J")), t::l("J")), 5, 1));
    v.push(("((T+J)|M)", Box::new(((tick() + join::<U2>()) | mul((2.0, 3.0)))), t::stack(t::sum(t::l("T"), t::l("J")), t::l("M")), 5, 3));
    v.push(("!(T-J)", Box::new((!(tick() - join::<U2>()))), t::thru(t::diff(t::l("T"), t::l("J"))), 3, 3));
    v.push(("-(T-J)", Box::new((-(tick() - join::<U2>()))), t::neg(t::diff(t::l("T"), t::l("J"))), 3, 1));
    v.push(("c*(T-J)", Box::new((0.25 * (tick() - join::<U2>()))), t::sc('*', t::diff(t::l("T"), t::l("J")), 0.25), 3, 1));
    v.push(("(T+(T-J))", Box::new((tick() + (tick() - join::<U2>()))), t::sum(t::l("T"), t::diff(t::l("T"), t::l("J"))), 4, 1));
    v.push(("(J-(T-J))", Box::new((join::<U2>() - (tick() - join::<U2>()))), t::diff(t::l("J"), t::diff(t::l("T"), t::l("J"))), 5, 1));
    v.push(("((T-J)>>B)", Box::new(((tick() - join::<U2>()) >> split::<U2>())), t::pipe(t::diff(t::l("T"), t::l("J")), t::l("B")), 3, 2));
    v.push(("!(T*J)", Box::new((!(tick() * join::<U2>()))), t::thru(t::prod(t::l("T"), t::l("J"))), 3, 3));
    v.push(("-(T*J)", Box::new((-(tick() * join::<U2>()))), t::neg(t::prod(t::l("T"), t::l("J"))), 3, 1));
    v.push(("(T*J)*c", Box::new(((tick() * join::<U2>()) * 0.25)), t::sc('*', t::prod(t::l("T"), t::l("J")), 0.25), 3, 1));
    v.push(("((T*J)>>T)", Box::new(((tick() * join::<U2>()) >> tick())), t::pipe(t::prod(t::l("T"), t::l("J")), t::l("T")), 3, 1));
    v.push(("((T*J)*T)", Box::new(((tick() * join::<U2>()) * tick())), t::prod(t::prod(t::l("T"), t::l("J")), t::l("T")), 4, 1));
    v.push(("(D|(T*J))", Box::new((dc(0.75) | (tick() * join::<U2>()))), t::stack(t::l("D"), t::prod(t::l("T"), t::l("J"))), 3, 2));
    v.push(("!(T>>B)", Box::new((!(tick() >> split::<U2>()))), t::thru(t::pipe(t::l("T"), t::l("B"))), 1, 1));
    v.push(("-(T>>B)", Box::new((-(tick() >> split::<U2>()))), t::neg(t::pipe(t::l("T"), t::l("B"))), 1, 2));
    v.push(("c-(T>>B)", Box::new((0.25 - (tick() >> split::<U2>()))), t::sc('r', t::pipe(t::l("T"), t::l("B")), 0.25), 1, 2));
    v.push(("(J>>(T>>B))", Box::new((join::<U2>() >> (tick() >> split::<U2>()))), t::pipe(t::l("J"), t::pipe(t::l("T"), t::l("B"))), 2, 2));
    v.push(("(M|(T>>B))", Box::new((mul((2.0, 3.0)) | (tick() >> split::<U2>()))), t::stack(t::l("M"), t::pipe(t::l("T"), t::l("B"))), 3, 4));
    v.push(("!(T|B)", Box::new((!(tick() | split::<U2>()))), t::thru(t::stack(t::l("T"), t::l("B"))), 2, 2));
    v.push(("-(T|B)", Box::new((-(tick() | split::<U2>()))), t::neg(t::stack(t::l("T"), t::l("B"))), 2, 3));
    v.push(("(T|B)-c", Box::new(((tick() | split::<U2>()) - 0.25)), t::sc('-', t::stack(t::l("T"), t::l("B")), 0.25), 2, 3));
    v.push(("((T|B)|T)", Box::new(((tick() | split::<U2>()) | tick())), t::stack(t::stack(t::l("T"), t::l("B")), t::l("T")), 3, 4));
    v.push(("((T|B)^J)", Box::new(((tick() | split::<U2>()) ^ join::<U2>())), t::branch(t::stack(t::l("T"), t::l("B")), t::l("J")), 2, 4));
    v.push(("(B>>(T|B))", Box::new((split::<U2>() >> (tick() | split::<U2>()))), t::pipe(t::l("B"), t::stack(t::l("T"), t::l("B"))), 1, 3));
    v.push(("!(T^B)", Box::new((!(tick() ^ split::<U2>()))), t::thru(t::branch(t::l("T"), t::l("B"))), 1, 1));
    v.push(("-(T^B)", Box::new((-(tick() ^ split::<U2>()))), t::neg(t::branch(t::l("T"), t::l("B"))), 1, 3));
    v.push(("c+(T^B)", Box::new((0.25 + (tick() ^ split::<U2>()))), t::sc('+', t::branch(t::l("T"), t::l("B")), 0.25), 1, 3));
    v.push(("(T>>(T^B))", Box::new((tick() >> (tick() ^ split::<U2>()))), t::pipe(t::l("T"), t::branch(t::l("T"), t::l("B"))), 1, 3));
    v.push(("(T^(T^B))", Box::new((tick() ^ (tick() ^ split::<U2>()))), t::branch(t::l("T"), t::branch(t::l("T"), t::l("B"))), 1, 4));
    v.push(("((T^B)^B)", Box::new(((tick() ^ split::<U2>()) ^ split::<U2>())), t::branch(t::branch(t::l("T"), t::l("B")), t::l("B")), 1, 5));
    v.push(("((T^B)|B)", Box::new(((tick() ^ split::<U2>()) | split::<U2>())), t::stack(t::branch(t::l("T"), t::l("B")), t::l("B")), 2, 5));
    v.push(("!(T|M)", Box::new((!(tick() | mul((2.0, 3.0))))), t::thru(t::stack(t::l("T"), t::l("M"))), 3, 3));
    v.push(("-(T|M)", Box::new((-(tick() | mul((2.0, 3.0))))), t::neg(t::stack(t::l("T"), t::l("M"))), 3, 3));
    v.push(("(T|M)+c", Box::new(((tick() | mul((2.0, 3.0))) + 0.25)), t::sc('+', t::stack(t::l("T"), t::l("M")), 0.25), 3, 3));
    v.push(("!(D>>T)", Box::new((!(dc(0.75) >> tick()))), t::thru(t::pipe(t::l("D"), t::l("T"))), 0, 0));
    v.push(("-(D>>T)", Box::new((-(dc(0.75) >> tick()))), t::neg(t::pipe(t::l("D"), t::l("T"))), 0, 1));
    v.push(("c*(D>>T)", Box::new((0.25 * (dc(0.75) >> tick()))), t::sc('*', t::pipe(t::l("D"), t::l("T")), 0.25), 0, 1));
    v.push(("(T|(D>>T))", Box::new((tick() | (dc(0.75) >> tick()))), t::stack(t::l("T"), t::pipe(t::l("D"), t::l("T"))), 1, 2));
    v.push(("(J+(D>>T))", Box::new((join::<U2>() + (dc(0.75) >> tick()))), t::sum(t::l("J"), t::pipe(t::l("D"), t::l("T"))), 2, 1));
    v.push(("((D>>T)>>B)", Box::new(((dc(0.75) >> tick()) >> split::<U2>())), t::pipe(t::pipe(t::l("D"), t::l("T")), t::l("B")), 0, 2));
    v.push(("!(D|T)", Box::new((!(dc(0.75) | tick()))), t::thru(t::stack(t::l("D"), t::l("T"))), 1, 1));
    v.push(("-(D|T)", Box::new((-(dc(0.75) | tick()))), t::neg(t::stack(t::l("D"), t::l("T"))), 1, 2));
    v.push(("(D|T)*c", Box::new(((dc(0.75) | tick()) * 0.25)), t::sc('*', t::stack(t::l("D"), t::l("T")), 0.25), 1, 2));
    v.push(("((D|T)^T)", Box::new(((dc(0.75) | tick()) ^ tick())), t::branch(t::stack(t::l("D"), t::l("T")), t::l("T")), 1, 3));
    v.push(("(D>>(D|T))", Box::new((dc(0.75) >> (dc(0.75) | tick()))), t::pipe(t::l("D"), t::stack(t::l("D"), t::l("T"))), 0, 2));
    v.push(("(B^(D|T))", Box::new((split::<U2>() ^ (dc(0.75) | tick()))), t::branch(t::l("B"), t::stack(t::l("D"), t::l("T"))), 1, 4));
    v.push(("(B&(D|T))", Box::new((split::<U2>() & (dc(0.75) | tick()))), t::bus(t::l("B"), t::stack(t::l("D"), t::l("T"))), 1, 2));
    v.push(("(B|(D|T))", Box::new((split::<U2>() | (dc(0.75) | tick()))), t::stack(t::l("B"), t::stack(t::l("D"), t::l("T"))), 2, 4));
    v.push(("((D|T)>>M)", Box::new(((dc(0.75) | tick()) >> mul((2.0, 3.0)))), t::pipe(t::stack(t::l("D"), t::l("T")), t::l("M")), 1, 2));
    v.push(("((D|T)|M)", Box::new(((dc(0.75) | tick()) | mul((2.0, 3.0)))), t::stack(t::stack(t::l("D"), t::l("T")), t::l("M")), 3, 4));
    v.push(("!(D+T)", Box::new((!(dc(0.75) + tick()))), t::thru(t::sum(t::l("D"), t::l("T"))), 1, 1));
    v.push(("-(D+T)", Box::new((-(dc(0.75) + tick()))), t::neg(t::sum(t::l("D"), t::l("T"))), 1, 1));
    v.push(("c-(D+T)", Box::new((0.25 - (dc(0.75) + tick()))), t::sc('r', t::sum(t::l("D"), t::l("T")), 0.25), 1, 1));
    v.push(("((D+T)+D)", Box::new(((dc(0.75) + tick()) + dc(0.75))), t::sum(t::sum(t::l("D"), t::l("T")), t::l("D")), 1, 1));
    v.push(("(J>>(D+T))", Box::new((join::<U2>() >> (dc(0.75) + tick()))), t::pipe(t::l("J"), t::sum(t::l("D"), t::l("T"))), 2, 1));
}
#[inline(never)]
fn chunk7(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("(J-(D+T))", Box::new((join::<U2>() - (dc(0.75) + tick()))), t::diff(t::l("J"), t::sum(t::l("D"), t::l("T"))), 3, 1));
    v.push(("!(D-T)", Box::new((!(dc(0.75) - tick()))), t::thru(t::diff(t::l("D"), t::l("T"))), 1, 1));
    v.push(("-(D-T)", Box::new((-(dc(0.75) - tick()))), t::neg(t::diff(t::l("D"), t::l("T"))), 1, 1));
    v.push(("(D-T)-c", Box::new(((dc(0.75) - tick()) - 0.25)), t::sc('-', t::diff(t::l("D"), t::l("T")), 0.25), 1, 1));
    v.push(("((D-T)>>T)", Box::new(((dc(0.75) - tick()) >> tick())), t::pipe(t::diff(t::l("D"), t::l("T")), t::l("T")), 1, 1));
    v.push(("((D-T)^T)", Box::new(((dc(0.75) - tick()) ^ tick())), t::branch(t::diff(t::l("D"), t::l("T")), t::l("T")), 1, 2));
    v.push(("((D-T)&T)", Box::new(((dc(0.75) - tick()) & tick())), t::bus(t::diff(t::l("D"), t::l("T")), t::l("T")), 1, 1));
    v.push(("((D-T)*T)", Box::new(((dc(0.75) - tick()) * tick())), t::prod(t::diff(t::l("D"), t::l("T")), t::l("T")), 2, 1));
    v.push(("((D-T)|J)", Box::new(((dc(0.75) - tick()) | join::<U2>())), t::stack(t::diff(t::l("D"), t::l("T")), t::l("J")), 3, 2));
    v.push(("(B^(D-T))", Box::new((split::<U2>() ^ (dc(0.75) - tick()))), t::branch(t::l("B"), t::diff(t::l("D"), t::l("T"))), 1, 3));
    v.push(("!(D*T)", Box::new((!(dc(0.75) * tick()))), t::thru(t::prod(t::l("D"), t::l("T"))), 1, 1));
    v.push(("-(D*T)", Box::new((-(dc(0.75) * tick()))), t::neg(t::prod(t::l("D"), t::l("T"))), 1, 1));
    v.push(("c+(D*T)", Box::new((0.25 + (dc(0.75) * tick()))), t::sc('+', t::prod(t::l("D"), t::l("T")), 0.25), 1, 1));
    v.push(("(T>>(D*T))", Box::new((tick() >> (dc(0.75) * tick()))), t::pipe(t::l("T"), t::prod(t::l("D"), t::l("T"))), 1, 1));
    v.push(("(T^(D*T))", Box::new((tick() ^ (dc(0.75) * tick()))), t::branch(t::l("T"), t::prod(t::l("D"), t::l("T"))), 1, 2));
    v.push(("(T&(D*T))", Box::new((tick() & (dc(0.75) * tick()))), t::bus(t::l("T"), t::prod(t::l("D"), t::l("T"))), 1, 1));
    v.push(("(T-(D*T))", Box::new((tick() - (dc(0.75) * tick()))), t::diff(t::l("T"), t::prod(t::l("D"), t::l("T"))), 2, 1));
    v.push(("((D*T)-D)", Box::new(((dc(0.75) * tick()) - dc(0.75))), t::diff(t::prod(t::l("D"), t::l("T")), t::l("D")), 1, 1));
    v.push(("((D*T)>>B)", Box::new(((dc(0.75) * tick()) >> split::<U2>())), t::pipe(t::prod(t::l("D"), t::l("T")), t::l("B")), 1, 2));
    v.push(("((D*T)^B)", Box::new(((dc(0.75) * tick()) ^ split::<U2>())), t::branch(t::prod(t::l("D"), t::l("T")), t::l("B")), 1, 3));
    v.push(("(M|(D*T))", Box::new((mul((2.0, 3.0)) | (dc(0.75) * tick()))), t::stack(t::l("M"), t::prod(t::l("D"), t::l("T"))), 3, 3));
    v.push(("!(D|D)", Box::new((!(dc(0.75) | dc(0.75)))), t::thru(t::stack(t::l("D"), t::l("D"))), 0, 0));
    v.push(("-(D|D)", Box::new((-(dc(0.75) | dc(0.75)))), t::neg(t::stack(t::l("D"), t::l("D"))), 0, 2));
    v.push(("(D|D)+c", Box::new(((dc(0.75) | dc(0.75)) + 0.25)), t::sc('+', t::stack(t::l("D"), t::l("D")), 0.25), 0, 2));
    v.push(("(D^(D|D))", Box::new((dc(0.75) ^ (dc(0.75) | dc(0.75)))), t::branch(t::l("D"), t::stack(t::l("D"), t::l("D"))), 0, 3));
    v.push(("((D|D)>>J)", Box::new(((dc(0.75) | dc(0.75)) >> join::<U2>())), t::pipe(t::stack(t::l("D"), t::l("D")), t::l("J")), 0, 1));
    v.push(("((D|D)>>M)", Box::new(((dc(0.75) | dc(0.75)) >> mul((2.0, 3.0)))), t::pipe(t::stack(t::l("D"), t::l("D")), t::l("M")), 0, 2));
    v.push(("((D|D)-M)", Box::new(((dc(0.75) | dc(0.75)) - mul((2.0, 3.0)))), t::diff(t::stack(t::l("D"), t::l("D")), t::l("M")), 2, 2));
    v.push(("!(D^D)", Box::new((!(dc(0.75) ^ dc(0.75)))), t::thru(t::branch(t::l("D"), t::l("D"))), 0, 0));
    v.push(("-(D^D)", Box::new((-(dc(0.75) ^ dc(0.75)))), t::neg(t::branch(t::l("D"), t::l("D"))), 0, 2));
    v.push(("c*(D^D)", Box::new((0.25 * (dc(0.75) ^ dc(0.75)))), t::sc('*', t::branch(t::l("D"), t::l("D")), 0.25), 0, 2));
    v.push(("(J|(D^D))", Box::new((join::<U2>() | (dc(0.75) ^ dc(0.75)))), t::stack(t::l("J"), t::branch(t::l("D"), t::l("D"))), 2, 3));
    v.push(("((D^D)|B)", Box::new(((dc(0.75) ^ dc(0.75)) | split::<U2>())), t::stack(t::branch(t::l("D"), t::l("D")), t::l("B")), 1, 4));
    v.push(("!(D&D)", Box::new((!(dc(0.75) & dc(0.75)))), t::thru(t::bus(t::l("D"), t::l("D"))), 0, 0));
    v.push(("-(D&D)", Box::new((-(dc(0.75) & dc(0.75)))), t::neg(t::bus(t::l("D"), t::l("D"))), 0, 1));
    v.push(("(D&D)*c", Box::new(((dc(0.75) & dc(0.75)) * 0.25)), t::sc('*', t::bus(t::l("D"), t::l("D")), 0.25), 0, 1));
    v.push(("((D&D)>>T)", Box::new(((dc(0.75) & dc(0.75)) >> tick())), t::pipe(t::bus(t::l("D"), t::l("D")), t::l("T")), 0, 1));
    v.push(("((D&D)+T)", Box::new(((dc(0.75) & dc(0.75)) + tick())), t::sum(t::bus(t::l("D"), t::l("D")), t::l("T")), 1, 1));
    v.push(("(D^(D&D))", Box::new((dc(0.75) ^ (dc(0.75) & dc(0.75)))), t::branch(t::l("D"), t::bus(t::l("D"), t::l("D"))), 0, 2));
    v.push(("(D&(D&D))", Box::new((dc(0.75) & (dc(0.75) & dc(0.75)))), t::bus(t::l("D"), t::bus(t::l("D"), t::l("D"))), 0, 1));
    v.push(("(D-(D&D))", Box::new((dc(0.75) - (dc(0.75) & dc(0.75)))), t::diff(t::l("D"), t::bus(t::l("D"), t::l("D"))), 0, 1));
    v.push(("!(D+D)", Box::new((!(dc(0.75) + dc(0.75)))), t::thru(t::sum(t::l("D"), t::l("D"))), 0, 0));
    v.push(("-(D+D)", Box::new((-(dc(0.75) + dc(0.75)))), t::neg(t::sum(t::l("D"), t::l("D"))), 0, 1));
    v.push(("c-(D+D)", Box::new((0.25 - (dc(0.75) + dc(0.75)))), t::sc('r', t::sum(t::l("D"), t::l("D")), 0.25), 0, 1));
    v.push(("((D+D)^D)", Box::new(((dc(0.75) + dc(0.75)) ^ dc(0.75))), t::branch(t::sum(t::l("D"), t::l("D")), t::l("D")), 0, 2));
    v.push(("((D+D)&D)", Box::new(((dc(0.75) + dc(0.75)) & dc(0.75))), t::bus(t::sum(t::l("D"), t::l("D")), t::l("D")), 0, 1));
    v.push(("((D+D)|D)", Box::new(((dc(0.75) + dc(0.75)) | dc(0.75))), t::stack(t::sum(t::l("D"), t::l("D")), t::l("D")), 0, 2));
    v.push(("(J+(D+D))", Box::new((join::<U2>() + (dc(0.75) + dc(0.75)))), t::sum(t::l("J"), t::sum(t::l("D"), t::l("D"))), 2, 1));
    v.push(("!(D-D)", Box::new((!(dc(0.75) - dc(0.75)))), t::thru(t::diff(t::l("D"), t::l("D"))), 0, 0));
    v.push(("-(D-D)", Box::new((-(dc(0.75) - dc(0.75)))), t::neg(t::diff(t::l("D"), t::l("D"))), 0, 1));
    v.push(("(D-D)-c", Box::new(((dc(0.75) - dc(0.75)) - 0.25)), t::sc('-', t::diff(t::l("D"), t::l("D")), 0.25), 0, 1));
    v.push(("((D-D)>>T)", Box::new(((dc(0.75) - dc(0.75)) >> tick())), t::pipe(t::diff(t::l("D"), t::l("D")), t::l("T")), 0, 1));
    v.push(("((D-D)-T)", Box::new(((dc(0.75) - dc(0.75)) - tick())), t::diff(t::diff(t::l("D"), t::l("D")), t::l("T")), 1, 1));
    v.push(("((D-D)*J)", Box::new(((dc(0.75) - dc(0.75)) * join::<U2>())), t::prod(t::diff(t::l("D"), t::l("D")), t::l("J")), 2, 1));
    v.push(("(B|(D-D))", Box::new((split::<U2>() | (dc(0.75) - dc(0.75)))), t::stack(t::l("B"), t::diff(t::l("D"), t::l("D"))), 1, 3));
    v.push(("!(D*D)", Box::new((!(dc(0.75) * dc(0.75)))), t::thru(t::prod(t::l("D"), t::l("D"))), 0, 0));
    v.push(("-(D*D)", Box::new((-(dc(0.75) * dc(0.75)))), t::neg(t::prod(t::l("D"), t::l("D"))), 0, 1));
    v.push(("c+(D*D)", Box::new((0.25 + (dc(0.75) * dc(0.75)))), t::sc('+', t::prod(t::l("D"), t::l("D")), 0.25), 0, 1));
    v.push(("(T+(D*D))", Box::new((tick() + (dc(0.75) * dc(0.75)))), t::sum(t::l("T"), t::prod(t::l("D"), t::l("D"))), 1, 1));
    v.push(("((D*D)^D)", Box::new(((dc(0.75) * dc(0.75)) ^ dc(0.75))), t::branch(t::prod(t::l("D"), t::l("D")), t::l("D")), 0, 2));
}
#[inline(never)]
fn chunk8(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("((D*D)&D)", Box::new(((dc(0.75) * dc(0.75)) & dc(0.75))), t::bus(t::prod(t::l("D"), t::l("D")), t::l("D")), 0, 1));
    v.push(("((D*D)+D)", Box::new(((dc(0.75) * dc(0.75)) + dc(0.75))), t::sum(t::prod(t::l("D"), t::l("D")), t::l("D")), 0, 1));
    v.push(("((D*D)>>B)", Box::new(((dc(0.75) * dc(0.75)) >> split::<U2>())), t::pipe(t::prod(t::l("D"), t::l("D")), t::l("B")), 0, 2));
    v.push(("!(D|J)", Box::new((!(dc(0.75) | join::<U2>()))), t::thru(t::stack(t::l("D"), t::l("J"))), 2, 2));
    v.push(("-(D|J)", Box::new((-(dc(0.75) | join::<U2>()))), t::neg(t::stack(t::l("D"), t::l("J"))), 2, 2));
    v.push(("(D|J)+c", Box::new(((dc(0.75) | join::<U2>()) + 0.25)), t::sc('+', t::stack(t::l("D"), t::l("J")), 0.25), 2, 2));
    v.push(("(D|(D|J))", Box::new((dc(0.75) | (dc(0.75) | join::<U2>()))), t::stack(t::l("D"), t::stack(t::l("D"), t::l("J"))), 2, 3));
    v.push(("((D|J)>>J)", Box::new(((dc(0.75) | join::<U2>()) >> join::<U2>())), t::pipe(t::stack(t::l("D"), t::l("J")), t::l("J")), 2, 1));
    v.push(("((D|J)^J)", Box::new(((dc(0.75) | join::<U2>()) ^ join::<U2>())), t::branch(t::stack(t::l("D"), t::l("J")), t::l("J")), 2, 3));
    v.push(("((D|J)|J)", Box::new(((dc(0.75) | join::<U2>()) | join::<U2>())), t::stack(t::stack(t::l("D"), t::l("J")), t::l("J")), 4, 3));
    v.push(("((D|J)>>M)", Box::new(((dc(0.75) | join::<U2>()) >> mul((2.0, 3.0)))), t::pipe(t::stack(t::l("D"), t::l("J")), t::l("M")), 2, 2));
    v.push(("((D|J)^M)", Box::new(((dc(0.75) | join::<U2>()) ^ mul((2.0, 3.0)))), t::branch(t::stack(t::l("D"), t::l("J")), t::l("M")), 2, 4));
    v.push(("((D|J)&M)", Box::new(((dc(0.75) | join::<U2>()) & mul((2.0, 3.0)))), t::bus(t::stack(t::l("D"), t::l("J")), t::l("M")), 2, 2));
    v.push(("((D|J)+M)", Box::new(((dc(0.75) | join::<U2>()) + mul((2.0, 3.0)))), t::sum(t::stack(t::l("D"), t::l("J")), t::l("M")), 4, 2));
    v.push(("!(D+J)", Box::new((!(dc(0.75) + join::<U2>()))), t::thru(t::sum(t::l("D"), t::l("J"))), 2, 2));
    v.push(("-(D+J)", Box::new((-(dc(0.75) + join::<U2>()))), t::neg(t::sum(t::l("D"), t::l("J"))), 2, 1));
    v.push(("c*(D+J)", Box::new((0.25 * (dc(0.75) + join::<U2>()))), t::sc('*', t::sum(t::l("D"), t::l("J")), 0.25), 2, 1));
    v.push(("(T-(D+J))", Box::new((tick() - (dc(0.75) + join::<U2>()))), t::diff(t::l("T"), t::sum(t::l("D"), t::l("J"))), 3, 1));
    v.push(("(J^(D+J))", Box::new((join::<U2>() ^ (dc(0.75) + join::<U2>()))), t::branch(t::l("J"), t::sum(t::l("D"), t::l("J"))), 2, 2));
    v.push(("(J&(D+J))", Box::new((join::<U2>() & (dc(0.75) + join::<U2>()))), t::bus(t::l("J"), t::sum(t::l("D"), t::l("J"))), 2, 1));
    v.push(("(J*(D+J))", Box::new((join::<U2>() * (dc(0.75) + join::<U2>()))), t::prod(t::l("J"), t::sum(t::l("D"), t::l("J"))), 4, 1));
    v.push(("((D+J)>>B)", Box::new(((dc(0.75) + join::<U2>()) >> split::<U2>())), t::pipe(t::sum(t::l("D"), t::l("J")), t::l("B")), 2, 2));
    v.push(("!(D-J)", Box::new((!(dc(0.75) - join::<U2>()))), t::thru(t::diff(t::l("D"), t::l("J"))), 2, 2));
    v.push(("-(D-J)", Box::new((-(dc(0.75) - join::<U2>()))), t::neg(t::diff(t::l("D"), t::l("J"))), 2, 1));
    v.push(("(D-J)*c", Box::new(((dc(0.75) - join::<U2>()) * 0.25)), t::sc('*', t::diff(t::l("D"), t::l("J")), 0.25), 2, 1));
    v.push(("((D-J)>>T)", Box::new(((dc(0.75) - join::<U2>()) >> tick())), t::pipe(t::diff(t::l("D"), t::l("J")), t::l("T")), 2, 1));
    v.push(("((D-J)|T)", Box::new(((dc(0.75) - join::<U2>()) | tick())), t::stack(t::diff(t::l("D"), t::l("J")), t::l("T")), 3, 2));
    v.push(("(D+(D-J))", Box::new((dc(0.75) + (dc(0.75) - join::<U2>()))), t::sum(t::l("D"), t::diff(t::l("D"), t::l("J"))), 2, 1));
    v.push(("(B>>(D-J))", Box::new((split::<U2>() >> (dc(0.75) - join::<U2>()))), t::pipe(t::l("B"), t::diff(t::l("D"), t::l("J"))), 1, 1));
    v.push(("((D-J)^M)", Box::new(((dc(0.75) - join::<U2>()) ^ mul((2.0, 3.0)))), t::branch(t::diff(t::l("D"), t::l("J")), t::l("M")), 2, 3));
    v.push(("!(D*J)", Box::new((!(dc(0.75) * join::<U2>()))), t::thru(t::prod(t::l("D"), t::l("J"))), 2, 2));
    v.push(("-(D*J)", Box::new((-(dc(0.75) * join::<U2>()))), t::neg(t::prod(t::l("D"), t::l("J"))), 2, 1));
    v.push(("c-(D*J)", Box::new((0.25 - (dc(0.75) * join::<U2>()))), t::sc('r', t::prod(t::l("D"), t::l("J")), 0.25), 2, 1));
    v.push(("((D*J)*D)", Box::new(((dc(0.75) * join::<U2>()) * dc(0.75))), t::prod(t::prod(t::l("D"), t::l("J")), t::l("D")), 2, 1));
    v.push(("(J^(D*J))", Box::new((join::<U2>() ^ (dc(0.75) * join::<U2>()))), t::branch(t::l("J"), t::prod(t::l("D"), t::l("J"))), 2, 2));
    v.push(("(J&(D*J))", Box::new((join::<U2>() & (dc(0.75) * join::<U2>()))), t::bus(t::l("J"), t::prod(t::l("D"), t::l("J"))), 2, 1));
    v.push(("(J|(D*J))", Box::new((join::<U2>() | (dc(0.75) * join::<U2>()))), t::stack(t::l("J"), t::prod(t::l("D"), t::l("J"))), 4, 2));
    v.push(("(M>>(D*J))", Box::new((mul((2.0, 3.0)) >> (dc(0.75) * join::<U2>()))), t::pipe(t::l("M"), t::prod(t::l("D"), t::l("J"))), 2, 1));
    v.push(("(M^(D*J))", Box::new((mul((2.0, 3.0)) ^ (dc(0.75) * join::<U2>()))), t::branch(t::l("M"), t::prod(t::l("D"), t::l("J"))), 2, 3));
    v.push(("!(D>>B)", Box::new((!(dc(0.75) >> split::<U2>()))), t::thru(t::pipe(t::l("D"), t::l("B"))), 0, 0));
    v.push(("-(D>>B)", Box::new((-(dc(0.75) >> split::<U2>()))), t::neg(t::pipe(t::l("D"), t::l("B"))), 0, 2));
    v.push(("(D>>B)-c", Box::new(((dc(0.75) >> split::<U2>()) - 0.25)), t::sc('-', t::pipe(t::l("D"), t::l("B")), 0.25), 0, 2));
    v.push(("((D>>B)>>J)", Box::new(((dc(0.75) >> split::<U2>()) >> join::<U2>())), t::pipe(t::pipe(t::l("D"), t::l("B")), t::l("J")), 0, 1));
    v.push(("(B*(D>>B))", Box::new((split::<U2>() * (dc(0.75) >> split::<U2>()))), t::prod(t::l("B"), t::pipe(t::l("D"), t::l("B"))), 1, 2));
    v.push(("!(D|B)", Box::new((!(dc(0.75) | split::<U2>()))), t::thru(t::stack(t::l("D"), t::l("B"))), 1, 1));
    v.push(("-(D|B)", Box::new((-(dc(0.75) | split::<U2>()))), t::neg(t::stack(t::l("D"), t::l("B"))), 1, 3));
    v.push(("c+(D|B)", Box::new((0.25 + (dc(0.75) | split::<U2>()))), t::sc('+', t::stack(t::l("D"), t::l("B")), 0.25), 1, 3));
    v.push(("(T>>(D|B))", Box::new((tick() >> (dc(0.75) | split::<U2>()))), t::pipe(t::l("T"), t::stack(t::l("D"), t::l("B"))), 1, 3));
    v.push(("(T^(D|B))", Box::new((tick() ^ (dc(0.75) | split::<U2>()))), t::branch(t::l("T"), t::stack(t::l("D"), t::l("B"))), 1, 4));
    v.push(("(T|(D|B))", Box::new((tick() | (dc(0.75) | split::<U2>()))), t::stack(t::l("T"), t::stack(t::l("D"), t::l("B"))), 2, 4));
    v.push(("((D|B)|D)", Box::new(((dc(0.75) | split::<U2>()) | dc(0.75))), t::stack(t::stack(t::l("D"), t::l("B")), t::l("D")), 1, 4));
    v.push(("((D|B)^B)", Box::new(((dc(0.75) | split::<U2>()) ^ split::<U2>())), t::branch(t::stack(t::l("D"), t::l("B")), t::l("B")), 1, 5));
    v.push(("!(D|M)", Box::new((!(dc(0.75) | mul((2.0, 3.0))))), t::thru(t::stack(t::l("D"), t::l("M"))), 2, 2));
    v.push(("-(D|M)", Box::new((-(dc(0.75) | mul((2.0, 3.0))))), t::neg(t::stack(t::l("D"), t::l("M"))), 2, 3));
    v.push(("(D|M)+c", Box::new(((dc(0.75) | mul((2.0, 3.0))) + 0.25)), t::sc('+', t::stack(t::l("D"), t::l("M")), 0.25), 2, 3));
    v.push(("((D|M)^J)", Box::new(((dc(0.75) | mul((2.0, 3.0))) ^ join::<U2>())), t::branch(t::stack(t::l("D"), t::l("M")), t::l("J")), 2, 4));
    v.push(("((D|M)^M)", Box::new(((dc(0.75) | mul((2.0, 3.0))) ^ mul((2.0, 3.0)))), t::branch(t::stack(t::l("D"), t::l("M")), t::l("M")), 2, 5));
    v.push(("((D|M)|M)", Box::new(((dc(0.75) | mul((2.0, 3.0))) | mul((2.0, 3.0)))), t::stack(t::stack(t::l("D"), t::l("M")), t::l("M")), 4, 5));
    v.push(("!(J>>T)", Box::new((!(join::<U2>() >> tick()))), t::thru(t::pipe(t::l("J"), t::l("T"))), 2, 2));
    v.push(("-(J>>T)", Box::new((-(join::<U2>() >> tick()))), t::neg(t::pipe(t::l("J"), t::l("T"))), 2, 1));
}
#[inline(never)]
fn chunk9(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("c*(J>>T)", Box::new((0.25 * (join::<U2>() >> tick()))), t::sc('*', t::pipe(t::l("J"), t::l("T")), 0.25), 2, 1));
    v.push(("(T+(J>>T))", Box::new((tick() + (join::<U2>() >> tick()))), t::sum(t::l("T"), t::pipe(t::l("J"), t::l("T"))), 3, 1));
    v.push(("(J^(J>>T))", Box::new((join::<U2>() ^ (join::<U2>() >> tick()))), t::branch(t::l("J"), t::pipe(t::l("J"), t::l("T"))), 2, 2));
    v.push(("(J&(J>>T))", Box::new((join::<U2>() & (join::<U2>() >> tick()))), t::bus(t::l("J"), t::pipe(t::l("J"), t::l("T"))), 2, 1));
    v.push(("(J-(J>>T))", Box::new((join::<U2>() - (join::<U2>() >> tick()))), t::diff(t::l("J"), t::pipe(t::l("J"), t::l("T"))), 4, 1));
    v.push(("((J>>T)>>B)", Box::new(((join::<U2>() >> tick()) >> split::<U2>())), t::pipe(t::pipe(t::l("J"), t::l("T")), t::l("B")), 2, 2));
    v.push(("!(J|T)", Box::new((!(join::<U2>() | tick()))), t::thru(t::stack(t::l("J"), t::l("T"))), 3, 3));
    v.push(("-(J|T)", Box::new((-(join::<U2>() | tick()))), t::neg(t::stack(t::l("J"), t::l("T"))), 3, 2));
    v.push(("(J|T)*c", Box::new(((join::<U2>() | tick()) * 0.25)), t::sc('*', t::stack(t::l("J"), t::l("T")), 0.25), 3, 2));
    v.push(("(D|(J|T))", Box::new((dc(0.75) | (join::<U2>() | tick()))), t::stack(t::l("D"), t::stack(t::l("J"), t::l("T"))), 3, 3));
    v.push(("(B+(J|T))", Box::new((split::<U2>() + (join::<U2>() | tick()))), t::sum(t::l("B"), t::stack(t::l("J"), t::l("T"))), 4, 2));
    v.push(("((J|T)>>M)", Box::new(((join::<U2>() | tick()) >> mul((2.0, 3.0)))), t::pipe(t::stack(t::l("J"), t::l("T")), t::l("M")), 3, 2));
    v.push(("((J|T)+M)", Box::new(((join::<U2>() | tick()) + mul((2.0, 3.0)))), t::sum(t::stack(t::l("J"), t::l("T")), t::l("M")), 5, 2));
    v.push(("!(J+T)", Box::new((!(join::<U2>() + tick()))), t::thru(t::sum(t::l("J"), t::l("T"))), 3, 3));
    v.push(("-(J+T)", Box::new((-(join::<U2>() + tick()))), t::neg(t::sum(t::l("J"), t::l("T"))), 3, 1));
    v.push(("c-(J+T)", Box::new((0.25 - (join::<U2>() + tick()))), t::sc('r', t::sum(t::l("J"), t::l("T")), 0.25), 3, 1));
    v.push(("((J+T)-D)", Box::new(((join::<U2>() + tick()) - dc(0.75))), t::diff(t::sum(t::l("J"), t::l("T")), t::l("D")), 3, 1));
    v.push(("(J*(J+T))", Box::new((join::<U2>() * (join::<U2>() + tick()))), t::prod(t::l("J"), t::sum(t::l("J"), t::l("T"))), 5, 1));
    v.push(("(M|(J+T))", Box::new((mul((2.0, 3.0)) | (join::<U2>() + tick()))), t::stack(t::l("M"), t::sum(t::l("J"), t::l("T"))), 5, 3));
    v.push(("!(J-T)", Box::new((!(join::<U2>() - tick()))), t::thru(t::diff(t::l("J"), t::l("T"))), 3, 3));
    v.push(("-(J-T)", Box::new((-(join::<U2>() - tick()))), t::neg(t::diff(t::l("J"), t::l("T"))), 3, 1));
    v.push(("(J-T)-c", Box::new(((join::<U2>() - tick()) - 0.25)), t::sc('-', t::diff(t::l("J"), t::l("T")), 0.25), 3, 1));
    v.push(("((J-T)>>T)", Box::new(((join::<U2>() - tick()) >> tick())), t::pipe(t::diff(t::l("J"), t::l("T")), t::l("T")), 3, 1));
    v.push(("((J-T)|T)", Box::new(((join::<U2>() - tick()) | tick())), t::stack(t::diff(t::l("J"), t::l("T")), t::l("T")), 4, 2));
    v.push(("((J-T)+J)", Box::new(((join::<U2>() - tick()) + join::<U2>())), t::sum(t::diff(t::l("J"), t::l("T")), t::l("J")), 5, 1));
    v.push(("!(J*T)", Box::new((!(join::<U2>() * tick()))), t::thru(t::prod(t::l("J"), t::l("T"))), 3, 3));
    v.push(("-(J*T)", Box::new((-(join::<U2>() * tick()))), t::neg(t::prod(t::l("J"), t::l("T"))), 3, 1));
    v.push(("c+(J*T)", Box::new((0.25 + (join::<U2>() * tick()))), t::sc('+', t::prod(t::l("J"), t::l("T")), 0.25), 3, 1));
    v.push(("(T*(J*T))", Box::new((tick() * (join::<U2>() * tick()))), t::prod(t::l("T"), t::prod(t::l("J"), t::l("T"))), 4, 1));
    v.push(("((J*T)*D)", Box::new(((join::<U2>() * tick()) * dc(0.75))), t::prod(t::prod(t::l("J"), t::l("T")), t::l("D")), 3, 1));
    v.push(("((J*T)>>B)", Box::new(((join::<U2>() * tick()) >> split::<U2>())), t::pipe(t::prod(t::l("J"), t::l("T")), t::l("B")), 3, 2));
    v.push(("((J*T)|B)", Box::new(((join::<U2>() * tick()) | split::<U2>())), t::stack(t::prod(t::l("J"), t::l("T")), t::l("B")), 4, 3));
    v.push(("!(J|D)", Box::new((!(join::<U2>() | dc(0.75)))), t::thru(t::stack(t::l("J"), t::l("D"))), 2, 2));
    v.push(("-(J|D)", Box::new((-(join::<U2>() | dc(0.75)))), t::neg(t::stack(t::l("J"), t::l("D"))), 2, 2));
    v.push(("(J|D)+c", Box::new(((join::<U2>() | dc(0.75)) + 0.25)), t::sc('+', t::stack(t::l("J"), t::l("D")), 0.25), 2, 2));
    v.push(("((J|D)>>J)", Box::new(((join::<U2>() | dc(0.75)) >> join::<U2>())), t::pipe(t::stack(t::l("J"), t::l("D")), t::l("J")), 2, 1));
    v.push(("((J|D)^J)", Box::new(((join::<U2>() | dc(0.75)) ^ join::<U2>())), t::branch(t::stack(t::l("J"), t::l("D")), t::l("J")), 2, 3));
    v.push(("((J|D)>>M)", Box::new(((join::<U2>() | dc(0.75)) >> mul((2.0, 3.0)))), t::pipe(t::stack(t::l("J"), t::l("D")), t::l("M")), 2, 2));
    v.push(("((J|D)^M)", Box::new(((join::<U2>() | dc(0.75)) ^ mul((2.0, 3.0)))), t::branch(t::stack(t::l("J"), t::l("D")), t::l("M")), 2, 4));
    v.push(("((J|D)&M)", Box::new(((join::<U2>() | dc(0.75)) & mul((2.0, 3.0)))), t::bus(t::stack(t::l("J"), t::l("D")), t::l("M")), 2, 2));
    v.push(("((J|D)*M)", Box::new(((join::<U2>() | dc(0.75)) * mul((2.0, 3.0)))), t::prod(t::stack(t::l("J"), t::l("D")), t::l("M")), 4, 2));
    v.push(("!(J+D)", Box::new((!(join::<U2>() + dc(0.75)))), t::thru(t::sum(t::l("J"), t::l("D"))), 2, 2));
    v.push(("-(J+D)", Box::new((-(join::<U2>() + dc(0.75)))), t::neg(t::sum(t::l("J"), t::l("D"))), 2, 1));
    v.push(("c*(J+D)", Box::new((0.25 * (join::<U2>() + dc(0.75)))), t::sc('*', t::sum(t::l("J"), t::l("D")), 0.25), 2, 1));
    v.push(("(T|(J+D))", Box::new((tick() | (join::<U2>() + dc(0.75)))), t::stack(t::l("T"), t::sum(t::l("J"), t::l("D"))), 3, 2));
    v.push(("(J^(J+D))", Box::new((join::<U2>() ^ (join::<U2>() + dc(0.75)))), t::branch(t::l("J"), t::sum(t::l("J"), t::l("D"))), 2, 2));
    v.push(("(J&(J+D))", Box::new((join::<U2>() & (join::<U2>() + dc(0.75)))), t::bus(t::l("J"), t::sum(t::l("J"), t::l("D"))), 2, 1));
    v.push(("(J+(J+D))", Box::new((join::<U2>() + (join::<U2>() + dc(0.75)))), t::sum(t::l("J"), t::sum(t::l("J"), t::l("D"))), 4, 1));
    v.push(("((J+D)>>B)", Box::new(((join::<U2>() + dc(0.75)) >> split::<U2>())), t::pipe(t::sum(t::l("J"), t::l("D")), t::l("B")), 2, 2));
    v.push(("!(J-D)", Box::new((!(join::<U2>() - dc(0.75)))), t::thru(t::diff(t::l("J"), t::l("D"))), 2, 2));
    v.push(("-(J-D)", Box::new((-(join::<U2>() - dc(0.75)))), t::neg(t::diff(t::l("J"), t::l("D"))), 2, 1));
    v.push(("(J-D)*c", Box::new(((join::<U2>() - dc(0.75)) * 0.25)), t::sc('*', t::diff(t::l("J"), t::l("D")), 0.25), 2, 1));
    v.push(("((J-D)>>T)", Box::new(((join::<U2>() - dc(0.75)) >> tick())), t::pipe(t::diff(t::l("J"), t::l("D")), t::l("T")), 2, 1));
    v.push(("((J-D)-T)", Box::new(((join::<U2>() - dc(0.75)) - tick())), t::diff(t::diff(t::l("J"), t::l("D")), t::l("T")), 3, 1));
    v.push(("(D*(J-D))", Box::new((dc(0.75) * (join::<U2>() - dc(0.75)))), t::prod(t::l("D"), t::diff(t::l("J"), t::l("D"))), 2, 1));
    v.push(("(B>>(J-D))", Box::new((split::<U2>() >> (join::<U2>() - dc(0.75)))), t::pipe(t::l("B"), t::diff(t::l("J"), t::l("D"))), 1, 1));
    v.push(("(B|(J-D))", Box::new((split::<U2>() | (join::<U2>() - dc(0.75)))), t::stack(t::l("B"), t::diff(t::l("J"), t::l("D"))), 3, 3));
    v.push(("((J-D)^M)", Box::new(((join::<U2>() - dc(0.75)) ^ mul((2.0, 3.0)))), t::branch(t::diff(t::l("J"), t::l("D")), t::l("M")), 2, 3));
    v.push(("((J-D)|M)", Box::new(((join::<U2>() - dc(0.75)) | mul((2.0, 3.0)))), t::stack(t::diff(t::l("J"), t::l("D")), t::l("M")), 4, 3));
    v.push(("!(J*D)", Box::new((!(join::<U2>() * dc(0.75)))), t::thru(t::prod(t::l("J"), t::l("D"))), 2, 2));
}
#[inline(never)]
fn chunk10(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("-(J*D)", Box::new((-(join::<U2>() * dc(0.75)))), t::neg(t::prod(t::l("J"), t::l("D"))), 2, 1));
    v.push(("c-(J*D)", Box::new((0.25 - (join::<U2>() * dc(0.75)))), t::sc('r', t::prod(t::l("J"), t::l("D")), 0.25), 2, 1));
    v.push(("((J*D)+D)", Box::new(((join::<U2>() * dc(0.75)) + dc(0.75))), t::sum(t::prod(t::l("J"), t::l("D")), t::l("D")), 2, 1));
    v.push(("(J^(J*D))", Box::new((join::<U2>() ^ (join::<U2>() * dc(0.75)))), t::branch(t::l("J"), t::prod(t::l("J"), t::l("D"))), 2, 2));
    v.push(("(J&(J*D))", Box::new((join::<U2>() & (join::<U2>() * dc(0.75)))), t::bus(t::l("J"), t::prod(t::l("J"), t::l("D"))), 2, 1));
    v.push(("(J-(J*D))", Box::new((join::<U2>() - (join::<U2>() * dc(0.75)))), t::diff(t::l("J"), t::prod(t::l("J"), t::l("D"))), 4, 1));
    v.push(("(M>>(J*D))", Box::new((mul((2.0, 3.0)) >> (join::<U2>() * dc(0.75)))), t::pipe(t::l("M"), t::prod(t::l("J"), t::l("D"))), 2, 1));
    v.push(("(M^(J*D))", Box::new((mul((2.0, 3.0)) ^ (join::<U2>() * dc(0.75)))), t::branch(t::l("M"), t::prod(t::l("J"), t::l("D"))), 2, 3));
    v.push(("!(J^J)", Box::new((!(join::<U2>() ^ join::<U2>()))), t::thru(t::branch(t::l("J"), t::l("J"))), 2, 2));
    v.push(("-(J^J)", Box::new((-(join::<U2>() ^ join::<U2>()))), t::neg(t::branch(t::l("J"), t::l("J"))), 2, 2));
    v.push(("(J^J)-c", Box::new(((join::<U2>() ^ join::<U2>()) - 0.25)), t::sc('-', t::branch(t::l("J"), t::l("J")), 0.25), 2, 2));
    v.push(("((J^J)>>J)", Box::new(((join::<U2>() ^ join::<U2>()) >> join::<U2>())), t::pipe(t::branch(t::l("J"), t::l("J")), t::l("J")), 2, 1));
    v.push(("((J^J)^J)", Box::new(((join::<U2>() ^ join::<U2>()) ^ join::<U2>())), t::branch(t::branch(t::l("J"), t::l("J")), t::l("J")), 2, 3));
    v.push(("((J^J)|J)", Box::new(((join::<U2>() ^ join::<U2>()) | join::<U2>())), t::stack(t::branch(t::l("J"), t::l("J")), t::l("J")), 4, 3));
    v.push(("(B>>(J^J))", Box::new((split::<U2>() >> (join::<U2>() ^ join::<U2>()))), t::pipe(t::l("B"), t::branch(t::l("J"), t::l("J"))), 1, 2));
    v.push(("(B+(J^J))", Box::new((split::<U2>() + (join::<U2>() ^ join::<U2>()))), t::sum(t::l("B"), t::branch(t::l("J"), t::l("J"))), 3, 2));
    v.push(("!(J&J)", Box::new((!(join::<U2>() & join::<U2>()))), t::thru(t::bus(t::l("J"), t::l("J"))), 2, 2));
    v.push(("-(J&J)", Box::new((-(join::<U2>() & join::<U2>()))), t::neg(t::bus(t::l("J"), t::l("J"))), 2, 1));
    v.push(("c+(J&J)", Box::new((0.25 + (join::<U2>() & join::<U2>()))), t::sc('+', t::bus(t::l("J"), t::l("J")), 0.25), 2, 1));
    v.push(("(T-(J&J))", Box::new((tick() - (join::<U2>() & join::<U2>()))), t::diff(t::l("T"), t::bus(t::l("J"), t::l("J"))), 3, 1));
    v.push(("((J&J)-D)", Box::new(((join::<U2>() & join::<U2>()) - dc(0.75))), t::diff(t::bus(t::l("J"), t::l("J")), t::l("D")), 2, 1));
    v.push(("((J&J)>>B)", Box::new(((join::<U2>() & join::<U2>()) >> split::<U2>())), t::pipe(t::bus(t::l("J"), t::l("J")), t::l("B")), 2, 2));
    v.push(("(M>>(J&J))", Box::new((mul((2.0, 3.0)) >> (join::<U2>() & join::<U2>()))), t::pipe(t::l("M"), t::bus(t::l("J"), t::l("J"))), 2, 1));
    v.push(("(M^(J&J))", Box::new((mul((2.0, 3.0)) ^ (join::<U2>() & join::<U2>()))), t::branch(t::l("M"), t::bus(t::l("J"), t::l("J"))), 2, 3));
    v.push(("(M|(J&J))", Box::new((mul((2.0, 3.0)) | (join::<U2>() & join::<U2>()))), t::stack(t::l("M"), t::bus(t::l("J"), t::l("J"))), 4, 3));
    v.push(("!(J>>B)", Box::new((!(join::<U2>() >> split::<U2>()))), t::thru(t::pipe(t::l("J"), t::l("B"))), 2, 2));
    v.push(("-(J>>B)", Box::new((-(join::<U2>() >> split::<U2>()))), t::neg(t::pipe(t::l("J"), t::l("B"))), 2, 2));
    v.push(("(J>>B)+c", Box::new(((join::<U2>() >> split::<U2>()) + 0.25)), t::sc('+', t::pipe(t::l("J"), t::l("B")), 0.25), 2, 2));
    v.push(("((J>>B)>>J)", Box::new(((join::<U2>() >> split::<U2>()) >> join::<U2>())), t::pipe(t::pipe(t::l("J"), t::l("B")), t::l("J")), 2, 1));
    v.push(("((J>>B)^J)", Box::new(((join::<U2>() >> split::<U2>()) ^ join::<U2>())), t::branch(t::pipe(t::l("J"), t::l("B")), t::l("J")), 2, 3));
    v.push(("((J>>B)>>M)", Box::new(((join::<U2>() >> split::<U2>()) >> mul((2.0, 3.0)))), t::pipe(t::pipe(t::l("J"), t::l("B")), t::l("M")), 2, 2));
    v.push(("((J>>B)^M)", Box::new(((join::<U2>() >> split::<U2>()) ^ mul((2.0, 3.0)))), t::branch(t::pipe(t::l("J"), t::l("B")), t::l("M")), 2, 4));
    v.push(("((J>>B)&M)", Box::new(((join::<U2>() >> split::<U2>()) & mul((2.0, 3.0)))), t::bus(t::pipe(t::l("J"), t::l("B")), t::l("M")), 2, 2));
    v.push(("((J>>B)-M)", Box::new(((join::<U2>() >> split::<U2>()) - mul((2.0, 3.0)))), t::diff(t::pipe(t::l("J"), t::l("B")), t::l("M")), 4, 2));
    v.push(("!(J|B)", Box::new((!(join::<U2>() | split::<U2>()))), t::thru(t::stack(t::l("J"), t::l("B"))), 3, 3));
    v.push(("-(J|B)", Box::new((-(join::<U2>() | split::<U2>()))), t::neg(t::stack(t::l("J"), t::l("B"))), 3, 3));
    v.push(("c*(J|B)", Box::new((0.25 * (join::<U2>() | split::<U2>()))), t::sc('*', t::stack(t::l("J"), t::l("B")), 0.25), 3, 3));
    v.push(("(J|(J|B))", Box::new((join::<U2>() | (join::<U2>() | split::<U2>()))), t::stack(t::l("J"), t::stack(t::l("J"), t::l("B"))), 5, 4));
    v.push(("((J|B)|B)", Box::new(((join::<U2>() | split::<U2>()) | split::<U2>())), t::stack(t::stack(t::l("J"), t::l("B")), t::l("B")), 4, 5));
    v.push(("!(J^M)", Box::new((!(join::<U2>() ^ mul((2.0, 3.0))))), t::thru(t::branch(t::l("J"), t::l("M"))), 2, 2));
    v.push(("-(J^M)", Box::new((-(join::<U2>() ^ mul((2.0, 3.0))))), t::neg(t::branch(t::l("J"), t::l("M"))), 2, 3));
    v.push(("(J^M)*c", Box::new(((join::<U2>() ^ mul((2.0, 3.0))) * 0.25)), t::sc('*', t::branch(t::l("J"), t::l("M")), 0.25), 2, 3));
    v.push(("(B>>(J^M))", Box::new((split::<U2>() >> (join::<U2>() ^ mul((2.0, 3.0))))), t::pipe(t::l("B"), t::branch(t::l("J"), t::l("M"))), 1, 3));
    v.push(("((J^M)^M)", Box::new(((join::<U2>() ^ mul((2.0, 3.0))) ^ mul((2.0, 3.0)))), t::branch(t::branch(t::l("J"), t::l("M")), t::l("M")), 2, 5));
    v.push(("!(B|T)", Box::new((!(split::<U2>() | tick()))), t::thru(t::stack(t::l("B"), t::l("T"))), 2, 2));
    v.push(("-(B|T)", Box::new((-(split::<U2>() | tick()))), t::neg(t::stack(t::l("B"), t::l("T"))), 2, 3));
    v.push(("c-(B|T)", Box::new((0.25 - (split::<U2>() | tick()))), t::sc('r', t::stack(t::l("B"), t::l("T")), 0.25), 2, 3));
    v.push(("((B|T)|D)", Box::new(((split::<U2>() | tick()) | dc(0.75))), t::stack(t::stack(t::l("B"), t::l("T")), t::l("D")), 2, 4));
    v.push(("(J^(B|T))", Box::new((join::<U2>() ^ (split::<U2>() | tick()))), t::branch(t::l("J"), t::stack(t::l("B"), t::l("T"))), 2, 4));
    v.push(("(M>>(B|T))", Box::new((mul((2.0, 3.0)) >> (split::<U2>() | tick()))), t::pipe(t::l("M"), t::stack(t::l("B"), t::l("T"))), 2, 3));
    v.push(("(M^(B|T))", Box::new((mul((2.0, 3.0)) ^ (split::<U2>() | tick()))), t::branch(t::l("M"), t::stack(t::l("B"), t::l("T"))), 2, 5));
    v.push(("!(B^T)", Box::new((!(split::<U2>() ^ tick()))), t::thru(t::branch(t::l("B"), t::l("T"))), 1, 1));
    v.push(("-(B^T)", Box::new((-(split::<U2>() ^ tick()))), t::neg(t::branch(t::l("B"), t::l("T"))), 1, 3));
    v.push(("(B^T)-c", Box::new(((split::<U2>() ^ tick()) - 0.25)), t::sc('-', t::branch(t::l("B"), t::l("T")), 0.25), 1, 3));
    v.push(("((B^T)^T)", Box::new(((split::<U2>() ^ tick()) ^ tick())), t::branch(t::branch(t::l("B"), t::l("T")), t::l("T")), 1, 4));
    v.push(("(B^(B^T))", Box::new((split::<U2>() ^ (split::<U2>() ^ tick()))), t::branch(t::l("B"), t::branch(t::l("B"), t::l("T"))), 1, 5));
    v.push(("(B|(B^T))", Box::new((split::<U2>() | (split::<U2>() ^ tick()))), t::stack(t::l("B"), t::branch(t::l("B"), t::l("T"))), 2, 5));
    v.push(("!(B|D)", Box::new((!(split::<U2>() | dc(0.75)))), t::thru(t::stack(t::l("B"), t::l("D"))), 1, 1));
    v.push(("-(B|D)", Box::new((-(split::<U2>() | dc(0.75)))), t::neg(t::stack(t::l("B"), t::l("D"))), 1, 3));
    v.push(("c+(B|D)", Box::new((0.25 + (split::<U2>() | dc(0.75)))), t::sc('+', t::stack(t::l("B"), t::l("D")), 0.25), 1, 3));
}
#[inline(never)]
fn chunk11(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("(T>>(B|D))", Box::new((tick() >> (split::<U2>() | dc(0.75)))), t::pipe(t::l("T"), t::stack(t::l("B"), t::l("D"))), 1, 3));
    v.push(("(T^(B|D))", Box::new((tick() ^ (split::<U2>() | dc(0.75)))), t::branch(t::l("T"), t::stack(t::l("B"), t::l("D"))), 1, 4));
    v.push(("((B|D)^B)", Box::new(((split::<U2>() | dc(0.75)) ^ split::<U2>())), t::branch(t::stack(t::l("B"), t::l("D")), t::l("B")), 1, 5));
    v.push(("!(B>>J)", Box::new((!(split::<U2>() >> join::<U2>()))), t::thru(t::pipe(t::l("B"), t::l("J"))), 1, 1));
    v.push(("-(B>>J)", Box::new((-(split::<U2>() >> join::<U2>()))), t::neg(t::pipe(t::l("B"), t::l("J"))), 1, 1));
    v.push(("(B>>J)+c", Box::new(((split::<U2>() >> join::<U2>()) + 0.25)), t::sc('+', t::pipe(t::l("B"), t::l("J")), 0.25), 1, 1));
    v.push(("(D>>(B>>J))", Box::new((dc(0.75) >> (split::<U2>() >> join::<U2>()))), t::pipe(t::l("D"), t::pipe(t::l("B"), t::l("J"))), 0, 1));
    v.push(("(D|(B>>J))", Box::new((dc(0.75) | (split::<U2>() >> join::<U2>()))), t::stack(t::l("D"), t::pipe(t::l("B"), t::l("J"))), 1, 2));
    v.push(("((B>>J)|J)", Box::new(((split::<U2>() >> join::<U2>()) | join::<U2>())), t::stack(t::pipe(t::l("B"), t::l("J")), t::l("J")), 3, 2));
    v.push(("!(B|J)", Box::new((!(split::<U2>() | join::<U2>()))), t::thru(t::stack(t::l("B"), t::l("J"))), 3, 3));
    v.push(("-(B|J)", Box::new((-(split::<U2>() | join::<U2>()))), t::neg(t::stack(t::l("B"), t::l("J"))), 3, 3));
    v.push(("c*(B|J)", Box::new((0.25 * (split::<U2>() | join::<U2>()))), t::sc('*', t::stack(t::l("B"), t::l("J")), 0.25), 3, 3));
    v.push(("!(B&B)", Box::new((!(split::<U2>() & split::<U2>()))), t::thru(t::bus(t::l("B"), t::l("B"))), 1, 1));
    v.push(("-(B&B)", Box::new((-(split::<U2>() & split::<U2>()))), t::neg(t::bus(t::l("B"), t::l("B"))), 1, 2));
    v.push(("(B&B)*c", Box::new(((split::<U2>() & split::<U2>()) * 0.25)), t::sc('*', t::bus(t::l("B"), t::l("B")), 0.25), 1, 2));
    v.push(("((B&B)^T)", Box::new(((split::<U2>() & split::<U2>()) ^ tick())), t::branch(t::bus(t::l("B"), t::l("B")), t::l("T")), 1, 3));
    v.push(("((B&B)|T)", Box::new(((split::<U2>() & split::<U2>()) | tick())), t::stack(t::bus(t::l("B"), t::l("B")), t::l("T")), 2, 3));
    v.push(("(D>>(B&B))", Box::new((dc(0.75) >> (split::<U2>() & split::<U2>()))), t::pipe(t::l("D"), t::bus(t::l("B"), t::l("B"))), 0, 2));
    v.push(("(B^(B&B))", Box::new((split::<U2>() ^ (split::<U2>() & split::<U2>()))), t::branch(t::l("B"), t::bus(t::l("B"), t::l("B"))), 1, 4));
    v.push(("(B&(B&B))", Box::new((split::<U2>() & (split::<U2>() & split::<U2>()))), t::bus(t::l("B"), t::bus(t::l("B"), t::l("B"))), 1, 2));
    v.push(("(B-(B&B))", Box::new((split::<U2>() - (split::<U2>() & split::<U2>()))), t::diff(t::l("B"), t::bus(t::l("B"), t::l("B"))), 2, 2));
    v.push(("((B&B)>>M)", Box::new(((split::<U2>() & split::<U2>()) >> mul((2.0, 3.0)))), t::pipe(t::bus(t::l("B"), t::l("B")), t::l("M")), 1, 2));
    v.push(("((B&B)-M)", Box::new(((split::<U2>() & split::<U2>()) - mul((2.0, 3.0)))), t::diff(t::bus(t::l("B"), t::l("B")), t::l("M")), 3, 2));
    v.push(("!(B+B)", Box::new((!(split::<U2>() + split::<U2>()))), t::thru(t::sum(t::l("B"), t::l("B"))), 2, 2));
    v.push(("-(B+B)", Box::new((-(split::<U2>() + split::<U2>()))), t::neg(t::sum(t::l("B"), t::l("B"))), 2, 2));
    v.push(("c-(B+B)", Box::new((0.25 - (split::<U2>() + split::<U2>()))), t::sc('r', t::sum(t::l("B"), t::l("B")), 0.25), 2, 2));
    v.push(("(J^(B+B))", Box::new((join::<U2>() ^ (split::<U2>() + split::<U2>()))), t::branch(t::l("J"), t::sum(t::l("B"), t::l("B"))), 2, 3));
    v.push(("(J|(B+B))", Box::new((join::<U2>() | (split::<U2>() + split::<U2>()))), t::stack(t::l("J"), t::sum(t::l("B"), t::l("B"))), 4, 3));
    v.push(("(M>>(B+B))", Box::new((mul((2.0, 3.0)) >> (split::<U2>() + split::<U2>()))), t::pipe(t::l("M"), t::sum(t::l("B"), t::l("B"))), 2, 2));
    v.push(("(M^(B+B))", Box::new((mul((2.0, 3.0)) ^ (split::<U2>() + split::<U2>()))), t::branch(t::l("M"), t::sum(t::l("B"), t::l("B"))), 2, 4));
    v.push(("(M&(B+B))", Box::new((mul((2.0, 3.0)) & (split::<U2>() + split::<U2>()))), t::bus(t::l("M"), t::sum(t::l("B"), t::l("B"))), 2, 2));
    v.push(("(M+(B+B))", Box::new((mul((2.0, 3.0)) + (split::<U2>() + split::<U2>()))), t::sum(t::l("M"), t::sum(t::l("B"), t::l("B"))), 4, 2));
    v.push(("!(B-B)", Box::new((!(split::<U2>() - split::<U2>()))), t::thru(t::diff(t::l("B"), t::l("B"))), 2, 2));
    v.push(("-(B-B)", Box::new((-(split::<U2>() - split::<U2>()))), t::neg(t::diff(t::l("B"), t::l("B"))), 2, 2));
    v.push(("(B-B)-c", Box::new(((split::<U2>() - split::<U2>()) - 0.25)), t::sc('-', t::diff(t::l("B"), t::l("B")), 0.25), 2, 2));
    v.push(("((B-B)>>J)", Box::new(((split::<U2>() - split::<U2>()) >> join::<U2>())), t::pipe(t::diff(t::l("B"), t::l("B")), t::l("J")), 2, 1));
    v.push(("((B-B)^J)", Box::new(((split::<U2>() - split::<U2>()) ^ join::<U2>())), t::branch(t::diff(t::l("B"), t::l("B")), t::l("J")), 2, 3));
    v.push(("(B>>(B-B))", Box::new((split::<U2>() >> (split::<U2>() - split::<U2>()))), t::pipe(t::l("B"), t::diff(t::l("B"), t::l("B"))), 1, 2));
    v.push(("(B*(B-B))", Box::new((split::<U2>() * (split::<U2>() - split::<U2>()))), t::prod(t::l("B"), t::diff(t::l("B"), t::l("B"))), 3, 2));
    v.push(("!(B*B)", Box::new((!(split::<U2>() * split::<U2>()))), t::thru(t::prod(t::l("B"), t::l("B"))), 2, 2));
    v.push(("-(B*B)", Box::new((-(split::<U2>() * split::<U2>()))), t::neg(t::prod(t::l("B"), t::l("B"))), 2, 2));
    v.push(("c+(B*B)", Box::new((0.25 + (split::<U2>() * split::<U2>()))), t::sc('+', t::prod(t::l("B"), t::l("B")), 0.25), 2, 2));
    v.push(("(T|(B*B))", Box::new((tick() | (split::<U2>() * split::<U2>()))), t::stack(t::l("T"), t::prod(t::l("B"), t::l("B"))), 3, 3));
    v.push(("((B*B)|D)", Box::new(((split::<U2>() * split::<U2>()) | dc(0.75))), t::stack(t::prod(t::l("B"), t::l("B")), t::l("D")), 2, 3));
    v.push(("((B*B)+B)", Box::new(((split::<U2>() * split::<U2>()) + split::<U2>())), t::sum(t::prod(t::l("B"), t::l("B")), t::l("B")), 3, 2));
    v.push(("(M>>(B*B))", Box::new((mul((2.0, 3.0)) >> (split::<U2>() * split::<U2>()))), t::pipe(t::l("M"), t::prod(t::l("B"), t::l("B"))), 2, 2));
    v.push(("(M^(B*B))", Box::new((mul((2.0, 3.0)) ^ (split::<U2>() * split::<U2>()))), t::branch(t::l("M"), t::prod(t::l("B"), t::l("B"))), 2, 4));
    v.push(("(M&(B*B))", Box::new((mul((2.0, 3.0)) & (split::<U2>() * split::<U2>()))), t::bus(t::l("M"), t::prod(t::l("B"), t::l("B"))), 2, 2));
    v.push(("(M-(B*B))", Box::new((mul((2.0, 3.0)) - (split::<U2>() * split::<U2>()))), t::diff(t::l("M"), t::prod(t::l("B"), t::l("B"))), 4, 2));
    v.push(("!(B>>M)", Box::new((!(split::<U2>() >> mul((2.0, 3.0))))), t::thru(t::pipe(t::l("B"), t::l("M"))), 1, 1));
    v.push(("-(B>>M)", Box::new((-(split::<U2>() >> mul((2.0, 3.0))))), t::neg(t::pipe(t::l("B"), t::l("M"))), 1, 2));
    v.push(("(B>>M)+c", Box::new(((split::<U2>() >> mul((2.0, 3.0))) + 0.25)), t::sc('+', t::pipe(t::l("B"), t::l("M")), 0.25), 1, 2));
    v.push(("(D>>(B>>M))", Box::new((dc(0.75) >> (split::<U2>() >> mul((2.0, 3.0))))), t::pipe(t::l("D"), t::pipe(t::l("B"), t::l("M"))), 0, 2));
    v.push(("((B>>M)>>J)", Box::new(((split::<U2>() >> mul((2.0, 3.0))) >> join::<U2>())), t::pipe(t::pipe(t::l("B"), t::l("M")), t::l("J")), 1, 1));
    v.push(("((B>>M)>>M)", Box::new(((split::<U2>() >> mul((2.0, 3.0))) >> mul((2.0, 3.0)))), t::pipe(t::pipe(t::l("B"), t::l("M")), t::l("M")), 1, 2));
    v.push(("((B>>M)|M)", Box::new(((split::<U2>() >> mul((2.0, 3.0))) | mul((2.0, 3.0)))), t::stack(t::pipe(t::l("B"), t::l("M")), t::l("M")), 3, 4));
    v.push(("!(B+M)", Box::new((!(split::<U2>() + mul((2.0, 3.0))))), t::thru(t::sum(t::l("B"), t::l("M"))), 3, 3));
    v.push(("-(B+M)", Box::new((-(split::<U2>() + mul((2.0, 3.0))))), t::neg(t::sum(t::l("B"), t::l("M"))), 3, 2));
    v.push(("c*(B+M)", Box::new((0.25 * (split::<U2>() + mul((2.0, 3.0))))), t::sc('*', t::sum(t::l("B"), t::l("M")), 0.25), 3, 2));
    v.push(("((B+M)-B)", Box::new(((split::<U2>() + mul((2.0, 3.0))) - split::<U2>())), t::diff(t::sum(t::l("B"), t::l("M")), t::l("B")), 4, 2));
}
#[inline(never)]
fn chunk12(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("!(B-M)", Box::new((!(split::<U2>() - mul((2.0, 3.0))))), t::thru(t::diff(t::l("B"), t::l("M"))), 3, 3));
    v.push(("-(B-M)", Box::new((-(split::<U2>() - mul((2.0, 3.0))))), t::neg(t::diff(t::l("B"), t::l("M"))), 3, 2));
    v.push(("(B-M)*c", Box::new(((split::<U2>() - mul((2.0, 3.0))) * 0.25)), t::sc('*', t::diff(t::l("B"), t::l("M")), 0.25), 3, 2));
    v.push(("(D|(B-M))", Box::new((dc(0.75) | (split::<U2>() - mul((2.0, 3.0))))), t::stack(t::l("D"), t::diff(t::l("B"), t::l("M"))), 3, 3));
    v.push(("(B+(B-M))", Box::new((split::<U2>() + (split::<U2>() - mul((2.0, 3.0))))), t::sum(t::l("B"), t::diff(t::l("B"), t::l("M"))), 4, 2));
    v.push(("((B-M)>>M)", Box::new(((split::<U2>() - mul((2.0, 3.0))) >> mul((2.0, 3.0)))), t::pipe(t::diff(t::l("B"), t::l("M")), t::l("M")), 3, 2));
    v.push(("((B-M)+M)", Box::new(((split::<U2>() - mul((2.0, 3.0))) + mul((2.0, 3.0)))), t::sum(t::diff(t::l("B"), t::l("M")), t::l("M")), 5, 2));
    v.push(("!(B*M)", Box::new((!(split::<U2>() * mul((2.0, 3.0))))), t::thru(t::prod(t::l("B"), t::l("M"))), 3, 3));
    v.push(("-(B*M)", Box::new((-(split::<U2>() * mul((2.0, 3.0))))), t::neg(t::prod(t::l("B"), t::l("M"))), 3, 2));
    v.push(("c-(B*M)", Box::new((0.25 - (split::<U2>() * mul((2.0, 3.0))))), t::sc('r', t::prod(t::l("B"), t::l("M")), 0.25), 3, 2));
    v.push(("(M|(B*M))", Box::new((mul((2.0, 3.0)) | (split::<U2>() * mul((2.0, 3.0))))), t::stack(t::l("M"), t::prod(t::l("B"), t::l("M"))), 5, 4));
    v.push(("!(M|T)", Box::new((!(mul((2.0, 3.0)) | tick()))), t::thru(t::stack(t::l("M"), t::l("T"))), 3, 3));
    v.push(("-(M|T)", Box::new((-(mul((2.0, 3.0)) | tick()))), t::neg(t::stack(t::l("M"), t::l("T"))), 3, 3));
    v.push(("(M|T)-c", Box::new(((mul((2.0, 3.0)) | tick()) - 0.25)), t::sc('-', t::stack(t::l("M"), t::l("T")), 0.25), 3, 3));
    v.push(("((M|T)|T)", Box::new(((mul((2.0, 3.0)) | tick()) | tick())), t::stack(t::stack(t::l("M"), t::l("T")), t::l("T")), 4, 4));
    v.push(("!(M|D)", Box::new((!(mul((2.0, 3.0)) | dc(0.75)))), t::thru(t::stack(t::l("M"), t::l("D"))), 2, 2));
    v.push(("-(M|D)", Box::new((-(mul((2.0, 3.0)) | dc(0.75)))), t::neg(t::stack(t::l("M"), t::l("D"))), 2, 3));
    v.push(("c+(M|D)", Box::new((0.25 + (mul((2.0, 3.0)) | dc(0.75)))), t::sc('+', t::stack(t::l("M"), t::l("D")), 0.25), 2, 3));
    v.push(("((M|D)|B)", Box::new(((mul((2.0, 3.0)) | dc(0.75)) | split::<U2>())), t::stack(t::stack(t::l("M"), t::l("D")), t::l("B")), 3, 5));
    v.push(("(M>>(M|D))", Box::new((mul((2.0, 3.0)) >> (mul((2.0, 3.0)) | dc(0.75)))), t::pipe(t::l("M"), t::stack(t::l("M"), t::l("D"))), 2, 3));
    v.push(("(M^(M|D))", Box::new((mul((2.0, 3.0)) ^ (mul((2.0, 3.0)) | dc(0.75)))), t::branch(t::l("M"), t::stack(t::l("M"), t::l("D"))), 2, 5));
    v.push(("!(M>>J)", Box::new((!(mul((2.0, 3.0)) >> join::<U2>()))), t::thru(t::pipe(t::l("M"), t::l("J"))), 2, 2));
    v.push(("-(M>>J)", Box::new((-(mul((2.0, 3.0)) >> join::<U2>()))), t::neg(t::pipe(t::l("M"), t::l("J"))), 2, 1));
    v.push(("(M>>J)+c", Box::new(((mul((2.0, 3.0)) >> join::<U2>()) + 0.25)), t::sc('+', t::pipe(t::l("M"), t::l("J")), 0.25), 2, 1));
    v.push(("(D-(M>>J))", Box::new((dc(0.75) - (mul((2.0, 3.0)) >> join::<U2>()))), t::diff(t::l("D"), t::pipe(t::l("M"), t::l("J"))), 2, 1));
    v.push(("((M>>J)^J)", Box::new(((mul((2.0, 3.0)) >> join::<U2>()) ^ join::<U2>())), t::branch(t::pipe(t::l("M"), t::l("J")), t::l("J")), 2, 2));
    v.push(("((M>>J)&J)", Box::new(((mul((2.0, 3.0)) >> join::<U2>()) & join::<U2>())), t::bus(t::pipe(t::l("M"), t::l("J")), t::l("J")), 2, 1));
    v.push(("((M>>J)-J)", Box::new(((mul((2.0, 3.0)) >> join::<U2>()) - join::<U2>())), t::diff(t::pipe(t::l("M"), t::l("J")), t::l("J")), 4, 1));
    v.push(("((M>>J)^M)", Box::new(((mul((2.0, 3.0)) >> join::<U2>()) ^ mul((2.0, 3.0)))), t::branch(t::pipe(t::l("M"), t::l("J")), t::l("M")), 2, 3));
    v.push(("!(M^J)", Box::new((!(mul((2.0, 3.0)) ^ join::<U2>()))), t::thru(t::branch(t::l("M"), t::l("J"))), 2, 2));
    v.push(("-(M^J)", Box::new((-(mul((2.0, 3.0)) ^ join::<U2>()))), t::neg(t::branch(t::l("M"), t::l("J"))), 2, 3));
    v.push(("c*(M^J)", Box::new((0.25 * (mul((2.0, 3.0)) ^ join::<U2>()))), t::sc('*', t::branch(t::l("M"), t::l("J")), 0.25), 2, 3));
    v.push(("(T|(M^J))", Box::new((tick() | (mul((2.0, 3.0)) ^ join::<U2>()))), t::stack(t::l("T"), t::branch(t::l("M"), t::l("J"))), 3, 4));
    v.push(("(J^(M^J))", Box::new((join::<U2>() ^ (mul((2.0, 3.0)) ^ join::<U2>()))), t::branch(t::l("J"), t::branch(t::l("M"), t::l("J"))), 2, 4));
    v.push(("!(M+B)", Box::new((!(mul((2.0, 3.0)) + split::<U2>()))), t::thru(t::sum(t::l("M"), t::l("B"))), 3, 3));
    v.push(("-(M+B)", Box::new((-(mul((2.0, 3.0)) + split::<U2>()))), t::neg(t::sum(t::l("M"), t::l("B"))), 3, 2));
    v.push(("(M+B)*c", Box::new(((mul((2.0, 3.0)) + split::<U2>()) * 0.25)), t::sc('*', t::sum(t::l("M"), t::l("B")), 0.25), 3, 2));
    v.push(("(B|(M+B))", Box::new((split::<U2>() | (mul((2.0, 3.0)) + split::<U2>()))), t::stack(t::l("B"), t::sum(t::l("M"), t::l("B"))), 4, 4));
    v.push(("((M+B)>>M)", Box::new(((mul((2.0, 3.0)) + split::<U2>()) >> mul((2.0, 3.0)))), t::pipe(t::sum(t::l("M"), t::l("B")), t::l("M")), 3, 2));
    v.push(("((M+B)|M)", Box::new(((mul((2.0, 3.0)) + split::<U2>()) | mul((2.0, 3.0)))), t::stack(t::sum(t::l("M"), t::l("B")), t::l("M")), 5, 4));
    v.push(("!(M-B)", Box::new((!(mul((2.0, 3.0)) - split::<U2>()))), t::thru(t::diff(t::l("M"), t::l("B"))), 3, 3));
    v.push(("-(M-B)", Box::new((-(mul((2.0, 3.0)) - split::<U2>()))), t::neg(t::diff(t::l("M"), t::l("B"))), 3, 2));
    v.push(("c-(M-B)", Box::new((0.25 - (mul((2.0, 3.0)) - split::<U2>()))), t::sc('r', t::diff(t::l("M"), t::l("B")), 0.25), 3, 2));
    v.push(("(M*(M-B))", Box::new((mul((2.0, 3.0)) * (mul((2.0, 3.0)) - split::<U2>()))), t::prod(t::l("M"), t::diff(t::l("M"), t::l("B"))), 5, 2));
    v.push(("!(M*B)", Box::new((!(mul((2.0, 3.0)) * split::<U2>()))), t::thru(t::prod(t::l("M"), t::l("B"))), 3, 3));
    v.push(("-(M*B)", Box::new((-(mul((2.0, 3.0)) * split::<U2>()))), t::neg(t::prod(t::l("M"), t::l("B"))), 3, 2));
    v.push(("(M*B)-c", Box::new(((mul((2.0, 3.0)) * split::<U2>()) - 0.25)), t::sc('-', t::prod(t::l("M"), t::l("B")), 0.25), 3, 2));
    v.push(("((M*B)>>J)", Box::new(((mul((2.0, 3.0)) * split::<U2>()) >> join::<U2>())), t::pipe(t::prod(t::l("M"), t::l("B")), t::l("J")), 3, 1));
    v.push(("((M*B)|J)", Box::new(((mul((2.0, 3.0)) * split::<U2>()) | join::<U2>())), t::stack(t::prod(t::l("M"), t::l("B")), t::l("J")), 5, 3));
    v.push(("(B+(M*B))", Box::new((split::<U2>() + (mul((2.0, 3.0)) * split::<U2>()))), t::sum(t::l("B"), t::prod(t::l("M"), t::l("B"))), 4, 2));
    v.push(("!(M>>M)", Box::new((!(mul((2.0, 3.0)) >> mul((2.0, 3.0))))), t::thru(t::pipe(t::l("M"), t::l("M"))), 2, 2));
    v.push(("-(M>>M)", Box::new((-(mul((2.0, 3.0)) >> mul((2.0, 3.0))))), t::neg(t::pipe(t::l("M"), t::l("M"))), 2, 2));
    v.push(("c+(M>>M)", Box::new((0.25 + (mul((2.0, 3.0)) >> mul((2.0, 3.0))))), t::sc('+', t::pipe(t::l("M"), t::l("M")), 0.25), 2, 2));
    v.push(("((M>>M)*B)", Box::new(((mul((2.0, 3.0)) >> mul((2.0, 3.0))) * split::<U2>())), t::prod(t::pipe(t::l("M"), t::l("M")), t::l("B")), 3, 2));
    v.push(("(M>>(M>>M))", Box::new((mul((2.0, 3.0)) >> (mul((2.0, 3.0)) >> mul((2.0, 3.0))))), t::pipe(t::l("M"), t::pipe(t::l("M"), t::l("M"))), 2, 2));
    v.push(("(M^(M>>M))", Box::new((mul((2.0, 3.0)) ^ (mul((2.0, 3.0)) >> mul((2.0, 3.0))))), t::branch(t::l("M"), t::pipe(t::l("M"), t::l("M"))), 2, 4));
    v.push(("(M&(M>>M))", Box::new((mul((2.0, 3.0)) & (mul((2.0, 3.0)) >> mul((2.0, 3.0))))), t::bus(t::l("M"), t::pipe(t::l("M"), t::l("M"))), 2, 2));
    v.push(("(M|(M>>M))", Box::new((mul((2.0, 3.0)) | (mul((2.0, 3.0)) >> mul((2.0, 3.0))))), t::stack(t::l("M"), t::pipe(t::l("M"), t::l("M"))), 4, 4));
    v.push(("!(M&M)", Box::new((!(mul((2.0, 3.0)) & mul((2.0, 3.0))))), t::thru(t::bus(t::l("M"), t::l("M"))), 2, 2));
    v.push(("-(M&M)", Box::new((-(mul((2.0, 3.0)) & mul((2.0, 3.0))))), t::neg(t::bus(t::l("M"), t::l("M"))), 2, 2));
}
#[inline(never)]
fn chunk13(v: &mut Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {
    v.push(("(M&M)+c", Box::new(((mul((2.0, 3.0)) & mul((2.0, 3.0))) + 0.25)), t::sc('+', t::bus(t::l("M"), t::l("M")), 0.25), 2, 2));
    v.push(("((M&M)>>J)", Box::new(((mul((2.0, 3.0)) & mul((2.0, 3.0))) >> join::<U2>())), t::pipe(t::bus(t::l("M"), t::l("M")), t::l("J")), 2, 1));
    v.push(("((M&M)^J)", Box::new(((mul((2.0, 3.0)) & mul((2.0, 3.0))) ^ join::<U2>())), t::branch(t::bus(t::l("M"), t::l("M")), t::l("J")), 2, 3));
    v.push(("((M&M)>>M)", Box::new(((mul((2.0, 3.0)) & mul((2.0, 3.0))) >> mul((2.0, 3.0)))), t::pipe(t::bus(t::l("M"), t::l("M")), t::l("M")), 2, 2));
    v.push(("((M&M)^M)", Box::new(((mul((2.0, 3.0)) & mul((2.0, 3.0))) ^ mul((2.0, 3.0)))), t::branch(t::bus(t::l("M"), t::l("M")), t::l("M")), 2, 4));
    v.push(("((M&M)&M)", Box::new(((mul((2.0, 3.0)) & mul((2.0, 3.0))) & mul((2.0, 3.0)))), t::bus(t::bus(t::l("M"), t::l("M")), t::l("M")), 2, 2));
    v.push(("((M&M)-M)", Box::new(((mul((2.0, 3.0)) & mul((2.0, 3.0))) - mul((2.0, 3.0)))), t::diff(t::bus(t::l("M"), t::l("M")), t::l("M")), 4, 2));
}
pub fn terms() -> Vec<(&'static str, Box<dyn AudioUnit>, Term, usize, usize)> {
    let mut v = vec![];
    chunk0(&mut v);
    chunk1(&mut v);
    chunk2(&mut v);
    chunk3(&mut v);
    chunk4(&mut v);
    chunk5(&mut v);
    chunk6(&mut v);
    chunk7(&mut v);
    chunk8(&mut v);
    chunk9(&mut v);
    chunk10(&mut v);
    chunk11(&mut v);
    chunk12(&mut v);
    chunk13(&mut v);
    v
}
