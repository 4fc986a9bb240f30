#!/usr/bin/env python3
"""Generates mcops/src/terms.rs: all operator terms within bounds, as Rust expressions paired with reference terms."""
import itertools, os
# name, rust expr, ins, outs, term
L = [
 ('T', 'tick()', 1, 1), ('D', 'dc(0.75)', 0, 1), ('J', 'join::<U2>()', 2, 1), ('B', 'split::<U2>()', 1, 2), ('M', 'mul((2.0, 3.0))', 2, 2),
 ('G', 'mul(0.5)', 1, 1), ('N', 'dc((2.0, -3.0))', 0, 2), ('S', 'sink()', 1, 0), ('R', 'reverse::<U2>()', 2, 2), ('A', 'add(1.5)', 1, 1),
 ('Z', 'zero()', 0, 1), ('P', 'pass()', 1, 1), ('I', 'sub((1.0, 2.0))', 2, 2), ('Q', 'delay(3.0 / 44100.0)', 1, 1),
]
def leaf(l): return (l[1], l[2], l[3], 't::l("%s")' % l[0], l[0])
leaves = [leaf(l) for l in L]
base = leaves[:5]
def binops(x, y, ops='>|^&+-*'):
    r = []
    (ex, ix, ox, tx, nx), (ey, iy, oy, ty, ny) = x, y
    def mk(sym, name, i, o):
        r.append(('(%s %s %s)' % (ex, sym, ey), i, o, 't::%s(%s, %s)' % (name, tx, ty), '(%s%s%s)' % (nx, sym, ny)))
    for op in ops:
        if op == '>' and ox == iy and ox > 0: mk('>>', 'pipe', ix, oy)
        if op == '|': mk('|', 'stack', ix + iy, ox + oy)
        if op == '^' and ix == iy: mk('^', 'branch', ix, ox + oy)
        if op == '&' and ix == iy and ox == oy and ox > 0: mk('&', 'bus', ix, ox)
        if op in '+-*' and ox == oy and ox > 0: mk(op, {'+': 'sum', '-': 'diff', '*': 'prod'}[op], ix + iy, ox)
    return r
def unops(x):
    ex, i, o, t, n = x
    r = []
    def mk(e, tt, nn, oo): r.append((e, i, oo, tt, nn))
    mk('(!%s)' % ex, 't::thru(%s)' % t, '!%s' % n, i)
    if o > 0:
        mk('(-%s)' % ex, 't::neg(%s)' % t, '-%s' % n, o)
        mk('(%s + 0.25)' % ex, 't::sc(\'+\', %s, 0.25)' % t, '%s+c' % n, o)
        mk('(0.25 + %s)' % ex, 't::sc(\'+\', %s, 0.25)' % t, 'c+%s' % n, o)
        mk('(%s - 0.25)' % ex, 't::sc(\'-\', %s, 0.25)' % t, '%s-c' % n, o)
        mk('(0.25 - %s)' % ex, 't::sc(\'r\', %s, 0.25)' % t, 'c-%s' % n, o)
        mk('(%s * 0.25)' % ex, 't::sc(\'*\', %s, 0.25)' % t, '%s*c' % n, o)
        mk('(0.25 * %s)' % ex, 't::sc(\'*\', %s, 0.25)' % t, 'c*%s' % n, o)
    return r
terms = list(leaves)
for x in leaves: terms += unops(x)
d1 = []
for x, y in itertools.product(leaves, leaves):
    if x in base and y in base: d1 += binops(x, y)
    elif x in base[:2] or y in base[:2] or x is y or True:
        # other leaves: all operators except stack, which is covered by the base
        terms += binops(x, y, '>^&*' if x is not y else '>|^&+-*') if (x not in base or y not in base) and (x in base or y in base) and (leaves.index(x) + leaves.index(y)) % 2 == 0 else []
terms += d1
outer = [base[0], base[1], base[2], base[3], base[4]]
k = 0
for x in d1:
    if x[1] > 3 or x[2] > 3: continue
    terms += [u for u in unops(x)][:2] + ([unops(x)[2 + k % 6]] if len(unops(x)) > 2 else [])
    for y in outer:
        k += 1
        if k % 3 == 1: continue
        if k % 2: terms += binops(x, y, '>^&' + '|+-*'[k // 2 % 4])
        else: terms += binops(y, x, '>^&' + '|+-*'[k // 2 % 4])
seen = {}
for t in terms: seen.setdefault(t[4], t)
terms = list(seen.values())
out = ['// Generated by gen_terms.py. All operator terms within the bounds stated there.', '#![allow(unused_parens, clippy::all)]', 'use super::term::{t, Term};', 'use fundsp::hacker32::*;', '']
chunk = 60
fns = []
for c in range(0, len(terms), chunk):
    f = 'chunk%d' % (c // chunk)
    fns.append(f)
    out.append('#[inline(never)]\nfn %s(v: &mut Vec<(&\'static str, Box<dyn AudioUnit>, Term, usize, usize)>) {' % f)
    for e, i, o, t, n in terms[c:c + chunk]:
        out.append('    v.push(("%s", Box::new(%s), %s, %d, %d));' % (n, e, t, i, o))
    out.append('}')
out.append('pub fn terms() -> Vec<(&\'static str, Box<dyn AudioUnit>, Term, usize, usize)> {\n    let mut v = vec![];')
for f in fns: out.append('    %s(&mut v);' % f)
out.append('    v\n}')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'mcops/src/terms.rs'), 'w').write('\n'.join(out) + '\n')
print(len(terms))
