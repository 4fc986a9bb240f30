//! C23: audio buffers and borrowed views against a plain sample matrix.
use crate::fw::*;
use fundsp::buffer::{BufferArray, BufferMut, BufferRef, BufferVec};
use fundsp::prelude::{U1, U2, U3, U4, U5, U7};
use fundsp::F32x;

type Model = Vec<Vec<f32>>;

trait Buf {
    fn channels(&self) -> usize;
    fn set(&mut self, c: usize, i: usize, x: F32x);
    fn set_f32(&mut self, c: usize, i: usize, x: f32);
    fn at(&self, c: usize, i: usize) -> F32x;
    fn at_f32(&self, c: usize, i: usize) -> f32;
    fn channel(&self, c: usize) -> &[F32x];
    fn channel_mut(&mut self, c: usize) -> &mut [F32x];
    fn channel_f32(&mut self, c: usize) -> &[f32];
    fn channel_f32_mut(&mut self, c: usize) -> &mut [f32];
    fn clear(&mut self);
    fn view(&self) -> BufferRef<'_>;
    fn view_mut(&mut self) -> BufferMut<'_>;
    fn lens(&self) -> (usize, usize);
    fn resize(&mut self, _n: usize) -> bool {
        false
    }
    fn copy(&self) -> Box<dyn Buf>;
}
macro_rules! common {
    () => {
        fn channels(&self) -> usize { self.channels() }
        fn set(&mut self, c: usize, i: usize, x: F32x) { self.set(c, i, x) }
        fn set_f32(&mut self, c: usize, i: usize, x: f32) { self.set_f32(c, i, x) }
        fn at(&self, c: usize, i: usize) -> F32x { self.at(c, i) }
        fn at_f32(&self, c: usize, i: usize) -> f32 { self.at_f32(c, i) }
        fn channel(&self, c: usize) -> &[F32x] { self.channel(c) }
        fn channel_mut(&mut self, c: usize) -> &mut [F32x] { self.channel_mut(c) }
        fn channel_f32(&mut self, c: usize) -> &[f32] { self.channel_f32(c) }
        fn channel_f32_mut(&mut self, c: usize) -> &mut [f32] { self.channel_f32_mut(c) }
        fn clear(&mut self) { self.clear() }
        fn view(&self) -> BufferRef<'_> { self.buffer_ref() }
        fn view_mut(&mut self) -> BufferMut<'_> { self.buffer_mut() }
        fn lens(&self) -> (usize, usize) { (self.len(), self.length()) }
        fn copy(&self) -> Box<dyn Buf> { Box::new(self.clone()) }
    };
}
impl Buf for BufferVec {
    common!();
    fn resize(&mut self, n: usize) -> bool {
        BufferVec::resize(self, n);
        true
    }
}
macro_rules! arrays { ($($n:ty),*) => { $(impl Buf for BufferArray<$n> { common!(); })* } }
arrays!(U1, U2, U3, U4, U5, U7);

fn make(kind: usize, channels: usize) -> Option<Box<dyn Buf>> {
    if kind == 0 {
        return Some(Box::new(BufferVec::new(channels)));
    }
    Some(match channels {
        1 => Box::new(BufferArray::<U1>::new()),
        2 => Box::new(BufferArray::<U2>::new()),
        3 => Box::new(BufferArray::<U3>::new()),
        4 => Box::new(BufferArray::<U4>::new()),
        5 => Box::new(BufferArray::<U5>::new()),
        7 => Box::new(BufferArray::<U7>::new()),
        _ => return None,
    })
}

/// Operations that write; `p` is a position 0..64 in channel `c`.
const WRITES: usize = 13;
fn write(b: &mut dyn Buf, m: &mut Model, op: usize, c: usize, p: usize, x: f32) {
    let n = m.len();
    let lanes = |x: f32| F32x::new(std::array::from_fn(|k| x + k as f32));
    let simd = |m: &mut Model| {
        for k in 0..8 {
            m[c][(p & !7) + k] = x + k as f32;
        }
    };
    let i = p / 8;
    match op {
        0 if n > 0 => { b.set(c, i, lanes(x)); simd(m) }
        1 if n > 0 => { b.set_f32(c, p, x); m[c][p] = x }
        2 if n > 0 => { b.channel_mut(c)[i] = lanes(x); simd(m) }
        3 if n > 0 => { b.channel_f32_mut(c)[p] = x; m[c][p] = x }
        4 if n > 0 => { b.view_mut().set(c, i, lanes(x)); simd(m) }
        5 if n > 0 => { b.view_mut().set_f32(c, p, x); m[c][p] = x }
        6 if n > 0 => { b.view_mut().channel_mut(c)[i] = lanes(x); simd(m) }
        7 if n > 0 => { b.view_mut().channel_f32_mut(c)[p] = x; m[c][p] = x }
        8 if n > 0 => { *b.view_mut().at_mut(c, i) = lanes(x); simd(m) }
        9 if n > 0 => {
            b.view_mut().add(c, i, lanes(x));
            for k in 0..8 {
                m[c][(p & !7) + k] += x + k as f32;
            }
        }
        10 => { b.clear(); m.iter_mut().for_each(|c| c.fill(0.0)) }
        11 => {
            // Resizing preserves remaining channels and adds silent ones.
            let k = p % 6;
            if b.resize(k) {
                m.resize(k, vec![0.0; 64]);
            }
        }
        12 if n > 0 => {
            // Writing through every subset that contains the channel.
            for first in 0..=c {
                for len in c - first + 1..=n - first {
                    let y = x + (first * 10 + len) as f32;
                    let mut v = b.view_mut();
                    let mut s = v.subset(first, len);
                    assert!(s.channels() == len);
                    s.set_f32(c - first, p, y);
                    m[c][p] = y;
                }
            }
        }
        _ => (),
    }
}

/// Compares every way of reading with the model.
fn compare(b: &mut dyn Buf, m: &Model) -> Option<String> {
    let n = m.len();
    if b.channels() != n || b.view().channels() != n || b.view_mut().channels() != n {
        return Some(format!("{} channels, expected {}", b.channels(), n));
    }
    if b.lens() != (8, 8) {
        return Some("length is not 8".into());
    }
    if b.view_mut().buffer_ref().channels() != n {
        return Some("view of a view has a different number of channels".into());
    }
    for c in 0..n {
        if b.channel(c).len() != 8 || b.channel_mut(c).len() != 8 || b.view().channel(c).len() != 8 || b.view_mut().channel(c).len() != 8 {
            return Some("channel slice is not 8 items".into());
        }
        if b.channel_f32(c).len() != 64 || b.channel_f32_mut(c).len() != 64 || b.view().channel_f32(c).len() != 64 || b.view_mut().channel_f32(c).len() != 64 {
            return Some("channel slice is not 64 samples".into());
        }
        for p in 0..64 {
            let (i, k) = (p / 8, p % 8);
            let w = m[c][p];
            let lane = |x: F32x| x.as_array_ref()[k];
            let reads = [
                b.at_f32(c, p),
                lane(b.at(c, i)),
                lane(b.channel(c)[i]),
                b.channel_f32(c)[p],
                b.view().at_f32(c, p),
                lane(b.view().at(c, i)),
                lane(b.view().channel(c)[i]),
                b.view().channel_f32(c)[p],
                b.view_mut().at_f32(c, p),
                lane(b.view_mut().at(c, i)),
                lane(b.view_mut().channel(c)[i]),
                b.view_mut().channel_f32(c)[p],
                b.view_mut().buffer_ref().at_f32(c, p),
                b.view().subset(c, n - c).at_f32(0, p),
                b.view().subset(0, c + 1).at_f32(c, p),
                b.view_mut().subset(c, n - c).at_f32(0, p),
            ];
            for (j, r) in reads.iter().enumerate() {
                if *r != w {
                    return Some(format!("channel {} sample {} reads {} by method {}, expected {}", c, p, r, j, w));
                }
            }
        }
    }
    None
}

pub fn c23(ctx: &Ctx) {
   
    // Every single write at every position, from a filled buffer.
    let mut jobs = vec![];
    for kind in 0..2 {
        for channels in [0usize, 1, 2, 3, 4, 5, 7] {
            for op in 0..WRITES {
                jobs.push((kind, channels, op));
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (kind, channels, op) = jobs[j];
        let name = format!("buffer {}", if kind == 0 { "vector" } else { "array" });
        ctx.case(&name, || {
            let fail = |e: String, what: String| {
                let e = format!("{} with {} channels after {}: {}", name, channels, what, e);
                ctx.violation(name.clone(), e.clone(), e);
            };
            let Some(mut fresh) = make(kind, channels) else { return };
            let zero: Model = vec![vec![0.0; 64]; channels];
            if let Some(e) = compare(&mut *fresh, &zero) {
                return fail(e, "construction".into());
            }
            let mut model = zero.clone();
            for c in 0..channels {
                for p in 0..64 {
                    model[c][p] = (c * 64 + p + 1) as f32;
                    fresh.set_f32(c, p, model[c][p]);
                }
            }
            for c in 0..channels.max(1) {
                for p in 0..64 {
                    let (mut b, mut m) = (fresh.copy(), model.clone());
                    write(&mut *b, &mut m, op, c, p, 1000.0);
                    ctx.trans(1);
                    ctx.trace();
                    ctx.state(hmix(h64(&[kind as u8, channels as u8, op as u8, c as u8, p as u8]), 9));
                    if let Some(e) = compare(&mut *b, &m) {
                        return fail(e, format!("write {} at channel {} position {}", op, c, p));
                    }
                    // A copy is independent.
                    if let Some(e) = compare(&mut *fresh, &model) {
                        return fail(e, "writing to a copy".into());
                    }
                }
            }
        });
    });
    // All sequences of writes.
    let depth = ctx.q(3, 4);
    let places = [(0usize, 0usize), (0, 63), (1, 8), (2, 13)];
    let alphabet = WRITES * places.len();
    ctx.par(alphabet * 2, |j| {
        let kind = j % 2;
        let name = format!("buffer {}", if kind == 0 { "vector" } else { "array" });
        ctx.case(&name, || {
            for code in 0..alphabet.pow(depth as u32 - 1) {
                let mut seq = digits(code, alphabet, depth - 1);
                seq.insert(0, j / 2);
                let mut b = make(kind, 3).unwrap();
                let mut m: Model = vec![vec![0.0; 64]; 3];
                for (k, x) in seq.iter().enumerate() {
                    let (c, p) = places[x % places.len()];
                    if c < m.len() || m.is_empty() {
                        write(&mut *b, &mut m, x / places.len(), c, p, (k + 1) as f32 * 100.0);
                    } else if x / places.len() >= 10 && x / places.len() <= 11 {
                        write(&mut *b, &mut m, x / places.len(), 0, p, 0.0);
                    }
                    ctx.trans(1);
                }
                ctx.trace();
                let mut h = kind as u64;
                for c in &m {
                    h = hmix(h, hashf(c));
                }
                // Buffer contents are determined by the operations, compare in every distinct state.
                if ctx.state(h) || code % 16 == 0 {
                    if let Some(e) = compare(&mut *b, &m) {
                        let e = format!("{} after writes {:?}: {}", name, seq.iter().map(|x| (x / places.len(), places[x % places.len()])).collect::<Vec<_>>(), e);
                        ctx.violation(name.clone(), e.clone(), e);
                        return;
                    }
                } else if (0..m.len()).any(|c| (0..64).any(|p| b.at_f32(c, p) != m[c][p])) {
                    let e = format!("{} after writes {:?}: contents differ", name, seq.iter().map(|x| (x / places.len(), places[x % places.len()])).collect::<Vec<_>>());
                    ctx.violation(name.clone(), e.clone(), e);
                    return;
                }
            }
        });
    });
    // Empty views.
    if BufferRef::empty().channels() != 0 || BufferMut::empty().channels() != 0 {
        ctx.violation("empty view", "an empty view has channels", "empty view");
    }
    ctx.part("write sequences", 2 * alphabet.pow(depth as u32) as u64);

}
