//! C14: WAV round trips and write faults.
use crate::fw::*;
use fundsp::prelude::Wave;
use std::io::{Error, ErrorKind, Write};

/// What the destination does when the fault point is reached.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Fault {
    None,
    /// The call that would pass the point writes up to the point; from then on every call fails.
    Fail,
    /// As above but fails only once.
    FailOnce,
    /// From the point on, no bytes are accepted.
    Zero,
    /// One interruption, to be retried.
    Interrupt,
}

struct Dest {
    data: Vec<u8>,
    at: usize,
    fault: Fault,
    done: bool,
    chunk: usize,
    /// A fault happened which must be reported.
    failed: bool,
    kind: ErrorKind,
}

impl Write for Dest {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let mut n = buf.len().min(self.chunk);
        if self.fault != Fault::None && !self.done {
            if self.data.len() < self.at {
                n = n.min(self.at - self.data.len());
            } else {
                match self.fault {
                    Fault::Fail => {
                        self.failed = true;
                        return Err(Error::new(self.kind, "fault"));
                    }
                    Fault::FailOnce => {
                        self.done = true;
                        self.failed = true;
                        return Err(Error::new(self.kind, "fault"));
                    }
                    Fault::Zero => {
                        self.failed = true;
                        return Ok(0);
                    }
                    Fault::Interrupt => {
                        self.done = true;
                        return Err(Error::new(ErrorKind::Interrupted, "again"));
                    }
                    Fault::None => {}
                }
            }
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn write(w: &Wave, float: bool, d: &mut Dest) -> std::io::Result<()> {
    if float { w.write_wav32(d) } else { w.write_wav16(d) }
}

fn good(chunk: usize) -> Dest {
    Dest { data: vec![], at: 0, fault: Fault::None, done: false, chunk, failed: false, kind: ErrorKind::Other }
}

fn sample(pattern: usize, c: usize, i: usize) -> f32 {
    const X: [f32; 20] = [
        0.0, 1.0, -1.0, 0.5, -0.5, 1.0 / 32768.0, -1.0 / 32768.0, 0.999969, -0.999969, 1.5, -1.5, 1e-30, -0.0, 100.0, -3.4e38, f32::MIN_POSITIVE, 0.3333333,
        -0.12345678, 0.99999994, -0.99999994,
    ];
    match pattern {
        0 => det((c * 7919 + i) as u64) * 1.2,
        1 => X[(i + c * 3) % 20],
        _ => (i as f32 * 0.001 + c as f32 * 0.1).rem_euclid(2.0) - 1.0,
    }
}

fn wave(c: usize, n: usize, sr: f64, pattern: usize) -> Wave {
    let mut w = Wave::new(0, sr);
    for ch in 0..c {
        w.push_channel(&(0..n).map(|i| sample(pattern, ch, i)).collect::<Vec<f32>>());
    }
    w
}

/// Compare loaded wave with the original. `n` limits the length.
fn same(w: &Wave, l: &Wave, float: bool) -> Option<String> {
    if l.channels() != w.channels() {
        return Some(format!("{} channels instead of {}", l.channels(), w.channels()));
    }
    if l.len() != w.len() {
        return Some(format!("length {} instead of {}", l.len(), w.len()));
    }
    prefix(w, l, float)
}

fn prefix(w: &Wave, l: &Wave, float: bool) -> Option<String> {
    if l.sample_rate() != w.sample_rate().round() {
        return Some(format!("sample rate {} instead of {}", l.sample_rate(), w.sample_rate()));
    }
    for c in 0..l.channels() {
        for i in 0..l.len() {
            let (x, y) = (w.at(c, i), l.at(c, i));
            let ok = if float { x.to_bits() == y.to_bits() || x == y } else { (x.clamp(-1.0, 1.0) - y).abs() <= 1.0 / 16384.0 };
            if !ok {
                return Some(format!("channel {} sample {} is {} instead of {}", c, i, y, x));
            }
        }
    }
    None
}

pub fn c14(ctx: &Ctx) {
    let maxc = 26;
    let rates = [44100.0, 48000.0, 8000.0, 22050.0, 192000.0, 44099.6, 1.0];
    let lens: Vec<usize> = ctx.q(vec![1, 2, 3, 7, 64, 1151, 1152, 1153, 3000], {
        let mut v: Vec<usize> = (1..200).collect();
        v.extend([1151, 1152, 1153, 2303, 2304, 2305, 3000, 10000]);
        v
    });
    let mut cfg = vec![];
    for c in 1..=maxc {
        for &n in &lens {
            for float in [false, true] {
                cfg.push((c, n, float));
            }
        }
    }
    // Round trips.
    ctx.par(cfg.len(), |k| {
        let (c, n, float) = cfg[k];
        let name = format!("round trip {} channels {} samples {}", c, n, if float { "float" } else { "16-bit" });
        ctx.case(&name, || {
            for sr in rates {
                for pattern in 0..3 {
                    if pattern > 0 && (c > 3 || sr != 44100.0) { continue; }
                    let w = wave(c, n, sr, pattern);
                    for chunk in [1usize << 40, 1000] {
                        let mut d = good(chunk);
                        if let Err(e) = write(&w, float, &mut d) {
                            ctx.violation(&name, format!("write failed: {}", e), name.clone());
                            return;
                        }
                        let bytes = if float { 4 } else { 2 };
                        ctx.trans(2);
                        ctx.trace();
                        ctx.state(hmix(h64(&d.data), chunk as u64));
                        if d.data.len() != 44 + bytes * c * n {
                            ctx.violation(&name, format!("file has {} bytes, expected {}", d.data.len(), 44 + bytes * c * n), name.clone());
                            return;
                        }
                        match Wave::load_slice(d.data) {
                            Ok(l) => {
                                if let Some(e) = same(&w, &l, float) {
                                    ctx.violation(&name, format!("sample rate {} pattern {}: {}", sr, pattern, e), name.clone());
                                    return;
                                }
                            }
                            Err(e) => {
                                ctx.violation(&name, format!("load failed: {}", e), name.clone());
                                return;
                            }
                        }
                    }
                }
            }
            ctx.sample(|| name.clone());
        });
    });
    // Every 16-bit level survives repeated saving, and clipping is monotone.
    for float in [false, true] {
        ctx.case(&format!("levels float={}", float), || {
            let mut w = Wave::new(1, 44100.0);
            for i in -40000..=40000 {
                w.push(i as f32 / 32768.0);
            }
            let mut d = good(usize::MAX);
            write(&w, float, &mut d).unwrap();
            let l = Wave::load_slice(d.data).unwrap();
            ctx.trans(80001);
            if let Some(e) = same(&w, &l, float) {
                ctx.violation("levels", e.clone(), e);
            }
            for i in 1..l.len() {
                if l.at(0, i) < l.at(0, i - 1) {
                    ctx.violation("levels", format!("not monotone at {}", i), format!("level {}", i));
                }
            }
        });
    }
    // A fault at every byte offset.
    let shapes: Vec<(usize, usize)> = vec![(1, 0), (1, 1), (1, 5), (2, 3), (3, 7), (2, 100)];
    let shapes: Vec<(usize, usize)> = ctx.q(shapes.clone(), { let mut s = shapes; s.push((2, 3000)); s.push((5, 200)); s });
    let mut cfg = vec![];
    for (c, n) in shapes {
        for float in [false, true] {
            for fault in [Fault::Fail, Fault::FailOnce, Fault::Zero, Fault::Interrupt] {
                for chunk in [1usize << 40, 1, 5] {
                    cfg.push((c, n, float, fault, chunk));
                }
            }
        }
    }
    // A wave that exceeds the internal buffer several times, with fault points around multiples of it.
    ctx.par(cfg.len(), |k| {
        let (c, n, float, fault, chunk) = cfg[k];
        let name = format!("fault {:?} {} channels {} samples {}", fault, c, n, if float { "float" } else { "16-bit" });
        ctx.case(&name, || {
            let w = wave(c, n, 44100.0, 0);
            let mut d = good(1 << 40);
            write(&w, float, &mut d).unwrap();
            let whole = d.data;
            for at in 0..=whole.len() {
                for kind in [ErrorKind::Other, ErrorKind::WriteZero, ErrorKind::BrokenPipe] {
                    if kind != ErrorKind::Other && (fault != Fault::Fail || chunk == 1) { continue; }
                    let mut d = Dest { data: vec![], at, fault, done: false, chunk, failed: false, kind };
                    let r = write(&w, float, &mut d);
                    ctx.trans(1);
                    ctx.trace();
                    ctx.state(hmix(hmix(k as u64, at as u64), kind as u64));
                    let what = || format!("{} fault at byte {} of {} chunk {} error {:?}", name, at, whole.len(), chunk, kind);
                    if d.failed && r.is_ok() {
                        ctx.violation(&name, format!("{}: reported success with {} bytes written", what(), d.data.len()), what());
                        return;
                    }
                    if !d.failed && (r.is_err() || d.data != whole) {
                        ctx.violation(&name, format!("{}: no fault, but the result is {:?} and {} bytes", what(), r, d.data.len()), what());
                        return;
                    }
                    if d.data.len() > whole.len() || (fault != Fault::FailOnce && d.data[..] != whole[..d.data.len()]) {
                        ctx.violation(&name, format!("{}: the written bytes are not a prefix of the file", what()), what());
                        return;
                    }
                }
            }
        });
    });
    // Larger files with fault points around buffer boundaries.
    let big = [(1usize, 5000usize), (2, 9000)];
    ctx.par(big.len() * 2, |k| {
        let (c, n) = big[k / 2];
        let float = k % 2 == 1;
        let name = format!("fault in large file {} channels {} samples float={}", c, n, float);
        ctx.case(&name, || {
            let w = wave(c, n, 44100.0, 0);
            let mut d = good(1 << 40);
            write(&w, float, &mut d).unwrap();
            let total = d.data.len();
            let mut at = 0;
            while at < total {
                let mut d = Dest { data: vec![], at, fault: Fault::Fail, done: false, chunk: 1 << 40, failed: false, kind: ErrorKind::Other };
                let r = write(&w, float, &mut d);
                ctx.trans(1);
                ctx.trace();
                ctx.state(hmix(hmix(99, k as u64), at as u64));
                if r.is_ok() {
                    ctx.violation(&name, format!("fault at byte {} of {} was not reported", at, total), name.clone());
                    return;
                }
                at += ctx.q(61, 1);
            }
        });
    });
    // Files. The device that is always full reports an error at the first write.
    ctx.case("save", || {
        let dir = std::env::temp_dir().join(format!("mcwav{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        for (c, n) in [(1, 1), (2, 10), (1, 5000), (2, 20000)] {
            let w = wave(c, n, 48000.0, 0);
            for float in [false, true] {
                let p = dir.join("a.wav");
                let r = if float { w.save_wav32(&p) } else { w.save_wav16(&p) };
                let l = Wave::load(&p);
                let bad = match (r, l) {
                    (Ok(()), Ok(l)) => same(&w, &l, float),
                    (r, l) => Some(format!("save {:?} load {:?}", r, l.map(|x| x.len()))),
                };
                let full = if float { w.save_wav32("/dev/full") } else { w.save_wav16("/dev/full") };
                let missing = if float { w.save_wav32(dir.join("no/a.wav")) } else { w.save_wav16(dir.join("no/a.wav")) };
                ctx.trans(4);
                ctx.trace();
                if let Some(b) = bad {
                    ctx.violation("save", format!("{} channels {} samples float={}: {}", c, n, float, b), "save".to_string());
                }
                if std::path::Path::new("/dev/full").exists() && full.is_ok() {
                    ctx.violation("full device", format!("saving {} channels {} samples float={} to a full device reported success", c, n, float), "/dev/full".to_string());
                }
                if missing.is_ok() {
                    ctx.violation("missing directory", "reported success", "save to missing directory".to_string());
                }
            }
        }
        if Wave::load(dir.join("none.wav")).is_ok() {
            ctx.violation("missing file", "reported success", "load of missing file".to_string());
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    // A file truncated at any byte gives an error or an exact beginning of the wave.
    ctx.par(8, |k| {
        let float = k % 2 == 1;
        let (c, n) = [(1, 5), (2, 40), (2, 1500), (3, 100)][k / 2];
        let name = format!("truncated {} channels {} samples float={}", c, n, float);
        ctx.case(&name, || {
            let w = wave(c, n, 44100.0, 0);
            let mut d = good(1 << 40);
            write(&w, float, &mut d).unwrap();
            for at in 0..d.data.len() {
                ctx.trans(1);
                ctx.trace();
                ctx.state(hmix(hmix(98, k as u64), at as u64));
                if let Ok(l) = Wave::load_slice(d.data[..at].to_vec()) {
                    let bad = if l.channels() != c || l.len() > n { Some(format!("{} channels {} samples", l.channels(), l.len())) } else { prefix(&w, &l, float) };
                    if let Some(b) = bad {
                        ctx.violation(&name, format!("truncated at byte {}: {}", at, b), name.clone());
                        return;
                    }
                }
            }
        });
    });
}
