//! P21: delays.
use crate::dynu::*;
use crate::osc::f64_of;
use crate::zoo::fl;

use knaster_core::*;
use knaster_core_dsp::delay::*;
use kv::*;

fn is32<F: Float>() -> bool {
    std::mem::size_of::<F>() == 4
}
fn setup(src: &mut Src) -> (u32, usize, usize, How) {
    let sr = src.pickc(&[48000u32, 1000, 44100, 8000, 96000]);
    let total = src.range(1, 200);
    let bs = src.pickc(&[16, 1, 8, 64, 33, 128]);
    let h = how(src, total);
    (sr, total, bs, h)
}
/// A delay time in frames, mostly within the maximum.
fn frames(src: &mut Src, max: f64) -> f64 {
    match src.weighted(&[4, 3, 1, 1, 1]) {
        0 => src.f(0., max),
        1 => src.f(0., max).floor(),
        2 => src.f(0., 3.),
        3 => max,
        _ => src.f(max, max * 1.5 + 5.),
    }
}

/// Whole frames, without interpolation.
fn whole_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (sr, total, bs, h) = setup(src);
    let s = sr as f64;
    let max = if src.chance(1, 3) {
        src.range(0, 60) as f64
    } else {
        src.f(0., 60.)
    };
    let input: Vec<F> = signal(src, total);
    let ch = chgs(src, total, 6, 1, &|src, _| fl(frames(src, max) / s));
    ctx.note(|| format!("max {max} frames, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}, input {input:?}"));
    let u = SampleDelay::<F>::new(Seconds::from_secs_f64(max / s));
    let r = render(Box::new(u), sr, bs, total, &[input.clone()], &ch, &h);
    let ins: Vec<f64> = input.iter().map(|v| Float::to_f64(*v)).collect();
    // Seconds have a resolution of 1 / 282240000, single precision one of 3e-5 frames here
    let eps = s / 282_240_000. * 1.1 + 3e-5;
    // The delay in frames, rounded down; exact whole numbers may be rounded either way
    let options = |frames: f64| -> Vec<usize> {
        let d = frames.floor() as usize;
        let mut v = vec![d];
        if frames - frames.floor() > 1. - eps {
            v.push(d + 1);
        }
        if frames - frames.floor() < eps && d > 0 {
            v.push(d - 1);
        }
        v
    };
    let longest = options(max);
    let (mut want, mut k, mut big) = (vec![0], 0, false);
    for n in 0..total {
        while k < ch.len() && ch[k].at <= n {
            let f = f64_of(ch[k].val) * s;
            want = options(f);
            if f > max - eps {
                want = want
                    .iter()
                    .flat_map(|w| longest.iter().map(move |l| *w.min(l)))
                    .collect();
                big = true;
            }
            want.sort();
            want.dedup();
            k += 1;
        }
        let y = r.out[0][n];
        // Choices stay the same until the next change
        let keep: Vec<usize> = want
            .iter()
            .copied()
            .filter(|d| y == if *d > n { 0. } else { ins[n - d] })
            .collect();
        check!(
            !keep.is_empty(),
            "SampleDelay: wrong sample",
            "frame {n}: {y}, expected {:?} for a delay of {want:?} frames",
            want.iter()
                .map(|d| if *d > n { 0. } else { ins[n - d] })
                .collect::<Vec<_>>()
        );
        want = keep;
    }
    ctx.class_if(big, "as long as possible or longer");
    ctx.nontrivial_if(!ch.is_empty() && ins.iter().any(|v| *v != 0.));
    Ok(())
}
pub fn whole(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        whole_t::<f64>(src, ctx)
    } else {
        whole_t::<f32>(src, ctx)
    }
}

/// Model of an allpass interpolated delay line of any length.
#[derive(Clone)]
struct Line {
    written: Vec<f64>,
    whole: usize,
    c: f64,
    x1: f64,
    y1: f64,
}
impl Line {
    fn new() -> Self {
        // One frame, no interpolation
        Line {
            written: vec![],
            whole: 0,
            c: 1.,
            x1: 0.,
            y1: 0.,
        }
    }
    fn set(&mut self, frames: f64) {
        // The interpolation filter is best with a fraction of 0.5 to 1.5
        let frames = frames.max(1.);
        let (mut w, mut d) = (frames.floor(), frames - frames.floor());
        if d < 0.5 && w > 1. {
            w -= 1.;
            d += 1.;
        }
        self.whole = w as usize;
        self.c = (1. - d) / (1. + d);
    }
    fn read(&mut self) -> f64 {
        let n = self.written.len();
        let x = if n >= self.whole {
            self.written[n - self.whole]
        } else {
            0.
        };
        let y = self.c * (x - self.y1) + self.x1;
        self.x1 = x;
        self.y1 = y;
        y
    }
}
fn allpass_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (sr, total, bs, h) = setup(src);
    let s = sr as f64;
    // the number of frames that fit is well defined
    let max = src.range(2, 60) as f64 + 0.5;
    let fb = src.bool();
    let input: Vec<F> = signal(src, total);
    let time = |src: &mut Src| {
        let t = frames(src, max.floor());
        // keep away from where rounding decides between two filters or acceptance
        let q = (t * 2.).fract();
        let whole = src.chance(1, 3);
        if whole {
            t.floor().max(1.) + 0.0625
        } else if !(0.001..0.999).contains(&q) {
            t + 0.01
        } else {
            t
        }
    };
    let mut ch = chgs(src, total, 5, if fb { 2 } else { 1 }, &|src, i| {
        if i == 0 {
            fl(time(src) / s)
        } else {
            fl(src.f(-0.95, 0.95))
        }
    });
    if ch.iter().all(|c| c.idx != 0 || c.at != 0) {
        ch.insert(
            0,
            Chg {
                at: 0,
                idx: 0,
                val: fl(time(src).min(max.floor() - 0.3) / s),
            },
        );
    }
    let name = if fb {
        "AllpassFeedbackDelay"
    } else {
        "AllpassDelay"
    };
    ctx.class(name);
    ctx.note(|| format!("{name} max {max} frames, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}, input {input:?}"));
    let len = Seconds::from_secs_f64(max / s);
    let u: Box<dyn Dyn<F>> = if fb {
        Box::new(AllpassFeedbackDelay::<F>::new(len))
    } else {
        Box::new(AllpassDelay::<F>::new(len))
    };
    let r = render(u, sr, bs, total, &[input.clone()], &ch, &h);
    let mut l = Line::new();
    let (mut g, mut k, mut set) = (0., 0, false);
    let (mut top, mut refused) = (1f64, 0);
    // the delay given on creation is not specified; one is always set before the first frame
    let mut unset = true;
    for n in 0..total {
        while k < ch.len() && ch[k].at <= n {
            let v = f64_of(ch[k].val);
            if ch[k].idx == 1 {
                g = v;
            } else if v * s < max.floor() + 1. {
                // Longer delays than there is room for are ignored
                l.set(v * s);
                set = true;
                unset = false;
            } else {
                refused += 1;
            }
            k += 1;
        }
        if unset {
            return Ok(());
        }
        let d = l.read();
        let x = Float::to_f64(input[n]);
        let want = if fb {
            let w = d * g + x;
            l.written.push(w);
            d - g * w
        } else {
            l.written.push(x);
            d
        };
        top = top.max(want.abs()).max(l.y1.abs());
        let y = r.out[0][n];
        // the coefficient is rounded, and the filter rings for as long as 1 / (1 - |c|) frames
        let ring = 1. / (1. - l.c.abs()).max(1e-3);
        let tol = if is32::<F>() { 3e-5 } else { 1e-10 } * top * (1. + ring / 10.);
        check!(
            (y - want).abs() <= tol,
            format!("{name}: wrong sample"),
            "frame {n}: {y}, expected {want} (delay {} frames and coefficient {})",
            l.whole,
            l.c
        );
    }
    ctx.class_if(refused > 0, "longer than possible");
    ctx.class_if(l.whole == 1, "one frame");
    ctx.nontrivial_if(set && r.out[0].iter().any(|v| *v != 0.));
    Ok(())
}
pub fn allpass(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.chance(2, 3) {
        allpass_t::<f64>(src, ctx)
    } else {
        allpass_t::<f32>(src, ctx)
    }
}

/// Direct use of AllpassDelay and AllpassInterpolator, with clearing.
pub fn allpass_direct(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = src.range(2, 50);
    let mut u = AllpassDelay::<f64>::new(Seconds::from_samples(max as u64, 1000));
    u.init(1000, 16);
    let mut l = Line::new();
    let mut log = vec![];
    let (mut n, mut clears) = (0, 0);
    // `clear` leaves what a longer delay set later would still reach
    let mut partly = false;
    let t = |src: &mut Src| match src.weighted(&[3, 1]) {
        0 => src.f(1., max as f64),
        _ => src.range(1, max) as f64,
    };
    let res = (|| -> Res {
        let first = t(src);
        log.push(format!("delay {first}"));
        u.set_delay_in_frames(first);
        l.set(first);
        for _ in 0..src.range(1, 12) {
            match src.weighted(&[4, 1, 1, 1]) {
                0 => {
                    for _ in 0..src.range(1, 30) {
                        let x = src.sample();
                        let (y, want) = (u.read(), l.read());
                        check!(
                            (y - want).abs() < 1e-9 * (1. + want.abs()),
                            "AllpassDelay: wrong sample (direct)",
                            "frame {n}: {y}, expected {want}"
                        );
                        u.write_and_advance(x);
                        l.written.push(x);
                        n += 1;
                    }
                    log.push(format!("until {n}"));
                }
                1 => {
                    let mut d = t(src);
                    if partly {
                        d = d.min(l.written.len() as f64);
                    }
                    log.push(format!("delay {d}"));
                    u.set_delay_in_frames(d);
                    l.set(d);
                }
                2 => {
                    let d = t(src);
                    log.push(format!("delay {d} and clear"));
                    u.set_delay_in_frames_and_clear(d);
                    l = Line::new();
                    l.set(d);
                    partly = false;
                    clears += 1;
                }
                _ => {
                    log.push("clear".into());
                    partly = true;
                    // cleared for as long as what has been written could still be read
                    u.clear();
                    let (w, c) = (l.whole, l.c);
                    l = Line::new();
                    (l.whole, l.c) = (w, c);
                    clears += 1;
                    // the delay length is kept until it has been cleared
                    for _ in 0..w {
                        let x = src.sample();
                        let y = u.read();
                        check!(y == 0., "AllpassDelay: not cleared", "frame {n}: {y}");
                        l.read();
                        u.write_and_advance(x);
                        l.written.push(x);
                        n += 1;
                    }
                }
            }
        }
        Ok(())
    })();
    ctx.note(|| format!("max {max}: {log:?}"));
    ctx.class_if(clears > 0, "cleared");
    ctx.nontrivial_if(n > l.whole);
    res
}

/// A StaticSampleDelay: samples and blocks, with changes of the length.
fn fixed_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let max = src.range(1, 40);
    let mut u = StaticSampleDelay::<F>::new(max);
    let (mut len, mut log) = (max, vec![]);
    // What is read next, by how many frames from now; unknown after a change of length, until it
    // has been written again
    let mut q: Vec<Option<f64>> = vec![Some(0.); max];
    let (mut changed, mut blocks, mut frames) = (0, 0, 0);
    let val = |src: &mut Src| src.irange(-50, 50) as f64 / 8.;
    let res = (|| -> Res {
        for _ in 0..src.range(1, 25) {
            let mut expect = |y: F, w: Option<f64>, what: &str| -> Res {
                if let Some(w) = w {
                    check!(
                        Float::to_f64(y) == w,
                        format!("StaticSampleDelay: wrong sample from {what}"),
                        "{} instead of {w}",
                        Float::to_f64(y)
                    );
                }
                Ok(())
            };
            match src.weighted(&[4, 4, 4, 2, 1, 1]) {
                0 => {
                    let n = src.range(1, 20);
                    log.push(format!("{n} frames"));
                    for _ in 0..n {
                        let v = val(src);
                        expect(u.read(), q.remove(0), "read")?;
                        u.write_and_advance(F::new(v));
                        q.push(Some(v));
                        frames += 1;
                    }
                }
                k @ (1 | 2) => {
                    let n = if k == 1 {
                        src.range(1, len)
                    } else {
                        src.range(1, 60)
                    };
                    let v: Vec<f64> = (0..n).map(|_| val(src)).collect();
                    let input: Vec<F> = v.iter().map(|v| F::new(*v)).collect();
                    let mut out = vec![F::new(POISON); n];
                    if k == 1 {
                        log.push(format!("read and write a block of {n}"));
                        u.read_block(&mut out);
                        u.write_block_and_advance(&input);
                    } else {
                        log.push(format!("process a block of {n}"));
                        u.process(&input, &mut out, n);
                    }
                    for (o, v) in out.iter().zip(&v) {
                        let w = q.remove(0);
                        q.push(Some(*v));
                        expect(*o, w, if k == 1 { "read_block" } else { "process" })?;
                    }
                    blocks += 1;
                    frames += n;
                }
                3 => {
                    let n = src.range(1, max + 5);
                    log.push(format!("length {n}"));
                    u.set_delay_length(n);
                    if n.min(max) != len {
                        len = n.min(max);
                        // Which of the samples in the delay are heard is not specified
                        q = vec![None; len];
                        changed += 1;
                    }
                }
                4 => {
                    // away from whole numbers of frames
                    let n = src.range(1, max);
                    let f = (n as f64 + 0.4) / max as f64;
                    log.push(format!("length {f} of {max}"));
                    u.set_delay_length_fraction(F::new(f));
                    if n != len {
                        len = n;
                        q = vec![None; len];
                        changed += 1;
                    }
                }
                _ => {
                    // The samples by their position: what is read at `position` is next
                    if len == max && q.iter().all(|v| v.is_some()) {
                        let i = src.idx(max);
                        let p = (u.position + i) % max;
                        log.push(format!("read at {p}"));
                        expect(u.read_at(p), q[i], "read_at")?;
                        let f = src.f(0., 0.999);
                        let x = F::new(p as f64 + f + if src.bool() { max as f64 } else { 0. });
                        let f = Float::to_f64(x).fract();
                        let (a, b) = (q[i].unwrap(), q[(i + 1) % max].unwrap());
                        let y = Float::to_f64(u.read_at_lin(x));
                        let want = a + (b - a) * f;
                        check!(
                            (y - want).abs() < 1e-4,
                            "StaticSampleDelay: wrong interpolation",
                            "at {p} + {f}: {y} instead of {want}"
                        );
                    }
                }
            }
        }
        Ok(())
    })();
    ctx.note(|| format!("max {max}: {log:?}"));
    ctx.class_if(changed > 0, "length changed");
    ctx.class_if(blocks > 0, "blocks");
    ctx.class_if(blocks > 0 && changed > 0, "blocks and length changed");
    ctx.nontrivial_if(frames > max);
    res
}
pub fn fixed(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        fixed_t::<f64>(src, ctx)
    } else {
        fixed_t::<f32>(src, ctx)
    }
}
