//! P24: panning, limiting, mathematics, closures, probes and the reverb.
use crate::dynu::*;
use crate::osc::f64_of;
use crate::zoo::{TRIG, fl};
use std::sync::{Arc, Mutex};

use knaster_airwindows::galactic::Galactic;
use knaster_core::log::{ArLogMessage, ArLogReceiver};
use knaster_core::typenum::{U0, U1, U2, U3, U4};
use knaster_core::*;
use knaster_core_dsp::closure::ugen;
use knaster_core_dsp::dynamics::SafetyLimiter;
use knaster::math_ugens as ku;
use knaster_core_dsp::math::{self as m, Math1UGen, MathUGen};
use knaster_core_dsp::noise::next_randomness_seed;
use knaster_core_dsp::pan::Pan2;
use knaster_core_dsp::util::*;
use kv::*;
use std::f64::consts::{FRAC_PI_4, TAU};

fn is32<F: Float>() -> bool {
    std::mem::size_of::<F>() == 4
}
fn setup(src: &mut Src) -> (u32, usize, usize, How) {
    let sr = src.pickc(&[48000u32, 1000, 44100, 8000, 96000]);
    let total = src.range(1, 80);
    let bs = src.pickc(&[16, 1, 8, 64, 33]);
    let h = how(src, total);
    (sr, total, bs, h)
}
/// Samples of all kinds.
fn odd(src: &mut Src) -> f64 {
    match src.weighted(&[6, 2, 1, 1]) {
        0 => src.sample(),
        1 => src.f(-10., 10.),
        2 => src.pickc(&[
            f64::NAN,
            f64::INFINITY,
            f64::NEG_INFINITY,
            -0.,
            1e30,
            -1e30,
            1e-30,
        ]),
        _ => src.irange(-4, 4) as f64,
    }
}
fn same(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

fn small_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (sr, total, bs, h) = setup(src);
    let kind = src.idx(5);
    let name = ["Pan2", "SafetyLimiter", "Constant", "MathUGen", "Math1UGen"][kind];
    ctx.class(name);
    ctx.nontrivial_if(total > 1);
    let v = |src: &mut Src| match kind {
        0 => match src.weighted(&[4, 1]) {
            0 => src.f(-1., 1.),
            _ => src.pickc(&[-1., 0., 1.]),
        },
        _ => Float::to_f64(F::new(src.f(-5., 5.))),
    };
    let (n, op) = (src.range(1, 4), src.idx(12));
    let ins = match kind {
        3 => 2 * n,
        2 => 0,
        _ => 1,
    };
    let input: Vec<Vec<F>> = (0..ins)
        .map(|_| (0..total).map(|_| F::new(odd(src))).collect())
        .collect();
    let x0 = v(src);
    let ch = chgs(src, total, 4, [1, 0, 1, 0, 0][kind], &|src, _| fl(v(src)));
    ctx.note(|| {
        format!("{name} {x0} operation {op} of {n}, {total} frames in {bs} {h:?}, changes {ch:?}, input {input:?}")
    });
    macro_rules! math {
        ($n:ty) => {
            match op % 5 {
                0 => Box::new(MathUGen::<F, $n, m::Add>::new()) as Box<dyn Dyn<F>>,
                1 => Box::new(MathUGen::<F, $n, m::Sub>::new()),
                2 => Box::new(MathUGen::<F, $n, m::Mul>::new()),
                3 => Box::new(MathUGen::<F, $n, m::Div>::new()),
                _ => Box::new(MathUGen::<F, $n, m::Pow>::new()),
            }
        };
    }
    let u: Box<dyn Dyn<F>> = match (kind, n, op) {
        (0, ..) => Box::new(Pan2::<F>::new(x0 as f32)),
        (1, ..) => Box::new(SafetyLimiter::<F>::new()),
        (2, ..) => Box::new(Constant::<F>::new(F::new(x0))),
        (3, 1, 5) => Box::new(ku::add::<F>()),
        (3, 1, 6) => Box::new(ku::sub::<F>()),
        (3, 1, 7) => Box::new(ku::mul::<F>()),
        (3, 1, 8) => Box::new(ku::div::<F>()),
        (3, 1, 9) => Box::new(ku::pow::<F>()),
        (3, 1, _) => math!(U1),
        (3, 2, _) => math!(U2),
        (3, 3, _) => math!(U3),
        (3, ..) => math!(U4),
        (_, _, 0) => Box::new(Math1UGen::<F, m::Ceil>::new()),
        (_, _, 1) => Box::new(Math1UGen::<F, m::Sqrt>::new()),
        (_, _, 2) => Box::new(Math1UGen::<F, m::Floor>::new()),
        (_, _, 3) => Box::new(Math1UGen::<F, m::Trunc>::new()),
        (_, _, 4) => Box::new(Math1UGen::<F, m::Fract>::new()),
        (_, _, 5) => Box::new(Math1UGen::<F, m::Exp>::new()),
        (_, _, 6) => Box::new(ku::ceil::<F>()),
        (_, _, 7) => Box::new(ku::sqrt::<F>()),
        (_, _, 8) => Box::new(ku::floor::<F>()),
        (_, _, 9) => Box::new(ku::trunc::<F>()),
        (_, _, 10) => Box::new(ku::fract::<F>()),
        _ => Box::new(ku::exp::<F>()),
    };
    let r = render(u, sr, bs, total, &input, &ch, &h);
    let (mut x, mut k) = (x0, 0);
    for i in 0..total {
        while k < ch.len() && ch[k].at <= i {
            x = f64_of(ch[k].val);
            k += 1;
        }
        let a = |c: usize| input[c][i];
        let got: Vec<f64> = r.out.iter().map(|o| o[i]).collect();
        let f = |v: F| Float::to_f64(v);
        let (want, tol): (Vec<f64>, f64) = match kind {
            0 => {
                // equal power: the angle goes from all left to all right
                let t = (x + 1.) * FRAC_PI_4;
                let s = f(a(0));
                if !s.is_finite() {
                    continue;
                }
                (vec![s * t.cos(), s * t.sin()], 2e-3 * s.abs())
            }
            1 => {
                let s = f(a(0));
                (vec![if s.is_nan() { 0. } else { s.clamp(-1., 1.) }], 0.)
            }
            2 => (vec![f(F::new(x))], 0.),
            3 => (
                (0..n)
                    .map(|c| {
                        let (a, b) = (a(c), a(c + n));
                        f(match op % 5 {
                            0 => a + b,
                            1 => a - b,
                            2 => a * b,
                            3 => a / b,
                            _ => a.powf(b),
                        })
                    })
                    .collect(),
                0.,
            ),
            _ => {
                let a = a(0);
                let w = match op % 6 {
                    0 => f(a).ceil(),
                    1 => f(a.sqrt()),
                    2 => f(a).floor(),
                    3 => f(a).trunc(),
                    4 => f(a) - f(a).trunc(),
                    _ => f(a.exp()),
                };
                (vec![w], 0.)
            }
        };
        // a power may be computed differently, to the last bit
        let tol = if kind == 3 && op % 5 == 4 {
            want.iter()
                .map(|w| if w.is_finite() { w.abs() * 1e-5 } else { 0. })
                .fold(0., f64::max)
        } else {
            tol
        };
        check!(
            got.len() == want.len()
                && got
                    .iter()
                    .zip(&want)
                    .all(|(g, w)| same(*g, *w) || (g - w).abs() <= tol),
            format!("{name}: wrong sample"),
            "frame {i}: {got:?}, expected {want:?}"
        );
    }
    Ok(())
}
pub fn small(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        small_t::<f64>(src, ctx)
    } else {
        small_t::<f32>(src, ctx)
    }
}

type Calls = Arc<Mutex<Vec<(u64, Vec<f64>)>>>;
/// Closures are called once for every frame, in order, with the input and the context of the
/// frame; what they return is the output and what they mark is seen.
fn closure_t<F: Float + Send>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (sr, total, bs, h) = setup(src);
    let shape = src.idx(6);
    let (ins, outs) = [(0, 1), (1, 0), (1, 1), (2, 3), (3, 2), (1, 4)][shape];
    let input: Vec<Vec<F>> = (0..ins).map(|_| signal(src, total)).collect();
    let done = if src.bool() {
        src.idx(total) as u64
    } else {
        u64::MAX
    };
    ctx.note(|| {
        format!("{ins} inputs {outs} outputs, done at {done}, {total} frames in {bs} {h:?}, input {input:?}")
    });
    let calls: Calls = Arc::default();
    let c = calls.clone();
    // notes the call and gives a value that no other call gives
    let mut call = move |ctx: &mut AudioCtx, flags: &mut UGenFlags, x: &[F]| -> F {
        let t = ctx.frame_clock();
        let mut c = c.lock().unwrap();
        c.push((t, x.iter().map(|x| Float::to_f64(*x)).collect()));
        let n = c.len();
        if n as u64 - 1 == done {
            flags.mark_done(ctx.block_start_offset() as u32);
        }
        F::new(n as f64)
    };
    type A<'a> = &'a mut AudioCtx;
    type G<'a> = &'a mut UGenFlags;
    let u: Box<dyn Dyn<F>> = match shape {
        0 => Box::new(ugen::<F, U0, U1>(move |c: A, f: G| call(c, f, &[]))),
        1 => Box::new(ugen::<F, U1, U0>(move |c: A, f: G, x: F| {
            call(c, f, &[x]);
        })),
        2 => Box::new(ugen::<F, U1, U1>(move |c: A, f: G, x: [F; 1]| {
            [call(c, f, &x)]
        })),
        3 => Box::new(ugen::<F, U2, U3>(move |c: A, f: G, x: [F; 2]| {
            let y = call(c, f, &x);
            [y, y + F::new(0.25), y + F::new(0.5)]
        })),
        4 => Box::new(ugen::<F, U3, U2>(move |c: A, f: G, x: [F; 3]| {
            let y = call(c, f, &x);
            [y, y + F::new(0.25)]
        })),
        _ => Box::new(ugen::<F, U1, U4>(move |c: A, f: G, x: [F; 1]| {
            let y = call(c, f, &x);
            [y, y + F::new(0.25), y + F::new(0.5), y + F::new(0.75)]
        })),
    };
    let r = render(u, sr, bs, total, &input, &[], &h);
    let calls = calls.lock().unwrap();
    check!(
        calls.len() == total.div_ceil(bs) * bs,
        "closure: not called once per frame",
        "{} calls",
        calls.len()
    );
    for n in 0..total {
        let want: Vec<f64> = input.iter().map(|i| Float::to_f64(i[n])).collect();
        check!(
            calls[n].1 == want,
            "closure: wrong input",
            "frame {n}: {:?}, expected {want:?}",
            calls[n].1
        );
        let got: Vec<f64> = r.out.iter().map(|o| o[n]).collect();
        let want: Vec<f64> = (0..outs)
            .map(|c| (n + 1) as f64 + c as f64 * 0.25)
            .collect();
        check!(
            got == want,
            "closure: wrong output",
            "frame {n}: {got:?}, expected {want:?}"
        );
    }
    let want: Vec<usize> = if done == u64::MAX {
        vec![]
    } else {
        vec![done as usize]
    };
    check!(
        r.dones == want,
        "closure: done",
        "done at {:?}, expected {want:?}",
        r.dones
    );
    ctx.class_if(!want.is_empty(), "done");
    ctx.nontrivial_if(total > 1);
    Ok(())
}
pub fn closure(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        closure_t::<f64>(src, ctx)
    } else {
        closure_t::<f32>(src, ctx)
    }
}

/// Done markers and log probes.
fn probe_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        ctx.class("DoneOnTrig");
        let (sr, total, bs, h) = setup(src);
        let ch = chgs(src, total, 5, 1, &|_, _| TRIG);
        ctx.note(|| format!("DoneOnTrig, {total} frames in {bs} {h:?}, triggers {ch:?}"));
        let r = render(
            Box::new(DoneOnTrig::<F>::new()),
            sr,
            bs,
            total,
            &[],
            &ch,
            &h,
        );
        let mut want: Vec<usize> = ch.iter().map(|c| c.at).collect();
        want.dedup();
        // processed frame by frame, flags are looked at after every frame; otherwise per part
        check!(
            r.dones == want,
            "DoneOnTrig: done at the wrong frame",
            "{:?}, triggered at {want:?}",
            r.dones
        );
        ctx.nontrivial_if(!want.is_empty());
        return Ok(());
    }
    ctx.class("LogProbe");
    let sr = src.range(1, 60) as u32;
    let bs = src.pickc(&[16, 1, 8, 64, 33]);
    let blocks = src.range(1, 1 + 200 / bs);
    let input: Vec<F> = signal(src, bs * blocks);
    let cuts: Vec<Vec<usize>> = (0..blocks).map(|_| splits(src, bs)).collect();
    let frames = src.bool();
    ctx.note(|| format!("LogProbe at {sr} Hz, {blocks} blocks of {bs}, cut at {cuts:?}, frame by frame {frames}, input {input:?}"));
    let (tx, mut rx) = ArLogReceiver::new().sender(4096);
    let mut rig = Rig::new(Box::new(LogProbe::<F>::new("probe")), sr, bs);
    rig.ctx = AudioCtx::new(sr, bs, tx);
    for b in 0..blocks {
        let part = [input[b * bs..(b + 1) * bs].to_vec()];
        if frames {
            rig.frames(&part);
        } else {
            rig.block(&part, &cuts[b]);
        }
    }
    let mut got: Vec<(bool, f64)> = vec![];
    let mut other = false;
    rx.recv(|m| {
        let mut named = false;
        for p in m {
            match p {
                ArLogMessage::Str(s) => named |= *s == "probe",
                ArLogMessage::Float(v) => got.push((named, *v)),
                ArLogMessage::End => {}
                _ => other = true,
            }
        }
    });
    let want: Vec<(bool, f64)> = input
        .iter()
        .step_by(sr as usize)
        .map(|v| (true, Float::to_f64(*v)))
        .collect();
    check!(
        got == want && !other,
        "LogProbe: wrong messages",
        "{got:?}, expected {want:?}"
    );
    ctx.nontrivial_if(want.len() > 2);
    Ok(())
}
pub fn probe(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        probe_t::<f64>(src, ctx)
    } else {
        probe_t::<f32>(src, ctx)
    }
}

/// A line of memory which is written, then read: what was written `len - 1` frames ago.
struct Mem {
    v: Vec<f64>,
    at: usize,
}
impl Mem {
    fn new(len: usize) -> Mem {
        Mem {
            v: vec![0.; len.max(1)],
            at: 0,
        }
    }
    fn step(&mut self, x: f64) -> f64 {
        let n = self.v.len();
        self.v[self.at] = x;
        self.at = (self.at + 1) % n;
        self.v[self.at]
    }
    /// What was written `frames` frames before the last one.
    fn ago(&self, frames: f64) -> f64 {
        let n = self.v.len();
        let get = |d: usize| self.v[(self.at + 2 * n - 1 - d) % n];
        let d = frames.floor();
        let (a, b) = (get(d as usize), get(d as usize + 1));
        a + (b - a) * (frames - d)
    }
}
/// Each of four minus the sum of the other three.
fn mix(v: [f64; 4]) -> [f64; 4] {
    let sum: f64 = v.iter().sum();
    std::array::from_fn(|i| 2. * v[i] - sum)
}
const LENGTHS: [usize; 12] = [
    6480, 3660, 1720, 680, 9700, 6000, 2320, 940, 15220, 8460, 4540, 3200,
];
fn reverb_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = src.pickc(&[44100u32, 48000, 22050, 96000]);
    let small = src.chance(3, 4);
    let total = if small {
        src.range(200, 2500)
    } else {
        src.range(2000, 12000)
    };
    let bs = src.pickc(&[64, 16, 1000, 1024]);
    let h = if src.chance(1, 4) {
        How::Frames
    } else if src.chance(1, 3) {
        How::Parts((0..total).map(|_| src.chance(1, 100)).collect())
    } else {
        How::Parts(vec![])
    };
    let unit = |src: &mut Src| match src.weighted(&[3, 1]) {
        0 => Float::to_f64(F::new(src.f(0., 1.))),
        _ => src.pickc(&[0., 1., 0.5]),
    };
    let mut p: [f64; 5] = std::array::from_fn(|_| unit(src));
    if small {
        p[3] = Float::to_f64(F::new(src.f(0., 0.1)));
    }
    // the vibrato stays clear of where it starts over a second time
    let loud = src.pickc(&[1., 1., 0.1, 4.]);
    let input: Vec<Vec<F>> = (0..2)
        .map(|_| {
            signal::<F>(src, total)
                .iter()
                .map(|v| F::new(Float::to_f64(*v) * loud))
                .collect()
        })
        .collect();
    // the size is kept; replace, brightness and wet can change
    let ch = chgs(src, total, 3, 3, &|src, _| fl(unit(src)));
    let ch: Vec<Chg> = ch
        .into_iter()
        .map(|mut c| {
            c.idx = [0, 2, 4][c.idx];
            c
        })
        .collect();
    ctx.note(|| format!("{p:?}, {sr} Hz, {total} frames in {bs}, changes {ch:?}"));
    let seed = next_randomness_seed() + 1;
    let f = F::new;
    let u = Galactic::<F>::new(f(p[0]), f(p[1]), f(p[2]), f(p[3]), f(p[4]));
    let r = render(Box::new(u), sr, bs, total, &input, &ch, &h);
    let mut rng = fastrand::Rng::with_seed(seed);
    let mut fpd = [rng.u32(16386..u32::MAX), rng.u32(16386..u32::MAX)];
    let size = F::new(p[3]) * F::new(0.9) + F::new(0.1);
    let len = |i: usize| {
        let full = (LENGTHS[i] as f64 / 44100. * sr as f64) as usize;
        (F::new(full as f64) * size).to_usize().unwrap()
    };
    let mut lines: Vec<Vec<Mem>> = (0..2)
        .map(|_| (0..12).map(|i| Mem::new(len(i))).collect())
        .collect();
    let mut vib_mem = [Mem::new(256), Mem::new(256)];
    let (mut back, mut pre, mut post) = ([[0.; 4]; 2], [0.; 2], [0.; 2]);
    let (mut vib, mut speed, mut turns) = (3f64, 429496.7295, 0);
    let (mut k, mut top) = (0, loud);
    let mut wet_seen = 0f64;
    for n in 0..total {
        while k < ch.len() && ch[k].at <= n {
            p[ch[k].idx] = f64_of(ch[k].val);
            k += 1;
        }
        let regen = 0.0625 * (2. - p[0]);
        let attenuate = (1. - regen / 0.125) * 1.333;
        let low = (0.00001 + p[2]).powi(2) / (sr as f64 / 44100.).sqrt();
        let wet = 1. - (1. - p[4]).powi(3);
        let drift = p[1].powi(3) * 0.001;
        let x: [f64; 2] = std::array::from_fn(|c| {
            let x = Float::to_f64(input[c][n]);
            if x.abs() < 1.18e-23 {
                fpd[c] as f64 * 1.18e-17
            } else {
                x
            }
        });
        vib += speed * drift;
        if vib > TAU {
            vib = 0.;
            speed = 0.4294967295 + fpd[0] as f64 * 0.0000000000618;
            turns += 1;
            if turns == 2 {
                return Ok(());
            }
        } else if is32::<F>() && (vib - TAU).abs() < 1e-5 {
            return Ok(());
        }
        let mut t = [[0.; 4]; 2];
        for c in 0..2 {
            vib_mem[c].step(x[c] * attenuate);
            let a = (vib + TAU / 4. * c as f64).sin() + 1.;
            let v = vib_mem[c].ago(255. - a * 127.);
            pre[c] += (v - pre[c]) * low;
        }
        for c in 0..2 {
            let b: [f64; 4] =
                std::array::from_fn(|i| lines[c][i].step(back[1 - c][i] * regen + pre[c]));
            let b = mix(b);
            let b: [f64; 4] = std::array::from_fn(|i| lines[c][i + 4].step(b[i]));
            let b = mix(b);
            t[c] = std::array::from_fn(|i| lines[c][i + 8].step(b[i]));
        }
        for c in 0..2 {
            back[c] = mix(t[c]);
            let rev = t[c].iter().sum::<f64>() / 8.;
            post[c] += (rev - post[c]) * low;
            let want = post[c] * wet + x[c] * (1. - wet);
            top = top
                .max(want.abs())
                .max(t[c].iter().map(|v| v.abs()).fold(0., f64::max));
            wet_seen = wet_seen.max((post[c] * wet).abs());
            let got = r.out[c][n];
            let tol = if is32::<F>() {
                5e-4 * top
            } else {
                1e-9 * top + 1.3e-7 * want.abs() + 6e-8
            };
            check!(
                (got - want).abs() <= tol,
                "Galactic: wrong sample",
                "frame {n} channel {c}: {got}, expected {want}"
            );
            fpd[c] ^= fpd[c] << 13;
            fpd[c] ^= fpd[c] >> 17;
            fpd[c] ^= fpd[c] << 5;
        }
    }
    ctx.class_if(wet_seen > 1e-4, "reverberation heard");
    ctx.class_if(turns > 0, "vibrato started over");
    ctx.nontrivial_if(wet_seen > 1e-4);
    Ok(())
}
pub fn reverb(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        reverb_t::<f64>(src, ctx)
    } else {
        reverb_t::<f32>(src, ctx)
    }
}
