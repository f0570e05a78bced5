//! P11: how audio is cut into blocks does not matter, for any UGen.
use crate::dynu::*;

use knaster_core::typenum::{U0, U1, U2, U3};
use knaster_core::*;
use knaster_core_dsp::buffer::BufferReader;
use knaster_core_dsp::closure::ugen;
use knaster_core_dsp::delay::*;
use knaster_core_dsp::dsp::buffer::Buffer;
use knaster_core_dsp::dynamics::SafetyLimiter;
use knaster_core_dsp::envelopes::*;
use knaster_core_dsp::math::{self as m, Math1UGen, MathUGen};
use knaster_core_dsp::noise::WhiteNoise;
use knaster_core_dsp::onepole::*;
use knaster_core_dsp::osc::*;
use knaster_core_dsp::pan::Pan2;
use knaster_core_dsp::polyblep::{PolyBlep, Waveform};
use knaster_core_dsp::svf::*;
use knaster_core_dsp::util::*;
use knaster_core_dsp::wrappers_core::*;
use kv::*;
use std::sync::Arc;

pub type Make<F> = Box<dyn Fn() -> Box<dyn Dyn<F>>>;
pub type PGen = Box<dyn Fn(&mut Src, usize) -> ParameterValue>;
pub fn fl(v: f64) -> ParameterValue {
    ParameterValue::Float(v)
}
pub const TRIG: ParameterValue = ParameterValue::Trigger;
pub fn int(v: usize) -> ParameterValue {
    ParameterValue::Integer(PInteger(v))
}
/// A duration which is mostly not a whole number of frames.
pub fn dur(src: &mut Src, sr: u32, max: f64) -> f64 {
    match src.weighted(&[1, 4, 2]) {
        0 => 0.,
        1 => src.f(0., max) / sr as f64,
        _ => src.f(0., max).round() / sr as f64,
    }
}

fn wrapped<F: Float, U: UGen<Sample = F> + 'static>(
    k: usize,
    f: impl Fn() -> U + 'static,
) -> Make<F> {
    match k {
        0 => Box::new(move || Box::new(f())),
        1 => Box::new(move || Box::new(f().ar_params())),
        2 => Box::new(move || Box::new(f().smooth_params())),
        3 => Box::new(move || Box::new(f().precise_timing::<4>())),
        4 => Box::new(move || Box::new(f().smooth_params().ar_params())),
        _ => Box::new(move || Box::new(f().wr_add(F::ONE).precise_timing::<4>().smooth_params())),
    }
}
pub fn buffer<F: Float>(src: &mut Src, sr: u32, channels: usize) -> Arc<Buffer<F>> {
    let frames = src.range(1, 60);
    let rate = src.pickc(&[1., 2., 0.5, 1.37]) * sr as f64;
    let v: Vec<F> = (0..frames * channels)
        .map(|_| F::new(src.sample()))
        .collect();
    Arc::new(Buffer::from_vec_interleaved(v, channels, rate))
}
/// Any UGen of the library, its name, how to make it and values for its parameters.
pub fn zoo<F: Float>(src: &mut Src, sr: u32) -> (&'static str, Make<F>, PGen) {
    let w = src.weighted(&[6, 1, 1, 1, 1, 1]);
    let k = src.idx(25);
    let s = sr as f64;
    let none: PGen = Box::new(|_, _| TRIG);
    match k {
        0 => {
            let f = src.f(0., s / 2.);
            (
                "SinWt",
                wrapped(w, move || SinWt::<F>::new(F::new(f))),
                Box::new(move |src, i| match i {
                    0 => fl(src.f(0., s / 2.)),
                    1 => fl(src.f(0., 1.)),
                    _ => TRIG,
                }),
            )
        }
        1 => {
            let f = src.f(0., s);
            (
                "Phasor",
                wrapped(w, move || Phasor::<F>::new(f)),
                Box::new(move |src, _| fl(src.f(0., s))),
            )
        }
        2 => {
            let f = src.f(0., s / 2.);
            (
                "SinNumeric",
                wrapped(w, move || SinNumeric::<F>::new(F::new(f))),
                Box::new(move |src, i| match i {
                    0 => fl(src.f(0., s / 2.)),
                    1 => fl(src.f(0., 1.)),
                    _ => TRIG,
                }),
            )
        }
        3 => {
            let f = src.f(0., s / 2.);
            let wave = src.idx(14);
            (
                "PolyBlep",
                wrapped(w, move || {
                    PolyBlep::<F>::new(Waveform::from(PInteger(wave)), F::new(f))
                }),
                Box::new(move |src, i| match i {
                    0 => fl(src.f(0., s / 2.)),
                    1 => fl(src.f(0.02, 0.98)),
                    _ => int(src.idx(14)),
                }),
            )
        }
        4 => {
            let (a, r) = (dur(src, sr, 40.), dur(src, sr, 40.));
            (
                "EnvAsr",
                wrapped(w, move || EnvAsr::<F>::new(F::new(a), F::new(r))),
                Box::new(move |src, i| match i {
                    0 | 1 => fl(dur(src, sr, 40.)),
                    _ => TRIG,
                }),
            )
        }
        5 => {
            let (a, r) = (dur(src, sr, 40.), dur(src, sr, 40.));
            (
                "EnvAr",
                wrapped(w, move || EnvAr::<F>::new(F::new(a), F::new(r))),
                Box::new(move |src, i| match i {
                    0 | 1 => fl(dur(src, sr, 40.)),
                    _ => TRIG,
                }),
            )
        }
        6 => {
            let n = src.range(1, 5);
            let v: Vec<(f64, f64)> = (0..n).map(|_| (dur(src, sr, 30.), src.sample())).collect();
            let start = src.sample();
            let l = src.bool();
            (
                "Envelope",
                wrapped(w, move || {
                    Envelope::<F>::new(
                        start,
                        v.iter()
                            .map(|(d, v)| EnvelopeSegment::new(*d, *v))
                            .collect(),
                    )
                    .looping(l)
                }),
                Box::new(move |src, i| match i {
                    0 => fl(src.f(0.1, 3.)),
                    1 => int(src.range(0, n)),
                    _ => TRIG,
                }),
            )
        }
        7 => {
            let m = src.f(0., 50.);
            (
                "SampleDelay",
                wrapped(w, move || {
                    SampleDelay::<F>::new(Seconds::from_secs_f64(m / s))
                }),
                Box::new(move |src, _| fl(src.f(0., 60.) / s)),
            )
        }
        8 => {
            let m = src.f(2., 50.);
            (
                "AllpassDelay",
                wrapped(w, move || {
                    AllpassDelay::<F>::new(Seconds::from_secs_f64(m / s))
                }),
                Box::new(move |src, _| fl(src.f(0., 60.) / s)),
            )
        }
        9 => {
            let m = src.f(2., 50.);
            (
                "AllpassFeedbackDelay",
                wrapped(w, move || {
                    AllpassFeedbackDelay::<F>::new(Seconds::from_secs_f64(m / s))
                }),
                Box::new(move |src, i| match i {
                    0 => fl(src.f(0., 60.) / s),
                    _ => fl(src.f(-0.95, 0.95)),
                }),
            )
        }
        10 => {
            let f = src.f(0., s / 2.);
            (
                "OnePoleLpf",
                wrapped(w, move || OnePoleLpf::<F>::new(F::new(f))),
                Box::new(move |src, _| fl(src.f(0., s / 2.))),
            )
        }
        11 => (
            "OnePoleHpf",
            wrapped(w, || OnePoleHpf::<F>::new()),
            Box::new(move |src, _| fl(src.f(0., s / 2.))),
        ),
        12 => {
            let (t, f) = (src.idx(9), src.f(0.01, 0.45) * s);
            (
                "SvfFilter",
                wrapped(w, move || {
                    SvfFilter::<F>::new(
                        SvfFilterType::from(PInteger(t)),
                        F::new(f),
                        F::ONE,
                        F::ZERO,
                    )
                }),
                Box::new(move |src, i| match i {
                    0 => fl(src.f(0.01, 0.45) * s),
                    1 => fl(src.f(0.3, 5.)),
                    2 => fl(src.f(-12., 12.)),
                    3 => int(src.idx(9)),
                    _ => TRIG,
                }),
            )
        }
        13 => {
            let c = src.range(1, 2);
            let b = buffer::<F>(src, sr, c);
            let (rate, l) = (src.pickc(&[1., 0.5, 2., 0.813]), src.bool());
            let len = b.length_seconds();
            let at = if src.chance(1, 4) { src.f(0., len) } else { 0. };
            let g: PGen = Box::new(move |src, i| match i {
                0 => fl(src.f(0.1, 3.)),
                1 => ParameterValue::Bool(src.bool()),
                2 => fl(src.f(0., len)),
                3 => fl(src.f(0., len * 1.5)),
                4 => fl(src.f(0., len * 1.5)),
                _ => TRIG,
            });
            if src.bool() {
                (
                    "BufferReader",
                    wrapped(w, move || {
                        BufferReader::<F, U1>::new(b.clone(), rate, l)
                            .start_at(Seconds::from_secs_f64(at))
                    }),
                    g,
                )
            } else {
                (
                    "BufferReader",
                    wrapped(w, move || {
                        BufferReader::<F, U2>::new(b.clone(), rate, l)
                            .start_at(Seconds::from_secs_f64(at))
                    }),
                    g,
                )
            }
        }
        14 => {
            let p = src.f(-1., 1.) as f32;
            (
                "Pan2",
                wrapped(w, move || Pan2::<F>::new(p)),
                Box::new(|src, _| fl(src.f(-1., 1.))),
            )
        }
        15 => (
            "SafetyLimiter",
            wrapped(w, || SafetyLimiter::<F>::new()),
            none,
        ),
        16 => (
            "Constant",
            wrapped(w, || Constant::<F>::new(F::ONE)),
            Box::new(|src, _| fl(src.sample())),
        ),
        17 => ("DoneOnTrig", wrapped(w, || DoneOnTrig::<F>::new()), none),
        18 => {
            let m = match src.idx(5) {
                0 => wrapped(w, || MathUGen::<F, U1, m::Add>::new()),
                1 => wrapped(w, || MathUGen::<F, U2, m::Sub>::new()),
                2 => wrapped(w, || MathUGen::<F, U3, m::Mul>::new()),
                3 => wrapped(w, || MathUGen::<F, U2, m::Div>::new()),
                _ => wrapped(w, || MathUGen::<F, U1, m::Pow>::new()),
            };
            ("MathUGen", m, none)
        }
        19 => {
            let m = match src.idx(6) {
                0 => wrapped(w, || Math1UGen::<F, m::Ceil>::new()),
                1 => wrapped(w, || Math1UGen::<F, m::Sqrt>::new()),
                2 => wrapped(w, || Math1UGen::<F, m::Floor>::new()),
                3 => wrapped(w, || Math1UGen::<F, m::Trunc>::new()),
                4 => wrapped(w, || Math1UGen::<F, m::Fract>::new()),
                _ => wrapped(w, || Math1UGen::<F, m::Exp>::new()),
            };
            ("Math1UGen", m, none)
        }
        20 => (
            "closure",
            wrapped(w, || {
                let mut n = 0.;
                ugen::<F, U2, U3>(move |c: &mut AudioCtx, _: &mut UGenFlags, x: [F; 2]| {
                    n += Float::to_f64(x[0]);
                    [F::new(n), x[1], F::new(c.sample_rate() as f64) + x[0]]
                })
            }),
            none,
        ),
        21 => (
            "closure source",
            wrapped(w, || {
                let mut n = 0.;
                ugen::<F, U0, U1>(move |_: &mut AudioCtx, _: &mut UGenFlags| {
                    n += 1.;
                    F::new(n)
                })
            }),
            none,
        ),
        22 => {
            let (a, r) = (dur(src, sr, 40.), dur(src, sr, 40.));
            (
                "EnvAr, stacked",
                Box::new(move || {
                    Box::new(
                        EnvAr::<F>::new(F::new(a), F::new(r))
                            .wr_mul(F::new(0.5))
                            .wr(|x| x * x)
                            .precise_timing::<4>()
                            .wr_sub(F::ONE),
                    )
                }),
                Box::new(move |src, i| match i {
                    0 | 1 => fl(dur(src, sr, 40.)),
                    2 => TRIG,
                    _ => fl(src.sample()),
                }),
            )
        }
        23 => {
            let n = WhiteNoise::<F>::new();
            ("WhiteNoise", wrapped(w, move || n.clone()), none)
        }
        _ => {
            let f = src.f(0., s / 4.);
            (
                "SinNumeric, stacked",
                Box::new(move || {
                    Box::new(
                        SinNumeric::<F>::new(F::new(f))
                            .wr_powi(2)
                            .smooth_params()
                            .wr_mul(F::new(0.5))
                            .ar_params(),
                    )
                }),
                Box::new(move |src, i| match i {
                    0 => fl(src.f(0., s / 4.)),
                    1 => fl(src.f(0., 1.)),
                    2 => TRIG,
                    _ => fl(src.sample()),
                }),
            )
        }
    }
}

fn case<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = src.pickc(&[1000u32, 48000, 44100, 8000]);
    let (name, make, pgen) = zoo::<F>(src, sr);
    ctx.class(name);
    let total = src.range(1, 150);
    let u = make();
    let (ni, no, np) = u.dims();
    let input: Vec<Vec<F>> = (0..ni).map(|_| signal(src, total)).collect();
    let ch = chgs(src, total, 8, np, &*pgen);
    let bs = [src.pickc(&[16, 1, 2, 4, 8, 32, 64, 150]), src.range(1, 64)];
    let hows = [how(src, total), how(src, total)];
    ctx.note(|| {
        format!(
            "{name} ({}) at {sr} Hz for {total} frames, changes {ch:?}",
            if std::mem::size_of::<F>() == 4 {
                "f32"
            } else {
                "f64"
            }
        )
    });
    for (i, c) in input.iter().enumerate() {
        ctx.note(|| format!("input {i}: {c:?}"));
    }
    for i in 0..2 {
        ctx.note(|| format!("run {i}: block size {}, {:?}", bs[i], hows[i]));
    }
    let a = render(u, sr, bs[0], total, &input, &ch, &hows[0]);
    let b = render(make(), sr, bs[1], total, &input, &ch, &hows[1]);
    let eps = if std::mem::size_of::<F>() == 4 {
        1e-5
    } else {
        1e-11
    };
    for c in 0..no {
        let mut top = 1f64;
        for f in 0..total {
            let (x, y) = (a.out[c][f], b.out[c][f]);
            // Bit for bit, but for the code of `process` and `process_block` being compiled apart
            top = top.max(if x.is_finite() { x.abs() } else { 0. });
            check!(
                x == y || (x - y).abs() <= eps * top || (x.is_nan() && y.is_nan()),
                format!("{name}: output depends on the blocks"),
                "channel {c} frame {f}: {x} in the first run, {y} in the second"
            );
        }
    }
    check!(
        a.dones == b.dones,
        format!("{name}: done frame depends on the blocks"),
        "done at {:?} in the first run, at {:?} in the second",
        a.dones,
        b.dones
    );
    ctx.class_if(!a.dones.is_empty(), "done");
    ctx.class_if(
        matches!(hows[0], How::Frames) != matches!(hows[1], How::Frames),
        "frames against blocks",
    );
    ctx.nontrivial_if(a.out.iter().any(|o| o.iter().any(|v| *v != o[0])) || !a.dones.is_empty());
    Ok(())
}
pub fn blocks(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        case::<f64>(src, ctx)
    } else {
        case::<f32>(src, ctx)
    }
}
