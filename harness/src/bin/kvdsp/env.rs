//! P20: envelopes.
//!
//! Rounding may decide either way whether a stage ends at a frame or one later. The model follows
//! every way the exact times allow and drops those which the output contradicts.
use crate::dynu::*;
use crate::osc::f64_of;
use crate::zoo::{TRIG, dur, fl};

use knaster_core::*;
use knaster_core_dsp::envelopes::*;
use kv::*;

fn is32<F: Float>() -> bool {
    std::mem::size_of::<F>() == 4
}
/// One frame of one hypothesis: what follows, the output, whether it is done.
type Step<H> = (H, f64, bool);

/// Checks the output of a run against a model.
fn follow<H: Clone + std::fmt::Debug>(
    name: &str,
    start: H,
    r: &Run,
    ch: &[Chg],
    tol: f64,
    mut change: impl FnMut(&mut H, &Chg),
    mut frame: impl FnMut(&H) -> Vec<Step<H>>,
    mut seen: impl FnMut(&H),
) -> Res {
    let mut hs = vec![start];
    let mut k = 0;
    for n in 0..r.out[0].len() {
        while k < ch.len() && ch[k].at <= n {
            for h in hs.iter_mut() {
                change(h, &ch[k]);
            }
            k += 1;
        }
        let y = r.out[0][n];
        let marks = r.dones.iter().filter(|d| **d == n).count();
        let all: Vec<Step<H>> = hs.iter().flat_map(&mut frame).collect();
        let fits: Vec<H> = all
            .iter()
            .filter(|(_, o, d)| (y - o).abs() <= tol * (1. + n as f64 / 50.) && *d == (marks > 0))
            .map(|s| s.0.clone())
            .take(200)
            .collect();
        if fits.is_empty() {
            let want: Vec<_> = all.iter().take(4).map(|s| (s.1, s.2)).collect();
            let val = all
                .iter()
                .any(|(_, o, _)| (y - o).abs() <= tol * (1. + n as f64 / 50.));
            bail!(
                format!(
                    "{name}: {}",
                    if val {
                        "done at the wrong frame"
                    } else {
                        "wrong value"
                    }
                ),
                "frame {n}: {y}, done {}, expected one of {want:?} (from {:?})",
                marks > 0,
                hs[0]
            );
        }
        hs = fits;
        seen(&hs[0]);
    }
    Ok(())
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Stage {
    Off,
    Attack,
    Sustain,
    Release,
}
#[derive(Clone, Copy, Debug)]
struct Env {
    stage: Stage,
    /// the value in the attack, what is left of the release in the release
    t: f64,
    /// value at the start of the release
    top: f64,
    attack: f64,
    release: f64,
}
impl Env {
    fn value(&self) -> f64 {
        match self.stage {
            Stage::Off => 0.,
            Stage::Attack => self.t,
            Stage::Sustain => 1.,
            Stage::Release => self.top * self.t.powi(3),
        }
    }
}
fn asr_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = src.pickc(&[48000u32, 1000, 44100, 8000]);
    let s = sr as f64;
    let total = src.range(2, 250);
    let bs = src.pickc(&[16, 1, 8, 64, 33, 128]);
    let h = how(src, total);
    let sustain = src.bool();
    let (a, rel) = (dur(src, sr, 60.), dur(src, sr, 60.));
    // times as the UGen gets them
    let cast = |v: f64| Float::to_f64(F::new(v));
    let rate = |v: f64| if v == 0. { 1. } else { 1. / (v * s) };
    let ch = chgs(src, total, 9, 5, &|src, i| match i {
        0 | 1 => fl(dur(src, sr, 60.)),
        _ => TRIG,
    });
    // parameters are attack time, release time, t_release (only with sustain), t_restart
    let ch: Vec<Chg> = ch
        .into_iter()
        .map(|mut c| {
            c.idx = match (c.idx, sustain) {
                (4, true) => 3,
                (3 | 4, false) => 2,
                (i, _) => i,
            };
            c
        })
        .collect();
    let name = if sustain { "EnvAsr" } else { "EnvAr" };
    ctx.class(name);
    ctx.note(|| {
        format!("{name} {a} {rel} s, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}")
    });
    let u: Box<dyn Dyn<F>> = if sustain {
        Box::new(EnvAsr::<F>::new(F::new(a), F::new(rel)))
    } else {
        Box::new(EnvAr::<F>::new(F::new(a), F::new(rel)))
    };
    let r = render(u, sr, bs, total, &[], &ch, &h);
    let (tol, slack) = if is32::<F>() {
        (2e-5, 2e-5)
    } else {
        (1e-12, 1e-12)
    };
    let start = Env {
        stage: Stage::Off,
        t: 0.,
        top: 1.,
        attack: rate(cast(a)),
        release: rate(cast(rel)),
    };
    let mut stages = vec![];
    follow(
        name,
        start,
        &r,
        &ch,
        tol,
        |e, c| match c.idx {
            0 => e.attack = rate(cast(f64_of(c.val))),
            1 => e.release = rate(cast(f64_of(c.val))),
            2 if sustain => {
                if matches!(e.stage, Stage::Attack | Stage::Sustain) {
                    e.top = e.value();
                    e.t = 1.;
                    e.stage = Stage::Release;
                }
            }
            _ => {
                // Restarts from the current value
                e.t = e.value();
                e.stage = Stage::Attack;
            }
        },
        |e| {
            let y = e.value();
            let mut v = vec![];
            match e.stage {
                Stage::Attack => {
                    let t = e.t + e.attack;
                    if t >= 1. - slack {
                        v.push((
                            Env {
                                stage: if sustain {
                                    Stage::Sustain
                                } else {
                                    Stage::Release
                                },
                                t: 1.,
                                top: 1.,
                                ..*e
                            },
                            y,
                            false,
                        ));
                    }
                    if t < 1. + slack {
                        v.push((Env { t, ..*e }, y, false));
                    }
                }
                Stage::Release => {
                    let t = e.t - e.release;
                    if t <= slack {
                        v.push((
                            Env {
                                stage: Stage::Off,
                                t: 0.,
                                ..*e
                            },
                            y,
                            true,
                        ));
                    }
                    if t > -slack {
                        v.push((Env { t, ..*e }, y, false));
                    }
                }
                _ => v.push((*e, y, false)),
            }
            v
        },
        |e| {
            if stages.last() != Some(&e.stage) {
                stages.push(e.stage);
            }
        },
    )?;
    ctx.class_if(stages.contains(&Stage::Sustain), "sustained");
    ctx.class_if(!r.dones.is_empty(), "done");
    ctx.class_if(
        stages
            .windows(2)
            .any(|w| w == [Stage::Release, Stage::Attack]),
        "restarted in the release",
    );
    ctx.nontrivial_if(stages.len() > 2);
    Ok(())
}
pub fn asr(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        asr_t::<f64>(src, ctx)
    } else {
        asr_t::<f32>(src, ctx)
    }
}

#[derive(Clone, Copy, Debug)]
struct Seg {
    /// segment and time within it, unless stopped
    run: Option<(usize, f64)>,
    from: f64,
    scale: f64,
}
fn seg_t<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let sr = src.pickc(&[48000u32, 1000, 44100, 8000]);
    let s = sr as f64;
    let total = src.range(2, 250);
    let bs = src.pickc(&[16, 1, 8, 64, 33, 128]);
    let h = how(src, total);
    let segs: Vec<(f64, f64)> = (0..src.range(1, 6))
        .map(|_| (dur(src, sr, 40.), src.f(-2., 2.)))
        .collect();
    let (start, looping) = (src.f(-2., 2.), src.chance(1, 3));
    let scale = src.pickc(&[1., 1., 0.5, 2., 0.7]);
    let mut ch = chgs(src, total, 5, 4, &|src, i| match i {
        0 => fl(src.f(0.05, 4.)),
        _ => TRIG,
    });
    // jumping to a segment is not specified; restart instead
    for c in ch.iter_mut() {
        if c.idx == 1 {
            c.idx = 2;
        }
    }
    if src.chance(3, 4) {
        ch.insert(
            0,
            Chg {
                at: 0,
                idx: 2,
                val: TRIG,
            },
        );
    }
    ctx.note(|| {
        format!(
            "from {start} {segs:?} looping {looping}, scale {scale}, {sr} Hz, {total} frames in {bs} {h:?}, changes {ch:?}"
        )
    });
    let u = Envelope::<F>::new(
        start,
        segs.iter()
            .map(|(d, v)| EnvelopeSegment::new(*d, *v))
            .collect(),
    )
    .looping(looping)
    .time_scale(scale);
    let r = render::<F>(Box::new(u), sr, bs, total, &[], &ch, &h);
    let tol = if is32::<F>() { 1e-6 } else { 1e-12 };
    let (mut ends, mut moved, mut stops) = (0, 0, 0);
    let value = |e: &Seg| match e.run {
        None => e.from,
        Some((k, t)) => {
            let (d, v) = segs[k];
            if t < d {
                e.from + t / d * (v - e.from)
            } else {
                v
            }
        }
    };
    follow(
        "Envelope",
        Seg {
            run: None,
            from: start,
            scale,
        },
        &r,
        &ch,
        tol,
        |e, c| match c.idx {
            0 => e.scale = Float::to_f64(F::new(f64_of(c.val))),
            2 => {
                *e = Seg {
                    run: Some((0, 0.)),
                    from: start,
                    ..*e
                }
            }
            _ => {
                stops += e.run.is_some() as usize;
                *e = Seg {
                    run: None,
                    from: value(e),
                    ..*e
                };
            }
        },
        |e| {
            let Some((k, t)) = e.run else {
                return vec![(*e, e.from, false)];
            };
            let (d, v) = segs[k];
            let step = e.scale / s;
            let slack = 1e-11 * (d + step) + 1e-15;
            let mut out = vec![];
            if t < d + slack && d > 0. {
                out.push((
                    Seg {
                        run: Some((k, t + step)),
                        ..*e
                    },
                    value(e),
                    false,
                ));
            }
            if t >= d - slack {
                // The segment has ended: exactly its value
                let (run, done) = if k + 1 < segs.len() {
                    (Some((k + 1, t - d + step)), false)
                } else if looping {
                    (Some((0, 0.)), false)
                } else {
                    (None, true)
                };
                out.push((Seg { run, from: v, ..*e }, v, done));
            }
            out
        },
        |e| match e.run {
            None => ends += 1,
            Some((k, _)) => moved = moved.max(k),
        },
    )?;
    ctx.class_if(!r.dones.is_empty(), "done");
    ctx.class_if(stops > 0, "stopped");
    ctx.class_if(looping, "looping");
    ctx.class_if(segs.iter().any(|s| s.0 == 0.), "segment without duration");
    ctx.nontrivial_if(moved > 0 || !r.dones.is_empty());
    let _ = ends;
    Ok(())
}
pub fn segments(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        seg_t::<f64>(src, ctx)
    } else {
        seg_t::<f32>(src, ctx)
    }
}
