//! P06 to P08 from end to end: a wrapped recording UGen in a real graph (or in a graph nested in
//! it), with parameters connected to other nodes and changes sent with times, next to the same
//! wrapped UGen driven by hand with what the documentation says the graph does.
use crate::dynu::*;
use crate::wraps::*;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::Time;
use knaster_graph::graph::{Graph, GraphOptions, NodeId};
use knaster_graph::graph_edit::Parameter;
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_primitives::{Block, BlockRead};
use kv::*;
use std::collections::VecDeque;

type F = f32;

/// Exact values which only depend on the frame.
fn seq(a: u64, step: u64, t: u64) -> f32 {
    ((a + step * t) % 64) as f32 / 4. - 8.
}
struct Seq(u64, u64);
impl UGen for Seq {
    type Sample = F;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: Frame<F, U0>) -> Frame<F, U1> {
        [seq(self.0, self.1, ctx.frame_clock())].into()
    }
    fn process_block<I, O>(&mut self, ctx: &mut AudioCtx, _: &mut UGenFlags, _: &I, y: &mut O)
    where
        I: BlockRead<Sample = F> + ?Sized,
        O: Block<Sample = F> + ?Sized,
    {
        for i in 0..ctx.frames_to_process() {
            y.write(seq(self.0, self.1, ctx.frame_clock() + i as u64), 0, i);
        }
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}

trait Visit {
    type Out;
    fn on<U: UGen<Sample = F> + 'static>(self, u: U) -> Self::Out;
}
struct ToRig;
impl Visit for ToRig {
    type Out = Box<dyn Dyn<F>>;
    fn on<U: UGen<Sample = F> + 'static>(self, u: U) -> Self::Out {
        Box::new(u)
    }
}
/// Adds the UGen to the graph, from inputs 0 and 1 to outputs `at`..`at + 3`.
struct ToGraph<'a>(&'a mut Graph<F>, u16);
impl Visit for ToGraph<'_> {
    type Out = (NodeId, Vec<Parameter>);
    fn on<U: UGen<Sample = F> + 'static>(self, u: U) -> Self::Out {
        let at = self.1;
        self.0.edit(|g| {
            let h = g.push(u);
            let id = h.id();
            let h = h.dynamic();
            g.from_inputs([0u16, 1])
                .unwrap()
                .dynamic()
                .to(h)
                .to_graph_out_channels([at, at + 1, at + 2]);
            let h = g.handle(id).unwrap();
            (id, (0..PN).map(|p| h.param(p)).collect())
        })
    }
}
const KINDS: usize = 13;
fn has(kind: usize) -> (bool, bool, bool) {
    // (precise timing, audio rate parameters, smoothing)
    match kind {
        0 | 1 => (true, false, false),
        2 => (true, true, false),
        3 => (true, false, true),
        4 => (true, true, true),
        5 | 6 => (false, true, false),
        7 | 8 => (false, true, true),
        9 | 10 | 11 => (false, false, true),
        _ => (true, true, true),
    }
}
fn make<V: Visit>(kind: usize, v: V) -> V::Out {
    let r = Rec::<F>::new(&Log::default());
    match kind {
        0 => v.on(r.precise_timing::<32>()),
        1 => v.on(r.precise_timing::<32>().wr_add(0.).wr(|x| x)),
        2 => v.on(r.ar_params().precise_timing::<32>()),
        3 => v.on(r.smooth_params().precise_timing::<32>()),
        4 => v.on(r.smooth_params().ar_params().precise_timing::<32>()),
        5 => v.on(r.ar_params()),
        6 => v.on(r.ar_params().wr_sub(0.)),
        7 => v.on(r.ar_params().smooth_params()),
        8 => v.on(r.smooth_params().ar_params()),
        9 => v.on(r.smooth_params()),
        10 => v.on(r.wr_add(0.).smooth_params().wr_sub(0.)),
        11 => v.on(r.smooth_params().wr(|x| x)),
        _ => v.on(r.ar_params().smooth_params().precise_timing::<32>()),
    }
}
struct Pend {
    due: Option<u64>,
    idx: usize,
    vals: Vec<ParameterValue>,
}
/// One wrapped UGen, in the graph and by hand.
struct Target {
    kind: usize,
    graph: usize,
    id: NodeId,
    pars: Vec<Parameter>,
    rig: Rig<F>,
    /// sources of the first two parameters: their nodes and sequences
    src: [Vec<(NodeId, u64, u64)>; 2],
    buf: [Box<[F]>; 2],
    /// connected at the last commit
    on: [bool; 2],
    waiting: VecDeque<Pend>,
    last_due: u64,
}

fn run(src: &mut Src, ctx: &mut Ctx, prop: usize) -> Res {
    let kinds: Vec<usize> = (0..KINDS)
        .filter(|k| {
            let h = has(*k);
            [h.0, h.1, h.2][prop]
        })
        .collect();
    let bs = src.pickc(&[4, 1, 2, 3, 5, 8, 16, 17, 32]);
    let sr = src.pickc(&[1000u32, 8000]);
    let (top, mut proc, _log) = AudioProcessor::<F>::new::<U2, U6>(AudioProcessorOptions {
        block_size: bs,
        sample_rate: sr,
        ring_buffer_size: 200,
        log_channel_capacity: 32,
    });
    let mut graphs = vec![top];
    let mut ts: Vec<Target> = vec![];
    let n = src.range(1, 2);
    for t in 0..n {
        let kind = *src.pick(&kinds);
        let depth = src.weighted(&[2, 2, 1]);
        let at = 3 * t as u16;
        let mut gi = 0;
        let mut out = at;
        for _ in 0..depth {
            let sub = graphs[gi].edit(|g| {
                let (h, sub) = g.subgraph::<U2, U3>(
                    GraphOptions {
                        name: "sub".into(),
                        ring_buffer_size: 200,
                    },
                    |_| (),
                );
                g.from_inputs([0u16, 1])
                    .unwrap()
                    .to(h)
                    .to_graph_out_channels([out, out + 1, out + 2]);
                sub
            });
            graphs.push(sub);
            gi = graphs.len() - 1;
            out = 0;
        }
        let (id, pars) = make(kind, ToGraph(&mut graphs[gi], out));
        ctx.note(|| format!("target {t}: kind {kind} in graph {gi}, {depth} deep, block size {bs}, sample rate {sr}"));
        ts.push(Target {
            kind,
            graph: gi,
            id,
            pars,
            rig: Rig::new(make(kind, ToRig), sr, bs),
            src: [vec![], vec![]],
            buf: [vec![0.; bs].into(), vec![0.; bs].into()],
            on: [false; 2],
            waiting: VecDeque::new(),
            last_due: 0,
        });
        ctx.class_if(depth > 0, "in a nested graph");
    }
    let mut clock = 0u64;
    let (mut precise, mut ramps, mut modulated, mut freed) = (0, 0, 0, 0);
    // parameters have a value before the first ramp
    for blk in 0..src.range(2, 12) {
        for t in 0..n {
            let h = has(ts[t].kind);
            for _ in 0..src.weighted(&[2, 3, 3, 2, 1]) {
                let tg = &mut ts[t];
                let g = &mut graphs[tg.graph];
                if h.1 && src.chance(1, 3) {
                    let i = src.idx(2);
                    match src.weighted(&[5, 2, 2]) {
                        0 => {
                            let (a, s) = (src.below(64), src.below(16));
                            ctx.note(|| {
                                format!("target {t}: parameter {i} from sequence ({a}, {s})")
                            });
                            let link = src.bool();
                            let id = tg.id;
                            let by_name = src.bool();
                            let node = g.edit(|g| g.push(Seq(a, s)).id());
                            let p = if by_name {
                                Param::Desc(["a", "b"][i])
                            } else {
                                Param::Index(i)
                            };
                            let r = if link {
                                g.connect_replace_to_parameter(node, 0, p, id)
                            } else if tg.src[i].is_empty() {
                                g.connect_to_parameter(node, 0, p, id)
                            } else {
                                g.connect_replace_to_parameter(node, 0, p, id)
                            };
                            check!(r.is_ok(), "connection to a parameter", "{r:?}");
                            g.edit(|_| ());
                            tg.src[i] = vec![(node, a, s)];
                        }
                        1 if tg.src[i].len() == 1 => {
                            let (a, s) = (src.below(64), src.below(16));
                            ctx.note(|| {
                                format!("target {t}: parameter {i} also from sequence ({a}, {s})")
                            });
                            let node = g.edit(|g| g.push(Seq(a, s)).id());
                            let r = g.connect_to_parameter(node, 0, i, tg.id);
                            check!(r.is_ok(), "connection to a parameter", "{r:?}");
                            g.edit(|_| ());
                            tg.src[i].push((node, a, s));
                            ctx.class("sum of two modulators");
                        }
                        _ => {
                            if tg.src[i].len() == 1 {
                                ctx.note(|| format!("target {t}: source of parameter {i} freed"));
                                let r = g.edit(|g| g.free_node(tg.src[i][0].0));
                                check!(r.is_ok(), "freeing a source", "{r:?}");
                                tg.src[i].clear();
                                freed += 1;
                            }
                        }
                    }
                    continue;
                }
                // a parameter change
                let (idx, val) = if h.2 && src.chance(1, 3) {
                    let frames = if src.chance(1, 6) {
                        0
                    } else {
                        src.range(1, 4 * bs + 4)
                    };
                    let secs = (frames as f64 + 0.4) / sr as f64;
                    let s = if src.chance(1, 8) {
                        ParameterSmoothing::None
                    } else {
                        ParameterSmoothing::Linear(secs as f32)
                    };
                    ramps += 1;
                    (
                        src.idx(2),
                        ParameterValue::Smoothing(
                            s,
                            if src.bool() {
                                Rate::AudioRate
                            } else {
                                Rate::BlockRate
                            },
                        ),
                    )
                } else {
                    any_val(src)
                };
                let bs = bs as u64;
                let due = match src.weighted(&[3, 3, 2]) {
                    0 => None,
                    1 => Some(clock + src.below(bs)),
                    _ => Some(clock + src.below(6 * bs)),
                }
                .map(|d| d.max(tg.last_due));
                if let Some(d) = due {
                    tg.last_due = d;
                }
                let sec = |f| Seconds::from_samples(f, sr as u64);
                let after = src.bool();
                let time = match due {
                    None => Time::asap(),
                    Some(d) if after => Time::after(sec(d - clock)),
                    Some(d) => Time::at(sec(d)),
                };
                let api = src.below(4);
                ctx.note(|| {
                    format!(
                        "target {t}: parameter {idx} to {val:?} at {due:?}{}",
                        if api == 0 { " (Parameter)" } else { "" }
                    )
                });
                let is_smooth = matches!(val, ParameterValue::Smoothing(..));
                let r = match (api, due) {
                    (0, None) if !is_smooth => tg.pars[idx].set(val),
                    (0, Some(d)) if !is_smooth && after => {
                        tg.pars[idx].set_after(val, sec(d - clock))
                    }
                    (0, Some(d)) if !is_smooth => tg.pars[idx].set_at(val, sec(d)),
                    (0, _) => match val {
                        ParameterValue::Smoothing(s, Rate::BlockRate) => {
                            tg.pars[idx].smooth_time(s, time)
                        }
                        _ => g.set(tg.id, idx, val, time),
                    },
                    (1, _) => g.edit(|g| g.set(tg.id, idx, val, time)),
                    _ => g.set(tg.id, idx, val, time),
                };
                check!(r.is_ok(), "sending a change", "{r:?}");
                tg.waiting.push_back(Pend {
                    due,
                    idx,
                    vals: vec![val],
                });
            }
        }
        let x: Vec<Vec<F>> = (0..2)
            .map(|_| (0..bs).map(|_| src.irange(-8, 8) as f32).collect())
            .collect();
        let refs: Vec<&[F]> = x.iter().map(|c| &c[..]).collect();
        ctx.note(|| format!("block {blk} from frame {clock}"));
        proc.run(&refs);
        let ob = proc.output_block();
        for (t, tg) in ts.iter_mut().enumerate() {
            // by hand: connections, then the changes that are due
            for i in 0..2 {
                for f in 0..bs {
                    tg.buf[i][f] = tg.src[i]
                        .iter()
                        .map(|(_, a, s)| seq(*a, *s, clock + f as u64))
                        .sum();
                }
                let now = !tg.src[i].is_empty();
                if now != tg.on[i] {
                    let p = if now {
                        tg.buf[i].as_ptr()
                    } else {
                        std::ptr::null()
                    };
                    unsafe { tg.rig.u.ar(&mut tg.rig.ctx, i, p) };
                    tg.on[i] = now;
                }
                modulated += now as usize;
            }
            for _ in 0..tg.waiting.len() {
                let p = tg.waiting.pop_front().unwrap();
                let d = p.due.map(|d| d.saturating_sub(clock)).unwrap_or(0);
                if d >= bs as u64 {
                    tg.waiting.push_back(p);
                    continue;
                }
                for v in p.vals {
                    if d > 0 {
                        tg.rig.u.delay(&mut tg.rig.ctx, p.idx, d as u16);
                        precise += has(tg.kind).0 as usize;
                    }
                    tg.rig.apply(p.idx, v);
                }
            }
            let want = tg.rig.block(&x, &[bs]);
            for c in 0..3 {
                for f in 0..bs {
                    let got = Block::read(&*ob, 3 * t + c, f);
                    let w = want[c][f];
                    check!(
                        got == w || (got.is_nan() && w.is_nan()),
                        format!("wrapped UGen in a graph, kind {}", tg.kind),
                        "block {blk} (from frame {clock}) target {t} channel {c} frame {f}: {got}, by hand {w}\n got  {:?}\n want {:?}",
                        (0..bs)
                            .map(|f| Block::read(&*ob, 3 * t + c, f))
                            .collect::<Vec<_>>(),
                        want[c]
                    );
                }
            }
        }
        clock += bs as u64;
    }
    ctx.class_if(precise > 0, "change within a block");
    ctx.class_if(modulated > 1, "parameter from another node");
    ctx.class_if(freed > 0, "source freed");
    ctx.class_if(n > 1, "two in one graph");
    ctx.nontrivial_if([precise >= 2, modulated >= 2, ramps >= 1][prop]);
    Ok(())
}
pub fn precise(src: &mut Src, ctx: &mut Ctx) -> Res {
    run(src, ctx, 0)
}
pub fn ar(src: &mut Src, ctx: &mut Ctx) -> Res {
    run(src, ctx, 1)
}
pub fn smooth(src: &mut Src, ctx: &mut Ctx) -> Res {
    run(src, ctx, 2)
}
