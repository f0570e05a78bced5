//! Nodes pushed with a done action, around UGens with any number of parameters and other wrappers:
//! every parameter (the last one too) has to work as before, and the action in force counts.
use crate::world::*;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::Time;
use knaster_graph::graph::{Graph, NodeId, NodeOrGraph};
use knaster_graph::processor::AudioProcessorOptions;
use kv::*;
use std::marker::PhantomData;

type F = f64;
const PNAMES: [&str; 4] = ["p0", "p1", "p2", "p3"];

/// base + sum of the parameters as decimal digits; marks itself done at given frames.
struct Digits<N> {
    t: u64,
    bs: u64,
    base: f64,
    p: [f64; 4],
    done: Vec<u64>,
    _n: PhantomData<fn(N)>,
}
fn digits(base: f64, p: &[f64; 4]) -> f64 {
    base + p[0] + p[1] * 10. + p[2] * 100. + p[3] * 1000.
}
impl<N: Size> UGen for Digits<N> {
    type Sample = F;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = N;
    fn init(&mut self, _sr: u32, bs: usize) {
        self.bs = bs as u64;
    }
    fn process(&mut self, _ctx: &mut AudioCtx, flags: &mut UGenFlags, _i: Frame<F, U0>) -> Frame<F, U1> {
        if self.done.contains(&self.t) {
            flags.mark_done((self.t % self.bs) as u32);
        }
        self.t += 1;
        [digits(self.base, &self.p)].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, N> {
        let mut d = NumericArray::default();
        for i in 0..N::USIZE {
            d[i] = PNAMES[i];
        }
        d
    }
    fn param_hints() -> NumericArray<ParameterHint, N> {
        let mut d = NumericArray::default();
        for i in 0..N::USIZE {
            d[i] = ParameterHint::infinite_float();
        }
        d
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        match value {
            ParameterValue::Float(f) if index < N::USIZE => self.p[index] = f,
            // a value that is not for this UGen can be heard
            _ => self.base += 5e6,
        }
    }
}
/// 0..9, over and over
struct Count(u64);
impl UGen for Count {
    type Sample = F;
    type Inputs = U0;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, _ctx: &mut AudioCtx, _flags: &mut UGenFlags, _i: Frame<F, U0>) -> Frame<F, U1> {
        self.0 += 7;
        [((self.0 - 7) % 10) as f64].into()
    }
    fn param_descriptions() -> NumericArray<&'static str, U0> {
        [].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, _i: usize, _v: ParameterValue) {}
}

fn push(g: &mut Graph<F>, np: usize, kind: usize, base: f64, done: Vec<u64>, action: Done) -> NodeId {
    fn go<N>(g: &mut Graph<F>, kind: usize, base: f64, done: Vec<u64>, action: Done) -> NodeId
    where
        N: Size + std::ops::Add<B1>,
        <N as std::ops::Add<B1>>::Output: Size,
    {
        let u = Digits::<N> { t: 0, bs: 1, base, p: [0.; 4], done, _n: PhantomData };
        g.edit(|g| match kind {
            0 => g.push_with_done_action(u, action).id(),
            1 => g.push_with_done_action(u.ar_params(), action).id(),
            2 => g.push_with_done_action(u.precise_timing::<8>(), action).id(),
            3 => g.push_with_done_action(u.ar_params().precise_timing::<8>(), action).id(),
            4 => g.push_with_done_action(u.smooth_params(), action).id(),
            5 => g.push_with_done_action(u.wr_add(0.0).ar_params(), action).id(),
            _ => g.push_with_done_action(u.smooth_params().precise_timing::<8>(), action).id(),
        })
    }
    match np {
        0 => go::<U0>(g, kind, base, done, action),
        1 => go::<U1>(g, kind, base, done, action),
        2 => go::<U2>(g, kind, base, done, action),
        3 => go::<U3>(g, kind, base, done, action),
        _ => go::<U4>(g, kind, base, done, action),
    }
}
struct Node {
    id: NodeId,
    np: usize,
    kind: usize,
    ch: u16,
    base: f64,
    done: Vec<u64>,
    action: Done,
    p: [f64; 4],
    ar: [bool; 4],
    /// marked for removal; gone
    marked: bool,
    gone: bool,
}
impl Node {
    fn precise(&self) -> bool {
        matches!(self.kind, 2 | 3 | 6)
    }
    fn takes_ar(&self) -> bool {
        matches!(self.kind, 1 | 3 | 5)
    }
}
#[derive(Clone, Copy, Debug)]
enum V {
    P(usize, f64),
    Action(Done),
}

pub fn wrapped(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[8usize, 1, 3, 16, 2, 64]);
    let sr = 8000;
    let blocks = src.range(1, 8) as u64;
    let o = AudioProcessorOptions { block_size: bs, sample_rate: sr, ring_buffer_size: 300, log_channel_capacity: 64 };
    let (mut g, mut proc) = new_proc::<F>(0, 4, o);
    let counter = g.edit(|g| g.push(Count(0)).id());
    let n = src.range(1, 4);
    let mut nodes: Vec<Node> = vec![];
    for i in 0..n {
        let np = src.pickc(&[1usize, 0, 2, 3, 4]);
        let kind = src.idx(7);
        let mut done: Vec<u64> = vec![];
        for b in 0..blocks {
            if src.chance(1, 4) {
                done.push(b * bs as u64 + src.below(bs as u64));
            }
        }
        let action = src.pickc(&[Done::FreeSelf, Done::None, Done::None, Done::FreeParent]);
        let base = 100000. * (i + 1) as f64;
        let id = push(&mut g, np, kind, base, done.clone(), action);
        ctx.note(|| format!("node {i}: {np} parameters, wrappers {kind}, {action:?}, done at {done:?}"));
        ctx.class_if(np == 0, "no other parameters");
        nodes.push(Node { id, np, kind, ch: i as u16, base, done, action, p: [0.; 4], ar: [false; 4], marked: false, gone: false });
    }
    for nd in &nodes {
        if let Err(e) = g.connect2(nd.id, 0, nd.ch, NodeOrGraph::Graph) {
            bail!("valid connection rejected", "{e}");
        }
    }
    let mut connect = |g: &mut Graph<F>, nd: &mut Node, src: &mut Src, ctx: &mut Ctx| -> Res {
        if !nd.takes_ar() || nd.np == 0 || nd.gone {
            return Ok(());
        }
        let p = if src.bool() { nd.np - 1 } else { src.idx(nd.np) };
        if nd.ar[p] {
            return Ok(());
        }
        let param: Param = if src.bool() { p.into() } else { PNAMES[p].into() };
        ctx.note(|| format!("counter to node {} parameter {p}", nd.ch));
        ctx.class_if(p + 1 == nd.np, "last parameter at audio rate");
        if let Err(e) = g.connect_to_parameter(counter, 0, param, nd.id) {
            bail!("valid parameter connection rejected", "{e}");
        }
        nd.ar[p] = true;
        Ok(())
    };
    for nd in nodes.iter_mut() {
        for _ in 0..src.below(3) {
            connect(&mut g, nd, src, ctx)?;
        }
    }
    g.edit(|_| {});
    // changes: (node, block, offset, sent one block early, what)
    let mut plan: Vec<(usize, u64, usize, bool, V)> = vec![];
    for (i, nd) in nodes.iter().enumerate() {
        for b in 0..blocks {
            let early = b > 0 && src.bool();
            let mut offs: Vec<usize> = (0..src.below(5)).map(|_| src.idx(bs)).collect();
            offs.sort();
            for off in offs {
                let v = if nd.np == 0 || src.chance(1, 5) {
                    V::Action(src.pickc(&[Done::None, Done::FreeSelf, Done::FreeParent, Done::None]))
                } else {
                    V::P(if src.bool() { nd.np - 1 } else { src.idx(nd.np) }, src.below(10) as f64)
                };
                let dup = plan.iter().any(|x| x.0 == i && x.1 == b && x.2 == off && matches!((x.4, v), (V::P(a, _), V::P(b, _)) if a == b));
                if !dup {
                    plan.push((i, b, off, early, v));
                }
            }
        }
    }
    let mut ended: Option<u64> = None;
    let (mut count, mut acted) = (0u64, 0);
    for b in 0..blocks {
        let clock = b * bs as u64;
        if b > 0 && ended.is_none() && src.chance(1, 2) {
            // committed edits take the marked nodes away
            g.edit(|_| {});
            for nd in nodes.iter_mut() {
                nd.gone |= nd.marked;
            }
            for i in 0..nodes.len() {
                let there = g.node_data(nodes[i].id).is_some();
                check!(there != nodes[i].gone, "nodes that asked to be freed", "block {b}: node {i} there: {there}, expected {}", !nodes[i].gone);
                if src.chance(1, 4) {
                    connect(&mut g, &mut nodes[i], src, ctx)?;
                }
            }
            g.edit(|_| {});
        }
        for (i, at, off, early, v) in plan.iter().copied() {
            if (if early { at - 1 } else { at }) != b || nodes[i].gone {
                continue;
            }
            let at = at * bs as u64 + off as u64;
            let nd = &nodes[i];
            let time = if at == clock && src.bool() { Time::asap() } else { Time::at(Seconds::from_samples(at, sr as u64)) };
            ctx.note(|| format!("before block {b}: node {i} {v:?} at {at}"));
            let by_name = src.bool();
            let r = match v {
                V::P(p, x) if by_name => g.set(nd.id, PNAMES[p], x, time),
                V::P(p, x) => g.set(nd.id, p, x, time),
                V::Action(d) if by_name => g.set(nd.id, "done_action", d, time),
                V::Action(d) => g.set(nd.id, nd.np, ParameterValue::Integer(PInteger(d as usize)), time),
            };
            if let Err(e) = r {
                bail!("valid parameter change rejected", "node {i} {v:?}: {e}");
            }
        }
        proc.run_without_inputs();
        let mut want = vec![vec![0.0; bs]; 4];
        let mut end_now: Option<usize> = None;
        for (i, nd) in nodes.iter_mut().enumerate() {
            if nd.gone {
                continue;
            }
            let now: Vec<_> = plan.iter().filter(|x| x.0 == i && x.1 == b).collect();
            if let Some(V::Action(d)) = now.iter().rev().find_map(|x| matches!(x.4, V::Action(_)).then_some(x.4)) {
                nd.action = d;
            }
            let precise = nd.precise();
            for f in 0..bs {
                for x in &now {
                    if (if precise { x.2 == f } else { f == 0 }) {
                        if let V::P(p, v) = x.4 {
                            if !nd.ar[p] {
                                nd.p[p] = v;
                            }
                        }
                    }
                }
                for p in 0..4 {
                    if nd.ar[p] {
                        nd.p[p] = ((count + f as u64) * 7 % 10) as f64;
                    }
                }
                want[nd.ch as usize][f] = digits(nd.base, &nd.p);
                if nd.done.contains(&(clock + f as u64)) {
                    match nd.action {
                        Done::None => {}
                        Done::FreeSelf => {
                            nd.marked = true;
                            acted += 1;
                        }
                        Done::FreeParent => {
                            end_now = Some(end_now.map_or(f, |e| e.min(f)));
                            acted += 1;
                        }
                    }
                }
            }
        }
        count += bs as u64;
        for ch in 0..4 {
            for f in 0..bs {
                let over = ended.is_some() || end_now.is_some_and(|e| f >= e);
                let w = if over { 0.0 } else { want[ch][f] };
                let got = Block::read(&*proc.output_block(), ch, f);
                check!(got == w, "a node with a done action", "block {b} channel {ch} frame {f}: got {got}, expected {w}");
            }
        }
        if end_now.is_some() && ended.is_none() {
            ended = Some(b);
        }
    }
    ctx.class_if(ended.is_some(), "graph ended");
    ctx.class_if(acted > 0, "action taken");
    ctx.nontrivial_if(plan.len() >= 3 && blocks >= 2);
    Ok(())
}

/// The flags themselves: marks and clears in any order.
pub fn flags(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut c = AudioCtx::new(48000, 64, log::ArLogSender::non_rt());
    let mut f = if src.bool() { UGenFlags::new() } else { UGenFlags::default() };
    let (mut supported, mut selfr, mut parent) = (false, false, None::<u32>);
    let mut done: Vec<u32> = vec![];
    let mut marks = 0;
    let mut clears = 0;
    for _ in 0..src.range(1, 16) {
        let frame = src.pickc(&[0, 1, 2, 63, 64, 65, 1000]) + src.below(3) as u32;
        match src.below(6) {
            0 => {
                f.mark_remove_self(&mut c);
                selfr |= supported;
                marks += 1;
                ctx.note(|| "mark_remove_self".into());
            }
            1 => {
                f.mark_remove_self_supported();
                supported = true;
                ctx.note(|| "mark_remove_self_supported".into());
            }
            2 => {
                f.mark_remove_parent(frame);
                parent = Some(parent.map_or(frame, |x| x.min(frame)));
                marks += 1;
                ctx.note(|| format!("mark_remove_parent({frame})"));
            }
            3 => {
                f.mark_done(frame);
                done.push(frame);
                marks += 1;
                ctx.note(|| format!("mark_done({frame})"));
            }
            4 => {
                f.clear_parent_flags();
                parent = None;
                clears += 1;
                ctx.note(|| "clear_parent_flags".into());
            }
            _ => {
                f.clear_node_flags();
                (supported, selfr) = (false, false);
                done.clear();
                clears += 1;
                ctx.note(|| "clear_node_flags".into());
            }
        }
        check!(f.remove_self() == selfr, "flag to remove a node", "{}", f.remove_self());
        check!(f.remove_graph() == parent, "flag to remove the parent", "{:?}, expected {parent:?}", f.remove_graph());
        // (which frame counts when it is marked more than once is not specified)
        check!(f.done().is_some() != done.is_empty() && f.done().is_none_or(|d| done.contains(&d)), "flag that a node is done", "{:?}, marked at {done:?}", f.done());
    }
    ctx.nontrivial_if(marks > 2 && clears > 0);
    Ok(())
}
