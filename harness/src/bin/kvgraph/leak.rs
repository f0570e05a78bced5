//! The same edits, audio and clean-up over and over: the memory in use may not grow.
use crate::probe::*;
use crate::world::*;
use knaster_core::*;
use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::Time;
use kv::*;
use std::sync::Arc;

#[derive(Debug)]
enum Step {
    Push(usize, Kind, Coef, Option<DoneAt>),
    /// source, output, input, sink; an index past the nodes means the graph
    Connect(usize, u16, u16, usize, u8),
    Param(usize, usize, usize, bool),
    Set(usize, usize, f64, u8),
    Disconnect(usize, u16, bool),
    Sub(usize, usize),
    Free(usize),
    Commit(usize),
    Block,
    DropSub,
}

pub fn steady(src: &mut Src, ctx: &mut Ctx) -> Res {
    const CYCLES: usize = 22;
    let bs = src.pickc(&[4usize, 1, 16, 64]);
    let (ins, outs) = src.pickc(&IO);
    let o = AudioProcessorOptions { block_size: bs, sample_rate: 8000, ring_buffer_size: src.pickc(&[64usize, 16, 8]), ..Default::default() };
    let (mut g, mut proc) = new_proc::<f32>(ins, outs, o);
    let log = Arc::new(ProbeLog::default());
    let n_steps = src.range(3, 30);
    let mut steps = vec![];
    let mut pushed: Vec<(usize, Kind)> = vec![]; // (graph, kind)
    let mut has_sub = false;
    let (mut fbs, mut frees) = (0, 0);
    for i in 0..n_steps {
        let early = i < 4;
        let w = [if early { 20 } else { 6 }, if pushed.is_empty() { 0 } else { 14 }, if pushed.is_empty() { 0 } else { 4 }, if pushed.is_empty() { 0 } else { 4 }, if pushed.is_empty() { 0 } else { 3 }, if has_sub { 0 } else { 3 }, if pushed.is_empty() { 0 } else { 3 }, 6, 6, if has_sub { 1 } else { 0 }];
        let gi = if has_sub && src.bool() { 1 } else { 0 };
        steps.push(match src.weighted(&w) {
            0 => {
                let (i, o) = src.pickc(&SHAPES[..6]);
                let kind = Kind { ins: i, outs: o, ar: src.bool() && AR_SHAPES.contains(&(i, o)), done: None };
                let kind = if src.chance(1, 3) && [(0, 1), (1, 1)].contains(&(i, o)) { Kind { done: Some(src.pickc(&[Done::FreeSelf, Done::None])), ..kind } } else { kind };
                let done = kind.done.map(|_| DoneAt { at: src.below(3 * bs as u64), every: src.pickc(&[0, 1, 5]), how: src.below(2) as u8, off: 0 });
                pushed.push((gi, kind));
                Step::Push(gi, kind, crate::ops::gen_coef(src), done)
            }
            1 => {
                let (a, b) = (src.idx(pushed.len() + 1), src.idx(pushed.len() + 1));
                let m = src.weighted(&[4, 2, 2, 1]) as u8;
                fbs += (m >= 2) as usize;
                Step::Connect(a, src.below(3) as u16, src.below(3) as u16, b, m)
            }
            2 => Step::Param(src.idx(pushed.len()), src.idx(pushed.len()), src.idx(2), src.bool()),
            3 => Step::Set(src.idx(pushed.len()), src.idx(2), src.below(100) as f64, src.below(3) as u8),
            4 => Step::Disconnect(src.idx(pushed.len()), src.below(2) as u16, src.bool()),
            5 => {
                has_sub = true;
                Step::Sub(src.range(0, 2), src.range(1, 2))
            }
            6 => {
                frees += 1;
                Step::Free(src.idx(pushed.len()))
            }
            7 => Step::Commit(gi),
            8 => Step::Block,
            _ => Step::DropSub,
        });
    }
    // the subgraph's node is freed before or after its handle is dropped
    let sub_first = src.bool();
    let keep_order = src.bool();
    let idle = src.range(1, 3);
    for s in &steps {
        ctx.note(|| format!("{s:?}"));
    }
    let mut live = [0i64; CYCLES];
    for c in 0..CYCLES {
        let mut ids: Vec<(usize, NodeId)> = vec![];
        let mut sub: Option<(NodeId, Option<Graph<f32>>)> = None;
        for s in &steps {
            let id = |i: usize, ids: &Vec<(usize, NodeId)>| -> NodeOrGraph { ids.get(i).map(|x| x.1.into()).unwrap_or(NodeOrGraph::Graph) };
            let of = |i: usize, j: usize, ids: &Vec<(usize, NodeId)>| ids.get(i).or(ids.get(j)).map(|x| x.0).unwrap_or(0);
            macro_rules! gr {
                ($gi:expr) => {
                    match (&mut sub, $gi) {
                        (Some((_, Some(s))), 1) => s,
                        (_, 1) => continue,
                        _ => &mut g,
                    }
                };
            }
            match s {
                Step::Push(gi, kind, coef, done) => {
                    let (l, k, co, d) = (log.clone(), *kind, *coef, *done);
                    let gi = if matches!(&sub, Some((_, Some(_)))) { *gi } else { 0 };
                    let g = if gi == 1 { sub.as_mut().unwrap().1.as_mut().unwrap() } else { &mut g };
                    ids.push((gi, g.edit(|g| push_probe(&g, k, co, l, d))));
                }
                Step::Connect(a, so, si, b, m) => {
                    let (x, y) = (id(*a, &ids), id(*b, &ids));
                    let g = gr!(of(*a, *b, &ids));
                    let _ = match m {
                        0 => g.connect2(x, *so, *si, y),
                        1 => g.connect2_replace(x, *so, *si, y),
                        2 => g.connect2_feedback(x, *so, *si, y),
                        _ => g.connect2_feedback_replace(x, *so, *si, y),
                    };
                }
                Step::Param(a, b, p, r) => {
                    if let (Some(x), Some(y)) = (ids.get(*a), ids.get(*b)) {
                        let (gi, x, y) = (x.0, x.1, y.1);
                        let g = gr!(gi);
                        let _ = if *r { g.connect_replace_to_parameter(x, 0, *p, y) } else { g.connect_to_parameter(x, 0, *p, y) };
                    }
                }
                Step::Set(a, p, v, t) => {
                    if let Some((gi, x)) = ids.get(*a).copied() {
                        let g = gr!(gi);
                        let t = if *t == 0 { Time::asap() } else { Time::after(Seconds::from_samples(*t as u64 * 3, 8000)) };
                        let _ = g.set(x, *p, *v, t);
                    }
                }
                Step::Disconnect(a, ch, out) => {
                    if let Some((gi, x)) = ids.get(*a).copied() {
                        let g = gr!(gi);
                        let _ = if *out { g.disconnect_output_from_source(x, *ch) } else { g.disconnect_input_to_sink(*ch, x) };
                    }
                }
                Step::Sub(i, o) => {
                    let op = GraphOptions { ring_buffer_size: 16, ..Default::default() };
                    let (i, o) = (*i, *o);
                    let (id, s) = g.edit(|g| new_sub(&g, i, o, op, |_| ()));
                    sub = Some((id, Some(s)));
                }
                Step::Free(a) => {
                    if let Some((gi, x)) = ids.get(*a).copied() {
                        let g = gr!(gi);
                        let _ = g.edit(|g| g.free_node(x));
                    }
                }
                Step::Commit(gi) => {
                    gr!(*gi).edit(|_| ());
                }
                Step::Block => {
                    run(&mut proc, ins, bs);
                }
                Step::DropSub => {
                    if let Some(s) = &mut sub {
                        s.1 = None;
                    }
                }
            }
        }
        // clean up
        for ch in 0..outs {
            let _ = g.disconnect_input_to_sink(ch as u16, NodeOrGraph::Graph);
        }
        g.edit(|_| ());
        run(&mut proc, ins, bs);
        let mut order: Vec<usize> = (0..ids.len()).collect();
        if !keep_order {
            order.reverse();
        }
        for i in order {
            let (gi, x) = ids[i];
            if gi == 0 {
                let _ = g.edit(|g| g.free_node(x));
            } else if let Some((_, Some(s))) = &mut sub {
                let _ = s.edit(|g| g.free_node(x));
            }
        }
        if let Some((id, mut s)) = sub {
            if sub_first {
                s = None;
            }
            let _ = g.edit(|g| g.free_node(id));
            drop(s);
        }
        for _ in 0..=idle {
            run(&mut proc, ins, bs);
            g.edit(|_| ());
        }
        live[c] = kv::alloc::live();
    }
    let growing = (CYCLES - 8..CYCLES).all(|c| live[c] > live[c - 1]);
    check!(!growing, "memory in use grows", "the same edits and clean-up {CYCLES} times; bytes in use after each: {:?}", live.map(|x| x - live[0]));
    ctx.class_if(has_sub, "nested graph");
    ctx.class_if(fbs > 0, "feedback");
    ctx.nontrivial_if(pushed.len() >= 2 && (frees > 0 || fbs > 0 || has_sub));
    drop((g, proc));
    Ok(())
}
fn run(p: &mut AudioProcessor<f32>, ins: usize, bs: usize) {
    let b = [0f32; 64];
    let v = [&b[..bs]; 4];
    p.run(&v[..ins]);
}
