//! The same nodes and connections, once flat and once spread over nested graphs.
use crate::events::{NAMES, gen_value, pv};
use crate::ops::*;
use crate::probe::*;
use crate::world::*;
use knaster_core::*;
use knaster_graph::Time;
use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::graph_edit::GraphEdit;
use knaster_graph::processor::AudioProcessorOptions;
use kv::*;
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq)]
enum S {
    In(u16),
    Node(usize, u16),
    Fb(usize, u16),
}
struct N {
    kind: Kind,
    coef: Coef,
    done: Option<DoneAt>,
    ins: Vec<Vec<S>>,
    params: Vec<(usize, usize, u16)>,
}
struct Spec {
    n_in: usize,
    n_out: usize,
    nodes: Vec<N>,
    outs: Vec<Vec<S>>,
}
#[derive(Clone, Debug)]
enum T {
    Leaf(usize),
    Group(Vec<T>),
}
impl T {
    fn leaves(&self, v: &mut Vec<usize>) {
        match self {
            T::Leaf(n) => v.push(*n),
            T::Group(g) => g.iter().for_each(|t| t.leaves(v)),
        }
    }
}
fn leaves(t: &[T]) -> Vec<usize> {
    let mut v = vec![];
    t.iter().for_each(|t| t.leaves(&mut v));
    v
}
/// The channels a group needs: inputs from outside, outputs used outside.
fn io(spec: &Spec, inner: &[usize]) -> (Vec<S>, Vec<(usize, u16)>) {
    let (mut ins, mut outs) = (vec![], vec![]);
    for (i, n) in spec.nodes.iter().enumerate() {
        for s in n.ins.iter().flatten() {
            let from = match s {
                S::In(_) => None,
                S::Node(a, _) | S::Fb(a, _) => Some(*a),
            };
            let src_in = from.is_some_and(|a| inner.contains(&a));
            if inner.contains(&i) && !src_in && !ins.contains(s) {
                ins.push(*s);
            }
            if !inner.contains(&i) && src_in {
                if let S::Node(a, c) | S::Fb(a, c) = s {
                    if !outs.contains(&(*a, *c)) {
                        outs.push((*a, *c));
                    }
                }
            }
        }
    }
    for s in spec.outs.iter().flatten() {
        if let S::Node(a, c) | S::Fb(a, c) = s {
            if inner.contains(a) && !outs.contains(&(*a, *c)) {
                outs.push((*a, *c));
            }
        }
    }
    (ins, outs)
}
struct Built {
    graphs: Vec<Graph<f32>>,
    /// (graph, node id, log) of every node of the spec
    at: Vec<Option<(usize, NodeId, Arc<ProbeLog>)>>,
}
enum L {
    Leaf(usize, NodeId),
    Group(Vec<usize>, NodeId, Vec<S>, Vec<(usize, u16)>),
}
struct Sub {
    graph: Graph<f32>,
    inner: Vec<T>,
    ins: Vec<S>,
    outs: Vec<Vec<S>>,
    level: Option<Level>,
}
struct Level {
    items: Vec<L>,
    subs: Vec<Sub>,
    logs: Vec<(usize, NodeId, Arc<ProbeLog>)>,
}
/// Push the children `ts`; nested graphs are filled inside the callback that creates them, or later.
fn push_level(spec: &Spec, ts: &[T], g: &GraphEdit<f32>, src: &mut Src) -> Level {
    let mut lv = Level { items: vec![], subs: vec![], logs: vec![] };
    for t in ts {
        match t {
            T::Leaf(n) => {
                let k = &spec.nodes[*n];
                let log = Arc::new(ProbeLog::default());
                log.record.store(!k.kind.ar, SeqCst);
                let id = push_probe(g, k.kind, k.coef, log.clone(), k.done);
                lv.logs.push((*n, id, log));
                lv.items.push(L::Leaf(*n, id));
            }
            T::Group(inner) => {
                let all = leaves(inner);
                let (ins, outs) = io(spec, &all);
                let souts = outs.iter().map(|o| vec![S::Node(o.0, o.1)]).collect();
                let o = GraphOptions::default().name("group").ring_buffer_size(64);
                let mut level = None;
                let in_callback = src.bool();
                let (id, graph) = new_sub::<f32>(g, ins.len(), outs.len(), o, |g| {
                    if in_callback {
                        let l = push_level(spec, inner, &g, src);
                        // what can be connected by handles: leaves to the outputs
                        for (ch, (n, c)) in outs.iter().enumerate() {
                            if let Some(L::Leaf(_, id)) = l.items.iter().find(|x| matches!(x, L::Leaf(m, _) if m == n)) {
                                let h = g.handle(*id).expect("a node that was just pushed");
                                h.out::<typenum::U1>(*c).to_graph_out_channels::<typenum::U1>(ch as u16);
                            }
                        }
                        level = Some(l);
                    }
                });
                assert!(!in_callback || level.is_some(), "the callback to fill a new nested graph was not called");
                lv.subs.push(Sub { graph, inner: inner.clone(), ins: ins.clone(), outs: souts, level });
                lv.items.push(L::Group(all, id, ins, outs));
            }
        }
    }
    lv
}
fn connect_level(spec: &Spec, mut g: Graph<f32>, lv: Level, my_ins: &[S], my_outs: &[Vec<S>], skip_leaf_outs: bool, src: &mut Src, b: &mut Built) -> Res {
    let gi = b.graphs.len();
    for (n, id, log) in lv.logs {
        b.at[n] = Some((gi, id, log));
    }
    // where a source is at this level: a leaf, a channel of a nested graph, or outside
    let find = |s: S| -> (NodeOrGraph, u16, bool) {
        let (n, c, fb) = match s {
            S::In(_) => (usize::MAX, 0, false),
            S::Node(n, c) => (n, c, false),
            S::Fb(n, c) => (n, c, true),
        };
        for l in &lv.items {
            match l {
                L::Leaf(m, id) if *m == n => return (NodeOrGraph::Node(*id), c, fb),
                L::Group(lv, id, _, outs) if lv.contains(&n) => return (NodeOrGraph::Node(*id), outs.iter().position(|o| *o == (n, c)).unwrap() as u16, fb),
                _ => {}
            }
        }
        // from outside, where it was delayed if it has to be
        (NodeOrGraph::Graph, my_ins.iter().position(|x| *x == s).expect("input") as u16, false)
    };
    let mut todo: Vec<(S, NodeOrGraph, u16)> = vec![];
    for l in &lv.items {
        match l {
            L::Leaf(n, id) => {
                for (ch, l) in spec.nodes[*n].ins.iter().enumerate() {
                    todo.extend(l.iter().map(|s| (*s, NodeOrGraph::Node(*id), ch as u16)));
                }
            }
            L::Group(_, id, ins, _) => todo.extend(ins.iter().enumerate().map(|(ch, s)| (*s, NodeOrGraph::Node(*id), ch as u16))),
        }
    }
    for (ch, l) in my_outs.iter().enumerate() {
        for s in l {
            let leaf = matches!(s, S::Node(n, _) if lv.items.iter().any(|l| matches!(l, L::Leaf(m, _) if m == n)));
            if !(leaf && skip_leaf_outs) {
                todo.push((*s, NodeOrGraph::Graph, ch as u16));
            }
        }
    }
    for i in (1..todo.len()).rev() {
        let j = i - src.idx(i + 1);
        todo.swap(i, j);
    }
    for (s, sink, ch) in todo {
        let (a, so, fb) = find(s);
        let r = if fb { g.connect2_feedback(a, so, ch, sink) } else { g.connect2(a, so, ch, sink) };
        if let Err(e) = r {
            bail!("valid connection rejected", "{s:?} -> {sink:?}:{ch}: {e}");
        }
    }
    for l in &lv.items {
        let L::Leaf(n, id) = l else { continue };
        for (p, a, ch) in &spec.nodes[*n].params {
            let Some(L::Leaf(_, aid)) = lv.items.iter().find(|x| matches!(x, L::Leaf(m, _) if m == a)) else { continue };
            if let Err(e) = g.connect_to_parameter(*aid, *ch, *p, *id) {
                bail!("valid parameter connection rejected", "{e}");
            }
        }
    }
    g.edit(|_| {});
    b.graphs.push(g);
    for mut s in lv.subs {
        let in_callback = s.level.is_some();
        let level = s.level.take().unwrap_or_else(|| s.graph.edit(|g| push_level(spec, &s.inner, &g, src)));
        connect_level(spec, s.graph, level, &s.ins, &s.outs, in_callback, src, b)?;
    }
    Ok(())
}

/// Group a run of consecutive items, if its channels fit.
fn group(spec: &Spec, ts: &mut Vec<T>, src: &mut Src) {
    if ts.len() < 2 {
        return;
    }
    let a = src.idx(ts.len());
    let n = src.range(1, (ts.len() - a).min(5));
    let inner: Vec<T> = ts[a..a + n].to_vec();
    let lv = leaves(&inner);
    let (i, o) = io(spec, &lv);
    // parameter connections stay within a graph
    let split = spec.nodes.iter().enumerate().any(|(k, nd)| nd.params.iter().any(|p| lv.contains(&k) != lv.contains(&p.1)));
    if i.len() > 3 || o.len() > 3 || split {
        return;
    }
    ts.splice(a..a + n, [T::Group(inner)]);
}
fn same_level(ts: &[T], a: usize, b: usize) -> bool {
    let has = |n: usize| ts.iter().any(|t| matches!(t, T::Leaf(m) if *m == n));
    if has(a) && has(b) {
        return true;
    }
    ts.iter().any(|t| if let T::Group(g) = t { same_level(g, a, b) } else { false })
}

pub fn inlined(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[4usize, 1, 3, 8, 16, 32]);
    let (n_in, n_out) = src.pickc(&IO);
    let count = src.range(3, 14);
    let mut spec = Spec { n_in, n_out, nodes: vec![], outs: vec![vec![]; n_out] };
    let p = Profile { done: src.chance(1, 4), params: true, ..Default::default() };
    let pick = |src: &mut Src, spec: &Spec, upto: usize| -> Option<S> {
        if spec.n_in > 0 && src.chance(1, 5) {
            return Some(S::In(src.idx(spec.n_in) as u16));
        }
        let c: Vec<usize> = (0..upto).filter(|i| spec.nodes[*i].kind.outs > 0).collect();
        if c.is_empty() {
            return None;
        }
        let a = c[c.len() - 1 - src.idx(c.len())];
        Some(S::Node(a, src.idx(spec.nodes[a].kind.outs) as u16))
    };
    for i in 0..count {
        let mut kind = gen_kind(src, &p);
        if kind.done == Some(Done::FreeParent) {
            kind.done = Some(Done::FreeSelf);
        }
        let done = kind.done.map(|_| DoneAt { at: src.below(3 * bs as u64), every: 0, how: 0, off: 0 });
        let mut n = N { kind, coef: gen_coef(src), done, ins: vec![vec![]; kind.ins], params: vec![] };
        for ch in 0..kind.ins {
            for _ in 0..src.weighted(&[1, 5, 2]) {
                if let Some(s) = pick(src, &spec, i) {
                    n.ins[ch].push(s);
                }
            }
        }
        if kind.ar && src.bool() {
            if let Some(S::Node(a, c)) = pick(src, &spec, i) {
                n.params.push((src.idx(2), a, c));
            }
        }
        spec.nodes.push(n);
    }
    for _ in 0..src.weighted(&[2, 2, 1]) {
        let a = src.idx(count);
        let b = src.idx(count);
        let (no, ni) = (spec.nodes[a].kind.outs, spec.nodes[b].kind.ins);
        // (removing a node ends its feedback connections at once, so what a nested graph delays would be one block more)
        if no > 0 && ni > 0 && spec.nodes[a].done.is_none() {
            let (c, ch) = (src.idx(no) as u16, src.idx(ni));
            spec.nodes[b].ins[ch].push(S::Fb(a, c));
            ctx.class("feedback");
        }
    }
    for ch in 0..n_out {
        for _ in 0..src.weighted(&[1, 4, 2]) {
            if let Some(s) = pick(src, &spec, count) {
                spec.outs[ch].push(s);
            }
        }
    }
    let flat: Vec<T> = (0..count).map(T::Leaf).collect();
    let mut tree = flat.clone();
    for _ in 0..src.range(1, 5) {
        group(&spec, &mut tree, src);
    }
    // and inside the groups
    fn deeper(spec: &Spec, ts: &mut Vec<T>, src: &mut Src) {
        for t in ts.iter_mut() {
            if let T::Group(g) = t {
                if src.bool() {
                    group(spec, g, src);
                }
                deeper(spec, g, src);
            }
        }
    }
    deeper(&spec, &mut tree, src);
    // a parameter connection needs both ends in the same graph
    for i in 0..count {
        let keep: Vec<_> = spec.nodes[i].params.iter().copied().filter(|p| same_level(&tree, p.1, i)).collect();
        spec.nodes[i].params = keep;
    }
    ctx.note(|| {
        let mut s = format!("block size {bs}, {n_in} inputs, {n_out} outputs\n");
        for (i, n) in spec.nodes.iter().enumerate() {
            s += &format!("node {i}: {:?} {:?} inputs {:?} parameters {:?} done {:?}\n", n.kind, n.coef, n.ins, n.params, n.done);
        }
        s + &format!("outputs {:?}\nnested as {tree:?}", spec.outs)
    });
    let mut worlds = vec![];
    for t in [&flat, &tree] {
        let (mut g, proc) = new_proc::<f32>(n_in, n_out, AudioProcessorOptions { block_size: bs, sample_rate: 8000, ring_buffer_size: 300, log_channel_capacity: 64 });
        let level = g.edit(|g| push_level(&spec, t, &g, src));
        let mut b = Built { graphs: vec![], at: (0..count).map(|_| None).collect() };
        let ins: Vec<S> = (0..n_in).map(|c| S::In(c as u16)).collect();
        connect_level(&spec, g, level, &ins, &spec.outs, false, src, &mut b)?;
        worlds.push((b, proc));
    }
    let mut clock = 0u64;
    let mut loud = false;
    let blocks = src.range(2, 6);
    for _ in 0..blocks {
        for _ in 0..src.below(3) {
            let n = src.idx(count);
            let np = NP + spec.nodes[n].kind.done.is_some() as usize;
            let pi = src.idx(np.min(NP));
            let v = gen_value(src, pi);
            let at = clock + src.below(3 * bs as u64);
            let after = src.bool();
            let secs = Seconds::from_samples(if after { at - clock } else { at }, 8000);
            ctx.note(|| format!("at {clock}: node {n} {} = {v:?} {} {at}", NAMES[pi], if after { "after" } else { "at" }));
            for (b, _) in worlds.iter_mut() {
                let (g, id, _) = b.at[n].as_ref().unwrap();
                let t = if after { Time::after(secs) } else { Time::at(secs) };
                let _ = b.graphs[*g].set(*id, pi, pv(v), t);
            }
        }
        let inputs: Vec<Vec<f32>> = (0..n_in).map(|c| { let a = src.below(M); (0..bs as u64).map(|i| ((a + i * (c as u64 + 1)) % M) as f32).collect() }).collect();
        let refs: Vec<&[f32]> = inputs.iter().map(|c| &c[..]).collect();
        let mut out: Vec<Vec<f32>> = vec![];
        for (_, proc) in worlds.iter_mut() {
            proc.run(&refs);
            let ob = proc.output_block();
            out.push((0..n_out).flat_map(|c| (0..bs).map(move |f| (c, f))).map(|(c, f)| Block::read(&*ob, c, f)).collect());
        }
        loud |= out[0].iter().any(|x| *x != 0.0);
        if out[0] != out[1] {
            let k = (0..out[0].len()).find(|i| out[0][*i] != out[1][*i]).unwrap();
            bail!("nested graphs sound different", "block at frame {clock}: channel {} frame {}: {} flat, {} nested", k / bs, k % bs, out[0][k], out[1][k]);
        }
        clock += bs as u64;
        if src.chance(1, 3) {
            // nodes that are done go away now
            for (b, _) in worlds.iter_mut() {
                for g in b.graphs.iter_mut() {
                    g.edit(|_| {});
                }
            }
        }
    }
    for n in 0..count {
        let e: Vec<(Vec<Ev>, u64)> = worlds.iter().map(|w| { let l = &w.0.at[n].as_ref().unwrap().2; (l.events.lock().unwrap().clone(), l.frames.load(SeqCst)) }).collect();
        check!(e[0] == e[1], "nested graphs deliver changes differently", "node {n}: flat {:?}, nested {:?}", e[0], e[1]);
    }
    let groups = worlds[1].0.graphs.len() - 1;
    ctx.class_if(groups >= 2, "2+ nested graphs");
    ctx.class_if(tree.iter().any(|t| matches!(t, T::Group(g) if g.iter().any(|t| matches!(t, T::Group(_))))), "nested twice");
    ctx.class_if(spec.nodes.iter().any(|n| !n.params.is_empty()), "parameter connection");
    ctx.class_if(p.done, "nodes that are done");
    ctx.nontrivial_if(groups >= 1 && loud);
    Ok(())
}
