//! Random edit histories over a `World`.
use crate::probe::*;
use crate::world::*;
use knaster_core::*;
use kv::*;

#[derive(Clone, Copy, Default)]
pub struct Profile {
    pub feedback: bool,
    pub params: bool,
    pub subs: bool,
    pub invalid: bool,
    pub done: bool,
    pub events: bool,
    pub graph_in: bool,
    pub mortality: bool,
    pub drop_graph: bool,
    /// removed nodes have to be dropped while the graph lives
    pub settle: bool,
    pub max_ops: usize,
    pub delayed_commit: bool,
    pub event_weight: u32,
    pub midblock: bool,
    pub done_heavy: bool,
    pub inspect: bool,
    pub sub_heavy: bool,
    /// many nodes and connections
    pub large: bool,
    /// long stretches of adding, removing and committing without audio
    pub churn: bool,
}

pub const BS: [usize; 10] = [4, 1, 2, 3, 5, 8, 16, 7, 32, 64];
pub const SR: [u32; 6] = [48000, 44100, 1000, 8000, 96000, 192000];

pub fn new_world<F: Float>(src: &mut Src, ctx: &mut Ctx, p: &Profile) -> World<F> {
    let bs = src.pickc(&BS);
    let sr = if p.events { src.pickc(&[8000u32, 44100, 48000, 4000, 11025, 32000, 96000, 192000]) } else { src.pickc(&SR) };
    let io = loop_pick(src, p);
    ctx.note(|| format!("{}: {} inputs, {} outputs, block size {bs}, sample rate {sr}", std::any::type_name::<F>(), io.0, io.1));
    let mut w = World::new(io.0, io.1, bs, sr, 400);
    w.record = p.events;
    w
}
fn loop_pick(src: &mut Src, p: &Profile) -> (usize, usize) {
    if p.graph_in { src.pickc(&IO) } else { src.pickc(&[(0, 1), (0, 2), (0, 4)]) }
}

pub fn gen_kind(src: &mut Src, p: &Profile) -> Kind {
    let done = p.done && if p.done_heavy { src.bool() } else { src.chance(1, 3) };
    let ar = p.params && if p.large { src.bool() } else { src.chance(1, 3) };
    let (ins, outs) = if done && ar {
        src.pickc(&AR_SHAPES[..2])
    } else if done || ar {
        src.pickc(&AR_SHAPES)
    } else {
        src.pickc(&SHAPES)
    };
    let d = if done { Some(src.pickc(&[Done::FreeSelf, Done::FreeParent, Done::None, Done::FreeSelf])) } else { None };
    Kind { ins, outs, ar, done: d }
}
pub fn gen_done(src: &mut Src, bs: u64) -> DoneAt {
    // at most one flag per block
    DoneAt { at: src.below(3 * bs), every: if src.chance(1, 3) { bs * (1 + src.below(3)) } else { 0 }, how: src.weighted(&[8, 1, 1]) as u8, off: if src.chance(1, 4) { src.below(2 * bs) as u32 } else { 0 } }
}
pub fn gen_coef(src: &mut Src) -> Coef {
    Coef { base: src.below(M), step: if src.chance(1, 4) { 0 } else { 1 + src.below(999) } }
}

/// A node that exists most of the time; otherwise whatever a confused user might hold.
pub fn gen_ref<F: Float>(w: &World<F>, gi: usize, src: &mut Src, p: &Profile, allow_graph: bool) -> Ref {
    let m = &w.ms[gi];
    let alive = m.alive_nodes();
    if p.invalid && src.chance(1, 10) {
        return match src.below(3) {
            0 => Ref::Invalid,
            1 if !m.nodes.is_empty() => Ref::Node(src.idx(m.nodes.len())),
            _ => {
                // a node of another graph
                let others: Vec<usize> = (0..w.ms.len()).filter(|g| *g != gi && !w.ms[*g].nodes.is_empty()).collect();
                if others.is_empty() {
                    Ref::Invalid
                } else {
                    let g = *src.pick(&others);
                    Ref::Foreign(g, src.idx(w.ms[g].nodes.len()))
                }
            }
        };
    }
    if alive.is_empty() || (allow_graph && src.chance(1, 4)) {
        return if allow_graph { Ref::Graph } else { Ref::Invalid };
    }
    // recent nodes more often
    let i = src.idx(alive.len());
    Ref::Node(alive[alive.len() - 1 - i])
}
fn gen_ch(src: &mut Src, n: usize, p: &Profile) -> u16 {
    if p.invalid && src.chance(1, 12) {
        return src.pickc(&[n as u16, n as u16 + 1, 100, u16::MAX]);
    }
    if n == 0 { 0 } else { src.idx(n) as u16 }
}
fn outs_of<F: Float>(w: &World<F>, gi: usize, r: Ref) -> usize {
    match r {
        Ref::Graph => w.ms[gi].n_in,
        Ref::Node(n) => w.ms[gi].nodes[n].kind.outs,
        Ref::Foreign(g, n) => w.ms[g].nodes[n].kind.outs,
        _ => 1,
    }
}
fn ins_of<F: Float>(w: &World<F>, gi: usize, r: Ref) -> usize {
    match r {
        Ref::Graph => w.ms[gi].n_out,
        Ref::Node(n) => w.ms[gi].nodes[n].kind.ins,
        Ref::Foreign(g, n) => w.ms[g].nodes[n].kind.ins,
        _ => 1,
    }
}

/// One connection attempt; when invalid edits are not wanted, only a valid one is made.
pub fn op_connect<F: Float>(w: &mut World<F>, gi: usize, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let a = gen_ref(w, gi, src, p, w.ms[gi].n_in > 0 || p.invalid);
    let b = gen_ref(w, gi, src, p, true);
    let so = gen_ch(src, outs_of(w, gi, a), p);
    let si = gen_ch(src, ins_of(w, gi, b), p);
    let mode = match src.weighted(&[6, 2, 1, 1]) {
        0 => Mode::Add,
        1 => Mode::Replace,
        2 if p.feedback => Mode::Fb,
        3 if p.feedback => Mode::FbReplace,
        _ => Mode::Add,
    };
    let ok = w.connect_ok(gi, a, so, si, b, mode);
    if !ok && !p.invalid {
        return Ok(());
    }
    ctx.note(|| format!("g{gi}: connect {a:?}:{so} -> {b:?}:{si} {mode:?}{}", if ok { "" } else { "  (invalid)" }));
    ctx.class_if(!ok, "invalid connection");
    ctx.class_if(ok && mode == Mode::Replace, "replace");
    ctx.class_if(ok && matches!(mode, Mode::Fb | Mode::FbReplace), "feedback");
    if ok && mode == Mode::Add {
        let l = match b {
            Ref::Node(n) => w.ms[gi].decl.ins[n][si as usize].len(),
            _ => w.ms[gi].decl.outs[si as usize].len(),
        };
        ctx.class_if(l >= 1, "summed input");
    }
    w.connect(gi, a, so, si, b, mode)?;
    Ok(())
}
pub fn op_connect_param<F: Float>(w: &mut World<F>, gi: usize, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let a = gen_ref(w, gi, src, p, false);
    // prefer nodes that take audio rate parameters
    let ars: Vec<usize> = w.ms[gi].alive_nodes().into_iter().filter(|n| w.ms[gi].nodes[*n].kind.ar).collect();
    let b = if !ars.is_empty() && src.chance(3, 4) { Ref::Node(*src.pick(&ars)) } else { gen_ref(w, gi, src, p, false) };
    let so = gen_ch(src, outs_of(w, gi, a), p);
    let pi = if p.invalid && src.chance(1, 10) { src.pickc(&[NP, NP + 1, 77, 1 << 16, (1 << 16) + 1]) } else { src.idx(2) };
    let param = if src.chance(1, 4) {
        if p.invalid && src.chance(1, 4) { Param::Desc("nope") } else { Param::Desc(["pa", "pb"][pi.min(1)]) }
    } else {
        Param::Index(pi)
    };
    let replace = src.chance(1, 3);
    if !p.invalid {
        // only when valid
        let (Ref::Node(x), Ref::Node(y)) = (a, b) else { return Ok(()) };
        if w.ms[gi].nodes[x].kind.outs == 0 || w.ms[gi].nodes[y].sub.is_some() || w.ms[gi].has_path(y, x) {
            return Ok(());
        }
    }
    ctx.note(|| format!("g{gi}: connect {a:?}:{so} -> {b:?} parameter {param:?} replace {replace}"));
    let ok = w.connect_param(gi, a, so, param, b, replace)?;
    ctx.class(if ok { "parameter connection" } else { "invalid parameter connection" });
    Ok(())
}

/// Walk from a node to one of those it depends on, and try to make that one depend on the node.
pub fn op_cycle<F: Float>(w: &mut World<F>, gi: usize, src: &mut Src, ctx: &mut Ctx) -> Res {
    let alive = w.ms[gi].alive_nodes();
    let c: Vec<usize> = alive.into_iter().filter(|n| w.ms[gi].nodes[*n].kind.outs > 0).collect();
    if c.is_empty() {
        return Ok(());
    }
    let n = c[c.len() - 1 - src.idx(c.len())];
    let mut at = n;
    for _ in 0..src.range(1, 6) {
        let d = &w.ms[gi].decl;
        let mut up: Vec<usize> = d.ins[at].iter().flatten().filter_map(|s| if let MSrc::Node(q, _) = s { Some(*q) } else { None }).collect();
        up.extend(d.pedges[at].values().flatten().map(|(q, _)| *q));
        if up.is_empty() {
            break;
        }
        up.sort();
        at = *src.pick(&up);
    }
    let so = src.idx(w.ms[gi].nodes[n].kind.outs) as u16;
    if w.ms[gi].nodes[at].kind.ins > 0 && src.chance(2, 3) {
        let si = src.idx(w.ms[gi].nodes[at].kind.ins) as u16;
        let mode = if src.chance(1, 4) { Mode::Replace } else { Mode::Add };
        ctx.note(|| format!("g{gi}: close a cycle: connect node {n}:{so} -> node {at}:{si} {mode:?}"));
        ctx.class("cycle");
        w.connect(gi, Ref::Node(n), so, si, Ref::Node(at), mode)?;
    } else {
        let pi = src.idx(2);
        let replace = src.chance(1, 4);
        ctx.note(|| format!("g{gi}: close a cycle: connect node {n}:{so} -> node {at} parameter {pi} replace {replace}"));
        ctx.class("cycle through a parameter");
        w.connect_param(gi, Ref::Node(n), so, Param::Index(pi), Ref::Node(at), replace)?;
    }
    Ok(())
}

pub fn edit_op<F: Float>(w: &mut World<F>, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let gl = w.live_graphs();
    if gl.is_empty() {
        return Ok(());
    }
    let gi = *src.pick(&gl);
    let n_alive = w.ms[gi].alive_nodes().len();
    let k = src.weighted(&[
        10,                                                   // 0 connect
        if n_alive < 14 { 4 } else { 0 },                     // 1 push
        if p.params { 4 } else { 0 },                         // 2 connect param
        1,                                                    // 3 disconnect out
        1,                                                    // 4 disconnect in
        if n_alive > 0 { 2 } else { 0 },                      // 5 free
        if p.subs && w.graphs.len() < 4 { if p.sub_heavy { 6 } else { 2 } } else { 0 },     // 6 push subgraph
        if p.mortality { 1 } else { 0 },                      // 7
        if p.drop_graph && w.graphs.len() > 1 { 1 } else { 0 }, // 8
        if p.events { 8 + p.event_weight } else { 0 },                         // 9
        2,                                                    // 10 connect to the output
        if p.inspect { 5 } else { 0 },                        // 11 names
        if p.invalid && n_alive > 0 { 4 } else { 0 },         // 12 close a cycle
    ]);
    match k {
        0 => op_connect(w, gi, src, ctx, p)?,
        1 => {
            let kind = gen_kind(src, p);
            let coef = gen_coef(src);
            let done_at = if p.done && (kind.done.is_some() || src.chance(1, 8)) { Some(gen_done(src, w.bs as u64)) } else { None };
            let n = if kind.done.is_none() && (p.events || src.chance(1, 4)) { w.push_graph(gi, kind, coef, done_at) } else { w.push(gi, kind, coef, done_at) };
            ctx.note(|| format!("g{gi}: node {n} = probe {kind:?} {coef:?} done at {done_at:?}"));
            ctx.class_if(kind.ins == 0 && kind.outs == 0 || kind.outs == 0, "node without outputs");
        }
        2 => op_connect_param(w, gi, src, ctx, p)?,
        3 => {
            let a = gen_ref(w, gi, src, p, true);
            let ch = gen_ch(src, outs_of(w, gi, a), p);
            if !p.invalid && outs_of(w, gi, a) == 0 {
                return Ok(());
            }
            ctx.note(|| format!("g{gi}: disconnect output {a:?}:{ch}"));
            w.disconnect_out(gi, a, ch)?;
            ctx.class("disconnect output");
        }
        4 => {
            let a = gen_ref(w, gi, src, p, true);
            let ch = gen_ch(src, ins_of(w, gi, a), p);
            if !p.invalid && ins_of(w, gi, a) == 0 {
                return Ok(());
            }
            ctx.note(|| format!("g{gi}: disconnect input {a:?}:{ch}"));
            w.disconnect_in(gi, a, ch)?;
            ctx.class("disconnect input");
        }
        5 => {
            let a = gen_ref(w, gi, src, p, false);
            if a == Ref::Invalid && !p.invalid {
                return Ok(());
            }
            ctx.note(|| format!("g{gi}: free {a:?}"));
            if w.free(gi, a)? {
                ctx.class("free node");
            }
        }
        6 => {
            let (i, o) = src.pickc(&SUBIO);
            let (n, s) = w.push_sub(gi, i, o);
            ctx.note(|| format!("g{gi}: node {n} = subgraph g{s} with {i} inputs and {o} outputs"));
            ctx.class("subgraph");
        }
        7 => {
            let a = gen_ref(w, gi, src, p, false);
            let m = src.bool();
            ctx.note(|| format!("g{gi}: mortality of {a:?} = {m}"));
            w.set_mortality(gi, a, m)?;
        }
        8 => {
            ctx.note(|| format!("drop the handle of graph {gi}"));
            ctx.class("graph handle dropped");
            w.graphs[gi] = None;
        }
        9 => crate::events::op_event(w, gi, src, ctx, p)?,
        11 if src.bool() => crate::inspect::op_name(w, gi, src, ctx, p)?,
        11 => crate::inspect::check_lookup(w, gi, src, ctx, p)?,
        12 => op_cycle(w, gi, src, ctx)?,
        _ => {
            // make something audible
            let alive = w.ms[gi].alive_nodes();
            let c: Vec<usize> = alive.into_iter().filter(|n| w.ms[gi].nodes[*n].kind.outs > 0).collect();
            if c.is_empty() || w.ms[gi].n_out == 0 {
                return Ok(());
            }
            let n = c[c.len() - 1 - src.idx(c.len())];
            let so = src.idx(w.ms[gi].nodes[n].kind.outs) as u16;
            let si = src.idx(w.ms[gi].n_out) as u16;
            ctx.note(|| format!("g{gi}: connect node {n}:{so} -> output {si}"));
            w.connect(gi, Ref::Node(n), so, si, Ref::Graph, Mode::Add)?;
        }
    }
    Ok(())
}

/// Start from a graph with something in it: nodes connected to earlier nodes, and to the outputs.
pub fn build_phase<F: Float>(w: &mut World<F>, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let n = if p.large { src.range(12, 60) } else { src.range(2, 11) };
    for _ in 0..n {
        let kind = gen_kind(src, p);
        let coef = gen_coef(src);
        let x = if kind.done.is_none() && (p.events || src.chance(1, 4)) { w.push_graph(0, kind, coef, None) } else { w.push(0, kind, coef, None) };
        ctx.note(|| format!("g0: node {x} = probe {kind:?} {coef:?}"));
        for ch in 0..kind.ins {
            for _ in 0..src.weighted(&[1, 5, 2]) {
                let c: Vec<usize> = (0..x).filter(|n| w.ms[0].alive(*n) && w.ms[0].nodes[*n].kind.outs > 0).collect();
                if c.is_empty() {
                    break;
                }
                let a = c[c.len() - 1 - src.idx(c.len())];
                let so = src.idx(w.ms[0].nodes[a].kind.outs) as u16;
                ctx.note(|| format!("g0: connect node {a}:{so} -> node {x}:{ch}"));
                w.connect(0, Ref::Node(a), so, ch as u16, Ref::Node(x), Mode::Add)?;
            }
        }
        if p.params && kind.ar && x > 0 {
            for _ in 0..if p.large { src.range(1, 4) } else { 1 } {
                op_connect_param(w, 0, src, ctx, p)?;
            }
        }
        if w.ms[0].n_out > 0 && kind.outs > 0 && src.chance(1, 4) {
            let so = src.idx(kind.outs) as u16;
            let si = src.idx(w.ms[0].n_out) as u16;
            ctx.note(|| format!("g0: connect node {x}:{so} -> output {si}"));
            w.connect(0, Ref::Node(x), so, si, Ref::Graph, Mode::Add)?;
        }
    }
    if src.bool() {
        w.commit(0);
    }
    Ok(())
}

/// A history: batches of edits, each followed by a commit and some blocks.
pub fn history<F: Float>(src: &mut Src, ctx: &mut Ctx, p: Profile) -> Res {
    let mut w = new_world::<F>(src, ctx, &p);
    history_on(&mut w, src, ctx, &p)?;
    if p.settle {
        w.settle(src)?;
        w.check_probes()?;
    }
    w.check_rt()?;
    w.finish(src)
}
pub fn history_on<F: Float>(w: &mut World<F>, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let batches = src.range(1, 6);
    let mut audible = 0;
    let mut edits_after_audio = 0;
    if src.chance(3, 4) {
        build_phase(w, src, ctx, p)?;
    }
    for b in 0..batches {
        let n = if b == 0 { src.range(2, p.max_ops) } else { src.range(0, p.max_ops / 2) };
        for _ in 0..n {
            edit_op(w, src, ctx, p)?;
            // an edit may be committed before it is complete: also fine
            if src.chance(1, 10) {
                for gi in w.live_graphs() {
                    w.commit(gi);
                }
            }
        }
        if p.churn && src.chance(1, 2) {
            churn(w, src, ctx, p)?;
        }
        if n > 0 && b > 0 {
            edits_after_audio += 1;
        }
        let skip = p.delayed_commit && src.chance(1, 8);
        if !skip {
            // inner graphs in any order relative to outer ones
            let mut gl = w.live_graphs();
            if src.bool() {
                gl.reverse();
            }
            for gi in gl {
                w.commit(gi);
            }
        }
        if p.inspect && !skip {
            for gi in w.live_graphs() {
                crate::inspect::check_inspection(w, gi, src, ctx)?;
                crate::inspect::check_lookup(w, gi, src, ctx, p)?;
            }
        }
        let blocks = src.range(1, 4);
        for _ in 0..blocks {
            ctx.note(|| format!("process block at frame {}", w.clock));
            if p.midblock && src.chance(3, 4) {
                run_mid(w, src, ctx, p)?;
            } else {
                w.run_block(src)?;
            }
            if p.events {
                crate::events::between_blocks(w, src, ctx, p);
            }
            audible += 1;
        }
        w.check_probes()?;
        w.check_events()?;
    }
    let m = &w.ms[0];
    let edges = m.live.ins.iter().flatten().flatten().filter(|s| !matches!(s, MSrc::In(_))).count();
    let outs = m.live.outs.iter().flatten().count();
    ctx.class_if(edges >= 4, "4+ live edges");
    ctx.class_if(outs >= 1, "audible");
    ctx.class_if(w.rounded, "values too large to compare");
    ctx.class_if(w.ms.len() > 1, "has subgraph");
    ctx.nontrivial_if(audible >= 2 && edges >= 1 && outs >= 1 && edits_after_audio >= 1 && !w.rounded);
    Ok(())
}

/// Nodes come and go, and are committed, many times before the audio sees any of it.
fn churn<F: Float>(w: &mut World<F>, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let rounds = src.range(5, 40);
    ctx.class_if(rounds > 16, "more than 16 commits with removed nodes between two blocks");
    for _ in 0..rounds {
        let gl = w.live_graphs();
        if gl.is_empty() {
            return Ok(());
        }
        let gi = *src.pick(&gl);
        if w.ms[gi].alive_nodes().len() < 14 {
            let kind = gen_kind(src, p);
            let coef = gen_coef(src);
            let n = w.push(gi, kind, coef, None);
            ctx.note(|| format!("g{gi}: node {n} = probe {kind:?} {coef:?}"));
            op_connect(w, gi, src, ctx, p)?;
        }
        if src.chance(4, 5) {
            let a = gen_ref(w, gi, src, p, false);
            if a != Ref::Invalid {
                ctx.note(|| format!("g{gi}: free {a:?}"));
                w.free(gi, a)?;
            }
        }
        if src.chance(7, 8) {
            ctx.note(|| format!("commit g{gi}"));
            w.commit(gi);
        }
    }
    Ok(())
}

struct Mid<'a, F: Float> {
    w: *mut World<F>,
    src: *mut Src,
    ctx: &'a mut Ctx,
    p: &'a Profile,
    left: usize,
    done: usize,
}
/// Edits made while a block is being processed, between (and before and after) the nodes: what
/// another thread could do at that moment. They count from the next block on.
fn mid_edit<F: Float>(m: *mut (), gi: usize) {
    let m = unsafe { &mut *(m as *mut Mid<F>) };
    let (w, src) = unsafe { (&mut *m.w, &mut *m.src) };
    if m.left == 0 || w.mism.is_some() || !src.chance(1, 4) {
        return;
    }
    // graphs whose part of this block has already begun
    let mut only = vec![gi];
    while let Some((p, _)) = w.ms[*only.last().unwrap()].parent {
        only.push(p);
    }
    w.only = Some(only);
    for _ in 0..src.range(1, 4) {
        m.left -= 1;
        m.done += 1;
        m.ctx.note(|| format!("  in the middle of the block (node in g{gi}):"));
        if let Err(f) = edit_op(w, src, m.ctx, m.p) {
            w.mism = Some(f);
            break;
        }
        if m.left == 0 {
            break;
        }
    }
    for gi in w.live_graphs() {
        if src.bool() {
            m.ctx.note(|| format!("  commit g{gi}"));
            w.commit(gi);
        }
    }
    w.only = None;
}
fn run_mid<F: Float>(w: &mut World<F>, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let mut m = Mid::<F> { w: std::ptr::null_mut(), src: std::ptr::null_mut(), ctx, p, left: 8, done: 0 };
    let mp: *mut Mid<F> = &mut m;
    let r = w.run_block_with(src, |w, src| unsafe {
        (*mp).w = w;
        (*mp).src = src;
        MID.set(Some((mid_edit::<F>, mp as *mut ())));
    });
    MID.set(None);
    if m.done > 0 {
        m.ctx.class("edited in the middle of a block");
    }
    r
}
