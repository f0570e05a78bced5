//! Parameter changes: every way of sending one, with times, tokens and invalid targets.
use crate::ops::{Profile, gen_ref};
use crate::probe::*;
use crate::world::*;
use knaster_core::*;
use knaster_graph::SchedulingToken;
use knaster_graph::graph::GraphError;
use knaster_graph::handle::HandleTrait;
use kv::*;

pub const NAMES: [&str; NP + 1] = ["pa", "pb", "trig", "int", "flag", "done_action"];

pub fn pv(v: PV) -> ParameterValue {
    match v {
        PV::F(f) => ParameterValue::Float(f),
        PV::T => ParameterValue::Trigger,
        PV::I(i) => ParameterValue::Integer(PInteger(i)),
        PV::B(b) => ParameterValue::Bool(b),
        PV::S => ParameterValue::Smoothing(ParameterSmoothing::Linear(0.1), Rate::AudioRate),
    }
}
pub struct Change {
    pub param: Param,
    pub value: PV,
    pub smooth: bool,
    pub token: Option<SchedulingToken>,
}
pub fn send_handle<H: HandleTrait>(h: &H, c: Change) -> Result<(), GraphError> {
    let v = pv(c.value);
    let s = ParameterSmoothing::Linear(0.25);
    match (c.smooth, c.token) {
        (false, None) => h.set((c.param, v)),
        (true, None) => h.set((c.param, v, s)),
        (false, Some(t)) => h.set((c.param, v, t)),
        (true, Some(t)) => h.set((c.param, v, s, t)),
    }
}

pub fn gen_value(src: &mut Src, param: usize) -> PV {
    match param {
        0 | 1 => PV::F(src.below(M) as f64 + src.pickc(&[0.0, 0.0, 0.1, 1.0 / 3.0])),
        2 => PV::T,
        3 => PV::I(src.below(1000) as usize),
        4 => PV::B(src.bool()),
        _ => PV::I(src.below(3) as usize),
    }
}
/// A time no further away than what is documented to be kept.
pub fn gen_time<F: Float>(w: &World<F>, src: &mut Src) -> MTime {
    let bs = w.bs as u64;
    let blocks = (w.sr as u64 / bs).saturating_sub(2).max(1);
    let near = src.chance(3, 4);
    let far = if near { 6.min(blocks) } else { blocks } * bs;
    match src.below(5) {
        0 => MTime::Asap,
        1 => MTime::At(src.below(w.clock + 1)),
        2 => MTime::At(w.clock + src.below(far)),
        3 => MTime::After(src.below(far)),
        // block boundaries and their neighbours
        _ => {
            let f = (src.below(far / bs + 1) * bs).saturating_sub(src.below(3)) + src.below(2);
            if src.bool() { MTime::At(w.clock + f) } else { MTime::After(f.min(far)) }
        }
    }
}

pub fn op_event<F: Float>(w: &mut World<F>, gi: usize, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let r = gen_ref(w, gi, src, p, false);
    let time = gen_time(w, src);
    let api = src.below(6);
    let (np, ok_node) = match r {
        Ref::Node(n) => {
            let nd = &w.ms[gi].nodes[n];
            (if nd.sub.is_some() { 0 } else { NP + nd.kind.done.is_some() as usize }, w.ms[gi].alive(n))
        }
        _ => (NP, false),
    };
    let mut pi = if np == 0 { 0 } else { src.idx(np) };
    let bad_param = p.invalid && src.chance(1, 10);
    if bad_param {
        pi = np + src.idx(3);
    }
    let by_name = src.chance(1, 3);
    let param = if by_name { Param::Desc(if bad_param { "nothing" } else { NAMES[pi.min(NP)] }) } else { Param::Index(pi) };
    let value = gen_value(src, pi);
    let valid = ok_node && pi < np;
    if !valid && !p.invalid {
        return Ok(());
    }
    ctx.class_if(!valid, "invalid parameter change");
    let mut want: Option<bool> = Some(valid);
    let what = format!("g{gi}: node {r:?} param {param:?} = {value:?} {time:?}");
    let mut applied: Vec<(usize, usize, Option<PV>, MTime, Option<usize>)> = vec![];
    let node = if let Ref::Node(n) = r { n } else { usize::MAX };
    let res: Result<(), GraphError> = match api {
        0 | 1 => {
            let Some(id) = w.raw_id(gi, r) else { return Ok(()) };
            ctx.note(|| format!("{what} via Graph::set"));
            let t = w.mtime(time);
            let res = if api == 0 { w.g(gi).set(id, param, pv(value), t) } else { w.g(gi).edit(|g| g.set(id, param, pv(value), t)) };
            if api == 1 {
                w.model_commit(gi);
            }
            if valid {
                applied.push((node, pi, Some(value), time, None));
            }
            res
        }
        2 => {
            // several at once; invalid ones do not stop the others
            let k = src.range(1, 4);
            let mut list = vec![];
            for _ in 0..k {
                let r = gen_ref(w, gi, src, p, false);
                let Some(id) = w.raw_id(gi, r) else { continue };
                let pi = src.idx(NP);
                let v = gen_value(src, pi);
                list.push((id, Param::Index(pi), pv(v)));
                if let Ref::Node(n) = r {
                    if w.ms[gi].alive(n) && w.ms[gi].nodes[n].sub.is_none() {
                        applied.push((n, pi, Some(v), time, None));
                    }
                }
            }
            ctx.note(|| format!("g{gi}: set_many {list:?} {time:?}, valid {applied:?}"));
            let t = w.mtime(time);
            w.g(gi).set_many(&list, t);
            ctx.class("set_many");
            want = None;
            Ok(())
        }
        3 => {
            // a Parameter, perhaps an old one
            if node == usize::MAX || (!valid && ok_node) {
                return Ok(());
            }
            if w.ms[gi].nodes[node].sub.is_some() {
                return Ok(());
            }
            let have = w.ms[gi].nodes[node].pars.iter().position(|x| x.0 == pi);
            let k = match have {
                Some(k) => k,
                None if ok_node => {
                    let id = w.ms[gi].nodes[node].id;
                    let par = w.g(gi).edit(|g| g.handle(id).map(|h| h.try_param(param)));
                    w.model_commit(gi);
                    let Some(Some(par)) = par else {
                        // the node may just have been removed because it was done
                        check!(!w.ms[gi].alive(node), "parameter of a node not found", "{what}");
                        return Ok(());
                    };
                    w.ms[gi].nodes[node].pars.push((pi, par));
                    w.ms[gi].nodes[node].pars.len() - 1
                }
                None => return Ok(()),
            };
            ctx.note(|| format!("{what} via Parameter"));
            ctx.class("Parameter");
            want = Some(true);
            // the done action takes nothing but an integer
            let smooth = pi < NP && src.chance(1, 6);
            let v = pv(value);
            let form = src.bool();
            let (secs, t) = match time {
                MTime::Asap => (Seconds::ZERO, w.mtime(time)),
                MTime::At(f) | MTime::After(f) => (w.frames_time(f), w.mtime(time)),
            };
            let par = &mut w.ms[gi].nodes[node].pars[k].1;
            let s = ParameterSmoothing::Linear(0.5);
            let r = match (smooth, value, time, form) {
                (true, _, MTime::Asap, false) => par.smooth(s),
                (true, _, MTime::At(_), false) => par.smooth_at(s, secs),
                (true, _, MTime::After(_), false) => par.smooth_after(s, secs),
                (true, _, _, true) => par.smooth_time(s, t),
                (_, PV::T, MTime::Asap, false) => par.trig(),
                (_, PV::T, MTime::At(_), false) => par.trig_at(secs),
                (_, PV::T, MTime::After(_), false) => par.trig_after(secs),
                (_, PV::T, _, true) => par.trig_time(t),
                (_, _, MTime::Asap, false) => par.set(v),
                (_, _, MTime::At(_), false) => par.set_at(v, secs),
                (_, _, MTime::After(_), false) => par.set_after(v, secs),
                (_, _, _, true) => par.set_time(v, t),
            };
            applied.push((node, pi, Some(if smooth { PV::S } else { value }), time, None));
            r
        }
        _ => {
            // handles, with tokens
            if node == usize::MAX || w.ms[gi].nodes[node].typed.is_none() || pi > NP {
                return Ok(());
            }
            let tok = if src.chance(1, 2) {
                if w.tokens.is_empty() || src.chance(1, 3) {
                    let t = SchedulingToken::new();
                    w.tokens.push((Some(t.clone()), Some(t), false));
                    Some(w.tokens.len() - 1)
                } else {
                    // some are used after they were activated, if they are still around
                    Some(src.idx(w.tokens.len())).filter(|t| w.tokens[*t].1.is_some())
                }
            } else {
                None
            };
            let smooth = pi < NP && src.chance(1, 4);
            let ch = Change { param, value, smooth, token: tok.and_then(|t| w.tokens[t].1.clone()) };
            ctx.note(|| format!("{what} via a handle, token {tok:?} smoothing {smooth}"));
            ctx.class_if(tok.is_some(), "token");
            let n = &w.ms[gi].nodes[node];
            let res = if api == 4 { n.typed.as_ref().unwrap()(ch) } else { send_handle(n.anyh.as_ref().unwrap(), ch) };
            // handles of removed nodes can still send; the change is never applied
            want = Some(pi < np);
            if pi < np {
                if smooth {
                    applied.push((node, pi, Some(PV::S), MTime::Asap, tok));
                }
                applied.push((node, pi, Some(value), MTime::Asap, tok));
            }
            res
        }
    };
    match (&res, want) {
        (Ok(()), Some(false)) => bail!("invalid parameter change accepted", "{what}"),
        // once the graph is gone from the audio thread nothing can be sent
        (Err(_), Some(true)) if !w.attached(gi) => return Ok(()),
        (Err(e), Some(true)) => bail!("valid parameter change rejected", "{what}: {e:?}"),
        _ => {}
    }
    for (n, pi, v, t, tok) in applied {
        ctx.class(match t {
            MTime::Asap => "asap",
            MTime::At(_) => "at",
            MTime::After(_) => "after",
        });
        w.model_event(gi, n, pi, v, t, tok);
    }
    Ok(())
}
pub fn between_blocks<F: Float>(w: &mut World<F>, src: &mut Src, ctx: &mut Ctx, _p: &Profile) {
    for i in 0..w.tokens.len() {
        if !w.tokens[i].2 && src.chance(1, 5) {
            // usually nobody else keeps the token
            let keep = src.chance(1, 3);
            let t = w.tokens[i].0.take().unwrap();
            if !keep {
                w.tokens[i].1 = None;
            }
            ctx.note(|| format!("activate token {i}"));
            t.activate_inner();
            w.tokens[i].2 = true;
        }
    }
}

/// Changes scheduled up to a second ahead, on a graph that runs long enough to see them all.
pub fn far(src: &mut Src, ctx: &mut Ctx) -> Res {
    let (sr, bs) = src.pickc(&[(8000u32, 64usize), (1000, 1), (1000, 8), (2000, 16), (4000, 32), (1000, 64), (8000, 8), (2000, 3), (48000, 64), (44100, 64)]);
    let mut w = World::<f32>::new(0, 1, bs, sr, 100);
    w.record = true;
    let n = src.range(1, 3);
    let mut gi = 0;
    if src.chance(1, 3) {
        gi = w.push_sub(0, 0, 1).1;
    }
    for _ in 0..n {
        let kind = Kind { ins: 0, outs: 1, ar: false, done: None };
        let c = crate::ops::gen_coef(src);
        w.push_graph(gi, kind, c, None);
    }
    w.commit(gi);
    w.commit(0);
    ctx.note(|| format!("sample rate {sr}, block size {bs}, {n} nodes in graph {gi}"));
    let horizon = sr as u64 / bs as u64;
    let sends = src.range(1, 12);
    let mut last = 0;
    let mut late = 0;
    for _ in 0..sends {
        let pause = if src.bool() { 0 } else { src.range(0, 20) };
        for _ in 0..pause {
            w.run_block(src)?;
        }
        let node = src.idx(n);
        let pi = src.idx(NP);
        let value = gen_value(src, pi);
        let d = match src.below(4) {
            0 => src.below(horizon + 1) * bs as u64,
            1 => src.below(bs as u64 * 4),
            _ => src.below((horizon + 1) * bs as u64),
        };
        let time = if src.bool() { MTime::At(w.clock + d) } else { MTime::After(d) };
        if d >= 32 * bs as u64 {
            late += 1;
        }
        last = last.max(w.clock + d);
        ctx.note(|| format!("at frame {}: node {node} param {pi} = {value:?} {time:?}", w.clock));
        let t = w.mtime(time);
        let id = w.ms[gi].nodes[node].id;
        if let Err(e) = w.g(gi).set(id, pi, pv(value), t) {
            bail!("valid parameter change rejected", "{e:?}");
        }
        w.model_event(gi, node, pi, Some(value), time, None);
    }
    while w.clock <= last {
        w.run_block(src)?;
    }
    w.check_probes()?;
    w.check_events()?;
    for (i, nd) in w.ms[gi].nodes.iter().enumerate() {
        ctx.note(|| format!("node {i}: {:?}", nd.expected));
    }
    ctx.class_if(late > 0, "more than 32 blocks ahead");
    ctx.class_if(gi > 0, "in a nested graph");
    ctx.nontrivial_if(late > 0 && sends > 1);
    w.finish(src)
}

/// Changes that cannot be applied any more (or not within the second that changes are kept for):
/// they must not be applied, and once that second is over they must not be in the way of others.
pub fn expire(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ring = src.range(1, 40);
    let (sr, bs) = src.pickc(&[(1000u32, 32usize), (1000, 64), (2000, 50), (1000, 100), (2000, 16), (4000, 64)]);
    let mut w = World::<f32>::new(0, 1, bs, sr, ring);
    w.record = true;
    let mut gi = 0;
    if src.chance(1, 3) {
        gi = w.push_sub(0, 0, 1).1;
    }
    let n = src.range(2, 4);
    for _ in 0..n {
        let kind = Kind { ins: 0, outs: 1, ar: false, done: None };
        let c = crate::ops::gen_coef(src);
        w.push_graph(gi, kind, c, None);
    }
    w.commit(gi);
    w.commit(0);
    ctx.note(|| format!("sample rate {sr}, block size {bs}, ring size {ring}, {n} nodes in graph {gi}"));
    let horizon = sr as u64 / bs as u64;
    // the last node is removed somewhere on the way
    let removed = w.ms[gi].alive_nodes()[n - 1];
    let mut keep = vec![];
    let mut full = 0;
    let rounds = src.range(1, 2);
    for round in 0..rounds {
        if round == rounds - 1 {
            w.run_block(src)?;
            w.free(gi, Ref::Node(removed))?;
            w.commit(gi);
        }
        let doomed = if src.bool() { ring } else { src.range(0, ring) };
        let mut sent = 0;
        while sent < doomed {
            let burst = src.range(1, (doomed - sent).min(ring));
            for _ in 0..burst {
                let pi = src.idx(NP);
                let value = gen_value(src, pi);
                let nodes = w.ms[gi].alive_nodes();
                let r = match src.below(3) {
                    0 => {
                        let far = 1000 + src.below(1000);
                        let node = *src.pick(&nodes);
                        let id = w.ms[gi].nodes[node].id;
                        let t = if src.bool() { MTime::At(w.clock + far * sr as u64) } else { MTime::After(far * sr as u64) };
                        let t = w.mtime(t);
                        w.g(gi).set(id, pi, pv(value), t)
                    }
                    x => {
                        // by handle: to a node already removed, or with a token never activated
                        let gone = x == 1 && !w.ms[gi].alive(removed);
                        let node = if gone { removed } else { *src.pick(&nodes) };
                        let token = (!gone || src.bool()).then(SchedulingToken::new);
                        keep.push(token.clone());
                        w.ms[gi].nodes[node].typed.as_ref().unwrap()(Change { param: Param::Index(pi), value, smooth: src.bool(), token })
                    }
                };
                check!(r.is_ok(), "valid parameter change rejected", "{r:?}");
                sent += 1;
            }
            w.run_block(src)?;
        }
        ctx.note(|| format!("{sent} changes that are never applied"));
        full += (sent == ring) as usize;
        for _ in 0..horizon + 3 {
            w.run_block(src)?;
        }
        let valid = src.range(1, ring);
        let mut last = w.clock;
        for i in 0..valid {
            let nodes = w.ms[gi].alive_nodes();
            let node = *src.pick(&nodes);
            let pi = src.idx(NP);
            let value = gen_value(src, pi);
            let d = src.below((horizon.saturating_sub(1)).min(8).max(1) * bs as u64);
            let time = if src.bool() { MTime::At(w.clock + d) } else { MTime::After(d) };
            ctx.note(|| format!("at frame {}: node {node} param {pi} = {value:?} {time:?}", w.clock));
            let t = w.mtime(time);
            let id = w.ms[gi].nodes[node].id;
            let r = w.g(gi).set(id, pi, pv(value), t);
            check!(r.is_ok(), "valid parameter change rejected", "number {i}: {r:?}");
            last = last.max(w.clock + d);
            w.model_event(gi, node, pi, Some(value), time, None);
        }
        while w.clock <= last {
            w.run_block(src)?;
        }
        w.check_events()?;
    }
    w.check_probes()?;
    drop(keep);
    ctx.class_if(full > 0, "ring filled with changes that are never applied");
    ctx.nontrivial_if(full > 0);
    w.finish(src)
}

/// Small rings: what is accepted arrives, what is refused does not.
pub fn small_ring(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ring = src.range(1, 8);
    let bs = src.pickc(&[4usize, 1, 2, 16]);
    let mut w = World::<f32>::new(0, 1, bs, 8000, ring);
    w.record = true;
    let n = src.range(1, 3);
    for _ in 0..n {
        let kind = Kind { ins: 0, outs: 1, ar: false, done: None };
        let c = crate::ops::gen_coef(src);
        w.push_graph(0, kind, c, None);
    }
    w.commit(0);
    let mut refused = 0;
    let mut accepted = 0;
    for _ in 0..src.range(1, 10) {
        for _ in 0..src.range(0, 12) {
            let node = src.idx(n);
            let pi = src.idx(NP);
            let value = gen_value(src, pi);
            let m = &w.ms[0];
            let room = m.incoming.len() + m.waiting.len() < ring;
            let time = if room && src.chance(1, 3) { MTime::After(src.below(6 * bs as u64)) } else { MTime::Asap };
            let free = m.incoming.len() < ring;
            let (t, id) = (w.mtime(time), w.ms[0].nodes[node].id);
            let form = src.below(2);
            let r = if form == 0 { w.g(0).set(id, pi, pv(value), t) } else if matches!(time, MTime::Asap) { w.ms[0].nodes[node].typed.as_ref().unwrap()(Change { param: Param::Index(pi), value, smooth: false, token: None }) } else { w.g(0).set(id, NAMES[pi], pv(value), t) };
            ctx.note(|| format!("node {node} param {pi} = {value:?} {time:?}: {}", if r.is_ok() { "accepted" } else { "refused" }));
            match r {
                Ok(()) => {
                    accepted += 1;
                    w.model_event(0, node, pi, Some(value), time, None)
                }
                Err(e) => {
                    refused += 1;
                    check!(!free, "change refused although there is room", "{e:?}");
                }
            }
        }
        for _ in 0..src.range(1, 3) {
            w.run_block(src)?;
        }
        w.check_events()?;
    }
    ctx.class_if(refused > 0, "some refused");
    ctx.nontrivial_if(refused > 0 && accepted > 4);
    w.finish(src)
}

/// More changes waiting for their time or token than the graph has room for. Which of them are kept
/// is not specified; that nothing is allocated or freed while rendering is.
pub fn flood(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ring = src.range(1, 24);
    let bs = src.pickc(&[4usize, 1, 2, 16]);
    let mut w = World::<f32>::new(0, 1, bs, 8000, ring);
    let n = src.range(1, 3);
    let mut gi = 0;
    if src.chance(1, 3) {
        gi = w.push_sub(0, 0, 1).1;
    }
    for _ in 0..n {
        let kind = Kind { ins: 0, outs: 1, ar: src.bool(), done: None };
        let c = crate::ops::gen_coef(src);
        w.push_graph(gi, kind, c, None);
    }
    w.commit(gi);
    w.commit(0);
    let mut proc = w.proc.take().unwrap();
    let mut outstanding = 0;
    let mut over = false;
    for round in 0..src.range(2, 8) {
        for _ in 0..src.range(0, ring + 2) {
            let node = src.idx(n);
            let pi = src.idx(2);
            let id = w.ms[gi].nodes[node].id;
            let v = pv(gen_value(src, pi));
            let r = if src.chance(1, 3) {
                let tok = SchedulingToken::new();
                let h = &w.ms[gi].nodes[node];
                let r = h.typed.as_ref().unwrap()(Change { param: Param::Index(pi), value: PV::F(1.0), smooth: src.bool(), token: Some(tok.clone()) });
                if src.chance(1, 3) {
                    w.tokens.push((Some(tok), None, false));
                }
                r
            } else {
                let t = w.mtime(MTime::After(src.below(8000)));
                w.g(gi).set(id, pi, v, t)
            };
            outstanding += r.is_ok() as usize;
        }
        if src.chance(1, 3) {
            for t in std::mem::take(&mut w.tokens) {
                t.0.unwrap().activate_inner();
            }
        }
        over |= outstanding > ring + 1;
        for _ in 0..src.range(1, 4) {
            let ((), a, f) = kv::alloc::rt(|| proc.run_without_inputs());
            check!(a == 0 && f == 0, "allocation on the audio thread", "round {round}: {a} allocations, {f} frees; ring size {ring}, {outstanding} changes sent so far");
        }
        if src.chance(1, 8) && w.ms[gi].alive_nodes().len() > 1 {
            let x = w.ms[gi].alive_nodes()[0];
            if src.bool() {
                w.free(gi, Ref::Node(x))?;
            }
        }
        w.commit(gi);
        w.commit(0);
    }
    ctx.note(|| format!("ring size {ring}, block size {bs}, {outstanding} changes"));
    ctx.class_if(over, "more waiting than the queue holds");
    ctx.nontrivial_if(over);
    w.proc = Some(proc);
    w.finish(src)
}

/// What handles say about their graph: whether it can still be sent to, and what time it is.
pub fn handles(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[4usize, 1, 2, 16, 7]);
    let sr = src.pickc(&[8000u32, 44100, 48000, 1000]);
    let mut w = World::<f32>::new(0, 1, bs, sr, 200);
    w.record = true;
    for _ in 0..src.range(1, 4) {
        let gi = src.idx(w.graphs.len());
        if src.chance(1, 2) && w.graphs.len() < 4 {
            let (n, s) = w.push_sub(gi, 0, 1);
            ctx.note(|| format!("g{gi}: node {n} = subgraph g{s}"));
        }
    }
    for gi in 0..w.graphs.len() {
        for _ in 0..src.range(1, 2) {
            let kind = Kind { ins: 0, outs: 1, ar: false, done: None };
            let c = crate::ops::gen_coef(src);
            let n = w.push_graph(gi, kind, c, None);
            ctx.note(|| format!("g{gi}: node {n} = probe {c:?}"));
        }
    }
    for gi in (0..w.graphs.len()).rev() {
        w.commit(gi);
    }
    w.run_block(src)?;
    // 0: running, 1: being removed, 2: gone
    let mut state = vec![0; w.graphs.len()];
    fn check_all(w: &World<f32>, state: &[i32], src: &mut Src) -> Res {
        for gi in 0..w.ms.len() {
            for (ni, n) in w.ms[gi].nodes.iter().enumerate() {
                let (Some(h), Some(t)) = (&n.anyh, &n.typed) else { continue };
                let now = Seconds::from_samples(w.clock, w.sr as u64);
                check!(h.current_frame_time() == now, "current time of a handle", "node {ni} of graph {gi} at frame {}: {:?}", w.clock, h.current_frame_time());
                match state[gi] {
                    0 => check!(h.can_send(), "can_send of a running graph", "node {ni} of graph {gi}"),
                    1 => (),
                    _ => {
                        check!(!h.can_send(), "can_send of a graph that is gone", "node {ni} of graph {gi}");
                        let pi = src.idx(NP);
                        let c = Change { param: Param::Index(pi), value: gen_value(src, pi), smooth: false, token: None };
                        let r = if src.bool() { t(c) } else { send_handle(h, c) };
                        check!(r.is_err(), "change sent to a graph that is gone accepted", "node {ni} of graph {gi} parameter {pi}");
                    }
                }
            }
        }
        Ok(())
    }
    let mut gone = 0;
    for _ in 0..src.range(2, 10) {
        check_all(&w, &state, src)?;
        match src.weighted(&[4, 3, 2, 2]) {
            0 => w.run_block(src)?,
            1 => {
                let gi = src.idx(w.graphs.len());
                let pick: Vec<usize> = w.ms[gi].alive_nodes().into_iter().filter(|n| w.ms[gi].nodes[*n].sub.is_none()).collect();
                if state[gi] == 0 && !pick.is_empty() {
                    let n = *src.pick(&pick);
                    let pi = src.idx(NP);
                    let value = gen_value(src, pi);
                    ctx.note(|| format!("g{gi}: node {n} param {pi} = {value:?}"));
                    let r = w.ms[gi].nodes[n].typed.as_ref().unwrap()(Change { param: Param::Index(pi), value, smooth: false, token: None });
                    check!(r.is_ok(), "valid parameter change rejected", "{r:?}");
                    w.model_event(gi, n, pi, Some(value), MTime::Asap, None);
                }
            }
            2 => {
                // remove a nested graph
                let subs: Vec<(usize, usize, usize)> = (0..w.graphs.len()).filter(|g| state[*g] == 0 && w.graphs[*g].is_some()).flat_map(|g| w.ms[g].alive_nodes().into_iter().filter_map(move |n| Some((g, n)))).filter_map(|(g, n)| w.ms[g].nodes[n].sub.map(|s| (g, n, s))).collect();
                if subs.is_empty() {
                    continue;
                }
                let (g, n, s) = *src.pick(&subs);
                ctx.note(|| format!("g{g}: free node {n} (g{s})"));
                w.free(g, Ref::Node(n))?;
                for x in 0..w.graphs.len() {
                    if !w.attached(x) && state[x] == 0 {
                        state[x] = 1;
                    }
                }
                let _ = s;
                check_all(&w, &state, src)?;
                if src.bool() {
                    w.settle(src)?;
                    for x in 0..state.len() {
                        // (only the `Graph` it was removed from clears it up)
                        let mut cleared = false;
                        let mut at = x;
                        while let Some((p, n)) = w.ms[at].parent {
                            cleared |= !w.ms[p].alive(n) && w.graphs[p].is_some() && w.attached(p);
                            at = p;
                        }
                        if state[x] == 1 && cleared {
                            state[x] = 2;
                            gone += 1;
                        }
                    }
                }
            }
            _ => {
                // handles outlive the `Graph` they came from
                let gi = src.idx(w.graphs.len());
                if gi > 0 && src.chance(1, 2) {
                    ctx.note(|| format!("drop the handle of graph {gi}"));
                    w.graphs[gi] = None;
                }
            }
        }
    }
    check_all(&w, &state, src)?;
    w.check_events()?;
    w.check_probes()?;
    if src.bool() {
        ctx.note(|| "drop the processor".into());
        ctx.class("processor dropped");
        w.proc = None;
        for x in state.iter_mut() {
            if *x == 0 {
                *x = 2;
                gone += 1;
            }
        }
        check_all(&w, &state, src)?;
    }
    ctx.class_if(w.ms.len() > 1, "nested");
    ctx.nontrivial_if(gone > 0);
    w.finish(src)
}
