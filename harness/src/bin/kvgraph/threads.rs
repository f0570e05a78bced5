//! Real threads: one renders, one edits, some send parameter changes. What is checked holds for
//! every interleaving.
use crate::events::{Change, pv};
use crate::ops::*;
use crate::probe::*;
use crate::world::*;
use knaster_core::*;
use kv::*;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};

/// What the declared graph `0` puts out now, if every node is a constant function of its inputs.
fn version<F: Float>(w: &mut World<F>) -> Vec<u64> {
    let mut m = GModel { n_in: w.ms[0].n_in, n_out: w.ms[0].n_out, decl: w.ms[0].decl.clone(), live: w.ms[0].decl.clone(), ..Default::default() };
    for n in &w.ms[0].nodes {
        let mut k = w.mnode_like(n);
        k.t = 0;
        m.nodes.push(k);
    }
    let mut max = 0;
    let mut ms = vec![m];
    let o = eval(&mut ms, 0, &[], 1, 8000, 0, &[], &mut max);
    if max >= 1 << 24 {
        w.rounded = true;
    }
    o.iter().map(|c| c[0]).collect()
}

pub fn threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[4usize, 1, 16, 32]);
    let outs = src.pickc(&[1usize, 2, 4]);
    let mut w = World::<f32>::new(0, outs, bs, 8000, 200);
    let p = Profile { max_ops: 10, ..Default::default() };
    let consts = |src: &mut Src| Coef { base: src.below(M), step: 0 };
    let mut proc = w.proc.take().unwrap();
    let stop = Arc::new(AtomicBool::new(false));
    let started = Arc::new(AtomicBool::new(false));
    // a node that only counts the changes it gets
    let counter = w.push_graph(0, Kind { ins: 0, outs: 0, ar: false, done: None }, Coef::default(), None);
    w.ms[0].nodes[counter].log.record.store(true, SeqCst);
    w.commit(0);
    let mut versions = vec![vec![0; outs], version(&mut w)];
    let audio = {
        let (stop, started) = (stop.clone(), started.clone());
        std::thread::spawn(move || {
            let mut seen: Vec<Vec<f32>> = vec![];
            let mut bad = None;
            let mut last = false;
            let (mut al, mut fr) = (0, 0);
            let mut blocks = 0u64;
            while !last {
                // one more block after the end
                last = stop.load(SeqCst);
                let ((), a, f) = kv::alloc::rt(|| proc.run_without_inputs());
                al += a;
                fr += f;
                blocks += 1;
                let ob = proc.output_block();
                let o: Vec<f32> = (0..outs).map(|c| Block::read(&*ob, c, 0)).collect();
                for c in 0..outs {
                    for f in 1..bs {
                        let v = Block::read(&*ob, c, f);
                        if v != o[c] && bad.is_none() {
                            bad = Some(format!("channel {c}: {} at frame 0, {v} at frame {f} of one block", o[c]));
                        }
                    }
                }
                if seen.last() != Some(&o) {
                    seen.push(o);
                }
                started.store(true, SeqCst);
            }
            (proc, seen, bad, al, fr, blocks)
        })
    };
    let senders = src.range(0, 3);
    let per = src.range(1, 40);
    let mut hs = vec![];
    for s in 0..senders {
        let h = w.ms[0].nodes[counter].anyh.clone().unwrap();
        hs.push(std::thread::spawn(move || {
            let mut sent = vec![];
            for i in 0..per {
                let v = PV::I(s * 1000 + i);
                if crate::events::send_handle(&h, Change { param: Param::Index(3), value: v, smooth: false, token: None }).is_ok() {
                    sent.push(v);
                }
                if i % 7 == s {
                    std::thread::yield_now();
                }
            }
            let _ = pv;
            sent
        }));
    }
    while !started.load(SeqCst) {
        std::thread::yield_now();
    }
    // edits
    let n = src.range(1, 30);
    for _ in 0..n {
        match src.below(6) {
            0 | 1 => {
                let kind = gen_kind(src, &p);
                let c = consts(src);
                let x = w.push_graph(0, kind, c, None);
                ctx.note(|| format!("node {x} = {kind:?} {c:?}"));
            }
            2 => {
                let c: Vec<usize> = w.ms[0].alive_nodes().into_iter().filter(|n| *n != counter).collect();
                if !c.is_empty() && src.chance(1, 2) {
                    let x = *src.pick(&c);
                    ctx.note(|| format!("free {x}"));
                    w.free(0, Ref::Node(x))?;
                    versions.push(version(&mut w));
                }
            }
            _ => {
                op_connect(&mut w, 0, src, ctx, &p)?;
                if src.bool() && w.ms[0].alive_nodes().len() > 1 {
                    let a = Ref::Node(*src.pick(&w.ms[0].alive_nodes()));
                    if let Ref::Node(x) = a {
                        if x != counter && w.ms[0].nodes[x].kind.outs > 0 {
                            let si = src.idx(outs) as u16;
                            let m = if src.bool() { Mode::Replace } else { Mode::Add };
                            ctx.note(|| format!("connect node {x}:0 -> output {si} {m:?}"));
                            w.connect(0, a, 0, si, Ref::Graph, m)?;
                        }
                    }
                }
            }
        }
        if src.chance(2, 3) {
            w.commit(0);
            versions.push(version(&mut w));
            ctx.note(|| format!("commit: {:?}", versions.last()));
        }
        if src.chance(1, 4) {
            std::thread::yield_now();
        }
    }
    w.commit(0);
    versions.push(version(&mut w));
    let sent: Vec<Vec<PV>> = hs.into_iter().map(|h| h.join().expect("sender")).collect();
    stop.store(true, SeqCst);
    let (proc, seen, bad, al, fr, _) = audio.join().map_err(|_| Failure { sig: "panic on the audio thread".into(), msg: "see stderr".into() })?;
    w.proc = Some(proc);
    if let Some(b) = bad {
        bail!("a block mixes two states of the graph", "{b}");
    }
    check!(al == 0 && fr == 0, "allocation on the audio thread", "{al} allocations, {fr} frees");
    if w.rounded {
        return Ok(());
    }
    // every rendered state is one of the committed states, in order
    let mut k = 0;
    for o in &seen {
        let o: Vec<u64> = o.iter().map(|v| *v as u64).collect();
        match versions[k..].iter().position(|v| *v == o) {
            Some(d) => k += d,
            None => bail!("rendered a state that was never committed", "block {o:?}, committed states from here on {:?}; rendered {seen:?}", &versions[k..]),
        }
    }
    check!(versions[k] == *versions.last().unwrap(), "the last commit never took effect", "last committed {:?}, last rendered {:?}", versions.last(), seen.last());
    let got = w.ms[0].nodes[counter].log.events.lock().unwrap().clone();
    for (s, sent) in sent.iter().enumerate() {
        let mine: Vec<PV> = got.iter().map(|e| e.value).filter(|v| matches!(v, PV::I(i) if i / 1000 == s)).collect();
        check!(mine == *sent, "parameter changes of one sender lost or reordered", "sent {sent:?}, applied {mine:?}");
    }
    ctx.class_if(seen.len() >= 3, "3+ states rendered");
    ctx.class_if(senders >= 2, "several senders");
    ctx.nontrivial_if(seen.len() >= 3);
    w.finish(src)
}

/// More commits between two blocks than the ring has room for.
pub fn burst(src: &mut Src, ctx: &mut Ctx) -> Res {
    let ring = src.range(1, 4);
    let outs = src.pickc(&[1usize, 2]);
    let bs = src.pickc(&[4usize, 1, 16]);
    let mut w = World::<f32>::new(0, outs, bs, 8000, ring);
    let p = Profile { max_ops: 10, ..Default::default() };
    ctx.note(|| format!("ring size {ring}"));
    let mut proc = w.proc.take().unwrap();
    let mut versions = vec![vec![0; outs]];
    let mut overfull = false;
    for round in 0..src.range(1, 5) {
        let n = src.range(1, 10);
        let mut commits = 0;
        for _ in 0..n {
            match src.below(4) {
                0 => {
                    let kind = gen_kind(src, &p);
                    let c = Coef { base: src.below(M), step: 0 };
                    let x = w.push_graph(0, kind, c, None);
                    ctx.note(|| format!("node {x} = {kind:?} {c:?}"));
                }
                1 => {
                    let c = w.ms[0].alive_nodes();
                    if !c.is_empty() {
                        let x = *src.pick(&c);
                        ctx.note(|| format!("free {x}"));
                        w.free(0, Ref::Node(x))?;
                        versions.push(version(&mut w));
                        commits += 1;
                    }
                }
                _ => {
                    let c: Vec<usize> = w.ms[0].alive_nodes().into_iter().filter(|x| w.ms[0].nodes[*x].kind.outs > 0).collect();
                    if !c.is_empty() {
                        let x = *src.pick(&c);
                        let si = src.idx(outs) as u16;
                        let m = if src.bool() { Mode::Replace } else { Mode::Add };
                        ctx.note(|| format!("connect node {x}:0 -> output {si} {m:?}"));
                        w.connect(0, Ref::Node(x), 0, si, Ref::Graph, m)?;
                    }
                    op_connect(&mut w, 0, src, ctx, &p)?;
                }
            }
            if src.chance(3, 4) {
                w.commit(0);
                versions.push(version(&mut w));
                commits += 1;
                ctx.note(|| format!("commit: {:?}", versions.last()));
            }
        }
        overfull |= commits > ring;
        for last in [false, true] {
            if last {
                w.commit(0);
                versions.push(version(&mut w));
            }
            let ((), a, f) = kv::alloc::rt(|| proc.run_without_inputs());
            check!(a == 0 && f == 0, "allocation on the audio thread", "{a} allocations, {f} frees");
            let ob = proc.output_block();
            let o: Vec<u64> = (0..outs).map(|c| Block::read(&*ob, c, bs - 1) as u64).collect();
            if w.rounded {
                continue;
            }
            if last {
                check!(o == *versions.last().unwrap(), "the last commit never took effect", "round {round}: {o:?}, committed {:?}", versions.last());
            } else {
                check!(versions.contains(&o), "rendered a state that was never committed", "round {round}: {o:?}, committed {versions:?}");
            }
            if last {
                versions = vec![o];
            }
        }
    }
    ctx.class_if(overfull, "more commits than room");
    ctx.nontrivial_if(overfull && versions.len() > 0);
    w.proc = Some(proc);
    w.finish(src)
}
