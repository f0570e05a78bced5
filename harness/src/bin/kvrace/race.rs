//! One thread renders, others edit the graph and the graphs nested in it, send parameter changes
//! and read the log. The harness itself orders nothing between them (its own flags and counters are
//! relaxed), so that only the library's own synchronisation counts.
use crate::world::{new_proc, new_sub};
use knaster_core::log::ArLogReceiver;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_core_dsp::dsp::buffer::Buffer;
use knaster_core_dsp::buffer::BufferReader;
use knaster_core_dsp::envelopes::EnvAsr;
use knaster_core_dsp::noise::{WhiteNoise, next_randomness_seed};
use knaster_core_dsp::osc::SinWt;
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::graph::{Graph, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::handle::{AnyHandle, HandleTrait};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::{SchedulingToken, Time};
use kv::*;
use std::marker::PhantomData;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::thread::{JoinHandle, spawn};

type F = f32;

/// Owns memory that it writes to whenever anything is done with it.
struct Owned<I, O> {
    state: Vec<F>,
    t: usize,
    done: usize,
    how: u8,
    log: bool,
    _p: PhantomData<fn(I, O)>,
}
impl<I, O> Owned<I, O> {
    fn new(d: &Def) -> Self {
        Self { state: vec![1.; 8], t: 0, done: d.done, how: d.how, log: d.log, _p: PhantomData }
    }
    fn touch(&mut self, v: F) {
        let n = self.state.len();
        self.t += 1;
        for (i, s) in self.state.iter_mut().enumerate() {
            if i % n == self.t % n || v == 0. {
                unsafe { std::ptr::write_volatile(s, v) };
            }
        }
    }
}
impl<I, O> Drop for Owned<I, O> {
    fn drop(&mut self) {
        self.touch(0.);
    }
}
impl<I: Size, O: Size> UGen for Owned<I, O> {
    type Sample = F;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U2;
    fn init(&mut self, _sr: u32, _bs: usize) {
        self.touch(0.);
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<F, I>) -> Frame<F, O> {
        let mut x = 0.;
        for i in 0..I::USIZE {
            x += input[i];
        }
        self.touch(x + 1.);
        if self.done > 0 && self.t % self.done == 0 {
            match self.how {
                0 => flags.mark_done(0),
                1 => flags.mark_remove_self(ctx),
                _ => flags.mark_remove_parent(0),
            }
        }
        if self.log {
            rt_log!(ctx.logger(); "x", x, self.t);
        }
        let mut o = Frame::<F, O>::default();
        for i in 0..O::USIZE {
            o[i] = self.state[i % 8] * 0.5;
        }
        o
    }
    fn param_descriptions() -> NumericArray<&'static str, U2> {
        ["pa", "pb"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U2> {
        [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into()
    }
    fn param_apply(&mut self, _ctx: &mut AudioCtx, _i: usize, v: ParameterValue) {
        if let ParameterValue::Float(f) = v {
            self.touch(f as F);
        }
    }
}

#[derive(Clone, Debug)]
struct Def {
    shape: usize,
    wrap: usize,
    done: usize,
    how: u8,
    log: bool,
    action: Option<Done>,
}
const ACTIONS: [Done; 6] = [Done::FreeSelf, Done::None, Done::FreeParent, Done::FreeParent, Done::FreeSelf, Done::FreeSelf];

fn gen_def(src: &mut Src, sub: bool) -> Def {
    let action = if src.chance(1, 3) { Some(src.pickc(&ACTIONS)) } else { None };
    let action = if sub || !matches!(action, Some(Done::FreeParent)) { action } else { Some(Done::FreeSelf) };
    Def { shape: src.idx(9), wrap: src.idx(5), done: src.pickc(&[0usize, 3, 40, 500]), how: if sub { src.below(3) as u8 } else { src.below(2) as u8 }, log: src.chance(1, 4), action }
}
fn push(g: &mut Graph<F>, d: &Def, buf: &Arc<Buffer<F>>) -> (NodeId, Option<AnyHandle>) {
    fn put<U: UGen<Sample = F> + 'static>(g: &mut Graph<F>, u: U, action: Option<Done>, keep: bool) -> (NodeId, Option<AnyHandle>)
    where
        U::Parameters: std::ops::Add<B1>,
        <U::Parameters as std::ops::Add<B1>>::Output: Size,
    {
        match action {
            Some(a) => (g.edit(|g| g.push_with_done_action(u, a).id()), None),
            None if keep => {
                let h = g.push(u);
                (h.node_id(), Some(h.into_any()))
            }
            None => (g.edit(|g| g.push(u).id()), None),
        }
    }
    fn owned<I: Size, O: Size>(g: &mut Graph<F>, d: &Def) -> (NodeId, Option<AnyHandle>) {
        let u = Owned::<I, O>::new(d);
        match d.wrap {
            0 | 1 => put(g, u, d.action, d.wrap == 0),
            2 => put(g, u.ar_params(), d.action, true),
            3 => put(g, u.ar_params().precise_timing::<8>(), d.action, true),
            _ => put(g, u.smooth_params(), d.action, true),
        }
    }
    match d.shape {
        0 => owned::<U0, U1>(g, d),
        1 => owned::<U1, U1>(g, d),
        2 => owned::<U2, U2>(g, d),
        3 => owned::<U2, U0>(g, d),
        4 => owned::<U0, U2>(g, d),
        5 => put(g, SinWt::<F>::new(200.), d.action, true),
        6 => put(g, BufferReader::<F, U1>::new(buf.clone(), 1., d.log), d.action, true),
        7 => put(g, EnvAsr::<F>::new(0.001, 0.001), d.action, true),
        _ => put(g, WhiteNoise::<F>::new(), d.action, true),
    }
}

#[derive(Debug)]
enum Step {
    Push(Def),
    Connect(usize, u16, u16, usize, u8),
    Param(usize, usize, usize, bool),
    Set(usize, usize, f64, u8),
    Disconnect(usize, u16, bool),
    Free(usize),
    Sub(usize, usize, usize, bool, Vec<Step>),
    Send(usize, usize, u8),
    Activate(usize),
    Commit,
    Look,
    Wait(u64),
}
fn gen_steps(src: &mut Src, depth: usize, n_max: usize) -> Vec<Step> {
    let n = src.range(2, n_max);
    let mut v = vec![];
    for i in 0..n {
        let some = |x: u32| if i < 3 { 0 } else { x };
        let w: [u32; 12] = [if i < 4 { 20 } else { 8 }, some(16), some(4), some(4), some(3), some(5), if depth < 2 { 3 } else { 0 }, some(3), some(2), 3, 1, 6];
        let m = n_max;
        v.push(match src.weighted(&w) {
            0 => Step::Push(gen_def(src, depth > 0)),
            1 => Step::Connect(src.idx(m), src.below(3) as u16, src.below(3) as u16, src.idx(m), src.weighted(&[4, 2, 2, 1]) as u8),
            2 => Step::Param(src.idx(m), src.idx(m), src.idx(2), src.bool()),
            3 => Step::Set(src.idx(m), src.idx(2), src.below(100) as f64, src.below(4) as u8),
            4 => Step::Disconnect(src.idx(m), src.below(2) as u16, src.bool()),
            5 => Step::Free(src.idx(m)),
            6 => Step::Sub(src.idx(3), src.range(1, 2), src.pickc(&[16usize, 2, 64]), src.bool(), gen_steps(src, depth + 1, n_max / 2 + 2)),
            7 => Step::Send(src.idx(m), src.range(1, 60), src.below(4) as u8),
            8 => Step::Activate(src.idx(3)),
            9 => Step::Commit,
            10 => Step::Look,
            _ => Step::Wait(src.range(1, 8) as u64),
        });
    }
    v
}
fn has(v: &[Step], f: &dyn Fn(&Step) -> bool) -> usize {
    v.iter().map(|s| f(s) as usize + if let Step::Sub(.., x) = s { has(x, f) } else { 0 }).sum()
}

#[derive(Clone)]
struct Shared {
    stop: Arc<AtomicBool>,
    blocks: Arc<AtomicU64>,
    tokens: Vec<SchedulingToken>,
    buf: Arc<Buffer<F>>,
}
impl Shared {
    /// Lets the audio thread run some blocks, without ordering anything.
    fn wait(&self, n: u64) {
        let until = self.blocks.load(Relaxed) + n;
        for i in 0..300 {
            if self.blocks.load(Relaxed) >= until {
                break;
            }
            if i < 100 { std::hint::spin_loop() } else { std::thread::sleep(std::time::Duration::from_micros(20)) }
        }
    }
}
/// Runs `steps` on `g`, and returns the threads started for that.
fn exec(g: &mut Graph<F>, steps: Vec<Step>, sh: &Shared) -> Vec<JoinHandle<()>> {
    let mut ids: Vec<NodeId> = vec![];
    let mut handles: Vec<AnyHandle> = vec![];
    let mut threads = vec![];
    for s in steps {
        // an index past the nodes means the graph itself
        let old = ids.clone();
        let id = |i: usize| -> NodeOrGraph { if old.is_empty() || i % (old.len() + 1) == old.len() { NodeOrGraph::Graph } else { old[i % (old.len() + 1)].into() } };
        let node = |i: usize| -> Option<NodeId> { if old.is_empty() { None } else { Some(old[i % old.len()]) } };
        // what is refused or panics is for other properties
        let _ = guard(|| match s {
            Step::Push(d) => {
                let (id, h) = push(g, &d, &sh.buf);
                ids.push(id);
                handles.extend(h);
            }
            Step::Connect(a, so, si, b, m) => {
                let (x, y) = (id(a), id(b));
                let _ = match m {
                    0 => g.connect2(x, so, si, y),
                    1 => g.connect2_replace(x, so, si, y),
                    2 => g.connect2_feedback(x, so, si, y),
                    _ => g.connect2_feedback_replace(x, so, si, y),
                };
            }
            Step::Param(a, b, p, r) => {
                if let (Some(x), Some(y)) = (node(a), node(b)) {
                    let _ = if r { g.connect_replace_to_parameter(x, 0, p, y) } else { g.connect_to_parameter(x, 0, p, y) };
                }
            }
            Step::Set(a, p, v, t) => {
                if let Some(x) = node(a) {
                    let t = match t {
                        0 | 1 => Time::asap(),
                        2 => Time::after(Seconds::from_samples(v as u64, 8000)),
                        _ => Time::at(Seconds::from_samples(v as u64 * 4, 8000)),
                    };
                    let _ = g.set(x, p, v, t);
                }
            }
            Step::Disconnect(a, ch, out) => {
                if let Some(x) = node(a) {
                    let _ = if out { g.disconnect_output_from_source(x, ch) } else { g.disconnect_input_to_sink(ch, x) };
                }
            }
            Step::Free(a) => {
                if let Some(x) = node(a) {
                    let _ = g.edit(|g| g.free_node(x));
                }
            }
            Step::Sub(i, o, ring, here, steps) => {
                let op = GraphOptions { ring_buffer_size: ring, ..Default::default() };
                let (id, mut sub) = g.edit(|g| new_sub(&g, i, o, op, |_| ()));
                ids.push(id);
                if here {
                    threads.extend(exec(&mut sub, steps, sh));
                } else {
                    let sh = sh.clone();
                    threads.push(spawn(move || {
                        let t = exec(&mut sub, steps, &sh);
                        drop(sub);
                        t.into_iter().for_each(|t| drop(t.join()));
                    }));
                }
            }
            Step::Send(a, n, how) => {
                if !handles.is_empty() {
                    let h = handles[a % handles.len()].clone();
                    let sh = sh.clone();
                    threads.push(spawn(move || {
                        for i in 0..n {
                            let p = Param::Index(i % 2);
                            let v = ParameterValue::Float(i as f64);
                            let _ = guard(|| {
                                let _ = match how {
                                    0 => h.set((p, v)),
                                    1 => h.set((p, v, ParameterSmoothing::Linear(0.01))),
                                    2 => h.set((p, v, sh.tokens[i % sh.tokens.len()].clone())),
                                    _ => h.set((p, v, ParameterSmoothing::Linear(0.01), sh.tokens[i % sh.tokens.len()].clone())),
                                };
                                if i % 8 == 0 {
                                    let _ = (h.current_frame_time(), h.can_send());
                                }
                            });
                        }
                    }));
                }
            }
            Step::Activate(i) => {
                let sh = sh.clone();
                threads.push(spawn(move || sh.tokens[i % sh.tokens.len()].clone().activate_inner()));
            }
            Step::Commit => g.edit(|_| ()),
            Step::Look => {
                let g = &*g;
                std::thread::scope(|s| {
                    for _ in 0..2 {
                        s.spawn(|| {
                            let _ = guard(|| {
                                std::hint::black_box((g.inspection().nodes.len(), g.ctx().sample_rate(), g.shared_frame_clock().get()));
                                for i in &ids {
                                    std::hint::black_box(g.node_data(*i).is_some());
                                }
                            });
                        });
                    }
                });
            }
            Step::Wait(n) => sh.wait(n),
        });
    }
    threads
}
fn block(p: &mut AudioProcessor<F>, ins: usize, bs: usize, t: u64) {
    let chans: Vec<Vec<F>> = (0..ins).map(|c| vec![(t + c as u64) as F; bs]).collect();
    let refs: Vec<&[F]> = chans.iter().map(|c| &c[..]).collect();
    p.run(&refs);
    let ob = p.output_block();
    std::hint::black_box(Block::read(&*ob, 0, bs - 1));
}

pub fn histories(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[4usize, 1, 16, 64]);
    let (ins, outs) = src.pickc(&[(0, 1), (0, 2), (1, 1), (2, 2)]);
    let ring = src.pickc(&[100usize, 4, 1, 1000]);
    let o = AudioProcessorOptions { block_size: bs, sample_rate: 8000, ring_buffer_size: ring, log_channel_capacity: 40 };
    let steps = gen_steps(src, 0, 24);
    let how_to_end = src.below(4);
    let late = src.below(20);
    ctx.note(|| format!("block size {bs}, {ins} inputs, {outs} outputs, ring {ring}; end {how_to_end} {late}"));
    for s in &steps {
        ctx.note(|| format!("{s:?}"));
    }
    let frees = has(&steps, &|s| matches!(s, Step::Free(_)));
    let subs = has(&steps, &|s| matches!(s, Step::Sub(_, _, _, false, _)));
    let sends = has(&steps, &|s| matches!(s, Step::Send(..)));
    let dones = has(&steps, &|s| matches!(s, Step::Push(d) if d.done > 0 && d.action.is_some()));
    let links = has(&steps, &|s| matches!(s, Step::Connect(..)));
    ctx.class_if(frees > 0, "frees");
    ctx.class_if(subs > 0, "nested graph edited on its own thread");
    ctx.class_if(sends > 0, "senders");
    ctx.class_if(dones > 0, "done");
    ctx.class(["joined, then dropped", "graph dropped while audio runs", "audio ends first", "graph moved to another thread"][how_to_end as usize]);
    let (mut g, mut proc, receiver) = {
        let (g, p, r) = with_log(ins, outs, o);
        (g, p, r)
    };
    let sh = Shared {
        stop: Arc::default(),
        blocks: Arc::default(),
        tokens: (0..3).map(|_| SchedulingToken::new()).collect(),
        buf: Arc::new(Buffer::from_vec_interleaved(vec![0.5; 600], 1, 8000.)),
    };
    let audio = {
        let (stop, blocks) = (sh.stop.clone(), sh.blocks.clone());
        spawn(move || {
            let mut n = 0;
            while !stop.load(Relaxed) && !(how_to_end == 2 && n > 20 + late) {
                if guard(|| block(&mut proc, ins, bs, n)).is_err() {
                    break;
                }
                n += 1;
                blocks.store(n, Relaxed);
            }
            drop(proc);
            n
        })
    };
    let logs = {
        let stop = sh.stop.clone();
        let mut r = receiver;
        spawn(move || {
            let mut n = 0;
            loop {
                let last = stop.load(Relaxed);
                r.recv(|m| n += std::hint::black_box(m.len()));
                if last {
                    return n;
                }
                std::thread::sleep(std::time::Duration::from_micros(50));
            }
        })
    };
    let clock = {
        let (stop, c) = (sh.stop.clone(), g.shared_frame_clock());
        spawn(move || {
            let mut last = Seconds::from_samples(0, 8000);
            let mut n = 0;
            loop {
                let stop = stop.load(Relaxed);
                for _ in 0..50 {
                    let now = c.get();
                    let k = now.to_samples(8000);
                    if now < last || k % bs as u64 != 0 || now != Seconds::from_samples(k, 8000) {
                        return Err((last, now));
                    }
                    n += (now > last) as usize;
                    last = now;
                }
                if stop {
                    return Ok(n);
                }
                std::thread::yield_now();
            }
        })
    };
    sh.wait(2);
    let (mut threads, g) = if how_to_end == 3 {
        let sh = sh.clone();
        let t = spawn(move || {
            let t = exec(&mut g, steps, &sh);
            (t, g)
        });
        match t.join() {
            Ok(x) => x,
            Err(_) => (vec![], with_log(0, 1, AudioProcessorOptions::default()).0),
        }
    } else {
        (exec(&mut g, steps, &sh), g)
    };
    let mut g = Some(g);
    sh.wait(2);
    if how_to_end == 1 {
        g = None;
        sh.wait(late);
    }
    threads.drain(..).for_each(|t| drop(t.join()));
    if let Some(g) = &mut g {
        g.edit(|_| ());
        sh.wait(2);
        g.edit(|_| ());
    }
    sh.stop.store(true, Relaxed);
    let n = audio.join().unwrap_or(0);
    let logged = logs.join().unwrap_or(0);
    drop(g);
    match clock.join() {
        Ok(Ok(ticks)) => ctx.class_if(ticks >= 5, "clock read at 5+ times"),
        Ok(Err((a, b))) => bail!("a time at which no block ended", "read {a:?}, then {b:?}, with blocks of {bs} frames at 8000 Hz"),
        Err(_) => bail!("panic while reading the clock", "see stderr"),
    }
    ctx.class_if(logged > 0, "messages logged");
    ctx.class_if(n >= 20, "20+ blocks meanwhile");
    ctx.nontrivial_if(n >= 5 && links > 0 && frees + subs + sends + dones > 0);
    Ok(())
}
fn with_log(ins: usize, outs: usize, o: AudioProcessorOptions) -> (Graph<F>, AudioProcessor<F>, ArLogReceiver<U1>) {
    match (ins, outs) {
        (0, 1) => AudioProcessor::new::<U0, U1>(o),
        (0, 2) => AudioProcessor::new::<U0, U2>(o),
        (1, 1) => AudioProcessor::new::<U1, U1>(o),
        _ => AudioProcessor::new::<U2, U2>(o),
    }
}

/// UGens made and rendered on several threads at once: they share tables, seeds and buffers.
pub fn side_by_side(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(2, 4);
    let bs = src.pickc(&[16usize, 64]);
    let buf = Arc::new(Buffer::from_vec_interleaved(vec![0.5; 600], 1, 8000.));
    let mut threads = vec![];
    for i in 0..n {
        let defs: Vec<Def> = (0..src.range(1, 5)).map(|_| Def { shape: 5 + src.idx(4), ..gen_def(src, false) }).collect();
        ctx.note(|| format!("thread {i}: {defs:?}"));
        let buf = buf.clone();
        threads.push(spawn(move || {
            let _ = guard(|| {
                let o = AudioProcessorOptions { block_size: bs, sample_rate: 8000, ..Default::default() };
                let (mut g, mut p) = new_proc::<F>(0, 2, o);
                for d in &defs {
                    let (id, _) = push(&mut g, d, &buf);
                    let _ = g.connect2(id, 0, 0, NodeOrGraph::Graph);
                }
                g.edit(|_| ());
                for t in 0..5 {
                    block(&mut p, 0, bs, t);
                }
            });
            (0..10).map(|_| next_randomness_seed()).collect::<Vec<u64>>()
        }));
    }
    drop(buf);
    let mut seeds: Vec<u64> = threads.into_iter().filter_map(|t| t.join().ok()).flatten().collect();
    seeds.sort();
    let l = seeds.len();
    seeds.dedup();
    check!(seeds.len() == l, "one seed given out twice", "{} of {l} seeds differ", seeds.len());
    ctx.nontrivial_if(true);
    Ok(())
}
