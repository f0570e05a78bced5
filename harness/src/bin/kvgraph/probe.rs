//! The UGen the graph checks are built on: exact integer arithmetic (below 65521, so that sums
//! stay exact in f32), a frame counter of its own, and a shared record of everything done to it.
use kv::alloc::not_rt;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::*;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

pub const M: u64 = 65521;
pub const NP: usize = 5;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum PV {
    F(f64),
    T,
    I(usize),
    B(bool),
    S,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Ev {
    /// frame clock the UGen saw
    pub clock: u64,
    /// the UGen's own frame count
    pub frame: u64,
    pub param: usize,
    pub value: PV,
    /// the delay within the block announced for it
    pub off: u16,
}

#[derive(Default)]
pub struct ProbeLog {
    pub inits: AtomicU32,
    pub sr: AtomicU32,
    pub bs: AtomicU64,
    pub frames: AtomicU64,
    pub first_clock: AtomicU64,
    pub next_clock: AtomicU64,
    /// processed before init, after drop, at an unexpected clock, or for a wrong number of frames
    pub wrong: AtomicU32,
    pub dropped: AtomicU32,
    pub dropped_rt: AtomicU32,
    pub record: AtomicBool,
    pub graph: AtomicU64,
    pub events: Mutex<Vec<Ev>>,
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Coef {
    pub base: u64,
    pub step: u64,
}

thread_local! {
    /// Called before and after each probe processes a block: (function, world, graph of the probe)
    pub static MID: std::cell::Cell<Option<(fn(*mut (), usize), *mut ())>> = const { std::cell::Cell::new(None) };
}
fn mid(l: &ProbeLog) {
    if let Some((f, p)) = MID.get() {
        let g = l.graph.load(SeqCst) as usize;
        not_rt(|| f(p, g));
    }
}

/// What one frame of a probe computes; the reference evaluator calls the same arithmetic on its
/// own state.
pub fn probe_out(c: Coef, o: usize, t: u64, ins: impl Iterator<Item = u64>, params: &[i64]) -> u64 {
    let mut v = c.base + (o as u64 + 1) * ((c.step * (t % M)) % M);
    for (i, x) in ins.enumerate() {
        v += (2 + i as u64 + o as u64) * (x % M);
    }
    for (p, x) in params.iter().enumerate() {
        v += (5 + p as u64) * (x.rem_euclid(M as i64) as u64);
    }
    v % M
}
/// A sample as an exact integer; anything that is not one becomes some other value.
pub fn to_int<F: Float>(v: F) -> u64 {
    let x = v.to_f64();
    if x >= 0.0 && x.fract() == 0.0 && x < 1e15 {
        x as u64
    } else {
        (x.to_bits() >> 17) % M
    }
}

/// When a probe raises which flag.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct DoneAt {
    pub at: u64,
    /// again every so many frames; 0 = once
    pub every: u64,
    /// 0: marks itself done, 1: asks to be removed, 2: asks for its graph to be removed
    pub how: u8,
    /// added to the frame reported (2 only)
    pub off: u32,
}
impl DoneAt {
    pub fn hit(d: Option<DoneAt>, t: u64) -> Option<DoneAt> {
        let d = d?;
        (t == d.at || (d.every > 0 && t > d.at && (t - d.at) % d.every == 0)).then_some(d)
    }
}

/// `done_at`: local frame at which the probe marks itself done.
pub struct Probe<F, I, O> {
    pub coef: Coef,
    pub t: u64,
    pub params: [i64; NP],
    pub pend: [u16; NP],
    pub log: Arc<ProbeLog>,
    pub done_at: Option<DoneAt>,
    pub _p: PhantomData<fn(F, I, O)>,
}
impl<F, I, O> Probe<F, I, O> {
    pub fn new(coef: Coef, log: Arc<ProbeLog>, done_at: Option<DoneAt>) -> Self {
        log.first_clock.store(u64::MAX, SeqCst);
        Self { coef, t: 0, params: [0; NP], pend: [0; NP], log, done_at, _p: PhantomData }
    }
}
impl<F, I, O> Drop for Probe<F, I, O> {
    fn drop(&mut self) {
        self.log.dropped.fetch_add(1, SeqCst);
        if kv::alloc::is_rt() {
            self.log.dropped_rt.fetch_add(1, SeqCst);
        }
    }
}
impl<F: Float, I: Size, O: Size> UGen for Probe<F, I, O> {
    type Sample = F;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U5;

    fn init(&mut self, sample_rate: u32, block_size: usize) {
        self.log.inits.fetch_add(1, SeqCst);
        self.log.sr.store(sample_rate, SeqCst);
        self.log.bs.store(block_size as u64, SeqCst);
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<F, I>) -> Frame<F, O> {
        if self.log.first_clock.load(SeqCst) == u64::MAX {
            self.log.first_clock.store(ctx.frame_clock(), SeqCst);
        }
        let mut out = Frame::<F, O>::default();
        for o in 0..O::USIZE {
            out[o] = F::new(probe_out(self.coef, o, self.t, (0..I::USIZE).map(|i| to_int(input[i])), &self.params) as f64);
        }
        if let Some(d) = DoneAt::hit(self.done_at, self.t) {
            let f = (self.t % self.log.bs.load(SeqCst).max(1)) as u32;
            match d.how {
                0 => flags.mark_done(f),
                1 => flags.mark_remove_self(ctx),
                _ => flags.mark_remove_parent(f + d.off),
            }
        }
        self.t += 1;
        self.log.frames.fetch_add(1, SeqCst);
        out
    }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where
        InBlock: BlockRead<Sample = F> + ?Sized,
        OutBlock: Block<Sample = F> + ?Sized,
    {
        mid(&self.log);
        let l = &self.log;
        let clock = ctx.frame_clock();
        if l.inits.load(SeqCst) != 1 || l.dropped.load(SeqCst) != 0 || ctx.block_size() as u64 != l.bs.load(SeqCst) || ctx.sample_rate() != l.sr.load(SeqCst) {
            l.wrong.fetch_add(1, SeqCst);
        }
        if l.first_clock.load(SeqCst) == u64::MAX {
            l.first_clock.store(clock, SeqCst);
        } else if l.next_clock.load(SeqCst) != clock {
            l.wrong.fetch_add(1, SeqCst);
        }
        l.next_clock.store(clock + ctx.frames_to_process() as u64, SeqCst);
        if input.channels() != I::USIZE || output.channels() != O::USIZE || (O::USIZE > 0 && output.block_size() < ctx.frames_to_process()) {
            l.wrong.fetch_add(1, SeqCst);
        }
        for frame in 0..ctx.frames_to_process() {
            let mut f = Frame::<F, I>::default();
            for i in 0..I::USIZE {
                f[i] = input.read(i, frame);
            }
            let r = self.process(ctx, flags, f);
            for o in 0..O::USIZE {
                output.write(r[o], o, frame);
            }
        }
        mid(&self.log);
    }
    fn param_descriptions() -> NumericArray<&'static str, U5> {
        ["pa", "pb", "trig", "int", "flag"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U5> {
        [
            ParameterHint::infinite_float(),
            ParameterHint::infinite_float(),
            ParameterHint::Trigger,
            ParameterHint::new_integer((PInteger(0), PInteger(1000)), |h| h),
            ParameterHint::boolean(),
        ]
        .into()
    }
    fn param_apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        let (pv, n) = match value {
            ParameterValue::Float(f) => (PV::F(f), f as i64),
            ParameterValue::Trigger => (PV::T, self.params.get(index).copied().unwrap_or(0) + 1),
            ParameterValue::Integer(i) => (PV::I(i.0), i.0 as i64),
            ParameterValue::Bool(b) => (PV::B(b), b as i64),
            ParameterValue::Smoothing(..) => (PV::S, -1),
        };
        let off = self.pend.get_mut(index).map_or(0, std::mem::take);
        if self.log.record.load(SeqCst) {
            let e = Ev { clock: ctx.frame_clock(), frame: self.t, param: index, value: pv, off };
            not_rt(|| self.log.events.lock().unwrap().push(e));
        }
        if index >= NP {
            self.log.wrong.fetch_add(1, SeqCst);
        } else if pv != PV::S {
            self.params[index] = n;
        }
    }
    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
        if index >= NP || delay as usize >= ctx.block_size() {
            self.log.wrong.fetch_add(1, SeqCst);
        } else {
            self.pend[index] = delay;
        }
    }
}
