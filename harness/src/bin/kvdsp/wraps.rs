//! P06 to P09: the wrappers around a UGen, checked around a recording UGen.
use crate::dynu::*;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_core_dsp::wrappers_core::*;
use knaster_primitives::{Block, BlockRead};
use kv::*;
use std::cell::RefCell;
use std::marker::PhantomData;
use std::rc::Rc;

/// What the recording UGen saw.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ev {
    Init(u32, usize),
    /// frames processed before it, parameter, value
    Apply(u64, usize, Pv),
    /// frame clock, offset in block, frames
    Block(u64, usize, usize),
    Ar(usize, bool),
    Delay(usize, u16),
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pv {
    F(f64),
    T,
    N(usize),
    B(bool),
    Other,
}
pub fn pv(v: ParameterValue) -> Pv {
    match v {
        ParameterValue::Float(f) => Pv::F(f as f64),
        ParameterValue::Trigger => Pv::T,
        ParameterValue::Integer(i) => Pv::N(usize::from(i)),
        ParameterValue::Bool(b) => Pv::B(b),
        _ => Pv::Other,
    }
}
pub type Log = Rc<RefCell<Vec<Ev>>>;
pub const PN: usize = 5;
pub const A: usize = 0;
pub const B: usize = 1;
pub const TRIG: usize = 2;
pub const INT: usize = 3;
pub const BOO: usize = 4;

/// Outputs: `a`, `b + in 0`, `triggers + 64 * n + 1024 * bool + in 1`, all exact.
pub struct Rec<F> {
    log: Log,
    frames: u64,
    p: [f64; 2],
    trig: usize,
    n: usize,
    boo: bool,
    done_at: Option<u64>,
    _p: PhantomData<F>,
}
impl<F> Rec<F> {
    pub fn new(log: &Log) -> Self {
        Rec {
            log: log.clone(),
            frames: 0,
            p: [0.; 2],
            trig: 0,
            n: 0,
            boo: false,
            done_at: None,
            _p: PhantomData,
        }
    }
    pub fn done_at(mut self, d: Option<u64>) -> Self {
        self.done_at = d;
        self
    }
}
pub fn rec_out(a: f64, b: f64, trig: usize, n: usize, boo: bool, x: [f64; 2]) -> [f64; 3] {
    [
        a,
        b + x[0],
        trig as f64 + 64. * n as f64 + 1024. * boo as u8 as f64 + x[1],
    ]
}
impl<F: Float> Rec<F> {
    fn one(&mut self, x: [F; 2]) -> [F; 3] {
        self.frames += 1;
        rec_out(
            self.p[0],
            self.p[1],
            self.trig,
            self.n,
            self.boo,
            [x[0].to_f64(), x[1].to_f64()],
        )
        .map(F::new)
    }
}
impl<F: Float> UGen for Rec<F> {
    type Sample = F;
    type Inputs = U2;
    type Outputs = U3;
    type Parameters = U5;
    fn init(&mut self, sr: u32, bs: usize) {
        self.log.borrow_mut().push(Ev::Init(sr, bs));
    }
    fn process(
        &mut self,
        ctx: &mut AudioCtx,
        flags: &mut UGenFlags,
        x: Frame<F, U2>,
    ) -> Frame<F, U3> {
        let _ = ctx;
        if self.done_at == Some(self.frames) {
            flags.mark_done(0);
        }
        self.one([x[0], x[1]]).into()
    }
    fn process_block<I, O>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, x: &I, y: &mut O)
    where
        I: BlockRead<Sample = F> + ?Sized,
        O: Block<Sample = F> + ?Sized,
    {
        self.log.borrow_mut().push(Ev::Block(
            ctx.frame_clock(),
            ctx.block_start_offset(),
            ctx.frames_to_process(),
        ));
        for i in 0..ctx.frames_to_process() {
            if self.done_at == Some(self.frames) {
                flags.mark_done(i as u32);
            }
            let o = self.one([x.read(0, i), x.read(1, i)]);
            for (c, v) in o.into_iter().enumerate() {
                y.write(v, c, i);
            }
        }
    }
    fn param_descriptions() -> NumericArray<&'static str, U5> {
        ["a", "b", "trig", "int", "boo"].into()
    }
    fn param_hints() -> NumericArray<ParameterHint, U5> {
        [
            ParameterHint::infinite_float(),
            ParameterHint::new_float(|h| h.minmax(-7., 9.)),
            ParameterHint::Trigger,
            ParameterHint::new_integer((PInteger(0), PInteger(63)), |h| h),
            ParameterHint::Bool,
        ]
        .into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, index: usize, value: ParameterValue) {
        self.log
            .borrow_mut()
            .push(Ev::Apply(self.frames, index, pv(value)));
        match (index, value) {
            (A | B, ParameterValue::Float(f)) => self.p[index] = f as f64,
            (TRIG, ParameterValue::Trigger) => self.trig += 1,
            (INT, ParameterValue::Integer(i)) => self.n = usize::from(i),
            (BOO, ParameterValue::Bool(b)) => self.boo = b,
            _ => (),
        }
    }
    unsafe fn set_ar_param_buffer(&mut self, _: &mut AudioCtx, index: usize, b: *const F) {
        self.log.borrow_mut().push(Ev::Ar(index, !b.is_null()));
    }
    fn set_delay_within_block_for_param(&mut self, _: &mut AudioCtx, index: usize, delay: u16) {
        self.log.borrow_mut().push(Ev::Delay(index, delay));
    }
}

fn input<F: Float>(src: &mut Src, ch: usize, bs: usize) -> Vec<Vec<F>> {
    (0..ch)
        .map(|_| (0..bs).map(|_| F::new(src.irange(-8, 8) as f64)).collect())
        .collect()
}
fn pick_bs(src: &mut Src) -> usize {
    src.pickc(&[4, 1, 2, 3, 5, 8, 16, 17, 32])
}
/// A value every sample type represents exactly.
fn val(src: &mut Src) -> f64 {
    src.irange(-64, 64) as f64 / 4.
}
/// A value that sample type `F` represents exactly, and a smaller type does not.
fn fine<F: Float>(src: &mut Src) -> f64 {
    let d = if size_of::<F>() == 8 { (-40f64).exp2() } else { (-12f64).exp2() };
    val(src) + src.idx(4) as f64 * d
}
fn fine_val<F: Float>(src: &mut Src) -> (usize, ParameterValue) {
    match any_val(src) {
        (i @ (A | B), _) => (i, fine::<F>(src).into()),
        v => v,
    }
}
pub fn any_val(src: &mut Src) -> (usize, ParameterValue) {
    match src.weighted(&[4, 3, 2, 1, 1]) {
        0 => (A, val(src).into()),
        1 => (B, val(src).into()),
        2 => (TRIG, ParameterValue::Trigger),
        3 => (INT, ParameterValue::Integer(PInteger::from(src.idx(10)))),
        _ => (BOO, src.bool().into()),
    }
}
/// Parameter state of [`Rec`], kept by the models.
#[derive(Clone, Copy, Default, Debug)]
struct St {
    p: [f64; 2],
    trig: usize,
    n: usize,
    boo: bool,
}
impl St {
    fn set(&mut self, i: usize, v: Pv) {
        match (i, v) {
            (A | B, Pv::F(f)) => self.p[i] = f,
            (TRIG, Pv::T) => self.trig += 1,
            (INT, Pv::N(n)) => self.n = n,
            (BOO, Pv::B(b)) => self.boo = b,
            _ => panic!("not a parameter of Rec: {i} {v:?}"),
        }
    }
    fn out(&self, x: [f64; 2]) -> [f64; 3] {
        rec_out(self.p[0], self.p[1], self.trig, self.n, self.boo, x)
    }
}
/// The blocks the wrapped UGen saw since `from` must tile `[0, bs)` of a block starting at `clock`.
fn tiles(log: &Log, from: usize, clock: u64, bs: usize) -> Res {
    let mut at = 0;
    for e in log.borrow()[from..].iter() {
        if let Ev::Block(c, o, n) = *e {
            check!(
                n > 0 && o == at && c == clock + at as u64 && at + n <= bs,
                "partial blocks of the wrapped UGen",
                "block at clock {clock} of {bs} frames, {at} done: next partial block has clock {c}, offset {o}, {n} frames"
            );
            at += n;
        }
    }
    check!(
        at == bs,
        "partial blocks of the wrapped UGen",
        "{at} of {bs} frames processed"
    );
    Ok(())
}
fn ctx_restored<F: Float>(r: &Rig<F>) -> Res {
    let b = &r.ctx.block;
    check!(
        b.block_start_offset() == 0 && b.frames_to_process() == r.bs,
        "context after a block",
        "{b:?}"
    );
    Ok(())
}

// ---------------------------------------------------------------- P06
fn precise<F: Float, T: UGen<Sample = F> + 'static>(
    cap: usize,
    outer: bool,
    t: T,
) -> Box<dyn Dyn<F>> {
    fn o<F: Float, W: UGen<Sample = F> + 'static>(outer: bool, w: W) -> Box<dyn Dyn<F>> {
        if outer {
            Box::new(
                w.wr_add(F::ZERO)
                    .wr_sub(F::ZERO)
                    .wr_div(F::ONE)
                    .wr_v_sub_gen(F::ZERO)
                    .wr_v_sub_gen(F::ZERO)
                    .wr_powi(1)
                    .wr(|x| x),
            )
        } else {
            Box::new(w)
        }
    }
    match cap {
        1 => o(outer, t.precise_timing::<1>()),
        2 => o(outer, t.precise_timing::<2>()),
        3 => o(outer, t.precise_timing::<3>()),
        8 => o(outer, t.precise_timing::<8>()),
        _ => o(outer, t.precise_timing::<32>()),
    }
}
const CAPS: [usize; 5] = [8, 1, 2, 3, 32];

#[derive(Clone, Debug)]
enum Change {
    /// delay, number of times the delay is announced, parameter, value
    At(u16, usize, usize, Pv, ParameterValue),
}
/// Changes for one block, delays in order, at once (0) anywhere.
fn changes(src: &mut Src, bs: usize, max: usize) -> Vec<Change> {
    let n = src.idx(max + 1);
    let mut d = 0;
    (0..n)
        .map(|_| {
            let delay = if src.chance(1, 4) {
                0
            } else {
                d = src.range(d, bs - 1);
                d as u16
            };
            let (i, v) = any_val(src);
            let times = if delay == 0 {
                src.idx(2)
            } else {
                1 + src.chance(1, 8) as usize
            };
            Change::At(delay, times, i, pv(v), v)
        })
        .collect()
}
fn p06_rec<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = pick_bs(src);
    let cap = src.pickc(&CAPS);
    let outer = src.chance(1, 3);
    let log = Log::default();
    let mut r = Rig::<F>::new(precise(cap, outer, Rec::<F>::new(&log)), 48000, bs);
    ctx.note(|| {
        format!("WrPreciseTiming<{cap}, Rec>, block size {bs}, other wrappers outside: {outer}")
    });
    let mut st = St::default();
    let (mut delayed, mut dropped) = (0, 0);
    for blk in 0..src.range(1, 6) {
        let max = if src.chance(1, 4) {
            cap + 3
        } else {
            cap.min(6)
        };
        let ch = changes(src, bs, max);
        let framewise = src.chance(1, 6);
        ctx.note(|| {
            format!(
                "block {blk}{}: {ch:?}",
                if framewise { " (frame by frame)" } else { "" }
            )
        });
        let mut wait: Vec<(usize, usize, Pv)> = vec![];
        // the delays of several parameters are announced before any of them is set
        let ahead = src.chance(1, 3);
        let mut announced = false;
        for (k, Change::At(d, times, i, p, v)) in ch.iter().enumerate() {
            for t in 0..*times * !announced as usize {
                // announcing it again replaces it
                let d = if t + 1 < *times { (bs as u16 - 1).abs_diff(*d) } else { *d };
                r.u.delay(&mut r.ctx, *i, d);
            }
            announced = false;
            if let (true, Some(Change::At(d1, 1, i1, ..))) = (ahead, ch.get(k + 1)) {
                if i1 != i {
                    r.u.delay(&mut r.ctx, *i1, *d1);
                    announced = true;
                }
            }
            r.apply(*i, *v);
            if *d == 0 {
                st.set(*i, *p);
            } else if wait.len() < cap {
                wait.push((*d as usize, *i, *p));
                delayed += 1;
            } else {
                dropped += 1;
            }
        }
        let x = input::<F>(src, 2, bs);
        let from = log.borrow().len();
        let clock = r.clock;
        let out = if framewise {
            r.frames(&x)
        } else {
            r.block(&x, &[bs])
        };
        if !framewise {
            tiles(&log, from, clock, bs)?;
            ctx_restored(&r)?;
        }
        for f in 0..bs {
            for (d, i, p) in &wait {
                if if framewise { f == 0 } else { *d == f } {
                    st.set(*i, *p);
                }
            }
            let want = st.out([x[0][f].to_f64(), x[1][f].to_f64()]);
            for c in 0..3 {
                check!(
                    out[c][f].to_f64() == want[c],
                    format!(
                        "delayed change{}",
                        if framewise { " frame by frame" } else { "" }
                    ),
                    "block {blk} frame {f} channel {c}: {}, expected {} (waiting: {wait:?})",
                    out[c][f].to_f64(),
                    want[c]
                );
            }
        }
        ctx.class_if(framewise, "frame by frame");
        ctx.class_if(
            wait.windows(2).any(|w| w[0].0 == w[1].0),
            "several changes at one frame",
        );
        ctx.class_if(
            wait.windows(2).any(|w| w[0].0 != w[1].0),
            "changes at different frames",
        );
        ctx.class_if(
            wait.iter().any(|w| w.0 == bs - 1),
            "change at the last frame",
        );
    }
    ctx.class_if(dropped > 0, "more changes than fit");
    ctx.class_if(outer, "wrapped in arithmetic");
    ctx.nontrivial_if(delayed >= 2);
    Ok(())
}
pub fn precise_rec(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        p06_rec::<f64>(src, ctx)
    } else {
        p06_rec::<f32>(src, ctx)
    }
}

/// Any wrapped UGen: the same as splitting the block by hand at the changes.
pub fn precise_split(src: &mut Src, ctx: &mut Ctx) -> Res {
    type F = f64;
    let bs = pick_bs(src);
    let sr = 1000;
    let kind = src.idx(4);
    let (l1, l2) = (Log::default(), Log::default());
    let mk = |log: &Log, wrapped: bool| -> Box<dyn Dyn<F>> {
        let rec = Rec::<F>::new(log);
        macro_rules! p {
            ($e:expr) => {
                if wrapped {
                    precise(32, false, $e)
                } else {
                    Box::new($e)
                }
            };
        }
        match kind {
            0 => p!(rec.smooth_params()),
            1 => p!(rec.ar_params()),
            2 => p!(rec.wr_mul(1.0)),
            _ => p!(rec.wr_add(1.0).smooth_params().ar_params()),
        }
    };
    let mut a = Rig::<F>::new(mk(&l1, true), sr, bs);
    let mut b = Rig::<F>::new(mk(&l2, false), sr, bs);
    ctx.note(|| format!("WrPreciseTiming<32, kind {kind}>, block size {bs}"));
    let np = a.u.dims().2;
    let mut ars: Vec<Vec<F>> = vec![];
    let mut delayed = 0;
    for blk in 0..src.range(1, 6) {
        if (kind == 1 || kind == 3) && src.chance(1, 2) {
            let i = src.idx(2);
            if src.chance(1, 3) {
                unsafe {
                    a.u.ar(&mut a.ctx, i, std::ptr::null());
                    b.u.ar(&mut b.ctx, i, std::ptr::null());
                }
            } else {
                ars.push((0..bs).map(|_| val(src)).collect());
                let p = ars.last().unwrap().as_ptr();
                unsafe {
                    a.u.ar(&mut a.ctx, i, p);
                    b.u.ar(&mut b.ctx, i, p);
                }
            }
        }
        let mut d = 0;
        let list: Vec<(usize, usize, ParameterValue)> = (0..src.idx(5))
            .map(|_| {
                d = src.range(d, bs - 1);
                let (i, v) = if kind == 2 && src.chance(1, 3) {
                    (np - 1, val(src).into())
                } else if (kind == 0 || kind == 3) && src.chance(1, 3) {
                    let rate = if src.bool() {
                        Rate::AudioRate
                    } else {
                        Rate::BlockRate
                    };
                    let dur = src.range(1, 20) as f32 / 1000. + 0.0003;
                    (
                        src.idx(2),
                        ParameterValue::Smoothing(ParameterSmoothing::Linear(dur), rate),
                    )
                } else {
                    any_val(src)
                };
                (d, i, v)
            })
            .collect();
        ctx.note(|| format!("block {blk}: {list:?}"));
        for (d, i, v) in &list {
            if *d > 0 {
                a.u.delay(&mut a.ctx, *i, *d as u16);
                delayed += 1;
            }
            a.apply(*i, *v);
        }
        let x = input::<F>(src, 2, bs);
        let oa = a.block(&x, &[bs]);
        ctx_restored(&a)?;
        let mut cuts: Vec<usize> = list.iter().map(|c| c.0).collect();
        cuts.extend([0, bs]);
        cuts.sort();
        cuts.dedup();
        let ob = b.block_with(&x, &cuts, |r, at| {
            for (d, i, v) in &list {
                if *d == at {
                    r.u.apply(&mut r.ctx, *i, *v);
                }
            }
        });
        check!(
            oa == ob,
            format!("block split at changes, kind {kind}"),
            "block {blk}: {oa:?}, split by hand {ob:?}"
        );
    }
    ctx.class(
        [
            "smoothing",
            "audio rate parameters",
            "multiplication",
            "smoothing in audio rate parameters",
        ][kind],
    );
    ctx.nontrivial_if(delayed >= 2);
    Ok(())
}

/// The block is already cut into parts when it gets to the wrapper: delays still count from the
/// start of the whole block, and land on their frame as long as it is in the part that follows.
pub fn precise_parts(src: &mut Src, ctx: &mut Ctx) -> Res {
    type F = f64;
    let bs = src.pickc(&[8, 2, 3, 4, 5, 16, 17, 32, 64]);
    let cap = src.pickc(&CAPS);
    let log = Log::default();
    let mut r = Rig::<F>::new(precise(cap, src.chance(1, 3), Rec::<F>::new(&log)), 48000, bs);
    ctx.note(|| format!("WrPreciseTiming<{cap}, Rec>, block size {bs}"));
    let mut st = St::default();
    let (mut delayed, mut late) = (0, 0);
    for blk in 0..src.range(1, 5) {
        let mut cuts = vec![0, bs];
        for _ in 0..src.range(1, 3) {
            cuts.push(src.range(1, bs - 1));
        }
        cuts.sort();
        cuts.dedup();
        // (announced before the part starting here, delay, parameter, value)
        let mut list: Vec<(usize, usize, usize, ParameterValue)> = vec![];
        let mut due: Vec<(usize, usize, Pv)> = vec![];
        for w in cuts.windows(2) {
            let (mut d, mut n) = (w[0], 0);
            for _ in 0..src.idx(5) {
                let (i, v) = any_val(src);
                if w[0] == 0 && d == 0 || src.chance(1, 4) {
                    list.push((w[0], 0, i, v));
                    due.push((w[0], i, pv(v)));
                    if w[0] == 0 && d == 0 && w[1] > 1 {
                        d = 1;
                    }
                } else if n < cap {
                    d = src.range(d, w[1] - 1);
                    n += 1;
                    list.push((w[0], d, i, v));
                    due.push((d, i, pv(v)));
                    delayed += 1;
                    late += (w[0] > 0 && d > w[0]) as usize;
                }
            }
        }
        ctx.note(|| format!("block {blk} cut at {cuts:?}: {list:?}"));
        // at one frame: what was sent without a delay before the part first
        let mut order: Vec<(usize, bool, usize)> = list.iter().enumerate().map(|(k, c)| (due[k].0, c.1 != 0, k)).collect();
        order.sort();
        let x = input::<F>(src, 2, bs);
        let from = log.borrow().len();
        let clock = r.clock;
        let out = r.block_with(&x, &cuts, |r, at| {
            for (a, d, i, v) in &list {
                if *a == at {
                    if *d > 0 {
                        r.u.delay(&mut r.ctx, *i, *d as u16);
                    }
                    r.u.apply(&mut r.ctx, *i, *v);
                }
            }
        });
        tiles(&log, from, clock, bs)?;
        let mut k = 0;
        for f in 0..bs {
            while k < order.len() && order[k].0 == f {
                let (_, i, p) = due[order[k].2];
                st.set(i, p);
                k += 1;
            }
            let want = st.out([x[0][f], x[1][f]]);
            for c in 0..3 {
                check!(
                    out[c][f] == want[c],
                    "delayed change in a part of a block",
                    "block {blk} frame {f} channel {c}: {}, expected {}",
                    out[c][f],
                    want[c]
                );
            }
        }
    }
    ctx.class_if(late > 0, "delay within a later part");
    ctx.nontrivial_if(delayed >= 2 && late >= 1);
    Ok(())
}

// ---------------------------------------------------------------- P07
fn p07<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = pick_bs(src);
    let kind = src.idx(7);
    let log = Log::default();
    let rec = Rec::<F>::new(&log);
    let u: Box<dyn Dyn<F>> = match kind {
        0 => Box::new(rec.ar_params()),
        1 => Box::new(rec.ar_params().wr_add(F::ZERO).wr(|x| x).wr_powi(1)),
        2 => Box::new(rec.ar_params().smooth_params()),
        3 => Box::new(rec.smooth_params().ar_params()),
        4 => Box::new(rec.ar_params().precise_timing::<4>()),
        5 => Box::new(rec.ar_params().precise_timing::<4>().smooth_params()),
        _ => Box::new(rec.ar_params().smooth_params().precise_timing::<4>().wr_add(F::ZERO)),
    };
    let mut r = Rig::new(u, 48000, bs);
    ctx.note(|| format!("WrArParams, kind {kind}, block size {bs}"));
    let mut keep: Vec<Box<[F]>> = vec![];
    let mut on: [Option<usize>; 2] = [None; 2];
    let mut st = St::default();
    let (mut used, mut unset, mut ignored) = (0, 0, 0);
    let whole = kind >= 4;
    let framewise = !whole && src.chance(1, 4);
    for blk in 0..src.range(1, 8) {
        for _ in 0..src.idx(4) {
            match src.weighted(&[4, 2, 3]) {
                0 => {
                    let i = src.idx(2);
                    keep.push((0..bs).map(|_| F::new(fine::<F>(src))).collect());
                    on[i] = Some(keep.len() - 1);
                    ctx.note(|| format!("buffer for parameter {i}: {:?}", keep.last().unwrap()));
                    unsafe { r.u.ar(&mut r.ctx, i, keep.last().unwrap().as_ptr()) }
                }
                1 => {
                    let i = src.idx(2);
                    unset += on[i].is_some() as usize;
                    on[i] = None;
                    ctx.note(|| format!("no buffer for parameter {i}"));
                    unsafe { r.u.ar(&mut r.ctx, i, std::ptr::null()) }
                }
                _ => {
                    let (i, v) = fine_val::<F>(src);
                    ctx.note(|| format!("set {i} to {v:?}"));
                    r.apply(i, v);
                    if i < 2 && on[i].is_some() {
                        ignored += 1;
                    } else {
                        st.set(i, pv(v));
                    }
                }
            }
        }
        // the contents of a buffer change from block to block, as the buffers of a graph do
        for k in on.iter().flatten() {
            if src.bool() {
                for v in keep[*k].iter_mut() {
                    *v = F::new(fine::<F>(src));
                }
            }
            used += 1;
        }
        // a change in the middle of the block, for what is outside
        let late = (kind >= 4 && src.chance(1, 2)).then(|| (src.range(0, bs - 1), fine_val::<F>(src)));
        if let Some((d, (i, v))) = late {
            if d > 0 {
                r.u.delay(&mut r.ctx, i, d as u16);
            }
            r.apply(i, v);
            ctx.note(|| format!("at frame {d} set {i} to {v:?}"));
        }
        let x = input::<F>(src, 2, bs);
        let sp = if whole || framewise {
            vec![bs]
        } else {
            splits(src, bs)
        };
        ctx.note(|| {
            format!(
                "block {blk}: {sp:?} {}",
                if framewise { "frame by frame" } else { "" }
            )
        });
        ctx.class_if(sp.len() > 1, "partial blocks");
        let out = if framewise {
            r.frames(&x)
        } else {
            r.block(&x, &sp)
        };
        for f in 0..bs {
            if let Some((d, (i, v))) = late {
                if d == f && !(i < 2 && on[i].is_some()) {
                    st.set(i, pv(v));
                }
            }
            for i in 0..2 {
                if let Some(k) = on[i] {
                    st.p[i] = keep[k][f].to_f64();
                }
            }
            let want = st.out([x[0][f].to_f64(), x[1][f].to_f64()]);
            for c in 0..3 {
                check!(
                    out[c][f].to_f64() == want[c],
                    format!("audio rate parameter, kind {kind}"),
                    "block {blk} frame {f} channel {c}: {}, expected {}",
                    out[c][f].to_f64(),
                    want[c]
                );
            }
        }
    }
    ctx.class_if(unset > 0, "buffer taken away");
    ctx.class_if(ignored > 0, "change ignored while a buffer is set");
    ctx.class_if(framewise, "frame by frame");
    ctx.class_if(on[0].is_some() && on[1].is_some(), "two buffers");
    ctx.class(
        [
            "bare",
            "in arithmetic",
            "in smoothing",
            "around smoothing",
            "in precise timing",
            "in precise timing in smoothing",
            "in smoothing in precise timing",
        ][kind],
    );
    ctx.nontrivial_if(used >= 2);
    Ok(())
}
/// What wrappers are told about a parameter reaches the UGen they wrap, unless they handle it.
pub fn forward(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        forward_in::<f64>(src, ctx)
    } else {
        forward_in::<f32>(src, ctx)
    }
}
fn forward_in<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = pick_bs(src);
    let log = Log::default();
    let rec = Rec::<F>::new(&log);
    let kind = src.idx(12);
    // (the stack, whether it handles buffers, whether it handles delays)
    let (u, ar, delay): (Box<dyn Dyn<F>>, bool, bool) = match kind {
        0 => (Box::new(rec.smooth_params()), false, false),
        1 => (Box::new(rec.ar_params()), true, false),
        2 => (Box::new(rec.precise_timing::<3>()), false, true),
        3 => (Box::new(rec.smooth_params().ar_params()), true, false),
        4 => (Box::new(rec.ar_params().smooth_params()), true, false),
        5 => (Box::new(rec.smooth_params().smooth_params()), false, false),
        6 => (Box::new(rec.smooth_params().wr_mul(F::ONE).smooth_params()), false, false),
        7 => (Box::new(rec.smooth_params().precise_timing::<3>()), false, true),
        8 => (Box::new(rec.precise_timing::<3>().smooth_params()), false, true),
        9 => (Box::new(rec.wr(|x| x).smooth_params().wr_add(F::ZERO)), false, false),
        10 => (Box::new(rec.wr_div(F::ONE).ar_params().wr_powf(F::ONE)), true, false),
        _ => (Box::new(rec.wr_v_sub_gen(F::ZERO).wr_v_div_gen(F::ONE).smooth_params().wr_sub(F::ZERO)), false, false),
    };
    let mut r = Rig::new(u, 48000, bs);
    let buf = vec![F::ONE; bs];
    let mut sent = 0;
    for _ in 0..src.range(1, 12) {
        let i = src.idx(PN);
        let from = log.borrow().len();
        let (want, pass) = match src.weighted(&[3, 2, 1, 1]) {
            0 => {
                let d = src.range(0, bs - 1) as u16;
                r.u.delay(&mut r.ctx, i, d);
                (Ev::Delay(i, d), !delay)
            }
            1 => {
                unsafe { r.u.ar(&mut r.ctx, i, buf.as_ptr()) }
                (Ev::Ar(i, true), !ar)
            }
            2 => {
                unsafe { r.u.ar(&mut r.ctx, i, std::ptr::null()) }
                (Ev::Ar(i, false), !ar)
            }
            _ => {
                let b = src.range(1, 64);
                r.u.init(48000, b);
                (Ev::Init(48000, b), true)
            }
        };
        sent += 1;
        let got = log.borrow()[from..].to_vec();
        ctx.note(|| format!("stack {kind}: {want:?}"));
        let want = if pass { vec![want] } else { vec![] };
        check!(got == want, "what wrappers pass on", "stack {kind}: the UGen got {got:?}, expected {want:?}");
    }
    ctx.class_if(ar, "handles buffers");
    ctx.class_if(delay, "handles delays");
    ctx.nontrivial_if(sent >= 2);
    Ok(())
}
pub fn ar_params(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        p07::<f64>(src, ctx)
    } else {
        p07::<f32>(src, ctx)
    }
}

// ---------------------------------------------------------------- P08
#[derive(Clone, Copy, Debug)]
struct Ramp {
    start: f64,
    end: f64,
    dur: usize,
    /// frames since the change
    t: usize,
    /// the end has been reached and set
    done: bool,
}
impl Ramp {
    fn at(&self) -> f64 {
        if self.done || self.t >= self.dur {
            self.end
        } else {
            self.start + (self.end - self.start) * self.t as f64 / self.dur as f64
        }
    }
}
#[derive(Clone, Copy, Debug)]
struct Sm {
    smooth: Option<(usize, bool)>,
    ramp: Ramp,
    /// value the UGen has; NaN while not defined
    cur: f64,
}
impl Sm {
    fn new() -> Self {
        Sm {
            smooth: None,
            ramp: Ramp {
                start: 0.,
                end: 0.,
                dur: 0,
                t: 0,
                done: true,
            },
            cur: 0.,
        }
    }
    fn set(&mut self, v: f64) {
        match self.smooth {
            None => {
                self.ramp = Ramp {
                    start: v,
                    end: v,
                    dur: 0,
                    t: 0,
                    done: true,
                };
                self.cur = v;
            }
            Some((dur, _)) => {
                let s = self.ramp.at();
                self.ramp = Ramp {
                    start: s,
                    end: v,
                    dur,
                    t: 0,
                    done: false,
                };
            }
        }
    }
    fn config(&mut self, c: Option<(usize, bool)>) {
        let now = self.ramp.at();
        self.smooth = c;
        match c {
            None => {
                if !self.ramp.done {
                    // Turned off in the middle of a ramp: not defined where it stays.
                    let n = f64::NAN;
                    self.ramp = Ramp {
                        start: n,
                        end: n,
                        dur: 0,
                        t: 0,
                        done: true,
                    };
                    self.cur = n;
                }
            }
            Some((dur, _)) => {
                let d = self.ramp.done;
                self.ramp = Ramp {
                    start: now,
                    end: self.ramp.end,
                    dur,
                    t: 0,
                    done: d,
                };
            }
        }
    }
    /// `first`: first frame of a partial block of `len` frames
    fn frame(&mut self, first: bool, len: usize) {
        let Some((_, ar)) = self.smooth else { return };
        if self.ramp.done || !(ar || first) {
            return;
        }
        self.cur = self.ramp.at();
        if self.ramp.t >= self.ramp.dur {
            self.ramp.done = true;
        }
        self.ramp.t += if ar { 1 } else { len };
    }
}
fn p08<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = pick_bs(src);
    let sr = src.pickc(&[1000u32, 48000, 44100]);
    let kind = src.idx(3);
    let log = Log::default();
    let rec = Rec::<F>::new(&log);
    let u: Box<dyn Dyn<F>> = match kind {
        0 => Box::new(rec.smooth_params()),
        1 => Box::new(rec.wr_add(F::ZERO).smooth_params().wr_sub(F::ZERO)),
        _ => Box::new(rec.smooth_params().ar_params()),
    };
    let mut r = Rig::new(u, sr, bs);
    ctx.note(|| format!("WrSmoothParams, kind {kind}, block size {bs}, sample rate {sr}"));
    let mut st = St::default();
    let mut sm = [Sm::new(); 2];
    let framewise = src.chance(1, 5);
    let (mut ramps, mut retarget, mut reconf, mut off) = (0, 0, 0, 0);
    // Most histories start by giving the parameters a value: where the first ramp starts is not
    // defined.
    let eps = if std::mem::size_of::<F>() == 4 {
        2e-5
    } else {
        1e-9
    };
    for i in 0..2 {
        let v = val(src);
        r.apply(i, v);
        sm[i].set(v);
    }
    for blk in 0..src.range(1, 12) {
        let sp = if framewise {
            vec![1; bs]
        } else {
            splits(src, bs)
        };
        for _ in 0..src.weighted(&[3, 3, 2, 1]) {
            match src.weighted(&[4, 3, 1]) {
                0 => {
                    let i = src.idx(2);
                    let v = val(src);
                    ctx.note(|| format!("set {i} to {v}"));
                    retarget += (!sm[i].ramp.done) as usize;
                    ramps += sm[i].smooth.is_some() as usize;
                    r.apply(i, v);
                    sm[i].set(v);
                }
                1 => {
                    let i = src.idx(2);
                    let ar = src.bool();
                    let frames = match src.weighted(&[4, 2, 1, 2]) {
                        0 => src.range(1, 3 * bs),
                        1 => bs * src.range(1, 3),
                        2 => 0,
                        _ => src.range(1, 300),
                    };
                    let secs = (frames as f64 + if src.bool() { 0.5 } else { 0.25 }) / sr as f64;
                    let secs = if frames == 0 && src.bool() { 0. } else { secs } as f32;
                    let none = src.chance(1, 6);
                    reconf += (!sm[i].ramp.done) as usize;
                    let (s, c) = if none {
                        off += (!sm[i].ramp.done) as usize;
                        (ParameterSmoothing::None, None)
                    } else {
                        (ParameterSmoothing::Linear(secs), Some((frames, ar)))
                    };
                    let rate = if ar { Rate::AudioRate } else { Rate::BlockRate };
                    ctx.note(|| format!("smoothing of {i}: {s:?} {rate:?} ({frames} frames)"));
                    r.apply(i, ParameterValue::Smoothing(s, rate));
                    sm[i].config(c);
                    ctx.class_if(ar && !none, "audio rate");
                    ctx.class_if(!ar && !none, "block rate");
                    ctx.class_if(frames == 0 && !none, "no duration");
                }
                _ => {
                    let (i, v) = any_val(src);
                    if i > 1 {
                        ctx.note(|| format!("set {i} to {v:?}"));
                        r.apply(i, v);
                        st.set(i, pv(v));
                    }
                }
            }
        }
        let x = input::<F>(src, 2, bs);
        ctx.note(|| {
            format!(
                "block {blk} {sp:?}{}",
                if framewise { " frame by frame" } else { "" }
            )
        });
        let from = log.borrow().len();
        let clock = r.clock;
        let out = if framewise {
            r.frames(&x)
        } else {
            r.block(&x, &sp)
        };
        if !framewise && kind != 2 {
            tiles(&log, from, clock, bs)?;
        }
        let mut at = 0;
        for len in &sp {
            for f in at..at + len {
                for i in 0..2 {
                    let len = if kind == 2 { 1 } else { *len };
                    sm[i].frame(f == at || kind == 2, len);
                    st.p[i] = sm[i].cur;
                }
                let xs = [x[0][f].to_f64(), x[1][f].to_f64()];
                let want = st.out(xs);
                for c in 0..3 {
                    let got = out[c][f].to_f64();
                    check!(
                        (got - want[c]).abs() <= eps * (1. + want[c].abs())
                            || (want[c].is_nan() && got.is_finite()),
                        format!("smoothed parameter, kind {kind}"),
                        "block {blk} frame {f} channel {c}: {got}, expected {} ({:?})",
                        want[c],
                        sm[c.min(1)]
                    );
                }
            }
            at += len;
        }
        ctx.class_if(sp.len() > 1 && !framewise, "partial blocks");
    }
    ctx.class_if(framewise, "frame by frame");
    ctx.class_if(retarget > 0, "new target in a ramp");
    ctx.class_if(reconf > 0, "smoothing changed in a ramp");
    ctx.class_if(off > 0, "smoothing turned off in a ramp");
    ctx.nontrivial_if(ramps >= 1);
    Ok(())
}
pub fn smooth(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        p08::<f64>(src, ctx)
    } else {
        p08::<f32>(src, ctx)
    }
}
