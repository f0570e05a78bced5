//! P09: arithmetic and closure wrappers.
use crate::dynu::*;
use crate::wraps::*;
use knaster_core::numeric_array::NumericArray;
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_core_dsp::wrappers_core::*;
use knaster_primitives::{Block, BlockRead, VecBlock};
use kv::*;
use std::cell::Cell;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Mul,
    Sub,
    VSub,
    Div,
    VDiv,
    Powf,
    Powi,
    Closure,
    Smooth,
    Ar,
}
const OPS: [Op; 11] = [
    Op::Add,
    Op::Mul,
    Op::Sub,
    Op::VSub,
    Op::Div,
    Op::VDiv,
    Op::Powf,
    Op::Powi,
    Op::Closure,
    Op::Smooth,
    Op::Ar,
];
fn model(op: Op, x: f64, v: f64, n: i32) -> f64 {
    match op {
        Op::Add => x + v,
        Op::Mul => x * v,
        Op::Sub => x - v,
        Op::VSub => v - x,
        Op::Div => x / v,
        Op::VDiv => v / x,
        Op::Powf => x.powf(v),
        Op::Powi => x.powi(n),
        Op::Closure => x * v + 1.,
        Op::Smooth | Op::Ar => x,
    }
}
fn wrap<F: Float, T: UGen<Sample = F, Parameters = U5> + 'static>(
    t: T,
    op: Op,
    v: f64,
    n: i32,
    calls: &Rc<Cell<u64>>,
) -> Box<dyn Dyn<F>> {
    let f = F::new(v);
    match op {
        Op::Add => Box::new(t.wr_add(f)),
        Op::Mul => Box::new(t.wr_mul(f)),
        Op::Sub => Box::new(t.wr_sub(f)),
        Op::VSub => Box::new(t.wr_v_sub_gen(f)),
        Op::Div => Box::new(t.wr_div(f)),
        Op::VDiv => Box::new(t.wr_v_div_gen(f)),
        Op::Powf => Box::new(t.wr_powf(f)),
        Op::Powi => Box::new(t.wr_powi(n)),
        Op::Closure => {
            let calls = calls.clone();
            Box::new(t.wr(move |x| {
                calls.set(calls.get() + 1);
                x * f + F::ONE
            }))
        }
        Op::Smooth => Box::new(t.smooth_params()),
        Op::Ar => Box::new(t.ar_params()),
    }
}
/// Type-erased again, to be wrapped once more.
struct Bx<F: Float>(Box<dyn Dyn<F>>);
impl<F: Float> UGen for Bx<F> {
    type Sample = F;
    type Inputs = U2;
    type Outputs = U3;
    type Parameters = U5;
    fn init(&mut self, sr: u32, bs: usize) {
        self.0.init(sr, bs)
    }
    fn process(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, x: Frame<F, U2>) -> Frame<F, U3> {
        let o = self.0.frame(ctx, fl, &[x[0], x[1]]);
        [o[0], o[1], o[2]].into()
    }
    fn process_block<I, O>(&mut self, ctx: &mut AudioCtx, fl: &mut UGenFlags, x: &I, y: &mut O)
    where
        I: BlockRead<Sample = F> + ?Sized,
        O: Block<Sample = F> + ?Sized,
    {
        let n = ctx.frames_to_process();
        let mut i = VecBlock::new(2, n);
        let mut o = VecBlock::new(3, n);
        for c in 0..2 {
            i.channel_as_slice_mut(c)
                .copy_from_slice(x.channel_as_slice(c));
        }
        self.0.block(ctx, fl, &i, &mut o, 0, n);
        for c in 0..3 {
            y.channel_as_slice_mut(c)
                .copy_from_slice(Block::channel_as_slice(&o, c));
        }
    }
    fn param_descriptions() -> NumericArray<&'static str, U5> {
        Rec::<F>::param_descriptions()
    }
    fn param_hints() -> NumericArray<ParameterHint, U5> {
        Rec::<F>::param_hints()
    }
    fn param_apply(&mut self, ctx: &mut AudioCtx, i: usize, v: ParameterValue) {
        self.0.apply(ctx, i, v)
    }
    unsafe fn set_ar_param_buffer(&mut self, ctx: &mut AudioCtx, i: usize, b: *const F) {
        unsafe { self.0.ar(ctx, i, b) }
    }
    fn set_delay_within_block_for_param(&mut self, ctx: &mut AudioCtx, i: usize, d: u16) {
        self.0.delay(ctx, i, d)
    }
}
/// The same rounding as the sample type has.
fn q<F: Float>(x: f64) -> f64 {
    F::new(x).to_f64()
}
fn close<F: Float>(a: f64, b: f64, exact: bool) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    let e = if std::mem::size_of::<F>() == 4 {
        4e-6
    } else {
        1e-14
    };
    !exact && (a - b).abs() <= e * a.abs().max(b.abs())
}

fn case<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[4, 1, 2, 3, 5, 8, 16, 17, 32]);
    let sr = src.pickc(&[48000u32, 44100, 8000]);
    let depth = src.weighted(&[0, 6, 2, 1, 1]);
    let log = Log::default();
    let log2 = Log::default();
    let calls = Rc::new(Cell::new(0));
    let done = src.chance(1, 4).then(|| src.idx(3 * bs) as u64);
    let mut chain: Vec<(Op, f64, i32)> = vec![];
    let mut u: Option<Box<dyn Dyn<F>>> = None;
    for _ in 0..depth {
        let op = src.pickc(&OPS);
        let v = src.irange(-16, 16) as f64 / 4.;
        let n = src.irange(-2, 5) as i32;
        chain.push((op, v, n));
        u = Some(match u {
            None => wrap(Rec::<F>::new(&log).done_at(done), op, v, n, &calls),
            Some(b) => wrap(Bx(b), op, v, n, &calls),
        });
    }
    ctx.note(|| format!("{chain:?} around the recorder, block size {bs}, done {done:?}"));
    let u = u.unwrap();
    let (op, _, _) = chain[depth - 1];
    // Names and hints
    let bare = Rec::<F>::new(&log2).done_at(done);
    let extra = op == Op::Mul;
    let mut names = Dyn::<F>::descs(&bare);
    let mut hints: Vec<String> = Dyn::<F>::hints(&bare)
        .iter()
        .map(|h| format!("{h:?}"))
        .collect();
    let np = 5 + extra as usize;
    check!(
        u.dims() == (2, 3, np),
        "shape of a wrapper",
        "{op:?}: {:?}",
        u.dims()
    );
    if extra {
        names.push("wr_mul");
        hints.push(format!("{:?}", u.hints()[5]));
        check!(
            matches!(u.hints()[5], ParameterHint::Float(_)),
            "hint of the factor",
            "{:?}",
            u.hints()[5]
        );
    }
    check!(
        u.descs() == names,
        "parameter names of a wrapper",
        "{op:?}: {:?}",
        u.descs()
    );
    let got: Vec<String> = u.hints().iter().map(|h| format!("{h:?}")).collect();
    check!(
        got == hints,
        "parameter hints of a wrapper",
        "{op:?}: {got:?}"
    );

    let mut a = Rig::<F>::new(u, sr, bs);
    let mut b = Rig::<F>::new(Box::new(bare), sr, bs);
    let buf = vec![F::ZERO; bs];
    let has_ar = chain.iter().any(|c| c.0 == Op::Ar);
    let framewise = src.chance(1, 5);
    let (mut sets, mut uneven) = (0, false);
    for blk in 0..src.range(1, 5) {
        for _ in 0..src.idx(5) {
            match src.weighted(&[5, 2, 2, 2]) {
                0 => {
                    let (i, v) = any_val(src);
                    let by_name = src.chance(1, 3);
                    ctx.note(|| {
                        format!("set {i} to {v:?}{}", if by_name { " by name" } else { "" })
                    });
                    if by_name {
                        let n = ["a", "b", "trig", "int", "boo"][i];
                        let r = a.u.param(&mut a.ctx, Param::Desc(n), v);
                        check!(
                            r.is_ok(),
                            "setting a parameter of a wrapper by name",
                            "{n}: {r:?}"
                        );
                    } else {
                        a.apply(i, v);
                    }
                    b.apply(i, v);
                    sets += 1;
                }
                1 if extra => {
                    let v = src.irange(-16, 16) as f64 / 4.;
                    ctx.note(|| format!("set wr_mul to {v}"));
                    if src.bool() {
                        let r = a.u.param(&mut a.ctx, Param::Desc("wr_mul"), v.into());
                        check!(r.is_ok(), "setting wr_mul by name", "{r:?}");
                    } else {
                        a.apply(5, v);
                    }
                    chain[depth - 1].1 = v;
                    ctx.class("factor changed");
                }
                2 => {
                    let i = src.idx(np);
                    let d = src.idx(9) as u16;
                    ctx.note(|| format!("delay {d} for parameter {i}"));
                    a.u.delay(&mut a.ctx, i, d);
                    if i < 5 {
                        b.u.delay(&mut b.ctx, i, d);
                    }
                }
                _ if !has_ar => {
                    let i = src.idx(np);
                    let on = src.bool();
                    ctx.note(|| format!("audio rate buffer {on} for parameter {i}"));
                    let p = if on { buf.as_ptr() } else { std::ptr::null() };
                    unsafe {
                        a.u.ar(&mut a.ctx, i, p);
                        if i < 5 {
                            b.u.ar(&mut b.ctx, i, p);
                        }
                    }
                }
                _ => (),
            }
        }
        let x: Vec<Vec<F>> = (0..2)
            .map(|_| (0..bs).map(|_| F::new(src.irange(-8, 8) as f64)).collect())
            .collect();
        let sp = splits(src, bs);
        ctx.note(|| {
            format!(
                "block {blk} {sp:?}{}",
                if framewise { " frame by frame" } else { "" }
            )
        });
        uneven |= sp.len() > 1;
        calls.set(0);
        let (oa, ob) = if framewise {
            (a.frames(&x), b.frames(&x))
        } else {
            (a.block(&x, &sp), b.block(&x, &sp))
        };
        let want_calls = chain.iter().filter(|c| c.0 == Op::Closure).count() as u64 * 3 * bs as u64;
        check!(
            calls.get() == want_calls,
            "calls of the closure",
            "{} calls for {bs} frames",
            calls.get()
        );
        for c in 0..3 {
            for f in 0..bs {
                let mut w = ob[c][f].to_f64();
                let mut exact = true;
                for (op, v, n) in &chain {
                    exact &= !matches!(op, Op::Powf | Op::Powi);
                    w = if *op == Op::Closure {
                        q::<F>(q::<F>(w * v) + 1.)
                    } else {
                        q::<F>(model(*op, w, *v, *n))
                    };
                }
                let g = oa[c][f].to_f64();
                // a rounded power can be amplified by what follows it
                let skip = !exact && depth > 1;
                check!(
                    skip || close::<F>(g, w, exact),
                    format!("output of {:?}", chain[depth - 1].0),
                    "block {blk} channel {c} frame {f}: {g}, expected {w} from {}",
                    ob[c][f].to_f64()
                );
            }
        }
        // Everything the inner UGen sees is as if it was not wrapped (WrArParams only runs frame by
        // frame, so its inner blocks are not compared).
        if !has_ar {
            let (la, lb) = (log.borrow(), log2.borrow());
            check!(
                *la == *lb,
                "what the wrapped UGen sees",
                "{la:?}, not wrapped: {lb:?}"
            );
            check!(
                a.dones == b.dones,
                "done flag of a wrapper",
                "{:?}, not wrapped {:?}",
                a.dones,
                b.dones
            );
            let (x, y) = (a.ctx.block, b.ctx.block);
            check!(
                x.block_start_offset() == y.block_start_offset()
                    && x.frames_to_process() == y.frames_to_process(),
                "context after a block",
                "{x:?} {y:?}"
            );
        } else {
            let f = |l: &Log| -> Vec<Ev> {
                l.borrow()
                    .iter()
                    .filter(|e| matches!(e, Ev::Init(..) | Ev::Apply(..) | Ev::Delay(..)))
                    .copied()
                    .collect()
            };
            check!(
                f(&log) == f(&log2),
                "what the wrapped UGen sees",
                "{:?}, not wrapped: {:?}",
                f(&log),
                f(&log2)
            );
        }
    }
    ctx.class(match op {
        Op::Add => "add",
        Op::Mul => "mul",
        Op::Sub => "sub",
        Op::VSub => "value sub",
        Op::Div => "div",
        Op::VDiv => "value div",
        Op::Powf => "powf",
        Op::Powi => "powi",
        Op::Closure => "closure",
        Op::Smooth => "smooth (off)",
        Op::Ar => "audio rate (no buffer)",
    });
    ctx.class_if(depth > 1, "several wrappers");
    ctx.class_if(uneven, "partial blocks");
    ctx.class_if(framewise, "frame by frame");
    ctx.class_if(!a.dones.is_empty(), "done");
    ctx.nontrivial_if(sets > 0);
    Ok(())
}
pub fn arith(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() {
        case::<f64>(src, ctx)
    } else {
        case::<f32>(src, ctx)
    }
}
