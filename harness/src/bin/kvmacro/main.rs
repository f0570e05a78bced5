//! UGens written with the `impl_ugen` macro and enums with `KnasterIntegerParameter`.
mod ugens;
use knaster_core::typenum::*;
use knaster_core::*;
use kv::*;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};
use knaster_core::num_traits;

#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, num_derive::FromPrimitive, num_derive::ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum Wave {
    Saw = 0,
    Sine,
    #[default]
    Square,
    Tri,
    Noise,
}
/// An enum with numbers of its own
#[derive(Default, Debug, PartialEq, Eq, Copy, Clone, num_derive::FromPrimitive, num_derive::ToPrimitive, KnasterIntegerParameter)]
#[num_traits = "num_traits"]
#[repr(u8)]
pub enum Gap {
    Two = 2,
    Three,
    #[default]
    Ten = 10,
    Seven = 7,
    Eight,
}
const WAVE: Enum = Enum { names: &[(0, "Saw"), (1, "Sine"), (2, "Square"), (3, "Tri"), (4, "Noise")], default: 2 };
const DONE: Enum = Enum { names: &[(0, "None"), (1, "FreeSelf"), (2, "FreeParent")], default: 0 };
const GAP: Enum = Enum { names: &[(2, "Two"), (3, "Three"), (7, "Seven"), (8, "Eight"), (10, "Ten")], default: 10 };
/// The values with their names, sorted, and the default value.
pub struct Enum {
    names: &'static [(usize, &'static str)],
    default: usize,
}
impl Enum {
    fn name(&self, k: usize) -> Option<&'static str> {
        self.names.iter().find(|n| n.0 == k).map(|n| n.1)
    }
    fn max(&self) -> usize {
        self.names.last().unwrap().0
    }
}
/// What the functions of a UGen were called with.
#[derive(Clone, Default)]
pub struct Log(Arc<Mutex<(Vec<(&'static str, f64, u32)>, u64)>>);
impl Log {
    fn push(&self, what: &'static str, v: f64, rate: u32) {
        self.0.lock().unwrap().0.push((what, v, rate));
    }
    fn tick(&self, rate: u32) {
        self.0.lock().unwrap().1 += rate as u64;
    }
}
pub enum Hint {
    F(PFloatHint),
    Enum(&'static Enum),
    Int,
    Bool,
    Trig,
}
pub struct Par {
    name: &'static str,
    kind: u8,
    ctx: bool,
    hint: Hint,
}
pub struct Def {
    ins: usize,
    outs: usize,
    init: bool,
    block: bool,
    frame_flags: bool,
    block_flags: bool,
    frame_ctx: bool,
    block_ctx: bool,
    params: &'static [Par],
}
pub fn frame_out<F: Float>(input: &[F], j: usize, n: u64) -> F {
    input.iter().enumerate().fold(F::new((j * 100) as f64 + n as f64), |a, (i, x)| a + *x * F::new((i + 1) as f64))
}
pub fn block_out<F: Float>(input: &[F], j: usize, n: u64) -> F {
    frame_out(input, j, n) + F::new(0.5)
}

fn run<U: UGen<Sample = F>, F: Float>(make: fn(Log) -> U, d: Def, src: &mut Src, ctx: &mut Ctx) -> Res {
    check!((U::Inputs::USIZE, U::Outputs::USIZE, U::Parameters::USIZE) == (d.ins, d.outs, d.params.len()), "macro: channels and parameters", "{} inputs, {} outputs, {} parameters", U::Inputs::USIZE, U::Outputs::USIZE, U::Parameters::USIZE);
    let hints = U::param_hints();
    let names = U::param_descriptions();
    let types = U::param_types();
    for (i, p) in d.params.iter().enumerate() {
        check!(names[i] == p.name, "macro: parameter name", "{i} is {:?}, expected {:?}", names[i], p.name);
        let ok = match (&p.hint, &hints[i]) {
            (Hint::F(a), ParameterHint::Float(b)) => a == b,
            (Hint::Int, ParameterHint::Integer(h)) => h.range.0.0 == 0 && h.range.1.0 == usize::MAX && h.descriptions().is_none(),
            (Hint::Enum(e), ParameterHint::Integer(h)) => {
                let l: Vec<(usize, String)> = h.descriptions().unwrap_or_default().into_iter().map(|x| (x.0.0, x.1)).collect();
                // numbers without a name may be listed as numbers
                h.default.map(|x| x.0) == Some(e.default) && l.iter().all(|(i, n)| *n == e.name(*i).map_or_else(|| i.to_string(), |n| n.to_string()))
                    && e.names.iter().all(|(i, _)| l.iter().filter(|x| x.0 == *i).count() == 1)
            }
            (Hint::Bool, ParameterHint::Bool) | (Hint::Trig, ParameterHint::Trigger) => true,
            _ => false,
        };
        check!(ok, "macro: parameter hint", "{}: {:?}", p.name, hints[i]);
        let t = [0, 0, 2, 3, 1][p.kind as usize];
        check!(types[i] as u8 == [ParameterType::Float, ParameterType::Trigger, ParameterType::Integer, ParameterType::Bool][[0, 1, 2, 3][t]] as u8, "macro: parameter type", "{}", p.name);
    }
    let log = Log::default();
    let mut u = make(log.clone());
    let bs = src.pickc(&[4usize, 1, 8, 16, 64]);
    let sr = src.pickc(&[48000u32, 44100, 8000]);
    let mut a = AudioCtx::new(sr, bs, log::ArLogSender::non_rt());
    let mut want: Vec<(&'static str, f64, u32)> = vec![];
    let mut ticks = 0u64;
    u.init(sr, bs);
    if d.init {
        want.push(("init", bs as f64, sr));
    }
    let mut n = 0u64;
    let (mut frames, mut sets) = (0, 0);
    for _ in 0..src.range(2, 12) {
        let input = |src: &mut Src| src.below(16) as f64;
        match src.below(4) {
            0 => {
                // one frame
                let mut flags = UGenFlags::new();
                let x: Vec<F> = (0..d.ins).map(|_| F::new(input(src))).collect();
                let mut fr = Frame::<F, U::Inputs>::default();
                for (i, v) in x.iter().enumerate() {
                    fr[i] = *v;
                }
                let o = u.process(&mut a, &mut flags, fr);
                for j in 0..d.outs {
                    check!(o[j] == frame_out(&x, j, n), "macro: process", "output {j}: {:?}, expected {:?}", o[j], frame_out(&x, j, n));
                }
                check!(flags.done() == d.frame_flags.then_some(n as u32), "macro: flags of process", "{:?}", flags.done());
                ticks += d.frame_ctx as u64 * sr as u64;
                n += 1;
                frames += 1;
            }
            1 => {
                // a block, or a part of one
                let off = if src.bool() { 0 } else { src.idx(bs) };
                let len = if src.bool() { bs - off } else { src.range(1, bs - off) };
                ctx.note(|| format!("frames {off}..{}", off + len));
                let mut inb = VecBlock::<F>::new(d.ins, bs);
                let mut outb = VecBlock::<F>::new(d.outs, bs);
                for c in 0..d.ins {
                    for f in 0..bs {
                        inb.write(F::new(input(src)), c, f);
                    }
                }
                for c in 0..d.outs {
                    outb.channel_as_slice_mut(c).fill(F::new(-5.0));
                }
                let mut flags = UGenFlags::new();
                let org = a.block;
                a.block = org.make_partial(off, len);
                u.process_block(&mut a, &mut flags, &inb.partial(off, len), &mut outb.partial_mut(off, len));
                a.block = org;
                for f in 0..bs {
                    let x: Vec<F> = (0..d.ins).map(|c| Block::read(&inb, c, f)).collect();
                    for j in 0..d.outs {
                        let e = if f < off || f >= off + len {
                            F::new(-5.0)
                        } else if d.block {
                            block_out(&x, j, n + (f - off) as u64)
                        } else {
                            frame_out(&x, j, n + (f - off) as u64)
                        };
                        check!(Block::read(&outb, j, f) == e, "macro: process_block", "output {j} frame {f}: {:?}, expected {e:?}", Block::read(&outb, j, f));
                    }
                }
                let done = if d.block { d.block_flags.then_some(n as u32) } else { d.frame_flags.then_some(n as u32 + len as u32 - 1) };
                check!(flags.done() == done, "macro: flags of process_block", "{:?}, expected {done:?}", flags.done());
                ticks += sr as u64 * if d.block { d.block_ctx as u64 } else { d.frame_ctx as u64 * len as u64 };
                n += len as u64;
                frames += len;
            }
            2 if !d.params.is_empty() => {
                let i = src.idx(d.params.len());
                let p = &d.params[i];
                let (v, m): (ParameterValue, f64) = match p.kind {
                    0 => { let x = src.f(-100.0, 100.0); (x.into(), x) }
                    1 => { let x = src.f(-100.0, 100.0); (x.into(), x as f32 as f64) }
                    2 => { let x = src.idx(1000); (x.into(), x as f64) }
                    3 => { let b = src.bool(); (b.into(), b as u8 as f64) }
                    _ => (PTrigger.into(), 0.0),
                };
                ctx.note(|| format!("{} = {v:?}", p.name));
                match src.below(3) {
                    0 => u.param_apply(&mut a, i, v),
                    1 => check!(u.param(&mut a, i, v).is_ok(), "macro: parameter refused", "{}", p.name),
                    _ => check!(u.param(&mut a, p.name, v).is_ok(), "macro: parameter refused", "{}", p.name),
                }
                want.push((p.name, m, if p.ctx { sr } else { 0 }));
                sets += 1;
            }
            _ => {
                // nothing with this number; and smoothing without a wrapper that would handle it
                u.param_apply(&mut a, d.params.len() + src.idx(3), ParameterValue::Float(1.0));
                if !d.params.is_empty() {
                    u.param_apply(&mut a, src.idx(d.params.len()), ParameterSmoothing::Linear(0.5).into());
                }
            }
        }
        let l = log.0.lock().unwrap();
        check!(l.0 == want, "macro: calls", "{:?}, expected {want:?}", l.0);
        check!(l.1 == ticks, "macro: context passed", "{} instead of {ticks}", l.1);
    }
    ctx.nontrivial_if(frames > 0 && (sets > 0 || d.params.is_empty()));
    Ok(())
}
fn macros(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = src.idx(ugens::COUNT);
    let f64s = src.bool();
    ctx.note(|| format!("UGen Gen{k} of kvmacro/ugens.rs, {}", if f64s { "f64" } else { "f32" }));
    if f64s { ugens::any::<f64>(k, src, ctx) } else { ugens::any::<f32>(k, src, ctx) }
}
fn one_enum<E: PIntegerConvertible + From<PInteger> + Copy + PartialEq + std::fmt::Debug + Default>(e: &Enum, all: &[E], k: usize) -> Res
where
    PInteger: From<E>,
    ParameterValue: From<E>,
{
    let pos = e.names.iter().position(|n| n.0 == k);
    let v = pos.map_or_else(E::default, |p| all[p]);
    let n = pos.map_or(e.default, |p| e.names[p].0);
    check!(E::from(PInteger(k)) == v, "enum: from an integer", "{k}: {:?}, expected {v:?}", E::from(PInteger(k)));
    check!(PInteger::from(v).0 == n, "enum: into an integer", "{v:?}");
    check!(E::from(PInteger::from(v)) == v, "enum: there and back", "{v:?}");
    check!(matches!(ParameterValue::from(v), ParameterValue::Integer(i) if i.0 == n), "enum: into a parameter value", "{v:?}");
    check!(E::pinteger_descriptions(PInteger(k)) == e.name(k), "enum: description", "{k}: {:?}, expected {:?}", E::pinteger_descriptions(PInteger(k)), e.name(k));
    let r = E::pinteger_range();
    check!(r.0.0 <= e.names[0].0 && (e.max()..=e.max() + 1).contains(&r.1.0), "enum: range", "{r:?}");
    Ok(())
}
fn enums(src: &mut Src, ctx: &mut Ctx) -> Res {
    let k = if src.bool() { src.idx(14) } else { src.below(1 << 40) as usize };
    let gap = src.bool();
    ctx.note(|| format!("{k} of {}", if gap { "Gap" } else { "Wave" }));
    ctx.nontrivial_if(k < 11);
    if gap {
        one_enum(&GAP, &[Gap::Two, Gap::Three, Gap::Seven, Gap::Eight, Gap::Ten], k)
    } else {
        one_enum(&WAVE, &[Wave::Saw, Wave::Sine, Wave::Square, Wave::Tri, Wave::Noise], k)
    }
}
fn main() {
    const R: &str = "macros: one of 90 UGens written with impl_ugen (0-16 inputs and outputs, 0-24 parameters of every type with and without context, with hints, named or marked functions, own or default process_block, overridden associated types; written by tools/gen_macro.py) in f32 or f64 is initialised, processed by frame and by (partial) block and has parameters set by index and name; every call that reaches its functions and every sample is compared with what the definition says (non-trivial: frames were processed and parameters set, if it has any). enums: conversions of derived enums, with and without numbers of their own.";
    main_for(vec![Prop { id: "P25", rule: R, assumptions: &[], parts: vec![part("macros", 600000, macros), part("enums", 200000, enums)] }])
}
