//! Blocks run with inputs of any number and length: what is too short has to be refused, not read past.
use crate::world::new_proc;
use knaster_core::*;
use knaster_core::numeric_array;
use knaster_graph::graph::NodeOrGraph;
use knaster_graph::processor::AudioProcessorOptions;
use kv::*;

pub fn lengths(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[4usize, 1, 16, 64, 7]);
    let (ins, outs) = src.pickc(&crate::world::IO);
    let o = AudioProcessorOptions { block_size: bs, sample_rate: 8000, ..Default::default() };
    let (mut g, mut proc) = new_proc::<f32>(ins, outs, o);
    for c in 0..outs {
        if ins > 0 {
            let _ = g.connect2(NodeOrGraph::Graph, (c % ins) as u16, c as u16, NodeOrGraph::Graph);
        }
    }
    g.edit(|_| ());
    for b in 0..src.range(1, 5) {
        let n = if src.chance(1, 5) { src.range(0, 5) } else { ins };
        let lens: Vec<usize> = (0..n).map(|_| if src.chance(1, 4) { src.range(0, 2 * bs) } else { bs + src.range(0, 2) }).collect();
        ctx.note(|| format!("block {b}: {ins} inputs of {bs} frames; run with {lens:?}"));
        let chans: Vec<Box<[f32]>> = lens.iter().enumerate().map(|(c, l)| (0..*l).map(|f| (c * 100 + f) as f32).collect()).collect();
        let refs: Vec<&[f32]> = chans.iter().map(|c| &c[..]).collect();
        let good = n == ins && lens.iter().all(|l| *l >= bs);
        let r = guard(|| proc.run(&refs));
        ctx.class(if good { "run" } else { "too short, or the wrong number" });
        ctx.nontrivial_if(!good && n > 0);
        if !good {
            check!(r.is_err(), "inputs that are too short are accepted", "{n} inputs of lengths {lens:?}, for {ins} of {bs}");
            continue;
        }
        r?;
        let ob = proc.output_block();
        for c in 0..outs {
            for f in 0..bs {
                let want = if ins > 0 { (c % ins * 100 + f) as f32 } else { 0. };
                let got = Block::read(&*ob, c, f);
                check!(got == want, "an input did not arrive", "block {b}, output {c}, frame {f}: {got}, want {want}");
            }
        }
    }
    Ok(())
}

/// One access to the blocks a UGen is given.
#[derive(Clone, Copy, Debug)]
enum Access {
    Read(usize, usize),
    Write(usize, usize),
    Slice(usize, usize),
    OutRead(usize, usize),
    OutSlice(usize, usize),
    PartRead(usize, usize, usize, usize),
    PartWrite(usize, usize, usize, usize),
    Iter,
}
struct Poker<I, O> {
    todo: Vec<Access>,
    seen: std::sync::Arc<std::sync::Mutex<Vec<(Access, Option<bool>)>>>,
    _p: std::marker::PhantomData<fn(I, O)>,
}
impl<I: Size, O: Size> UGen for Poker<I, O> {
    type Sample = f32;
    type Inputs = I;
    type Outputs = O;
    type Parameters = knaster_core::typenum::U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<f32, I>) -> Frame<f32, O> {
        Default::default()
    }
    fn process_block<X, Y>(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, x: &X, y: &mut Y)
    where
        X: BlockRead<Sample = f32> + ?Sized,
        Y: Block<Sample = f32> + ?Sized,
    {
        for a in &self.todo {
            // Some(true): what was read is right
            let r = guard(|| match *a {
                Access::Read(c, f) => x.read(c, f) == value(c, f),
                Access::Slice(c, f) => x.channel_as_slice(c)[f] == value(c, f),
                Access::Write(c, f) => {
                    y.write(9., c, f);
                    y.read(c, f) == 9.
                }
                Access::OutRead(c, f) => {
                    std::hint::black_box(y.read(c, f));
                    true
                }
                Access::OutSlice(c, f) => {
                    y.channel_as_slice_mut(c)[f] = 7.;
                    y.channel_as_slice(c)[f] == 7.
                }
                Access::PartRead(s, l, c, f) => {
                    let p = y.partial_mut(s, l);
                    std::hint::black_box(Block::read(&p, c, f));
                    true
                }
                Access::PartWrite(s, l, c, f) => {
                    let mut p = y.partial_mut(s, l);
                    p.channel_as_slice_mut(c)[f] = 5.;
                    y.read(c, s + f) == 5.
                }
                Access::Iter => {
                    let n = y.channels();
                    let mut k = 0;
                    for c in y.iter_mut() {
                        c.fill(3.);
                        k += 1;
                    }
                    k == n
                }
            });
            self.seen.lock().unwrap().push((*a, r.ok()));
        }
    }
    fn param_descriptions() -> numeric_array::NumericArray<&'static str, Self::Parameters> {
        [].into()
    }
    fn param_hints() -> numeric_array::NumericArray<ParameterHint, Self::Parameters> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
fn value(c: usize, f: usize) -> f32 {
    (c * 100 + f) as f32
}

/// A UGen in a graph reads and writes its blocks at any index: what is outside has to be refused.
pub fn indexes(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[4usize, 1, 16, 7]);
    let (ins, outs) = src.pickc(&[(1usize, 1usize), (2, 2), (0, 1), (1, 0), (3, 1), (0, 4)]);
    let mut todo = vec![];
    for _ in 0..src.range(1, 12) {
        let c = |src: &mut Src, n: usize| if src.chance(1, 4) { n + src.pickc(&[0usize, 1, 5, usize::MAX / 2]) } else { src.idx(n.max(1)) };
        let fr = |src: &mut Src| if src.chance(1, 4) { bs + src.pickc(&[0usize, 1, 50, usize::MAX / 2]) } else { src.idx(bs) };
        todo.push(match src.below(8) {
            0 => Access::Read(c(src, ins), fr(src)),
            1 => Access::Slice(c(src, ins), fr(src)),
            2 => Access::Write(c(src, outs), fr(src)),
            3 => Access::OutRead(c(src, outs), fr(src)),
            4 => Access::OutSlice(c(src, outs), fr(src)),
            5 => Access::PartRead(src.idx(bs + 2), src.idx(bs + 2), c(src, outs), fr(src)),
            6 => Access::PartWrite(src.idx(bs + 2), src.idx(bs + 2), c(src, outs), fr(src)),
            _ => Access::Iter,
        });
    }
    ctx.note(|| format!("{ins} inputs, {outs} outputs, block size {bs}: {todo:?}"));
    let o = AudioProcessorOptions { block_size: bs, sample_rate: 8000, ..Default::default() };
    let (mut g, mut proc) = match ins {
        0 => new_proc::<f32>(0, 1, o),
        1 => new_proc::<f32>(1, 1, o),
        2 => new_proc::<f32>(2, 2, o),
        _ => new_proc::<f32>(3, 1, o),
    };
    use knaster_core::typenum::*;
    let seen = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    macro_rules! push {
        ($i:ty, $o:ty) => {
            g.edit(|g| g.push(Poker::<$i, $o> { todo: todo.clone(), seen: seen.clone(), _p: std::marker::PhantomData }).id())
        };
    }
    let id = match (ins, outs) {
        (1, 1) => push!(U1, U1),
        (2, 2) => push!(U2, U2),
        (0, 1) => push!(U0, U1),
        (1, 0) => push!(U1, U0),
        (3, 1) => push!(U3, U1),
        _ => push!(U0, U4),
    };
    for c in 0..ins {
        let _ = g.connect2(NodeOrGraph::Graph, c as u16, c as u16, id);
    }
    if outs > 0 {
        let _ = g.connect2(id, 0, 0, NodeOrGraph::Graph);
    }
    g.edit(|_| ());
    let chans: Vec<Box<[f32]>> = (0..ins).map(|c| (0..bs).map(|f| value(c, f)).collect()).collect();
    let refs: Vec<&[f32]> = chans.iter().map(|c| &c[..]).collect();
    proc.run(&refs);
    let seen = seen.lock().unwrap();
    check!(seen.len() == todo.len(), "accesses lost", "{} of {}", seen.len(), todo.len());
    let mut bad = 0;
    for (a, r) in seen.iter() {
        let inside = match *a {
            Access::Read(c, f) | Access::Slice(c, f) => c < ins && f < bs,
            Access::Write(c, f) | Access::OutRead(c, f) | Access::OutSlice(c, f) => c < outs && f < bs,
            // which frames of a part may be reached beyond its length is not defined; memory is
            Access::PartRead(s, l, c, f) | Access::PartWrite(s, l, c, f) => {
                if c < outs && s + l <= bs && f < l {
                    true
                } else if c < outs && f < bs && s + f < bs {
                    continue;
                } else {
                    false
                }
            }
            Access::Iter => true,
        };
        bad += !inside as usize;
        check!(*r == if inside { Some(true) } else { None }, if inside { "an access inside a block fails" } else { "an access outside a block is let through" }, "{a:?}: {r:?}, {ins} inputs and {outs} outputs of {bs} frames");
    }
    ctx.class_if(bad > 0, "outside");
    ctx.nontrivial_if(bad > 0);
    Ok(())
}

/// Wavetables made from buffers of any length, read at any phase.
pub fn tables(src: &mut Src, ctx: &mut Ctx) -> Res {
    use knaster_core_dsp::dsp::wavetable::{NonAaWavetable, TABLE_SIZE, Wavetable, WavetablePhase};
    let len = match src.below(6) {
        0 => src.range(2, 40),
        1 => TABLE_SIZE,
        2 => TABLE_SIZE - 1 - src.range(0, 3),
        3 => TABLE_SIZE + 1 + src.range(0, 3),
        4 => 1 << src.range(1, 16),
        _ => src.range(2, 3 * TABLE_SIZE),
    };
    let buf: Vec<f32> = (0..len).map(|i| (i % 1000) as f32).collect();
    let right = len == TABLE_SIZE;
    ctx.class(if right { "right size" } else { "wrong size" });
    let phases: Vec<u32> = (0..src.range(1, 8)).map(|_| if src.chance(1, 3) { u32::MAX - src.below(1 << 17) as u32 } else { src.u64() as u32 }).collect();
    ctx.note(|| format!("a table made from {len} samples (of {TABLE_SIZE}), read at phases {phases:x?}"));
    ctx.nontrivial_if(!right);
    let at = |p: u32| ((p >> 16) as usize % TABLE_SIZE % 1000) as f32;
    if src.bool() {
        let r = guard(|| {
            let mut t = NonAaWavetable::<f32>::new();
            t.set_from_buffer(buf.clone());
            phases.iter().map(|p| t.get(WavetablePhase(*p))).collect::<Vec<f32>>()
        });
        check!(r.is_ok() == right || !right, "a buffer of the right size is refused", "{:?}", r.err().map(|f| f.msg));
        if right {
            for (p, v) in phases.iter().zip(r.unwrap()) {
                check!(v == at(*p), "wrong sample", "phase {p:x}: {v}");
            }
        }
    } else {
        let t = Wavetable::from_buffer(buf);
        check!(t.is_ok() == right, "wavetable size", "{len}: accepted: {}", t.is_ok());
        if let Ok(t) = t {
            let freq = src.pickc(&[0.0f32, 40., 1000., 20000., -1., f32::NAN, f32::INFINITY]);
            for p in phases {
                let v = t.get(WavetablePhase(p), freq);
                check!(v == at(p), "wrong sample", "phase {p:x}: {v}");
            }
        }
    }
    Ok(())
}
