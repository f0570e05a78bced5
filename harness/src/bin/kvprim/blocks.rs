//! Block containers and views against a plain array.
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_graph::block::*;
use kv::*;
use std::marker::PhantomData;

type Arr = Vec<Vec<f64>>;

/// All the ways to look at a block have to show the same samples.
fn compare<B: Block<Sample = f64> + ?Sized>(b: &B, m: &Arr, len: usize) -> Res {
    check!(Block::channels(b) == m.len(), "channels", "{} instead of {}", Block::channels(b), m.len());
    check!(m.is_empty() || Block::block_size(b) == len, "block size", "{} instead of {len}", Block::block_size(b));
    for (c, ch) in m.iter().enumerate() {
        check!(Block::channel_as_slice(b, c) == &ch[..], "channel slice", "channel {c}: {:?}, expected {ch:?}", Block::channel_as_slice(b, c));
        for (f, v) in ch.iter().enumerate() {
            check!(Block::read(b, c, f) == *v, "read", "channel {c} frame {f}: {}, expected {v}", Block::read(b, c, f));
        }
    }
    Ok(())
}
fn compare_read<B: BlockRead<Sample = f64> + ?Sized>(b: &B, m: &Arr, len: usize) -> Res {
    check!(b.channels() == m.len() && (m.is_empty() || b.block_size() == len), "shape of a view", "{} channels, {} frames", b.channels(), b.block_size());
    for (c, ch) in m.iter().enumerate() {
        check!(b.channel_as_slice(c) == &ch[..], "channel slice of a view", "channel {c}: {:?}, expected {ch:?}", b.channel_as_slice(c));
        for (f, v) in ch.iter().enumerate() {
            check!(b.read(c, f) == *v, "read of a view", "channel {c} frame {f}: {}, expected {v}", b.read(c, f));
        }
    }
    Ok(())
}
fn cut(m: &Arr, off: usize, n: usize) -> Arr {
    m.iter().map(|c| c[off..off + n].to_vec()).collect()
}
struct Run {
    next: f64,
    ways: u32,
}
fn write_some<B: Block<Sample = f64> + ?Sized>(b: &mut B, m: &mut Arr, len: usize, src: &mut Src, ctx: &mut Ctx, run: &mut Run) -> Res {
    if m.is_empty() || len == 0 {
        return Ok(());
    }
    run.next += 1.0;
    let v = run.next;
    let (c, f) = (src.idx(m.len()), src.idx(len));
    let way = src.below(5);
    ctx.note(|| format!("way {way}: channel {c} frame {f} = {v}"));
    run.ways |= 1 << way;
    match way {
        0 => {
            b.write(v, c, f);
            m[c][f] = v;
        }
        1 => {
            b.channel_as_slice_mut(c)[f] = v;
            m[c][f] = v;
        }
        2 => {
            // all channels at once, written after the last one was handed out
            let mut all: Vec<&mut [f64]> = b.iter_mut().collect();
            check!(all.len() == m.len() && all.iter().all(|s| s.len() == len), "mutable iterator", "{} channels", all.len());
            for (c, s) in all.iter_mut().enumerate() {
                s[f] = v + c as f64 / 16.0;
                m[c][f] = v + c as f64 / 16.0;
            }
            let mut it = b.iter_mut();
            for _ in 0..m.len() {
                it.next();
            }
            check!(it.next().is_none() && it.next().is_none(), "mutable iterator does not end", "after {} channels", m.len());
        }
        3 => {
            b.channel_as_slice_mut(c).fill(v);
            m[c].fill(v);
        }
        _ => {
            for f in 0..len {
                b.write(v + f as f64 / 128.0, c, f);
                m[c][f] = v + f as f64 / 128.0;
            }
        }
    }
    Ok(())
}
fn drive<B: Block<Sample = f64>>(b: &mut B, m: &mut Arr, len: usize, src: &mut Src, ctx: &mut Ctx, run: &mut Run) -> Res {
    compare(b, m, len)?;
    for _ in 0..src.range(1, 6) {
        match src.below(3) {
            0 => write_some(b, m, len, src, ctx, run)?,
            1 => {
                // through a partial view, and a partial view of that
                let off = src.idx(len + 1);
                let n = src.idx(len - off + 1);
                ctx.note(|| format!("partial_mut({off}, {n})"));
                let mut part = cut(m, off, n);
                {
                    let mut p = b.partial_mut(off, n);
                    compare(&p, &part, n)?;
                    write_some(&mut p, &mut part, n, src, ctx, run)?;
                    compare(&p, &part, n)?;
                    if src.bool() {
                        let o2 = src.idx(n + 1);
                        let n2 = src.idx(n - o2 + 1);
                        ctx.note(|| format!("in it partial_mut({o2}, {n2})"));
                        let mut inner = cut(&part, o2, n2);
                        {
                            let mut q = p.partial_mut(o2, n2);
                            compare(&q, &inner, n2)?;
                            write_some(&mut q, &mut inner, n2, src, ctx, run)?;
                            compare(&q, &inner, n2)?;
                        }
                        for (a, b) in part.iter_mut().zip(&inner) {
                            a[o2..o2 + n2].copy_from_slice(b);
                        }
                    }
                    compare(&p, &part, n)?;
                    compare_read(&p.partial(0, n), &part, n)?;
                }
                for (a, b) in m.iter_mut().zip(&part) {
                    a[off..off + n].copy_from_slice(b);
                }
                run.ways |= 32;
            }
            _ => {
                let off = src.idx(len + 1);
                let n = src.idx(len - off + 1);
                let want = cut(m, off, n);
                let p = b.partial(off, n);
                compare_read(&p, &want, n)?;
                let o2 = src.idx(n + 1);
                let n2 = src.idx(n - o2 + 1);
                compare_read(&PartialBlock::from_block(&p, o2, n2), &cut(&want, o2, n2), n2)?;
                compare_read(&PartialBlock::from_block(b, off, n), &want, n)?;
            }
        }
        compare(b, m, len)?;
        compare_read(b, m, len)?;
    }
    Ok(())
}
fn refuses(what: &str, f: impl FnOnce()) -> Res {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    check!(r.is_err(), "access out of range of a raw block is not refused", "{what}");
    Ok(())
}
pub fn owned(src: &mut Src, ctx: &mut Ctx) -> Res {
    let mut run = Run { next: 0.0, ways: 0 };
    let kind = src.below(5);
    let (ch, len) = match kind {
        1 => src.pickc(&[(1usize, 1usize), (2, 16), (3, 64), (4, 7), (0, 8)]),
        _ => (src.range(0, 4), src.pickc(&[8usize, 1, 2, 5, 16, 64, 0])),
    };
    ctx.note(|| format!("{} of {ch} channels and {len} frames", ["VecBlock", "StaticBlock", "RawContiguousBlock", "RawAggregateBlock", "EmptyBlock"][kind as usize]));
    let mut m: Arr = vec![vec![0.0; len]; ch];
    match kind {
        0 => drive(&mut VecBlock::<f64>::new(ch, len), &mut m, len, src, ctx, &mut run)?,
        1 => match (ch, len) {
            (1, 1) => drive(&mut StaticBlock::<f64, U1, U1>::new(), &mut m, len, src, ctx, &mut run)?,
            (2, 16) => drive(&mut StaticBlock::<f64, U2, U16>::default(), &mut m, len, src, ctx, &mut run)?,
            (3, 64) => drive(&mut StaticBlock::<f64, U3, U64>::new(), &mut m, len, src, ctx, &mut run)?,
            (4, 7) => drive(&mut StaticBlock::<f64, U4, U7>::new(), &mut m, len, src, ctx, &mut run)?,
            _ => drive(&mut StaticBlock::<f64, U0, U8>::new(), &mut m, len, src, ctx, &mut run)?,
        },
        2 => {
            // surrounded by memory that must stay as it is
            let pad = 4;
            let mut mem = vec![-7.0; ch * len + 2 * pad];
            for x in mem[pad..pad + ch * len].iter_mut() {
                *x = 0.0;
            }
            let ptr = mem.as_mut_ptr();
            {
                let mut b = unsafe { RawContiguousBlock::new(ptr.add(pad), ch, len) };
                drive(&mut b, &mut m, len, src, ctx, &mut run)?;
                let (c, f) = if src.bool() { (ch + src.idx(3), 0) } else { (0, len + src.idx(3)) };
                refuses("read", || { Block::read(&b, c, f); })?;
                refuses("write", || b.write(1.0, c, f))?;
                if c >= ch {
                    refuses("slice", || { Block::channel_as_slice(&b, c); })?;
                    refuses("slice", || { b.channel_as_slice_mut(c); })?;
                }
            }
            for (c, x) in m.iter().enumerate() {
                check!(mem[pad + c * len..pad + (c + 1) * len] == x[..], "layout of a contiguous block", "channel {c} is not at {}", c * len);
            }
            check!(mem[..pad].iter().chain(&mem[pad + ch * len..]).all(|x| *x == -7.0), "write outside a raw block", "{mem:?}");
        }
        3 => {
            let mut mem: Vec<Vec<f64>> = (0..ch).map(|_| { let mut v = vec![0.0; len]; v.extend([-7.0; 3]); v }).collect();
            let ptrs: Vec<*mut f64> = mem.iter_mut().map(|v| v.as_mut_ptr()).collect();
            let cptrs: Vec<*const f64> = ptrs.iter().map(|p| *p as *const f64).collect();
            {
                let mut b = unsafe { RawAggregateBlock::new(&ptrs, len) };
                drive(&mut b, &mut m, len, src, ctx, &mut run)?;
                let r = unsafe { RawAggregateBlockRead::new(&cptrs, len) };
                compare_read(&r, &m, len)?;
                let off = src.idx(len + 1);
                let n = src.idx(len - off + 1);
                compare_read(&PartialBlock::from_block(&r, off, n), &cut(&m, off, n), n)?;
                let (c, f) = if src.bool() { (ch + src.idx(3), 0) } else { (0, len + src.idx(3)) };
                refuses("read", || { Block::read(&b, c, f); })?;
                refuses("read", || { BlockRead::read(&r, c, f); })?;
                refuses("write", || b.write(1.0, c, f))?;
                if c >= ch {
                    refuses("slice", || { BlockRead::channel_as_slice(&r, c); })?;
                    refuses("slice", || { b.channel_as_slice_mut(c); })?;
                }
            }
            check!(mem.iter().all(|v| v[len..].iter().all(|x| *x == -7.0)), "write outside a raw block", "{mem:?}");
        }
        _ => {
            let mut b = EmptyBlock::<f64>::new();
            check!(Block::channels(&b) == 0 && Block::block_size(&b) == 0 && b.iter_mut().next().is_none(), "empty block", "has channels");
        }
    }
    ctx.class_if(run.ways & 32 != 0, "written through a partial view");
    ctx.class_if(run.ways & 4 != 0, "written through the mutable iterator");
    ctx.nontrivial_if(run.ways.count_ones() >= 2 && run.ways & 36 != 0);
    Ok(())
}
/// Partial block metadata is relative to what it was made from.
pub fn partial_ctx(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = src.range(1, 256);
    let mut b = BlockMetadata::new(len);
    check!((b.block_start_offset(), b.frames_to_process(), b.frame_clock()) == (0, len, 0), "new block metadata", "{b:?}");
    let clock = src.below(1 << 40);
    b.set_frame_clock(clock);
    let (mut off, mut n) = (0, len);
    let mut depth = 0;
    while n > 0 && depth < 5 && src.chance(3, 4) {
        let o = src.idx(n);
        let l = src.range(0, n - o);
        let p = b.make_partial(o, l);
        check!((b.block_start_offset(), b.frames_to_process(), b.frame_clock()) == (off, n, clock + off as u64), "block metadata changed by a partial one", "{b:?}");
        off += o;
        n = l;
        b = p;
        depth += 1;
        ctx.note(|| format!("make_partial({o}, {l})"));
        check!((b.block_start_offset(), b.frames_to_process(), b.frame_clock()) == (off, n, clock + off as u64), "partial block metadata", "{b:?}, expected offset {off}, {n} frames, clock {}", clock + off as u64);
    }
    let mut a = AudioCtx::new(src.range(1, 200_000) as u32, len, log::ArLogSender::non_rt());
    a.block = b;
    check!((a.block_start_offset(), a.frames_to_process(), a.frame_clock(), a.block_size()) == (off, n, clock + off as u64, len), "context of a partial block", "{:?}", a.block);
    ctx.nontrivial_if(depth >= 2);
    Ok(())
}

/// What one call of `process` was shown: offset, frames, clock, inputs and flags so far.
type Seen = (usize, usize, u64, Vec<f64>, Option<u32>);
struct PerFrame<I, O> {
    seen: Vec<Seen>,
    done_at: Vec<usize>,
    _p: PhantomData<fn(I, O)>,
}
impl<I: Size, O: Size> UGen for PerFrame<I, O> {
    type Sample = f64;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<f64, I>) -> Frame<f64, O> {
        let n = self.seen.len();
        self.seen.push((ctx.block_start_offset(), ctx.frames_to_process(), ctx.frame_clock(), input.iter().copied().collect(), flags.done()));
        if self.done_at.contains(&n) {
            flags.mark_done(ctx.block_start_offset() as u32);
        }
        let mut o = Frame::default();
        for (i, x) in o.iter_mut().enumerate() {
            *x = (n * 10 + i) as f64 + 0.5;
        }
        o
    }
    fn param_descriptions() -> knaster_core::numeric_array::NumericArray<&'static str, U0> {
        Default::default()
    }
    fn param_hints() -> knaster_core::numeric_array::NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
fn per_frame_of<I: Size, O: Size>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let len = src.range(1, 40);
    let (ins, outs) = (I::USIZE, O::USIZE);
    let input = VecBlock::<f64>::new(ins, len);
    let mut input = input;
    for c in 0..ins {
        for f in 0..len {
            input.write((c * 1000 + f) as f64 + 0.25, c, f);
        }
    }
    let mut output = VecBlock::<f64>::new(outs, len);
    let mut model: Arr = vec![vec![-7.0; len]; outs];
    for c in 0..outs {
        output.channel_as_slice_mut(c).fill(-7.0);
    }
    let mut a = AudioCtx::new(48000, len, log::ArLogSender::non_rt());
    let clock = src.below(1 << 40);
    a.block.set_frame_clock(clock);
    let org = a.block;
    let mut flags = UGenFlags::new();
    let mut u = PerFrame::<I, O> { seen: vec![], done_at: (0..src.range(0, 2)).map(|_| src.idx(len)).collect(), _p: PhantomData };
    // the whole block, or parts of it
    let mut parts = vec![];
    let mut at = 0;
    while at < len && (at == 0 || src.chance(5, 6)) {
        let n = if src.chance(1, 3) { len - at } else { src.range(1, len - at) };
        parts.push((at, n));
        at += n;
    }
    ctx.note(|| format!("{ins} inputs, {outs} outputs, block of {len} in parts {parts:?}, done at {:?}", u.done_at));
    for (at, n) in &parts {
        let (at, n) = (*at, *n);
        let first = u.seen.len();
        a.block = org.make_partial(at, n);
        {
            let i = input.partial(at, n);
            let mut o = output.partial_mut(at, n);
            u.process_block(&mut a, &mut flags, &i, &mut o);
        }
        check!((a.block_start_offset(), a.frames_to_process(), a.frame_clock()) == (at, n, clock + at as u64), "context after processing a block frame by frame", "{:?}, part at {at} of {n}", a.block);
        check!(u.seen.len() - first == n, "frames processed of a block", "{} instead of {n}", u.seen.len() - first);
        for k in 0..n {
            let f = at + k;
            let marked = u.done_at.iter().filter(|d| **d < f).max().map(|d| *d as u32);
            let want: Seen = (f, 1, clock + f as u64, (0..ins).map(|c| (c * 1000 + f) as f64 + 0.25).collect(), marked);
            check!(u.seen[first + k] == want, "what processing one frame is shown", "frame {f}: {:?}, expected {want:?}", u.seen[first + k]);
            for (c, ch) in model.iter_mut().enumerate() {
                ch[f] = (f * 10 + c) as f64 + 0.5;
            }
        }
        for (c, ch) in model.iter().enumerate() {
            check!(Block::channel_as_slice(&output, c) == &ch[..], "output of a block processed frame by frame", "channel {c}: {:?}, expected {ch:?}", Block::channel_as_slice(&output, c));
        }
    }
    ctx.nontrivial_if(parts.len() > 1 && ins + outs > 1);
    Ok(())
}
/// A UGen that only says how to process one frame, processed block by block.
pub fn per_frame(src: &mut Src, ctx: &mut Ctx) -> Res {
    match src.below(6) {
        0 => per_frame_of::<U1, U1>(src, ctx),
        1 => per_frame_of::<U0, U1>(src, ctx),
        2 => per_frame_of::<U1, U0>(src, ctx),
        3 => per_frame_of::<U2, U3>(src, ctx),
        4 => per_frame_of::<U3, U2>(src, ctx),
        _ => per_frame_of::<U4, U1>(src, ctx),
    }
}
