//! A uniform, object-safe view of any UGen, and the driver which runs it over blocks, partial
//! blocks and single frames.
use knaster_core::log::ArLogSender;
use knaster_core::typenum::Unsigned;
use knaster_core::*;
use knaster_primitives::{Block, PartialBlock, VecBlock};

pub trait Dyn<F: Float> {
    fn init(&mut self, sr: u32, bs: usize);
    fn dims(&self) -> (usize, usize, usize);
    /// Process frames `lo..lo + len` of `input` / `output` (views, unless it is the whole block).
    /// `ctx.block` must have been set up.
    fn block(
        &mut self,
        ctx: &mut AudioCtx,
        flags: &mut UGenFlags,
        input: &VecBlock<F>,
        output: &mut VecBlock<F>,
        lo: usize,
        len: usize,
    );
    fn frame(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &[F]) -> Vec<F>;
    fn apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue);
    fn param(
        &mut self,
        ctx: &mut AudioCtx,
        p: Param,
        value: ParameterValue,
    ) -> Result<(), ParameterError>;
    unsafe fn ar(&mut self, ctx: &mut AudioCtx, index: usize, b: *const F);
    fn delay(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16);
    fn type_name(&self) -> &'static str;
    fn descs(&self) -> Vec<&'static str>;
    fn hints(&self) -> Vec<ParameterHint>;
}
impl<U: UGen> Dyn<U::Sample> for U {
    fn init(&mut self, sr: u32, bs: usize) {
        UGen::init(self, sr, bs)
    }
    fn dims(&self) -> (usize, usize, usize) {
        (U::Inputs::USIZE, U::Outputs::USIZE, U::Parameters::USIZE)
    }
    fn block(
        &mut self,
        ctx: &mut AudioCtx,
        flags: &mut UGenFlags,
        input: &VecBlock<U::Sample>,
        output: &mut VecBlock<U::Sample>,
        lo: usize,
        len: usize,
    ) {
        if lo == 0 && len == Block::block_size(input) {
            self.process_block(ctx, flags, input, output);
        } else {
            let i = PartialBlock::from_block(input, lo, len);
            let mut o = output.partial_mut(lo, len);
            self.process_block(ctx, flags, &i, &mut o);
        }
    }
    fn frame(
        &mut self,
        ctx: &mut AudioCtx,
        flags: &mut UGenFlags,
        input: &[U::Sample],
    ) -> Vec<U::Sample> {
        let mut f = Frame::<U::Sample, U::Inputs>::default();
        for (i, v) in input.iter().enumerate() {
            f[i] = *v;
        }
        self.process(ctx, flags, f).iter().copied().collect()
    }
    fn apply(&mut self, ctx: &mut AudioCtx, index: usize, value: ParameterValue) {
        self.param_apply(ctx, index, value)
    }
    fn param(
        &mut self,
        ctx: &mut AudioCtx,
        p: Param,
        value: ParameterValue,
    ) -> Result<(), ParameterError> {
        UGen::param(self, ctx, p, value)
    }
    unsafe fn ar(&mut self, ctx: &mut AudioCtx, index: usize, b: *const U::Sample) {
        unsafe { self.set_ar_param_buffer(ctx, index, b) }
    }
    fn delay(&mut self, ctx: &mut AudioCtx, index: usize, delay: u16) {
        self.set_delay_within_block_for_param(ctx, index, delay)
    }
    fn type_name(&self) -> &'static str {
        std::any::type_name::<U>()
    }
    fn descs(&self) -> Vec<&'static str> {
        U::param_descriptions().into_iter().collect()
    }
    fn hints(&self) -> Vec<ParameterHint> {
        U::param_hints().into_iter().collect()
    }
}

/// The parameters of the library's UGens, by the numbers the models use for them.
const PARAMS: &[(&str, &[&str])] = &[
    (
        "BufferReader",
        &[
            "rate",
            "looping",
            "start_s",
            "duration_s",
            "end_s",
            "t_restart",
        ],
    ),
    ("SampleDelay", &["delay_time"]),
    ("AllpassDelay", &["delay_time"]),
    ("AllpassFeedbackDelay", &["delay_time", "feedback"]),
    (
        "EnvAsr",
        &["attack_time", "release_time", "t_release", "t_restart"],
    ),
    ("EnvAr", &["attack_time", "release_time", "t_restart"]),
    (
        "Envelope",
        &["time_scale", "jump_to_segment", "t_restart", "t_stop"],
    ),
    ("RandomLin", &["freq"]),
    ("OnePoleLpf", &["cutoff_freq"]),
    ("OnePoleHpf", &["cutoff_freq"]),
    ("SinWt", &["freq", "phase_offset", "reset_phase"]),
    ("SinNumeric", &["freq", "phase_offset", "reset_phase"]),
    ("Phasor", &["freq"]),
    ("Pan2", &["pan"]),
    ("PolyBlep", &["freq", "pulse_width", "waveform"]),
    (
        "SvfFilter",
        &[
            "cutoff_freq",
            "q",
            "gain",
            "filter",
            "t_calculate_coefficients",
        ],
    ),
    ("DoneOnTrig", &["t_done"]),
    ("Constant", &["value"]),
    (
        "Galactic",
        &["replace", "detune", "brightness", "bigness", "wet"],
    ),
];
/// How parameters are addressed: by the name users know them by, or by the position of that name.
pub struct Names(Option<(&'static [&'static str], Vec<usize>)>, usize);
impl Names {
    pub fn of<F: Float>(u: &dyn Dyn<F>) -> Self {
        let t = u.type_name();
        let inner = |n: &str| t.contains(&format!("::{n}<"));
        let Some((ugen, names)) = PARAMS.iter().find(|(n, _)| inner(n)) else {
            return Names(None, 0);
        };
        let descs = u.descs();
        let map = names
            .iter()
            .map(|n| {
                descs
                    .iter()
                    .position(|d| d == n)
                    .unwrap_or_else(|| panic!("{ugen} has no parameter named {n}: {descs:?}"))
            })
            .collect();
        Names(Some((names, map)), 0)
    }
    pub fn apply<F: Float>(
        &mut self,
        u: &mut dyn Dyn<F>,
        ctx: &mut AudioCtx,
        index: usize,
        v: ParameterValue,
    ) {
        let Some((names, map)) = &self.0 else {
            return u.apply(ctx, index, v);
        };
        if index >= names.len() {
            return u.apply(ctx, index, v);
        }
        self.1 += 1;
        if self.1 % 2 == 0 && !matches!(v, ParameterValue::Smoothing(..)) {
            let r = u.param(ctx, Param::Desc(names[index]), v);
            assert!(r.is_ok(), "parameter {} to {v:?}: {r:?}", names[index]);
        } else {
            u.apply(ctx, map[index], v)
        }
    }
}

/// Drives a UGen through time: owns the context and the block bookkeeping a graph would do.
pub struct Rig<F: Float> {
    pub u: Box<dyn Dyn<F>>,
    pub names: Names,
    pub ctx: AudioCtx,
    pub flags: UGenFlags,
    pub clock: u64,
    pub bs: usize,
    pub sr: u32,
    /// frame (from the start) at which the UGen was marked done, with every mark in order
    pub dones: Vec<u64>,
    /// the context as the last call of `process_block` left it
    pub part_end: Option<BlockMetadata>,
}
impl<F: Float> Rig<F> {
    pub fn new(mut u: Box<dyn Dyn<F>>, sr: u32, bs: usize) -> Self {
        u.init(sr, bs);
        let ctx = AudioCtx::new(sr, bs, ArLogSender::non_rt());
        Rig {
            names: Names::of(&*u),
            u,
            ctx,
            flags: UGenFlags::new(),
            clock: 0,
            bs,
            sr,
            dones: vec![],
            part_end: None,
        }
    }
    fn meta(&self) -> BlockMetadata {
        let mut m = BlockMetadata::new(self.bs);
        m.set_frame_clock(self.clock);
        m
    }
    fn after(&mut self) {
        if let Some(f) = self.flags.done() {
            self.dones.push(f as u64);
        }
        self.flags.clear_node_flags();
    }
    /// One whole block, `splits` are the partial block lengths (summing to the block size).
    /// Input and output are per channel.
    pub fn block(&mut self, input: &[Vec<F>], splits: &[usize]) -> Vec<Vec<F>> {
        let mut cuts = vec![0];
        for s in splits {
            cuts.push(cuts[cuts.len() - 1] + s);
        }
        self.block_with(input, &cuts, |_, _| ())
    }
    /// One whole block, cut at `cuts` (from 0 to the block size), calling `at` before each part.
    pub fn block_with(
        &mut self,
        input: &[Vec<F>],
        cuts: &[usize],
        mut at: impl FnMut(&mut Self, usize),
    ) -> Vec<Vec<F>> {
        let (ni, no, _) = self.u.dims();
        let mut ib = VecBlock::new(ni, self.bs);
        let mut ob = VecBlock::new(no, self.bs);
        for c in 0..ni {
            ib.channel_as_slice_mut(c)
                .copy_from_slice(&input[c][..self.bs]);
        }
        for c in 0..no {
            ob.channel_as_slice_mut(c).fill(F::new(POISON));
        }
        let org = self.meta();
        for w in cuts.windows(2) {
            self.ctx.block = org.make_partial(w[0], w[1] - w[0]);
            at(self, w[0]);
            self.u.block(
                &mut self.ctx,
                &mut self.flags,
                &ib,
                &mut ob,
                w[0],
                w[1] - w[0],
            );
            self.part_end = Some(self.ctx.block);
        }
        if cuts.len() > 2 {
            self.ctx.block = org;
        }
        self.after();
        self.clock += self.bs as u64;
        (0..no)
            .map(|c| Block::channel_as_slice(&ob, c).to_vec())
            .collect()
    }
    /// One block, frame by frame through `process`.
    pub fn frames(&mut self, input: &[Vec<F>]) -> Vec<Vec<F>> {
        let (ni, no, _) = self.u.dims();
        let org = self.meta();
        let mut out = vec![vec![]; no];
        let mut fr = vec![F::ZERO; ni];
        for i in 0..self.bs {
            for c in 0..ni {
                fr[c] = input[c][i];
            }
            self.ctx.block = org.make_partial(i, 1);
            for (c, v) in self
                .u
                .frame(&mut self.ctx, &mut self.flags, &fr)
                .into_iter()
                .enumerate()
            {
                out[c].push(v);
            }
        }
        self.ctx.block = org;
        self.after();
        self.clock += self.bs as u64;
        out
    }
    pub fn apply(&mut self, index: usize, v: impl Into<ParameterValue>) {
        self.ctx.block = self.meta();
        self.names
            .apply(&mut *self.u, &mut self.ctx, index, v.into())
    }
}
/// What output blocks hold before they are processed.
pub const POISON: f64 = -12345.0;

/// Random partition of a block into partial blocks.
pub fn splits(src: &mut kv::Src, bs: usize) -> Vec<usize> {
    let mut v = vec![];
    let mut left = bs;
    let k = src.weighted(&[3, 3, 2]);
    while left > 0 {
        let n = match k {
            0 => left,
            1 => src.range(1, left),
            _ => src.range(1, left.min(3)),
        };
        v.push(n);
        left -= n;
    }
    v
}

/// A parameter change before frame `at`.
#[derive(Clone, Copy, Debug)]
pub struct Chg {
    pub at: usize,
    pub idx: usize,
    pub val: ParameterValue,
}
/// How a UGen is run.
#[derive(Clone, Debug)]
pub enum How {
    /// In blocks, with a new partial block at the frames which are true (and at changes).
    Parts(Vec<bool>),
    /// Through `process`.
    Frames,
}
pub fn how(src: &mut kv::Src, total: usize) -> How {
    match src.weighted(&[2, 2, 2, 2]) {
        0 => How::Parts(vec![]),
        1 => How::Frames,
        2 => How::Parts((0..total).map(|_| src.chance(1, 8)).collect()),
        _ => How::Parts((0..total).map(|_| src.bool()).collect()),
    }
}
pub struct Run {
    pub out: Vec<Vec<f64>>,
    /// frames at which the UGen was marked done
    pub dones: Vec<usize>,
}
/// Runs a UGen from the start for `total` frames.
pub fn render<F: Float>(
    mut u: Box<dyn Dyn<F>>,
    sr: u32,
    bs: usize,
    total: usize,
    input: &[Vec<F>],
    chgs: &[Chg],
    how: &How,
) -> Run {
    u.init(sr, bs);
    let mut ctx = AudioCtx::new(sr, bs, ArLogSender::non_rt());
    let mut flags = UGenFlags::new();
    let mut names = Names::of(&*u);
    let (ni, no, _) = u.dims();
    let mut out = vec![Vec::with_capacity(total + bs); no];
    let mut dones = vec![];
    let mut ib = VecBlock::new(ni, bs);
    let mut ob = VecBlock::new(no, bs);
    let mut fr = vec![F::ZERO; ni];
    let mut k = 0;
    let mut clock = 0;
    while clock < total {
        for c in 0..ni {
            let s = ib.channel_as_slice_mut(c);
            for (i, v) in s.iter_mut().enumerate() {
                *v = input[c].get(clock + i).copied().unwrap_or(F::ZERO);
            }
        }
        for c in 0..no {
            ob.channel_as_slice_mut(c).fill(F::new(POISON));
        }
        let mut meta = BlockMetadata::new(bs);
        meta.set_frame_clock(clock as u64);
        let mut at = 0;
        while at < bs {
            let mut end = at + 1;
            if let How::Parts(cuts) = how {
                let mut kk = k;
                while kk < chgs.len() && chgs[kk].at <= clock + at {
                    kk += 1;
                }
                while end < bs
                    && !cuts.get(clock + end).copied().unwrap_or(false)
                    && !(kk < chgs.len() && chgs[kk].at == clock + end)
                {
                    end += 1;
                }
            }
            ctx.block = if at == 0 && end == bs {
                meta
            } else {
                meta.make_partial(at, end - at)
            };
            while k < chgs.len() && chgs[k].at <= clock + at {
                names.apply(&mut *u, &mut ctx, chgs[k].idx, chgs[k].val);
                k += 1;
            }
            match how {
                How::Parts(_) => u.block(&mut ctx, &mut flags, &ib, &mut ob, at, end - at),
                How::Frames => {
                    for c in 0..ni {
                        fr[c] = Block::channel_as_slice(&ib, c)[at];
                    }
                    for (c, v) in u.frame(&mut ctx, &mut flags, &fr).into_iter().enumerate() {
                        ob.channel_as_slice_mut(c)[at] = v;
                    }
                }
            }
            if let Some(f) = flags.done() {
                dones.push(clock + f as usize);
                flags.clear_node_flags();
            }
            at = end;
        }
        for c in 0..no {
            out[c].extend(
                Block::channel_as_slice(&ob, c)
                    .iter()
                    .map(|v| Float::to_f64(*v)),
            );
        }
        clock += bs;
    }
    for o in out.iter_mut() {
        o.truncate(total);
    }
    dones.retain(|d| *d < total);
    Run { out, dones }
}
/// Random changes, in the order of their frames.
pub fn chgs(
    src: &mut kv::Src,
    total: usize,
    max: usize,
    params: usize,
    gener: &dyn Fn(&mut kv::Src, usize) -> ParameterValue,
) -> Vec<Chg> {
    if params == 0 {
        return vec![];
    }
    let mut v: Vec<Chg> = (0..src.range(0, max))
        .map(|_| {
            let at = if src.chance(1, 4) { 0 } else { src.idx(total) };
            let idx = src.idx(params);
            Chg {
                at,
                idx,
                val: gener(src, idx),
            }
        })
        .collect();
    v.sort_by_key(|c| c.at);
    v
}
/// A random input signal.
pub fn signal<F: Float>(src: &mut kv::Src, total: usize) -> Vec<F> {
    match src.weighted(&[1, 3, 2, 2, 1]) {
        0 => (0..total).map(|i| F::new((i == 0) as u8 as f32)).collect(),
        1 => (0..total).map(|_| F::new(src.sample())).collect(),
        2 => {
            let p = src.range(2, 60) as f64;
            (0..total)
                .map(|i| F::new((i as f64 / p * std::f64::consts::TAU).sin()))
                .collect()
        }
        3 => {
            // sparse
            let mut v = vec![F::ZERO; total];
            for _ in 0..src.range(1, 5) {
                let i = src.idx(total);
                v[i] = F::new(src.sample());
            }
            v
        }
        _ => vec![F::new(src.sample()); total],
    }
}
