// written by tools/gen_macro.py
use super::*;

pub struct Gen0<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen0<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) {
        let n = ctx.frames_to_process();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        self.n += n as u64;
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        self.n += 1;
        []
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen1<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen1<F> {
    type Inputs = U1;
    type Outputs = U0;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(kind = Amplitude, default = 0.5, range = -10.0..=20000.0, logarithmic = false)]
    pub fn gain2(&mut self, v: f32) { self.log.push("gain2", v as f64, 0); }
    #[param]
    pub fn alpha(&mut self, ctx: &mut AudioCtx) { self.log.push("alpha", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn zeta(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("zeta", v.0 as f64, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U0>::default();
        for j in 0..0 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
}

pub struct Gen2<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen2<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(from = Wave)]
    pub fn n(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("n", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn t_restart(&mut self, ctx: &AudioCtx) { self.log.push("t_restart", 0.0, ctx.sample_rate()); }
    #[param(kind = Frequency, logarithmic = true, default = 100.0)]
    pub fn freq(&mut self, v: PFloat) { self.log.push("freq", v, 0); }
    #[param]
    pub fn zeta(&mut self, ) { self.log.push("zeta", 0.0, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 2]) -> [F; 1] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn amp(&mut self, ctx: &mut AudioCtx) { self.log.push("amp", 0.0, ctx.sample_rate()); }
}

pub struct Gen3<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen3<F> {
    type Inputs = U3;
    type Outputs = U4;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U4>::default();
        for j in 0..4 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param(range = 0.5..=1.0, logarithmic = false, default = -3.25, kind = Seconds)]
    pub fn n(&mut self, v: PFloat) { self.log.push("n", v, 0); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(from = Wave)]
    pub fn q(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("q", v.0 as f64, ctx.sample_rate()); }
}

pub struct Gen4<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen4<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn n(&mut self, v: PInteger) { self.log.push("n", v.0 as f64, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 4]) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        self.n += 1;
        []
    }
    #[param]
    pub fn delay_time(&mut self, ctx: &AudioCtx) { self.log.push("delay_time", 0.0, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Q, logarithmic = true, default = 100.0)]
    pub fn gain2(&mut self, v: f64) { self.log.push("gain2", v, 0); }
}

pub struct Gen5<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen5<F> {
    type Inputs = U0;
    type Outputs = U4;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 0] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..4 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    #[param(logarithmic = false, default = -3.25, range = 0.5..=1.0, kind = Q)]
    pub fn q(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("q", v, ctx.sample_rate()); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn t_restart(&mut self, ) { self.log.push("t_restart", 0.0, 0); }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags) -> [F; 4] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen6<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen6<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(default = 100.0, logarithmic = false, kind = Seconds)]
    pub fn amp(&mut self, v: f32) { self.log.push("amp", v as f64, 0); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn gain2(&mut self, v: PInteger) { self.log.push("gain2", v.0 as f64, 0); }
    #[param(kind = Q)]
    pub fn q(&mut self, v: f32) { self.log.push("q", v as f64, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 1]) -> [F; 1] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn process_block(&mut self, ctx: &mut AudioCtx, input: [&[F]; 1], output: [&mut [F]; 1]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        let mut output = output;
        for f in 0..n { for j in 0..1 { output[j][f] = block_out(&core::array::from_fn::<F, 1, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
}

pub struct Gen7<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen7<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn mode(&mut self, ctx: &mut AudioCtx) { self.log.push("mode", 0.0, ctx.sample_rate()); }
    #[param(default = 100.0, kind = Seconds)]
    pub fn on(&mut self, v: f64) { self.log.push("on", v, 0); }
    fn process(&mut self, ctx: &mut AudioCtx) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        self.n += 1;
        []
    }
    #[param]
    pub fn freq(&mut self, v: bool) { self.log.push("freq", v as u8 as f64, 0); }
    #[param(default = 0.5, logarithmic = false)]
    pub fn delay_time(&mut self, v: f64) { self.log.push("delay_time", v, 0); }
}

pub struct Gen8<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen8<F> {
    type Inputs = U3;
    type Outputs = U3;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(kind = Q, logarithmic = true, default = 0.0)]
    pub fn q(&mut self, v: PFloat) { self.log.push("q", v, 0); }
    #[param(default = 100.0, kind = Q, range = 0.5..=1.0)]
    pub fn alpha(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("alpha", v as f64, ctx.sample_rate()); }
    fn process_block(&mut self, input: [&[F]; 3], output: [&mut [F]; 3]) {
        let n = output[0].len();
        let mut output = output;
        for f in 0..n { for j in 0..3 { output[j][f] = block_out(&core::array::from_fn::<F, 3, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 3]) -> [F; 3] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Amplitude)]
    pub fn amp(&mut self, v: f64) { self.log.push("amp", v, 0); }
}

pub struct Gen9<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen9<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 4]) -> [F; 3] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen10<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen10<F> {
    type Inputs = U0;
    type Outputs = U2;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U2>::default();
        for j in 0..2 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen11<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen11<F> {
    type Inputs = U1;
    type Outputs = U0;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn alpha(&mut self, v: bool) { self.log.push("alpha", v as u8 as f64, 0); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, input: [F; 1]) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(range = -10.0..=20000.0, default = 100.0, logarithmic = true, kind = Seconds)]
    pub fn zeta(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("zeta", v as f64, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Amplitude, default = 0.0)]
    pub fn mode(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("mode", v as f64, ctx.sample_rate()); }
    #[param(kind = Q, logarithmic = false)]
    pub fn on(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("on", v, ctx.sample_rate()); }
    #[param]
    pub fn amp(&mut self, v: bool) { self.log.push("amp", v as u8 as f64, 0); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen12<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen12<F> {
    type Inputs = U2;
    type Outputs = U1;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 2]) -> [F; 1] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(default = -3.25, logarithmic = true, kind = Seconds)]
    pub fn t_restart(&mut self, v: PFloat) { self.log.push("t_restart", v, 0); }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 2] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..1 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(logarithmic = false, default = 0.0, kind = Seconds)]
    pub fn delay_time(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("delay_time", v as f64, ctx.sample_rate()); }
}

pub struct Gen13<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen13<F> {
    type Inputs = U3;
    type Outputs = U0;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(logarithmic = true, default = 0.5)]
    pub fn alpha(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("alpha", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn amp(&mut self, ctx: &mut AudioCtx) { self.log.push("amp", 0.0, ctx.sample_rate()); }
    #[param(from = Done)]
    pub fn t_restart(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("t_restart", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, default = 0.0, kind = Q)]
    pub fn mode(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("mode", v, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U0>::default();
        for j in 0..0 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn delay_time(&mut self, ) { self.log.push("delay_time", 0.0, 0); }
}

pub struct Gen14<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen14<F> {
    type Inputs = U0;
    type Outputs = U0;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(logarithmic = true, default = 0.5, kind = Q)]
    pub fn t_restart(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("t_restart", v as f64, ctx.sample_rate()); }
    #[param(default = 100.0, kind = Amplitude, logarithmic = false, range = -10.0..=20000.0)]
    pub fn delay_time(&mut self, v: f32) { self.log.push("delay_time", v as f64, 0); }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags) -> [F; 0] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 0] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..0 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
}

pub struct Gen15<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen15<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(default = 0.0, range = 0.5..=1.0, kind = Q)]
    pub fn amp(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("amp", v, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 3]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..3 { output[j][f] = block_out(&[], j, self.n + f as u64); } }
        self.n += n as u64;
    }
    fn process(&mut self, flags: &mut UGenFlags) -> [F; 3] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen16<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen16<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, flags: &mut UGenFlags, input: [F; 1]) -> [F; 0] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(default = 100.0, logarithmic = true, kind = Q)]
    pub fn freq(&mut self, v: f32) { self.log.push("freq", v as f64, 0); }
    #[param(from = Done)]
    pub fn mode(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("mode", v.0 as f64, ctx.sample_rate()); }
}

pub struct Gen17<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen17<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, input: [F; 2]) -> [F; 2] {
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 2], output: [&mut [F]; 2]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..2 { output[j][f] = block_out(&core::array::from_fn::<F, 2, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param(from = Wave)]
    pub fn gain2(&mut self, v: PInteger, ctx: &mut AudioCtx) { self.log.push("gain2", v.0 as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen18<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen18<F> {
    type Inputs = U3;
    type Outputs = U3;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 3]) -> [F; 3] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen19<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen19<F> {
    type Inputs = U4;
    type Outputs = U0;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(default = 0.5)]
    pub fn delay_time(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("delay_time", v, ctx.sample_rate()); }
    #[param]
    pub fn mode(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("mode", v.0 as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn t_restart(&mut self, v: bool) { self.log.push("t_restart", v as u8 as f64, 0); }
    #[param]
    pub fn zeta(&mut self, ctx: &mut AudioCtx) { self.log.push("zeta", 0.0, ctx.sample_rate()); }
    #[param(kind = Q, logarithmic = false, default = 0.5)]
    pub fn freq(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("freq", v, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Amplitude, default = 0.5, logarithmic = false)]
    pub fn n(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("n", v as f64, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U0>::default();
        for j in 0..0 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
}

pub struct Gen20<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen20<F> {
    type Inputs = U0;
    type Outputs = U3;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(default = -3.25, range = -10.0..=20000.0, logarithmic = true)]
    pub fn delay_time(&mut self, v: PFloat) { self.log.push("delay_time", v, 0); }
    #[param(kind = Q, logarithmic = true)]
    pub fn zeta(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("zeta", v, ctx.sample_rate()); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(default = 0.5)]
    pub fn gain2(&mut self, v: f64) { self.log.push("gain2", v, 0); }
    #[param(logarithmic = true)]
    pub fn mode(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("mode", v, ctx.sample_rate()); }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 0] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..3 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    fn process(&mut self, flags: &mut UGenFlags) -> [F; 3] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    #[param(from = Wave)]
    pub fn q(&mut self, v: PInteger) { self.log.push("q", v.0 as f64, 0); }
}

pub struct Gen21<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen21<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[process_block]
    fn tick_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) {
        let n = ctx.frames_to_process();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        self.n += n as u64;
    }
    #[param(default = -3.25)]
    pub fn zeta(&mut self, v: PFloat) { self.log.push("zeta", v, 0); }
    #[param(kind = Amplitude, range = -10.0..=20000.0, default = 100.0, logarithmic = true)]
    pub fn amp(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("amp", v, ctx.sample_rate()); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        self.n += 1;
        []
    }
}

pub struct Gen22<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen22<F> {
    type Inputs = U2;
    type Outputs = U3;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(from = Done)]
    pub fn gain2(&mut self, v: PInteger, ctx: &mut AudioCtx) { self.log.push("gain2", v.0 as f64, ctx.sample_rate()); }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 2] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..3 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(default = 0.5, logarithmic = false, range = 0.5..=1.0, kind = Amplitude)]
    pub fn mode(&mut self, v: f32) { self.log.push("mode", v as f64, 0); }
    #[param]
    pub fn on(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("on", v.0 as f64, ctx.sample_rate()); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, input: [F; 2]) -> [F; 3] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen23<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen23<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(from = Done)]
    pub fn n(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("n", v.0 as f64, ctx.sample_rate()); }
    #[process_block]
    fn tick_block(&mut self, flags: &mut UGenFlags, input: [&[F]; 3], output: [&mut [F]; 1]) {
        let n = output[0].len();
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..1 { output[j][f] = block_out(&core::array::from_fn::<F, 3, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param(logarithmic = true, default = -3.25)]
    pub fn t_restart(&mut self, v: f32) { self.log.push("t_restart", v as f64, 0); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 3]) -> [F; 1] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen24<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen24<F> {
    type Inputs = U4;
    type Outputs = U1;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, flags: &mut UGenFlags, input: [F; 4]) -> [F; 1] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 4] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..1 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
}

pub struct Gen25<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen25<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        self.n += 1;
        []
    }
}

pub struct Gen26<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen26<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, input: [F; 1]) -> [F; 2] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen27<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen27<F> {
    type Inputs = U2;
    type Outputs = U1;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 2] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..1 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 2]) -> [F; 1] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen28<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen28<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(from = Wave)]
    pub fn zeta(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("zeta", v.0 as f64, ctx.sample_rate()); }
    #[param(from = Done)]
    pub fn gain2(&mut self, v: PInteger) { self.log.push("gain2", v.0 as f64, 0); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn amp(&mut self, v: bool) { self.log.push("amp", v as u8 as f64, 0); }
    #[param]
    pub fn n(&mut self, ctx: &AudioCtx) { self.log.push("n", 0.0, ctx.sample_rate()); }
}

pub struct Gen29<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen29<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn t_restart(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("t_restart", v.0 as f64, ctx.sample_rate()); }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags, input: [F; 4]) -> [F; 0] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(default = -3.25, kind = Q, range = 0.5..=1.0)]
    pub fn alpha(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("alpha", v, ctx.sample_rate()); }
    #[param]
    pub fn gain2(&mut self, ) { self.log.push("gain2", 0.0, 0); }
    #[process_block]
    fn tick_block(&mut self, flags: &mut UGenFlags, input: [&[F]; 4]) {
        let n = input[0].len();
        flags.mark_done(self.n as u32);
        let _ = &input;
        self.n += n as u64;
    }
    #[param]
    pub fn on(&mut self, ) { self.log.push("on", 0.0, 0); }
}

pub struct Gen30<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen30<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process]
    fn tick(&mut self) -> [F; 1] {
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn freq(&mut self, v: bool) { self.log.push("freq", v as u8 as f64, 0); }
    #[process_block]
    fn tick_block(&mut self, ctx: &mut AudioCtx, output: [&mut [F]; 1]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        let mut output = output;
        for f in 0..n { for j in 0..1 { output[j][f] = block_out(&[], j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param(default = -3.25, logarithmic = false, kind = Amplitude)]
    pub fn alpha(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("alpha", v, ctx.sample_rate()); }
}

pub struct Gen31<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen31<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 1]) {
        let n = input[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let _ = &input;
        self.n += n as u64;
    }
    #[param(kind = Frequency, default = 100.0)]
    pub fn n(&mut self, v: f32) { self.log.push("n", v as f64, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 1]) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn zeta(&mut self, ) { self.log.push("zeta", 0.0, 0); }
    #[param(kind = Amplitude, range = -10.0..=20000.0, default = 0.5)]
    pub fn mode(&mut self, v: f64) { self.log.push("mode", v, 0); }
    #[param]
    pub fn amp(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("amp", v as u8 as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen32<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen32<F> {
    type Inputs = U2;
    type Outputs = U1;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn on(&mut self, v: PInteger) { self.log.push("on", v.0 as f64, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process(&mut self, input: [F; 2]) -> [F; 1] {
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 2] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..1 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    #[param(from = Done)]
    pub fn amp(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("amp", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Amplitude, range = 0.5..=1.0)]
    pub fn delay_time(&mut self, v: PFloat) { self.log.push("delay_time", v, 0); }
}

pub struct Gen33<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen33<F> {
    type Inputs = U3;
    type Outputs = U0;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(kind = Amplitude)]
    pub fn freq(&mut self, v: f32) { self.log.push("freq", v as f64, 0); }
    #[param]
    pub fn amp(&mut self, ) { self.log.push("amp", 0.0, 0); }
    #[param]
    pub fn alpha(&mut self, ctx: &mut AudioCtx) { self.log.push("alpha", 0.0, ctx.sample_rate()); }
    #[param(range = 0.5..=1.0, logarithmic = true, kind = Frequency, default = 0.0)]
    pub fn t_restart(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("t_restart", v, ctx.sample_rate()); }
    #[param(logarithmic = true, kind = Seconds)]
    pub fn zeta(&mut self, v: f32) { self.log.push("zeta", v as f64, 0); }
    #[param]
    pub fn q(&mut self, v: bool) { self.log.push("q", v as u8 as f64, 0); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U0>::default();
        for j in 0..0 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
}

pub struct Gen34<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen34<F> {
    type Inputs = U4;
    type Outputs = U1;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(kind = Q, default = 0.5)]
    pub fn amp(&mut self, v: f32) { self.log.push("amp", v as f64, 0); }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 4] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..1 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    #[param]
    pub fn mode(&mut self, ) { self.log.push("mode", 0.0, 0); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 4]) -> [F; 1] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn alpha(&mut self, v: bool) { self.log.push("alpha", v as u8 as f64, 0); }
}

pub struct Gen35<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen35<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        self.n += 1;
        []
    }
    #[param(logarithmic = false, kind = Q, default = -3.25)]
    pub fn gain2(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("gain2", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Q, default = 100.0)]
    pub fn n(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("n", v, ctx.sample_rate()); }
    #[param]
    pub fn delay_time(&mut self, v: bool) { self.log.push("delay_time", v as u8 as f64, 0); }
    #[param(logarithmic = true, default = 0.5, kind = Frequency)]
    pub fn zeta(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("zeta", v as f64, ctx.sample_rate()); }
    #[process_block]
    fn tick_block(&mut self, ctx: &mut AudioCtx) {
        let n = ctx.frames_to_process();
        self.log.tick(ctx.sample_rate());
        self.n += n as u64;
    }
    #[param(default = 0.5, kind = Q, logarithmic = false)]
    pub fn t_restart(&mut self, v: f32) { self.log.push("t_restart", v as f64, 0); }
}

pub struct Gen36<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen36<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block(&mut self, flags: &mut UGenFlags, input: [&[F]; 1], output: [&mut [F]; 4]) {
        let n = output[0].len();
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..4 { output[j][f] = block_out(&core::array::from_fn::<F, 1, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 1]) -> [F; 4] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen37<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen37<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags, input: [F; 2]) -> [F; 3] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(from = Wave)]
    pub fn zeta(&mut self, v: PInteger) { self.log.push("zeta", v.0 as f64, 0); }
    #[param(from = Done)]
    pub fn alpha(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("alpha", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Amplitude)]
    pub fn on(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("on", v, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[process_block]
    fn tick_block(&mut self, flags: &mut UGenFlags, input: [&[F]; 2], output: [&mut [F]; 3]) {
        let n = output[0].len();
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..3 { output[j][f] = block_out(&core::array::from_fn::<F, 2, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param]
    pub fn t_restart(&mut self, ) { self.log.push("t_restart", 0.0, 0); }
    #[param(logarithmic = true, range = 0.5..=1.0, default = 0.5)]
    pub fn amp(&mut self, v: f32) { self.log.push("amp", v as f64, 0); }
}

pub struct Gen38<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen38<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 3]) -> [F; 3] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn process_block(&mut self, flags: &mut UGenFlags, input: [&[F]; 3], output: [&mut [F]; 3]) {
        let n = output[0].len();
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..3 { output[j][f] = block_out(&core::array::from_fn::<F, 3, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
}

pub struct Gen39<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen39<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(range = 0.5..=1.0, default = 0.5, kind = Q, logarithmic = true)]
    pub fn zeta(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("zeta", v, ctx.sample_rate()); }
    fn process(&mut self, flags: &mut UGenFlags, input: [F; 4]) -> [F; 4] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(from = Done)]
    pub fn gain2(&mut self, v: PInteger) { self.log.push("gain2", v.0 as f64, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(default = 100.0, range = 0.5..=1.0, kind = Frequency, logarithmic = true)]
    pub fn freq(&mut self, v: PFloat) { self.log.push("freq", v, 0); }
    fn process_block(&mut self, ctx: &mut AudioCtx, input: [&[F]; 4], output: [&mut [F]; 4]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        let mut output = output;
        for f in 0..n { for j in 0..4 { output[j][f] = block_out(&core::array::from_fn::<F, 4, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
}

pub struct Gen40<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen40<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 1]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..1 { output[j][f] = block_out(&[], j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn freq(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("freq", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn gain2(&mut self, ctx: &mut AudioCtx) { self.log.push("gain2", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn alpha(&mut self, ) { self.log.push("alpha", 0.0, 0); }
    fn process(&mut self, flags: &mut UGenFlags) -> [F; 1] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn q(&mut self, ) { self.log.push("q", 0.0, 0); }
}

pub struct Gen41<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen41<F> {
    type Inputs = U1;
    type Outputs = U3;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(from = Wave)]
    pub fn delay_time(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("delay_time", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, default = 0.5, kind = Amplitude)]
    pub fn zeta(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("zeta", v as f64, ctx.sample_rate()); }
    #[param(default = 0.5, logarithmic = true, kind = Amplitude)]
    pub fn freq(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("freq", v, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(kind = Q, range = -10.0..=20000.0)]
    pub fn amp(&mut self, v: f64, ctx: &AudioCtx) { self.log.push("amp", v, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U3>::default();
        for j in 0..3 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param]
    pub fn n(&mut self, ) { self.log.push("n", 0.0, 0); }
}

pub struct Gen42<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen42<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn t_restart(&mut self, ctx: &mut AudioCtx) { self.log.push("t_restart", 0.0, ctx.sample_rate()); }
    fn process_block(&mut self, ctx: &mut AudioCtx) {
        let n = ctx.frames_to_process();
        self.log.tick(ctx.sample_rate());
        self.n += n as u64;
    }
    #[param]
    pub fn delay_time(&mut self, ) { self.log.push("delay_time", 0.0, 0); }
    fn process(&mut self) -> [F; 0] {
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn zeta(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("zeta", v as u8 as f64, ctx.sample_rate()); }
    #[param(kind = Q, default = -3.25, logarithmic = false)]
    pub fn alpha(&mut self, v: PFloat) { self.log.push("alpha", v, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(kind = Amplitude, default = -3.25, range = 0.5..=1.0)]
    pub fn on(&mut self, v: PFloat) { self.log.push("on", v, 0); }
    #[param(logarithmic = false, range = -10.0..=20000.0)]
    pub fn mode(&mut self, v: f32) { self.log.push("mode", v as f64, 0); }
}

pub struct Gen43<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen43<F> {
    type Inputs = U3;
    type Outputs = U4;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 3]) -> [F; 4] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 3] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..4 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
}

pub struct Gen44<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen44<F> {
    type Inputs = U4;
    type Outputs = U1;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U1>::default();
        for j in 0..1 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param]
    pub fn mode(&mut self, ) { self.log.push("mode", 0.0, 0); }
    #[param(from = Done)]
    pub fn t_restart(&mut self, v: PInteger) { self.log.push("t_restart", v.0 as f64, 0); }
}

pub struct Gen45<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen45<F> {
    type Inputs = U0;
    type Outputs = U3;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U3>::default();
        for j in 0..3 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
}

pub struct Gen46<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen46<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn mode(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("mode", v as u8 as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Amplitude, default = 0.0)]
    pub fn delay_time(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("delay_time", v, ctx.sample_rate()); }
    #[process]
    fn tick(&mut self, input: [F; 1]) -> [F; 4] {
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[process_block]
    fn tick_block(&mut self, input: [&[F]; 1], output: [&mut [F]; 4]) {
        let n = output[0].len();
        let mut output = output;
        for f in 0..n { for j in 0..4 { output[j][f] = block_out(&core::array::from_fn::<F, 1, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
}

pub struct Gen47<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen47<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 2]) -> [F; 4] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(from = Wave)]
    pub fn on(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("on", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn delay_time(&mut self, v: bool) { self.log.push("delay_time", v as u8 as f64, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn q(&mut self, ctx: &mut AudioCtx) { self.log.push("q", 0.0, ctx.sample_rate()); }
    fn process_block(&mut self, input: [&[F]; 2], output: [&mut [F]; 4]) {
        let n = output[0].len();
        let mut output = output;
        for f in 0..n { for j in 0..4 { output[j][f] = block_out(&core::array::from_fn::<F, 2, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
}

pub struct Gen48<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen48<F> {
    type Inputs = U3;
    type Outputs = U1;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 3]) -> [F; 1] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen49<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen49<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block(&mut self, ctx: &mut AudioCtx) {
        let n = ctx.frames_to_process();
        self.log.tick(ctx.sample_rate());
        self.n += n as u64;
    }
    #[param(kind = Frequency, default = 0.0)]
    pub fn freq(&mut self, v: f32) { self.log.push("freq", v as f64, 0); }
    #[param(kind = Amplitude, logarithmic = false)]
    pub fn n(&mut self, v: f64) { self.log.push("n", v, 0); }
    #[param]
    pub fn on(&mut self, ) { self.log.push("on", 0.0, 0); }
    fn process(&mut self, ctx: &mut AudioCtx) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        self.n += 1;
        []
    }
    #[param(range = 0.5..=1.0, kind = Seconds, logarithmic = false)]
    pub fn gain2(&mut self, v: f64) { self.log.push("gain2", v, 0); }
    #[param(kind = Q, default = 0.5, range = -10.0..=20000.0)]
    pub fn alpha(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("alpha", v, ctx.sample_rate()); }
    #[param(default = 0.0, logarithmic = true)]
    pub fn t_restart(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("t_restart", v as f64, ctx.sample_rate()); }
}

pub struct Gen50<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen50<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 3] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Frequency, range = 0.5..=1.0, default = 0.5, logarithmic = true)]
    pub fn q(&mut self, v: f64, ctx: &AudioCtx) { self.log.push("q", v, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen51<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen51<F> {
    type Inputs = U1;
    type Outputs = U1;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn mode(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("mode", v as u8 as f64, ctx.sample_rate()); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 1] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..1 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    #[param(kind = Frequency, range = -10.0..=20000.0, logarithmic = true)]
    pub fn alpha(&mut self, v: PFloat) { self.log.push("alpha", v, 0); }
    #[param(from = Done)]
    pub fn zeta(&mut self, v: PInteger) { self.log.push("zeta", v.0 as f64, 0); }
    #[process]
    fn tick(&mut self, input: [F; 1]) -> [F; 1] {
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen52<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen52<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(from = Done)]
    pub fn on(&mut self, v: PInteger) { self.log.push("on", v.0 as f64, 0); }
    #[param]
    pub fn t_restart(&mut self, v: bool) { self.log.push("t_restart", v as u8 as f64, 0); }
    #[process]
    fn tick(&mut self, input: [F; 2]) -> [F; 1] {
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(default = -3.25, range = 0.5..=1.0)]
    pub fn delay_time(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("delay_time", v as f64, ctx.sample_rate()); }
    #[param(default = 100.0, logarithmic = true)]
    pub fn amp(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("amp", v, ctx.sample_rate()); }
}

pub struct Gen53<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen53<F> {
    type Inputs = U3;
    type Outputs = U3;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(logarithmic = true)]
    pub fn mode(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("mode", v as f64, ctx.sample_rate()); }
    #[param(range = 0.5..=1.0, default = -3.25)]
    pub fn q(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("q", v, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U3>::default();
        for j in 0..3 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(default = 100.0, range = -10.0..=20000.0, kind = Frequency)]
    pub fn t_restart(&mut self, v: f32) { self.log.push("t_restart", v as f64, 0); }
    #[param]
    pub fn gain2(&mut self, v: PInteger) { self.log.push("gain2", v.0 as f64, 0); }
}

pub struct Gen54<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen54<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block(&mut self, input: [&[F]; 4], output: [&mut [F]; 2]) {
        let n = output[0].len();
        let mut output = output;
        for f in 0..n { for j in 0..2 { output[j][f] = block_out(&core::array::from_fn::<F, 4, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 4]) -> [F; 2] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
}

pub struct Gen55<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen55<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(range = 0.5..=1.0, logarithmic = true)]
    pub fn t_restart(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("t_restart", v, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn n(&mut self, v: bool) { self.log.push("n", v as u8 as f64, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        self.n += 1;
        []
    }
    #[param]
    pub fn amp(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("amp", v as u8 as f64, ctx.sample_rate()); }
    fn process_block(&mut self, ctx: &mut AudioCtx) {
        let n = ctx.frames_to_process();
        self.log.tick(ctx.sample_rate());
        self.n += n as u64;
    }
    #[param]
    pub fn mode(&mut self, ) { self.log.push("mode", 0.0, 0); }
}

pub struct Gen56<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen56<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn delay_time(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("delay_time", v as u8 as f64, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen57<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen57<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn amp(&mut self, ) { self.log.push("amp", 0.0, 0); }
    #[param(kind = Q, default = -3.25, logarithmic = true)]
    pub fn q(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("q", v as f64, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 2]) -> [F; 4] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn delay_time(&mut self, ctx: &AudioCtx) { self.log.push("delay_time", 0.0, ctx.sample_rate()); }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 2], output: [&mut [F]; 4]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..4 { output[j][f] = block_out(&core::array::from_fn::<F, 2, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param]
    pub fn t_restart(&mut self, v: bool) { self.log.push("t_restart", v as u8 as f64, 0); }
    #[param(from = Done)]
    pub fn alpha(&mut self, v: PInteger) { self.log.push("alpha", v.0 as f64, 0); }
}

pub struct Gen58<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen58<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 3]) -> [F; 3] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Seconds, default = 0.5, range = 0.5..=1.0)]
    pub fn freq(&mut self, v: f32) { self.log.push("freq", v as f64, 0); }
    fn process_block(&mut self, flags: &mut UGenFlags, input: [&[F]; 3], output: [&mut [F]; 3]) {
        let n = output[0].len();
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..3 { output[j][f] = block_out(&core::array::from_fn::<F, 3, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param(from = Wave)]
    pub fn gain2(&mut self, v: PInteger) { self.log.push("gain2", v.0 as f64, 0); }
    #[param]
    pub fn mode(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("mode", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn delay_time(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("delay_time", v as u8 as f64, ctx.sample_rate()); }
}

pub struct Gen59<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen59<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 4]) -> [F; 2] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Seconds, range = 0.5..=1.0)]
    pub fn amp(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("amp", v, ctx.sample_rate()); }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 4], output: [&mut [F]; 2]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..2 { output[j][f] = block_out(&core::array::from_fn::<F, 4, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
}

pub struct Gen60<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen60<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(range = -10.0..=20000.0, default = 0.0, logarithmic = true)]
    pub fn p11_34(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p11_34", v as f64, ctx.sample_rate()); }
    #[param(kind = Frequency, default = -3.25)]
    pub fn q(&mut self, v: PFloat) { self.log.push("q", v, 0); }
    #[param(logarithmic = true, kind = Frequency, default = 0.5)]
    pub fn p17_25(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("p17_25", v, ctx.sample_rate()); }
    #[param(from = Wave)]
    pub fn p18_52(&mut self, v: PInteger) { self.log.push("p18_52", v.0 as f64, 0); }
    #[param(kind = Frequency, default = 0.0, logarithmic = true)]
    pub fn p10_72(&mut self, v: PFloat) { self.log.push("p10_72", v, 0); }
    #[param]
    pub fn p2_1(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("p2_1", v as u8 as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Amplitude, range = -10.0..=20000.0)]
    pub fn p1_75(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("p1_75", v, ctx.sample_rate()); }
    #[param]
    pub fn p6_22(&mut self, v: bool) { self.log.push("p6_22", v as u8 as f64, 0); }
    #[param]
    pub fn gain2(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("gain2", v as u8 as f64, ctx.sample_rate()); }
    #[param(from = Gap)]
    pub fn p0_12(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("p0_12", v.0 as f64, ctx.sample_rate()); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(from = Done)]
    pub fn p12_82(&mut self, v: PInteger) { self.log.push("p12_82", v.0 as f64, 0); }
    #[param(range = -10.0..=20000.0, default = -3.25)]
    pub fn alpha(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("alpha", v, ctx.sample_rate()); }
    #[param(default = -3.25, kind = Amplitude)]
    pub fn n(&mut self, v: f32) { self.log.push("n", v as f64, 0); }
    #[param(logarithmic = true, range = -10.0..=20000.0, kind = Frequency)]
    pub fn p15_18(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("p15_18", v, ctx.sample_rate()); }
    #[param(from = Gap)]
    pub fn p8_98(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("p8_98", v.0 as f64, ctx.sample_rate()); }
    #[param(default = 0.0, kind = Q, logarithmic = false, range = -10.0..=20000.0)]
    pub fn freq(&mut self, v: f32) { self.log.push("freq", v as f64, 0); }
    #[param(logarithmic = false, default = 100.0, kind = Frequency)]
    pub fn zeta(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("zeta", v, ctx.sample_rate()); }
    #[param(logarithmic = true, kind = Frequency)]
    pub fn p4_3(&mut self, v: PFloat) { self.log.push("p4_3", v, 0); }
    #[param]
    pub fn p9_70(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("p9_70", v as u8 as f64, ctx.sample_rate()); }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags, input: [F; 16]) -> [F; 9] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn p14_65(&mut self, ) { self.log.push("p14_65", 0.0, 0); }
    #[param(kind = Q, range = 0.5..=1.0, default = 0.0)]
    pub fn p7_63(&mut self, v: f64) { self.log.push("p7_63", v, 0); }
    #[param(kind = Amplitude, default = 100.0)]
    pub fn amp(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("amp", v, ctx.sample_rate()); }
    #[param(from = Wave)]
    pub fn p3_85(&mut self, v: PInteger) { self.log.push("p3_85", v.0 as f64, 0); }
}

pub struct Gen61<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen61<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(from = Done)]
    pub fn p12_80(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("p12_80", v.0 as f64, ctx.sample_rate()); }
    #[param(range = 0.5..=1.0, kind = Frequency, default = 0.5)]
    pub fn t_restart(&mut self, v: f64, ctx: &AudioCtx) { self.log.push("t_restart", v, ctx.sample_rate()); }
    #[param(default = 100.0, logarithmic = true)]
    pub fn gain2(&mut self, v: f32) { self.log.push("gain2", v as f64, 0); }
    #[param]
    pub fn p11_80(&mut self, v: bool) { self.log.push("p11_80", v as u8 as f64, 0); }
    #[param(logarithmic = false, default = 100.0, kind = Amplitude)]
    pub fn p2_11(&mut self, v: f32) { self.log.push("p2_11", v as f64, 0); }
    #[param]
    pub fn p3_44(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p3_44", v as u8 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, kind = Amplitude)]
    pub fn p1_67(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("p1_67", v, ctx.sample_rate()); }
    #[param]
    pub fn p15_6(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("p15_6", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p9_94(&mut self, ctx: &AudioCtx) { self.log.push("p9_94", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn q(&mut self, ctx: &AudioCtx) { self.log.push("q", 0.0, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(from = Done)]
    pub fn p14_65(&mut self, v: PInteger) { self.log.push("p14_65", v.0 as f64, 0); }
    #[param(range = 0.5..=1.0, kind = Seconds, logarithmic = false, default = 0.0)]
    pub fn p19_54(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p19_54", v as f64, ctx.sample_rate()); }
    #[param(kind = Frequency, range = -10.0..=20000.0, logarithmic = false)]
    pub fn delay_time(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("delay_time", v as f64, ctx.sample_rate()); }
    #[param(from = Done)]
    pub fn p7_88(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("p7_88", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p8_64(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("p8_64", v as u8 as f64, ctx.sample_rate()); }
    fn process(&mut self, input: [F; 11]) -> [F; 0] {
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn process_block(&mut self, ctx: &mut AudioCtx, input: [&[F]; 11]) {
        let n = input[0].len();
        self.log.tick(ctx.sample_rate());
        let _ = &input;
        self.n += n as u64;
    }
    #[param(kind = Amplitude, logarithmic = true)]
    pub fn freq(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("freq", v, ctx.sample_rate()); }
    #[param]
    pub fn p18_26(&mut self, ) { self.log.push("p18_26", 0.0, 0); }
    #[param]
    pub fn p0_35(&mut self, ctx: &AudioCtx) { self.log.push("p0_35", 0.0, ctx.sample_rate()); }
    #[param(kind = Frequency, logarithmic = false, default = 0.5, range = 0.5..=1.0)]
    pub fn amp(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("amp", v, ctx.sample_rate()); }
    #[param(range = 0.5..=1.0, kind = Frequency, default = 0.5)]
    pub fn alpha(&mut self, v: PFloat) { self.log.push("alpha", v, 0); }
}

pub struct Gen62<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen62<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process_block]
    fn tick_block(&mut self, ctx: &mut AudioCtx, input: [&[F]; 2], output: [&mut [F]; 10]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        let mut output = output;
        for f in 0..n { for j in 0..10 { output[j][f] = block_out(&core::array::from_fn::<F, 2, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param]
    pub fn p13_53(&mut self, v: bool) { self.log.push("p13_53", v as u8 as f64, 0); }
    #[param(default = 0.0, kind = Seconds, logarithmic = true)]
    pub fn p2_86(&mut self, v: f64) { self.log.push("p2_86", v, 0); }
    #[param(default = 0.5, range = 0.5..=1.0, logarithmic = true)]
    pub fn p10_47(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("p10_47", v, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Frequency)]
    pub fn zeta(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("zeta", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, default = -3.25, kind = Amplitude, range = 0.5..=1.0)]
    pub fn p15_67(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("p15_67", v, ctx.sample_rate()); }
    #[param]
    pub fn p14_46(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("p14_46", v as u8 as f64, ctx.sample_rate()); }
    #[param(kind = Frequency, default = 100.0, logarithmic = false)]
    pub fn p5_88(&mut self, v: PFloat) { self.log.push("p5_88", v, 0); }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags, input: [F; 2]) -> [F; 10] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn p11_71(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("p11_71", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn alpha(&mut self, v: bool) { self.log.push("alpha", v as u8 as f64, 0); }
    #[param(kind = Frequency, logarithmic = true)]
    pub fn p4_57(&mut self, v: PFloat) { self.log.push("p4_57", v, 0); }
    #[param(range = 0.5..=1.0, logarithmic = true)]
    pub fn p7_18(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("p7_18", v, ctx.sample_rate()); }
    #[param(default = 0.5, range = -10.0..=20000.0)]
    pub fn p3_94(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("p3_94", v as f64, ctx.sample_rate()); }
    #[param(from = Wave)]
    pub fn p16_30(&mut self, v: PInteger) { self.log.push("p16_30", v.0 as f64, 0); }
    #[param(from = Done)]
    pub fn p9_74(&mut self, v: PInteger) { self.log.push("p9_74", v.0 as f64, 0); }
    #[param(kind = Amplitude, default = -3.25, logarithmic = true)]
    pub fn p8_84(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p8_84", v as f64, ctx.sample_rate()); }
    #[param(default = -3.25, range = -10.0..=20000.0)]
    pub fn delay_time(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("delay_time", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn freq(&mut self, ) { self.log.push("freq", 0.0, 0); }
    #[param]
    pub fn gain2(&mut self, v: bool) { self.log.push("gain2", v as u8 as f64, 0); }
    #[param(logarithmic = false, default = 100.0, kind = Frequency)]
    pub fn p1_28(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("p1_28", v, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, default = 0.0, kind = Amplitude)]
    pub fn amp(&mut self, v: f64) { self.log.push("amp", v, 0); }
    #[param(kind = Amplitude, default = 0.5)]
    pub fn p0_24(&mut self, v: PFloat) { self.log.push("p0_24", v, 0); }
}

pub struct Gen63<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen63<F> {
    type Inputs = U11;
    type Outputs = U4;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn zeta(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("zeta", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p10_62(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p10_62", v as u8 as f64, ctx.sample_rate()); }
    #[param(kind = Seconds, logarithmic = true)]
    pub fn p19_80(&mut self, v: f32) { self.log.push("p19_80", v as f64, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U4>::default();
        for j in 0..4 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param(range = -10.0..=20000.0, kind = Q, logarithmic = false)]
    pub fn p7_54(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("p7_54", v as f64, ctx.sample_rate()); }
    #[param(from = Done)]
    pub fn p6_88(&mut self, v: PInteger) { self.log.push("p6_88", v.0 as f64, 0); }
}

pub struct Gen64<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen64<F> {
    type Inputs = U4;
    type Outputs = U16;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn p0_83(&mut self, v: bool) { self.log.push("p0_83", v as u8 as f64, 0); }
    #[param(from = Gap)]
    pub fn p18_99(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("p18_99", v.0 as f64, ctx.sample_rate()); }
    #[param(kind = Q)]
    pub fn gain2(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("gain2", v, ctx.sample_rate()); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(range = 0.5..=1.0, logarithmic = false, default = 100.0)]
    pub fn p16_12(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("p16_12", v, ctx.sample_rate()); }
    #[param]
    pub fn p4_58(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("p4_58", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn p12_32(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("p12_32", v.0 as f64, ctx.sample_rate()); }
    #[param(default = 0.5, kind = Frequency, logarithmic = true)]
    pub fn alpha(&mut self, v: PFloat) { self.log.push("alpha", v, 0); }
    #[param(logarithmic = true, range = 0.5..=1.0, default = 0.0)]
    pub fn p15_60(&mut self, v: f32) { self.log.push("p15_60", v as f64, 0); }
    #[param]
    pub fn p7_46(&mut self, ) { self.log.push("p7_46", 0.0, 0); }
    #[param]
    pub fn p14_71(&mut self, ) { self.log.push("p14_71", 0.0, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U16>::default();
        for j in 0..16 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param(logarithmic = true, kind = Amplitude, default = 0.5)]
    pub fn p2_70(&mut self, v: f32) { self.log.push("p2_70", v as f64, 0); }
    #[param(logarithmic = true, kind = Frequency, default = 100.0)]
    pub fn p10_35(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("p10_35", v, ctx.sample_rate()); }
    #[param(default = 0.0, kind = Amplitude, logarithmic = false)]
    pub fn p3_90(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("p3_90", v, ctx.sample_rate()); }
    #[param(default = 100.0, range = 0.5..=1.0)]
    pub fn p17_83(&mut self, v: f64) { self.log.push("p17_83", v, 0); }
    #[param(from = Wave)]
    pub fn p11_16(&mut self, v: PInteger, ctx: &mut AudioCtx) { self.log.push("p11_16", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn delay_time(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("delay_time", v as u8 as f64, ctx.sample_rate()); }
}

pub struct Gen65<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen65<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(logarithmic = false, kind = Frequency, range = -10.0..=20000.0, default = 0.0)]
    pub fn p2_52(&mut self, v: PFloat) { self.log.push("p2_52", v, 0); }
    #[param]
    pub fn mode(&mut self, v: bool) { self.log.push("mode", v as u8 as f64, 0); }
    #[param(default = -3.25, kind = Seconds)]
    pub fn p4_81(&mut self, v: PFloat) { self.log.push("p4_81", v, 0); }
    #[param(default = 0.0, kind = Q, range = 0.5..=1.0)]
    pub fn p16_84(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("p16_84", v, ctx.sample_rate()); }
    #[param(logarithmic = false, default = 100.0, kind = Q)]
    pub fn p8_64(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("p8_64", v, ctx.sample_rate()); }
    #[param(kind = Q, logarithmic = true)]
    pub fn on(&mut self, v: f64) { self.log.push("on", v, 0); }
    #[param]
    pub fn p5_0(&mut self, ctx: &AudioCtx) { self.log.push("p5_0", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn q(&mut self, v: bool) { self.log.push("q", v as u8 as f64, 0); }
    #[param]
    pub fn t_restart(&mut self, ctx: &AudioCtx) { self.log.push("t_restart", 0.0, ctx.sample_rate()); }
    #[param(default = 0.0, kind = Q, logarithmic = true)]
    pub fn p7_77(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("p7_77", v, ctx.sample_rate()); }
    #[param(default = 0.5, kind = Amplitude, logarithmic = true, range = 0.5..=1.0)]
    pub fn zeta(&mut self, v: PFloat) { self.log.push("zeta", v, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 1]) -> [F; 6] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    fn process_block(&mut self, input: [&[F]; 1], output: [&mut [F]; 6]) {
        let n = output[0].len();
        let mut output = output;
        for f in 0..n { for j in 0..6 { output[j][f] = block_out(&core::array::from_fn::<F, 1, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param(range = 0.5..=1.0, default = -3.25, kind = Seconds)]
    pub fn delay_time(&mut self, v: f32) { self.log.push("delay_time", v as f64, 0); }
    #[param(range = 0.5..=1.0, default = 100.0, kind = Seconds, logarithmic = false)]
    pub fn freq(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("freq", v, ctx.sample_rate()); }
    #[param(kind = Seconds, default = 0.0, range = 0.5..=1.0, logarithmic = true)]
    pub fn alpha(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("alpha", v as f64, ctx.sample_rate()); }
    #[param(range = 0.5..=1.0, kind = Q, logarithmic = true)]
    pub fn p0_97(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("p0_97", v, ctx.sample_rate()); }
    #[param]
    pub fn gain2(&mut self, v: bool) { self.log.push("gain2", v as u8 as f64, 0); }
    #[param]
    pub fn p15_25(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("p15_25", v as u8 as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
}

pub struct Gen66<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen66<F> {
    type Inputs = U10;
    type Outputs = U12;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn zeta(&mut self, ) { self.log.push("zeta", 0.0, 0); }
    #[param(range = -10.0..=20000.0, kind = Q, default = 0.5)]
    pub fn p14_66(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("p14_66", v, ctx.sample_rate()); }
    #[param]
    pub fn p11_23(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("p11_23", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn t_restart(&mut self, v: PInteger) { self.log.push("t_restart", v.0 as f64, 0); }
    #[param(logarithmic = true, kind = Frequency, default = 0.0)]
    pub fn q(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("q", v, ctx.sample_rate()); }
    #[param(from = Wave)]
    pub fn n(&mut self, v: PInteger) { self.log.push("n", v.0 as f64, 0); }
    #[param]
    pub fn alpha(&mut self, v: bool) { self.log.push("alpha", v as u8 as f64, 0); }
    #[param]
    pub fn p0_74(&mut self, ) { self.log.push("p0_74", 0.0, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U12>::default();
        for j in 0..12 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param(kind = Seconds, default = 0.5, logarithmic = true)]
    pub fn p3_6(&mut self, v: f64) { self.log.push("p3_6", v, 0); }
    #[param]
    pub fn p8_24(&mut self, ) { self.log.push("p8_24", 0.0, 0); }
    #[param(range = -10.0..=20000.0, kind = Q, default = -3.25, logarithmic = false)]
    pub fn delay_time(&mut self, v: PFloat) { self.log.push("delay_time", v, 0); }
    #[param(kind = Frequency)]
    pub fn p18_49(&mut self, v: f64) { self.log.push("p18_49", v, 0); }
    #[param]
    pub fn p4_80(&mut self, ctx: &AudioCtx) { self.log.push("p4_80", 0.0, ctx.sample_rate()); }
    #[param(logarithmic = true, default = 100.0)]
    pub fn p9_66(&mut self, v: f32) { self.log.push("p9_66", v as f64, 0); }
    #[param]
    pub fn gain2(&mut self, ) { self.log.push("gain2", 0.0, 0); }
    #[param(logarithmic = true, range = 0.5..=1.0, default = -3.25)]
    pub fn p7_42(&mut self, v: f64) { self.log.push("p7_42", v, 0); }
    #[param]
    pub fn freq(&mut self, ) { self.log.push("freq", 0.0, 0); }
    #[param]
    pub fn p13_35(&mut self, v: bool) { self.log.push("p13_35", v as u8 as f64, 0); }
    #[param(default = 100.0, logarithmic = true, kind = Frequency)]
    pub fn p15_33(&mut self, v: PFloat) { self.log.push("p15_33", v, 0); }
}

pub struct Gen67<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen67<F> {
    type Inputs = U5;
    type Outputs = U10;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(logarithmic = true)]
    pub fn freq(&mut self, v: f32) { self.log.push("freq", v as f64, 0); }
    #[param(from = Wave)]
    pub fn p1_82(&mut self, v: PInteger) { self.log.push("p1_82", v.0 as f64, 0); }
    fn process_block(&mut self, input: [&[F]; 5], output: [&mut [F]; 10]) {
        let n = output[0].len();
        let mut output = output;
        for f in 0..n { for j in 0..10 { output[j][f] = block_out(&core::array::from_fn::<F, 5, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 5]) -> [F; 10] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Frequency, default = -3.25)]
    pub fn p2_89(&mut self, v: PFloat) { self.log.push("p2_89", v, 0); }
    #[param]
    pub fn p0_52(&mut self, ) { self.log.push("p0_52", 0.0, 0); }
    #[param(kind = Frequency, default = 0.5)]
    pub fn p9_93(&mut self, v: f32) { self.log.push("p9_93", v as f64, 0); }
    #[param(logarithmic = true, default = 0.0, range = 0.5..=1.0)]
    pub fn p3_16(&mut self, v: f32) { self.log.push("p3_16", v as f64, 0); }
    #[param(default = 100.0, logarithmic = true)]
    pub fn on(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("on", v, ctx.sample_rate()); }
    #[param]
    pub fn p8_47(&mut self, ctx: &AudioCtx) { self.log.push("p8_47", 0.0, ctx.sample_rate()); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(logarithmic = false, kind = Frequency)]
    pub fn mode(&mut self, v: f32) { self.log.push("mode", v as f64, 0); }
}

pub struct Gen68<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen68<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(from = Done)]
    pub fn p5_25(&mut self, v: PInteger) { self.log.push("p5_25", v.0 as f64, 0); }
    #[param]
    pub fn p7_58(&mut self, v: bool) { self.log.push("p7_58", v as u8 as f64, 0); }
    #[param(range = -10.0..=20000.0, kind = Seconds, default = 100.0)]
    pub fn zeta(&mut self, v: PFloat) { self.log.push("zeta", v, 0); }
    #[param(kind = Frequency, default = -3.25, logarithmic = true)]
    pub fn on(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("on", v, ctx.sample_rate()); }
    #[param(default = -3.25, logarithmic = true, range = 0.5..=1.0, kind = Q)]
    pub fn gain2(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("gain2", v, ctx.sample_rate()); }
    #[param]
    pub fn p12_87(&mut self, ) { self.log.push("p12_87", 0.0, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 13]) -> [F; 2] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn p19_87(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("p19_87", v.0 as f64, ctx.sample_rate()); }
    #[param(default = 100.0, range = 0.5..=1.0, kind = Seconds)]
    pub fn alpha(&mut self, v: f64) { self.log.push("alpha", v, 0); }
    #[param]
    pub fn p4_30(&mut self, ) { self.log.push("p4_30", 0.0, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(default = 0.0, range = -10.0..=20000.0, logarithmic = false, kind = Seconds)]
    pub fn p14_6(&mut self, v: f64) { self.log.push("p14_6", v, 0); }
    #[param]
    pub fn p0_8(&mut self, ctx: &mut AudioCtx) { self.log.push("p0_8", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn n(&mut self, v: PInteger) { self.log.push("n", v.0 as f64, 0); }
    #[param(default = 0.0, kind = Frequency, range = 0.5..=1.0)]
    pub fn p3_29(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p3_29", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn p17_50(&mut self, ) { self.log.push("p17_50", 0.0, 0); }
    #[param]
    pub fn p11_73(&mut self, ctx: &mut AudioCtx) { self.log.push("p11_73", 0.0, ctx.sample_rate()); }
    #[param(kind = Frequency, range = 0.5..=1.0)]
    pub fn p6_75(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("p6_75", v, ctx.sample_rate()); }
    #[param]
    pub fn mode(&mut self, ) { self.log.push("mode", 0.0, 0); }
}

pub struct Gen69<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen69<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn p18_85(&mut self, ) { self.log.push("p18_85", 0.0, 0); }
    #[param]
    pub fn t_restart(&mut self, ) { self.log.push("t_restart", 0.0, 0); }
    #[param(from = Gap)]
    pub fn p19_52(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("p19_52", v.0 as f64, ctx.sample_rate()); }
    #[param(default = 0.0, range = -10.0..=20000.0, kind = Q)]
    pub fn on(&mut self, v: f64) { self.log.push("on", v, 0); }
    #[param(kind = Amplitude, range = -10.0..=20000.0, default = 0.0)]
    pub fn q(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("q", v, ctx.sample_rate()); }
    #[param]
    pub fn p15_60(&mut self, ) { self.log.push("p15_60", 0.0, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn p12_35(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("p12_35", v as u8 as f64, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 1]) -> [F; 9] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(default = 100.0, range = 0.5..=1.0, kind = Frequency, logarithmic = false)]
    pub fn p2_79(&mut self, v: PFloat) { self.log.push("p2_79", v, 0); }
    #[param]
    pub fn p8_99(&mut self, ) { self.log.push("p8_99", 0.0, 0); }
    #[param]
    pub fn p6_81(&mut self, ) { self.log.push("p6_81", 0.0, 0); }
}

pub struct Gen70<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen70<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(kind = Frequency, logarithmic = true)]
    pub fn p4_73(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("p4_73", v, ctx.sample_rate()); }
    #[param(kind = Q, default = -3.25)]
    pub fn p3_36(&mut self, v: f32) { self.log.push("p3_36", v as f64, 0); }
    #[param(kind = Seconds, logarithmic = false, default = 0.5)]
    pub fn p14_54(&mut self, v: PFloat) { self.log.push("p14_54", v, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(from = Done)]
    pub fn n(&mut self, v: PInteger) { self.log.push("n", v.0 as f64, 0); }
    #[param]
    pub fn p12_64(&mut self, v: PInteger) { self.log.push("p12_64", v.0 as f64, 0); }
    #[param(default = -3.25, logarithmic = true, kind = Seconds, range = 0.5..=1.0)]
    pub fn delay_time(&mut self, v: PFloat) { self.log.push("delay_time", v, 0); }
    #[param(kind = Seconds, range = 0.5..=1.0, default = 0.0, logarithmic = true)]
    pub fn p17_80(&mut self, v: PFloat) { self.log.push("p17_80", v, 0); }
    #[param(default = 0.0, range = 0.5..=1.0, kind = Q)]
    pub fn alpha(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("alpha", v, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Frequency, default = 100.0)]
    pub fn t_restart(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("t_restart", v, ctx.sample_rate()); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, input: [F; 6]) -> [F; 0] {
        self.log.tick(ctx.sample_rate());
        self.n += 1;
        []
    }
    #[process_block]
    fn tick_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 6]) {
        let n = input[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let _ = &input;
        self.n += n as u64;
    }
    #[param]
    pub fn p8_28(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("p8_28", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p11_3(&mut self, v: bool) { self.log.push("p11_3", v as u8 as f64, 0); }
    #[param(range = -10.0..=20000.0, default = 0.0)]
    pub fn p15_47(&mut self, v: f32) { self.log.push("p15_47", v as f64, 0); }
    #[param]
    pub fn amp(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("amp", v as u8 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, kind = Q, range = 0.5..=1.0, default = 0.0)]
    pub fn p9_99(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("p9_99", v, ctx.sample_rate()); }
}

pub struct Gen71<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen71<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(logarithmic = true, kind = Frequency, default = 100.0)]
    pub fn q(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("q", v, ctx.sample_rate()); }
    #[param(kind = Q, range = 0.5..=1.0, default = 100.0)]
    pub fn on(&mut self, v: f64) { self.log.push("on", v, 0); }
    #[param(default = 0.0, range = -10.0..=20000.0)]
    pub fn p2_12(&mut self, v: f64) { self.log.push("p2_12", v, 0); }
    #[param(logarithmic = true, kind = Seconds)]
    pub fn t_restart(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("t_restart", v, ctx.sample_rate()); }
    #[param(kind = Frequency, logarithmic = false)]
    pub fn p3_23(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("p3_23", v as f64, ctx.sample_rate()); }
    #[param(default = -3.25, logarithmic = true, kind = Seconds)]
    pub fn p7_78(&mut self, v: f64) { self.log.push("p7_78", v, 0); }
    #[param(kind = Amplitude, logarithmic = true)]
    pub fn freq(&mut self, v: f64) { self.log.push("freq", v, 0); }
    #[param(from = Done)]
    pub fn p5_67(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p5_67", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true)]
    pub fn p13_0(&mut self, v: PFloat) { self.log.push("p13_0", v, 0); }
    #[param(range = 0.5..=1.0, logarithmic = false, kind = Frequency)]
    pub fn p12_48(&mut self, v: f32) { self.log.push("p12_48", v as f64, 0); }
    #[param]
    pub fn mode(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("mode", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn zeta(&mut self, v: bool) { self.log.push("zeta", v as u8 as f64, 0); }
    #[param]
    pub fn p4_18(&mut self, v: f64) { self.log.push("p4_18", v, 0); }
    #[param]
    pub fn n(&mut self, ) { self.log.push("n", 0.0, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 7]) -> [F; 3] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn amp(&mut self, ) { self.log.push("amp", 0.0, 0); }
    #[param]
    pub fn p1_90(&mut self, ctx: &AudioCtx) { self.log.push("p1_90", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn p9_41(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p9_41", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p16_71(&mut self, v: bool) { self.log.push("p16_71", v as u8 as f64, 0); }
    #[param(range = 0.5..=1.0, kind = Frequency, default = -3.25)]
    pub fn gain2(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("gain2", v, ctx.sample_rate()); }
    #[param(kind = Q, default = -3.25, logarithmic = false)]
    pub fn p0_97(&mut self, v: f32) { self.log.push("p0_97", v as f64, 0); }
    #[param]
    pub fn p10_13(&mut self, v: bool) { self.log.push("p10_13", v as u8 as f64, 0); }
    #[param(default = 0.5, kind = Seconds)]
    pub fn alpha(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("alpha", v, ctx.sample_rate()); }
}

pub struct Gen72<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen72<F> {
    type Inputs = U9;
    type Outputs = U8;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(range = -10.0..=20000.0, default = 100.0, kind = Amplitude)]
    pub fn p12_3(&mut self, v: f64) { self.log.push("p12_3", v, 0); }
    #[param]
    pub fn p3_66(&mut self, v: PInteger) { self.log.push("p3_66", v.0 as f64, 0); }
    #[param(logarithmic = false, kind = Frequency, default = 100.0)]
    pub fn q(&mut self, v: f32) { self.log.push("q", v as f64, 0); }
    #[param]
    pub fn p16_28(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("p16_28", v as u8 as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(range = 0.5..=1.0, default = 0.0, logarithmic = true, kind = Frequency)]
    pub fn p11_97(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("p11_97", v as f64, ctx.sample_rate()); }
    #[param(kind = Q, default = 0.0, logarithmic = true, range = 0.5..=1.0)]
    pub fn p8_36(&mut self, v: f32) { self.log.push("p8_36", v as f64, 0); }
    #[param(from = Gap)]
    pub fn p2_21(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p2_21", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p13_28(&mut self, ) { self.log.push("p13_28", 0.0, 0); }
    #[param(kind = Q, default = 0.5, logarithmic = true, range = 0.5..=1.0)]
    pub fn mode(&mut self, v: f64) { self.log.push("mode", v, 0); }
    #[param]
    pub fn zeta(&mut self, ) { self.log.push("zeta", 0.0, 0); }
    #[param]
    pub fn p6_31(&mut self, ) { self.log.push("p6_31", 0.0, 0); }
    #[param(default = 0.0, range = -10.0..=20000.0)]
    pub fn amp(&mut self, v: f64) { self.log.push("amp", v, 0); }
    #[param(logarithmic = true, range = -10.0..=20000.0, kind = Amplitude)]
    pub fn freq(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("freq", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, range = -10.0..=20000.0)]
    pub fn p18_49(&mut self, v: PFloat) { self.log.push("p18_49", v, 0); }
    #[param(kind = Amplitude, logarithmic = true, default = 0.0)]
    pub fn p5_14(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("p5_14", v, ctx.sample_rate()); }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 9] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..8 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    #[param(kind = Q, range = -10.0..=20000.0, default = 0.5, logarithmic = false)]
    pub fn p14_83(&mut self, v: f32) { self.log.push("p14_83", v as f64, 0); }
    #[param(logarithmic = false, default = 0.0, kind = Amplitude)]
    pub fn p15_24(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("p15_24", v, ctx.sample_rate()); }
    #[param(kind = Amplitude, logarithmic = false)]
    pub fn alpha(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("alpha", v, ctx.sample_rate()); }
    #[param]
    pub fn p7_21(&mut self, v: bool) { self.log.push("p7_21", v as u8 as f64, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U8>::default();
        for j in 0..8 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
}

pub struct Gen73<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen73<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    fn process_block(&mut self, input: [&[F]; 9], output: [&mut [F]; 2]) {
        let n = output[0].len();
        let mut output = output;
        for f in 0..n { for j in 0..2 { output[j][f] = block_out(&core::array::from_fn::<F, 9, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param(range = 0.5..=1.0, default = 100.0)]
    pub fn p11_52(&mut self, v: f32) { self.log.push("p11_52", v as f64, 0); }
    #[param]
    pub fn n(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("n", v as u8 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, kind = Seconds, default = 0.5, range = 0.5..=1.0)]
    pub fn freq(&mut self, v: PFloat) { self.log.push("freq", v, 0); }
    #[param]
    pub fn p6_23(&mut self, ) { self.log.push("p6_23", 0.0, 0); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(kind = Seconds, default = 0.0, logarithmic = true)]
    pub fn p19_7(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("p19_7", v, ctx.sample_rate()); }
    #[param]
    pub fn t_restart(&mut self, v: bool) { self.log.push("t_restart", v as u8 as f64, 0); }
    #[param]
    pub fn p0_55(&mut self, v: PFloat) { self.log.push("p0_55", v, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 9]) -> [F; 2] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Frequency, default = 0.5, logarithmic = false)]
    pub fn p5_48(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p5_48", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, default = 0.5)]
    pub fn p13_67(&mut self, v: f32) { self.log.push("p13_67", v as f64, 0); }
    #[param(kind = Frequency, logarithmic = true, range = 0.5..=1.0)]
    pub fn mode(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("mode", v, ctx.sample_rate()); }
    #[param(from = Gap)]
    pub fn on(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("on", v.0 as f64, ctx.sample_rate()); }
    #[param(kind = Frequency)]
    pub fn zeta(&mut self, v: f32) { self.log.push("zeta", v as f64, 0); }
    #[param(default = -3.25, range = 0.5..=1.0, kind = Amplitude, logarithmic = true)]
    pub fn p16_9(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p16_9", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn p1_9(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p1_9", v as u8 as f64, ctx.sample_rate()); }
    #[param(from = Gap)]
    pub fn p7_88(&mut self, v: PInteger, ctx: &mut AudioCtx) { self.log.push("p7_88", v.0 as f64, ctx.sample_rate()); }
    #[param(kind = Amplitude)]
    pub fn p2_75(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p2_75", v as f64, ctx.sample_rate()); }
}

pub struct Gen74<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen74<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn t_restart(&mut self, v: bool) { self.log.push("t_restart", v as u8 as f64, 0); }
    #[param]
    pub fn p12_92(&mut self, ctx: &mut AudioCtx) { self.log.push("p12_92", 0.0, ctx.sample_rate()); }
    #[param(kind = Seconds, range = 0.5..=1.0, logarithmic = true)]
    pub fn p8_39(&mut self, v: f64, ctx: &AudioCtx) { self.log.push("p8_39", v, ctx.sample_rate()); }
    #[param]
    pub fn p17_40(&mut self, ctx: &mut AudioCtx) { self.log.push("p17_40", 0.0, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 8]) -> [F; 16] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Seconds, range = -10.0..=20000.0, default = 0.5)]
    pub fn p14_7(&mut self, v: PFloat) { self.log.push("p14_7", v, 0); }
    #[param(logarithmic = true, default = -3.25)]
    pub fn p13_39(&mut self, v: f32) { self.log.push("p13_39", v as f64, 0); }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 8], output: [&mut [F]; 16]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..16 { output[j][f] = block_out(&core::array::from_fn::<F, 8, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param]
    pub fn p0_28(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p0_28", v as u8 as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn p6_87(&mut self, ctx: &AudioCtx) { self.log.push("p6_87", 0.0, ctx.sample_rate()); }
    #[param(from = Done)]
    pub fn p10_40(&mut self, v: PInteger) { self.log.push("p10_40", v.0 as f64, 0); }
    #[param]
    pub fn mode(&mut self, ) { self.log.push("mode", 0.0, 0); }
    #[param(kind = Seconds, range = 0.5..=1.0)]
    pub fn amp(&mut self, v: f64) { self.log.push("amp", v, 0); }
    #[param(default = 100.0, range = -10.0..=20000.0, kind = Amplitude, logarithmic = false)]
    pub fn freq(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("freq", v as f64, ctx.sample_rate()); }
    #[param(kind = Seconds, range = -10.0..=20000.0)]
    pub fn zeta(&mut self, v: PFloat) { self.log.push("zeta", v, 0); }
    #[param(default = 0.5, logarithmic = true, range = 0.5..=1.0, kind = Amplitude)]
    pub fn p18_11(&mut self, v: PFloat) { self.log.push("p18_11", v, 0); }
    #[param(kind = Amplitude, range = 0.5..=1.0, default = 100.0)]
    pub fn p15_99(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("p15_99", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn p19_37(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("p19_37", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p2_98(&mut self, ) { self.log.push("p2_98", 0.0, 0); }
    #[param(logarithmic = false, kind = Frequency, default = 100.0)]
    pub fn p4_90(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("p4_90", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn p7_89(&mut self, ) { self.log.push("p7_89", 0.0, 0); }
    #[param]
    pub fn p11_66(&mut self, ) { self.log.push("p11_66", 0.0, 0); }
    #[param]
    pub fn p1_59(&mut self, v: bool) { self.log.push("p1_59", v as u8 as f64, 0); }
}

pub struct Gen75<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen75<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn zeta(&mut self, v: PInteger) { self.log.push("zeta", v.0 as f64, 0); }
    #[param(from = Gap)]
    pub fn p7_80(&mut self, v: PInteger) { self.log.push("p7_80", v.0 as f64, 0); }
    #[param(from = Done)]
    pub fn p9_60(&mut self, v: PInteger) { self.log.push("p9_60", v.0 as f64, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn delay_time(&mut self, ) { self.log.push("delay_time", 0.0, 0); }
    #[param]
    pub fn mode(&mut self, ctx: &mut AudioCtx) { self.log.push("mode", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn gain2(&mut self, v: PInteger) { self.log.push("gain2", v.0 as f64, 0); }
    #[param(kind = Seconds, logarithmic = true, default = -3.25)]
    pub fn p8_73(&mut self, v: f64) { self.log.push("p8_73", v, 0); }
    #[param]
    pub fn p1_51(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p1_51", v as u8 as f64, ctx.sample_rate()); }
    #[param(range = 0.5..=1.0, default = 100.0, kind = Amplitude)]
    pub fn p0_81(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p0_81", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Frequency, range = 0.5..=1.0)]
    pub fn p11_44(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p11_44", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Q, default = 0.0, range = 0.5..=1.0)]
    pub fn p6_81(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("p6_81", v as f64, ctx.sample_rate()); }
    #[param(kind = Seconds, default = 0.0, logarithmic = false)]
    pub fn p12_93(&mut self, v: f32) { self.log.push("p12_93", v as f64, 0); }
    #[param(kind = Q, default = 0.5, logarithmic = false)]
    pub fn p19_75(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("p19_75", v as f64, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 15]) -> [F; 14] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn p13_39(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p13_39", v as u8 as f64, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Frequency, logarithmic = false)]
    pub fn p14_94(&mut self, v: f32) { self.log.push("p14_94", v as f64, 0); }
    #[param]
    pub fn p16_73(&mut self, ctx: &AudioCtx) { self.log.push("p16_73", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn on(&mut self, ) { self.log.push("on", 0.0, 0); }
    #[param]
    pub fn p18_76(&mut self, ) { self.log.push("p18_76", 0.0, 0); }
    #[param(default = 100.0, kind = Seconds, range = -10.0..=20000.0, logarithmic = true)]
    pub fn q(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("q", v, ctx.sample_rate()); }
    #[param]
    pub fn alpha(&mut self, ctx: &mut AudioCtx) { self.log.push("alpha", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn freq(&mut self, ) { self.log.push("freq", 0.0, 0); }
}

pub struct Gen76<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen76<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn t_restart(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("t_restart", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p10_46(&mut self, v: bool) { self.log.push("p10_46", v as u8 as f64, 0); }
    #[param(logarithmic = true)]
    pub fn p3_3(&mut self, v: f64) { self.log.push("p3_3", v, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 16]) -> [F; 12] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Q, logarithmic = true, range = -10.0..=20000.0)]
    pub fn amp(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("amp", v as f64, ctx.sample_rate()); }
    #[param(from = Wave)]
    pub fn on(&mut self, v: PInteger) { self.log.push("on", v.0 as f64, 0); }
    #[param(kind = Q, default = 0.5, logarithmic = false)]
    pub fn freq(&mut self, v: f32) { self.log.push("freq", v as f64, 0); }
    #[param(from = Wave)]
    pub fn p5_41(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("p5_41", v.0 as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn p14_70(&mut self, v: PInteger) { self.log.push("p14_70", v.0 as f64, 0); }
    #[param]
    pub fn p4_78(&mut self, ) { self.log.push("p4_78", 0.0, 0); }
    #[param]
    pub fn p9_35(&mut self, v: bool) { self.log.push("p9_35", v as u8 as f64, 0); }
    #[param(logarithmic = true, kind = Frequency, range = 0.5..=1.0, default = -3.25)]
    pub fn n(&mut self, v: f32) { self.log.push("n", v as f64, 0); }
    #[param(logarithmic = false, kind = Seconds)]
    pub fn p15_68(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("p15_68", v, ctx.sample_rate()); }
}

pub struct Gen77<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen77<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(logarithmic = true, kind = Frequency, range = 0.5..=1.0, default = 100.0)]
    pub fn gain2(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("gain2", v, ctx.sample_rate()); }
    #[param(range = 0.5..=1.0, kind = Amplitude, default = -3.25)]
    pub fn p12_10(&mut self, v: f32) { self.log.push("p12_10", v as f64, 0); }
    #[param(default = 100.0, logarithmic = true, kind = Frequency)]
    pub fn on(&mut self, v: f32) { self.log.push("on", v as f64, 0); }
    #[param]
    pub fn p19_90(&mut self, ctx: &mut AudioCtx) { self.log.push("p19_90", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn p5_10(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("p5_10", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p2_69(&mut self, ) { self.log.push("p2_69", 0.0, 0); }
    #[param(kind = Amplitude, default = 100.0, logarithmic = true)]
    pub fn p9_19(&mut self, v: f64) { self.log.push("p9_19", v, 0); }
    #[param]
    pub fn alpha(&mut self, v: bool) { self.log.push("alpha", v as u8 as f64, 0); }
    #[param(logarithmic = true, range = 0.5..=1.0)]
    pub fn freq(&mut self, v: f64) { self.log.push("freq", v, 0); }
    #[param(logarithmic = false, kind = Frequency, default = -3.25)]
    pub fn p15_37(&mut self, v: f32) { self.log.push("p15_37", v as f64, 0); }
    #[param]
    pub fn p6_62(&mut self, ctx: &AudioCtx) { self.log.push("p6_62", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn p3_62(&mut self, v: bool) { self.log.push("p3_62", v as u8 as f64, 0); }
    #[param(logarithmic = false, default = 100.0)]
    pub fn p4_35(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("p4_35", v, ctx.sample_rate()); }
    #[param]
    pub fn p0_20(&mut self, ctx: &AudioCtx) { self.log.push("p0_20", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn p10_54(&mut self, v: PInteger) { self.log.push("p10_54", v.0 as f64, 0); }
    #[param]
    pub fn p8_5(&mut self, v: bool) { self.log.push("p8_5", v as u8 as f64, 0); }
    #[param]
    pub fn t_restart(&mut self, v: PInteger) { self.log.push("t_restart", v.0 as f64, 0); }
    #[param(logarithmic = false, default = 0.5, range = -10.0..=20000.0, kind = Amplitude)]
    pub fn p17_64(&mut self, v: PFloat) { self.log.push("p17_64", v, 0); }
    #[param(logarithmic = false, default = 100.0, range = 0.5..=1.0)]
    pub fn delay_time(&mut self, v: f32) { self.log.push("delay_time", v as f64, 0); }
    #[param]
    pub fn amp(&mut self, v: bool) { self.log.push("amp", v as u8 as f64, 0); }
    #[param(kind = Q, default = 0.5, logarithmic = false, range = 0.5..=1.0)]
    pub fn p16_75(&mut self, v: f64) { self.log.push("p16_75", v, 0); }
    #[process]
    fn tick(&mut self, input: [F; 13]) -> [F; 10] {
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn p11_97(&mut self, v: bool) { self.log.push("p11_97", v as u8 as f64, 0); }
    #[param(default = -3.25, logarithmic = false, range = 0.5..=1.0)]
    pub fn p14_53(&mut self, v: f32) { self.log.push("p14_53", v as f64, 0); }
}

pub struct Gen78<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen78<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn p15_12(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p15_12", v.0 as f64, ctx.sample_rate()); }
    #[param(default = 100.0, range = 0.5..=1.0, logarithmic = false)]
    pub fn n(&mut self, v: f32) { self.log.push("n", v as f64, 0); }
    #[param(range = -10.0..=20000.0, kind = Amplitude)]
    pub fn p19_59(&mut self, v: PFloat) { self.log.push("p19_59", v, 0); }
    #[param(default = 0.0, range = -10.0..=20000.0)]
    pub fn p16_71(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p16_71", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Amplitude, default = 0.0)]
    pub fn p3_20(&mut self, v: f32) { self.log.push("p3_20", v as f64, 0); }
    #[param(default = 0.5, kind = Amplitude, logarithmic = false)]
    pub fn gain2(&mut self, v: f64, ctx: &AudioCtx) { self.log.push("gain2", v, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, output: [&mut [F]; 2]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..2 { output[j][f] = block_out(&[], j, self.n + f as u64); } }
        self.n += n as u64;
    }
    fn process(&mut self) -> [F; 2] {
        let o = core::array::from_fn(|j| frame_out(&[], j, self.n));
        self.n += 1;
        o
    }
    #[param(range = -10.0..=20000.0, default = 0.0, kind = Frequency)]
    pub fn p18_52(&mut self, v: f64) { self.log.push("p18_52", v, 0); }
}

pub struct Gen79<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen79<F> {
    type Inputs = U16;
    type Outputs = U15;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(kind = Q)]
    pub fn p3_41(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("p3_41", v as f64, ctx.sample_rate()); }
    #[param(default = 0.0, kind = Q, logarithmic = false)]
    pub fn p10_44(&mut self, v: f64, ctx: &AudioCtx) { self.log.push("p10_44", v, ctx.sample_rate()); }
    #[param]
    pub fn p13_46(&mut self, ctx: &AudioCtx) { self.log.push("p13_46", 0.0, ctx.sample_rate()); }
    #[param(from = Wave)]
    pub fn p11_21(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p11_21", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, default = 0.0, kind = Frequency)]
    pub fn p18_56(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("p18_56", v, ctx.sample_rate()); }
    #[param(default = 100.0, kind = Q, logarithmic = false)]
    pub fn p19_56(&mut self, v: PFloat) { self.log.push("p19_56", v, 0); }
    #[param(from = Done)]
    pub fn p7_74(&mut self, v: PInteger) { self.log.push("p7_74", v.0 as f64, 0); }
    #[param]
    pub fn p0_91(&mut self, ctx: &AudioCtx) { self.log.push("p0_91", 0.0, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U15>::default();
        for j in 0..15 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param(default = 100.0, logarithmic = true, kind = Seconds, range = 0.5..=1.0)]
    pub fn amp(&mut self, v: PFloat) { self.log.push("amp", v, 0); }
    #[param]
    pub fn q(&mut self, ctx: &AudioCtx) { self.log.push("q", 0.0, ctx.sample_rate()); }
    #[param(kind = Frequency)]
    pub fn gain2(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("gain2", v, ctx.sample_rate()); }
    #[param(default = 100.0, logarithmic = true, kind = Frequency)]
    pub fn p5_6(&mut self, v: PFloat) { self.log.push("p5_6", v, 0); }
    #[param]
    pub fn p14_52(&mut self, ) { self.log.push("p14_52", 0.0, 0); }
    #[param]
    pub fn p8_92(&mut self, v: PInteger) { self.log.push("p8_92", v.0 as f64, 0); }
    #[param]
    pub fn delay_time(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("delay_time", v as u8 as f64, ctx.sample_rate()); }
    #[param(default = -3.25, kind = Seconds)]
    pub fn p15_91(&mut self, v: PFloat) { self.log.push("p15_91", v, 0); }
    #[param]
    pub fn p4_30(&mut self, ctx: &mut AudioCtx) { self.log.push("p4_30", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn on(&mut self, ) { self.log.push("on", 0.0, 0); }
    #[param(logarithmic = true, default = -3.25, range = 0.5..=1.0)]
    pub fn p1_9(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("p1_9", v, ctx.sample_rate()); }
    #[param(kind = Amplitude, logarithmic = false, default = 0.0)]
    pub fn p16_35(&mut self, v: f32) { self.log.push("p16_35", v as f64, 0); }
}

pub struct Gen80<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen80<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(default = 0.0)]
    pub fn n(&mut self, ctx: &mut AudioCtx, v: PFloat) { self.log.push("n", v, ctx.sample_rate()); }
    #[param(from = Done)]
    pub fn p2_61(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p2_61", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, default = -3.25, kind = Q)]
    pub fn q(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("q", v, ctx.sample_rate()); }
    fn process_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 7], output: [&mut [F]; 6]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..6 { output[j][f] = block_out(&core::array::from_fn::<F, 7, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param(default = 0.5, kind = Amplitude, logarithmic = false)]
    pub fn delay_time(&mut self, v: PFloat) { self.log.push("delay_time", v, 0); }
    #[param(kind = Amplitude, default = 0.0, logarithmic = false)]
    pub fn p17_49(&mut self, v: f32) { self.log.push("p17_49", v as f64, 0); }
    #[param(logarithmic = true, kind = Frequency, range = 0.5..=1.0)]
    pub fn t_restart(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("t_restart", v as f64, ctx.sample_rate()); }
    #[param(kind = Seconds, range = -10.0..=20000.0, default = 0.0)]
    pub fn p6_84(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("p6_84", v, ctx.sample_rate()); }
    #[param]
    pub fn zeta(&mut self, ctx: &mut AudioCtx) { self.log.push("zeta", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn p1_91(&mut self, ) { self.log.push("p1_91", 0.0, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 7]) -> [F; 6] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(range = -10.0..=20000.0, logarithmic = true, default = 0.0, kind = Amplitude)]
    pub fn p4_1(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("p4_1", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn p7_48(&mut self, v: bool) { self.log.push("p7_48", v as u8 as f64, 0); }
    #[param(logarithmic = false, kind = Q, range = 0.5..=1.0, default = 0.0)]
    pub fn p5_6(&mut self, v: PFloat) { self.log.push("p5_6", v, 0); }
    #[param]
    pub fn p19_13(&mut self, v: bool) { self.log.push("p19_13", v as u8 as f64, 0); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param]
    pub fn p16_70(&mut self, ) { self.log.push("p16_70", 0.0, 0); }
}

pub struct Gen81<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen81<F> {
    type Inputs = U0;
    type Outputs = U4;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(logarithmic = true, kind = Seconds, default = -3.25)]
    pub fn n(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("n", v as f64, ctx.sample_rate()); }
    #[param(default = 100.0, kind = Seconds, logarithmic = true, range = -10.0..=20000.0)]
    pub fn p17_95(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("p17_95", v as f64, ctx.sample_rate()); }
    #[param(range = 0.5..=1.0, kind = Frequency, default = 0.0, logarithmic = false)]
    pub fn p2_70(&mut self, v: f64, ctx: &AudioCtx) { self.log.push("p2_70", v, ctx.sample_rate()); }
    #[param(default = -3.25, kind = Amplitude, range = -10.0..=20000.0)]
    pub fn alpha(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("alpha", v, ctx.sample_rate()); }
    #[param(logarithmic = false, default = 100.0, kind = Frequency)]
    pub fn p12_58(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("p12_58", v as f64, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Q, default = 100.0, logarithmic = false)]
    pub fn p15_35(&mut self, v: PFloat) { self.log.push("p15_35", v, 0); }
    fn process_block<InBlock, OutBlock>(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: &InBlock, output: &mut OutBlock)
    where InBlock: BlockRead<Sample = Self::Sample> + ?Sized, OutBlock: Block<Sample = Self::Sample> + ?Sized {
        flags.mark_done(self.n as u32);
        let n = ctx.frames_to_process();
        for f in 0..n {
            let x: [F; 0] = core::array::from_fn(|i| input.read(i, f));
            for j in 0..4 { output.write(block_out(&x, j, self.n + f as u64), j, f); }
        }
        self.n += n as u64;
    }
    #[param(kind = Frequency, default = -3.25)]
    pub fn freq(&mut self, v: PFloat) { self.log.push("freq", v, 0); }
    #[param(default = 0.0, kind = Frequency, range = 0.5..=1.0, logarithmic = false)]
    pub fn amp(&mut self, ctx: &mut AudioCtx, v: f32) { self.log.push("amp", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, default = 0.5, kind = Frequency, range = 0.5..=1.0)]
    pub fn p9_69(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("p9_69", v, ctx.sample_rate()); }
    #[param]
    pub fn p8_89(&mut self, ctx: &AudioCtx) { self.log.push("p8_89", 0.0, ctx.sample_rate()); }
    #[param(kind = Frequency, default = -3.25, logarithmic = true)]
    pub fn on(&mut self, v: f32) { self.log.push("on", v as f64, 0); }
    #[param(kind = Amplitude, range = -10.0..=20000.0, logarithmic = true)]
    pub fn p6_18(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("p6_18", v, ctx.sample_rate()); }
    #[param(kind = Frequency, default = 0.0, logarithmic = true)]
    pub fn p19_31(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("p19_31", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn p13_25(&mut self, ) { self.log.push("p13_25", 0.0, 0); }
    #[param(kind = Q, range = -10.0..=20000.0)]
    pub fn p16_34(&mut self, v: f64) { self.log.push("p16_34", v, 0); }
    #[param]
    pub fn p14_28(&mut self, v: PInteger, ctx: &mut AudioCtx) { self.log.push("p14_28", v.0 as f64, ctx.sample_rate()); }
    #[param(kind = Seconds, logarithmic = false, default = 100.0)]
    pub fn p4_78(&mut self, v: f32) { self.log.push("p4_78", v as f64, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U4>::default();
        for j in 0..4 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param(range = 0.5..=1.0, kind = Q)]
    pub fn p7_48(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("p7_48", v, ctx.sample_rate()); }
}

pub struct Gen82<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen82<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn p12_38(&mut self, ctx: &mut AudioCtx) { self.log.push("p12_38", 0.0, ctx.sample_rate()); }
    #[param(default = -3.25, kind = Amplitude, logarithmic = true, range = 0.5..=1.0)]
    pub fn q(&mut self, v: PFloat) { self.log.push("q", v, 0); }
    #[param(from = Done)]
    pub fn t_restart(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("t_restart", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p19_48(&mut self, v: bool) { self.log.push("p19_48", v as u8 as f64, 0); }
    #[param]
    pub fn gain2(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("gain2", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn n(&mut self, ctx: &mut AudioCtx) { self.log.push("n", 0.0, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(logarithmic = true, default = -3.25)]
    pub fn p3_50(&mut self, v: f32) { self.log.push("p3_50", v as f64, 0); }
    #[param]
    pub fn p16_13(&mut self, v: bool) { self.log.push("p16_13", v as u8 as f64, 0); }
    #[param(kind = Amplitude, default = 100.0, logarithmic = false, range = -10.0..=20000.0)]
    pub fn p8_15(&mut self, v: f64) { self.log.push("p8_15", v, 0); }
    #[param(range = -10.0..=20000.0, default = 0.5)]
    pub fn p13_62(&mut self, v: f64) { self.log.push("p13_62", v, 0); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 12]) -> [F; 14] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(from = Wave)]
    pub fn p10_66(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p10_66", v.0 as f64, ctx.sample_rate()); }
    #[param(kind = Seconds, logarithmic = false)]
    pub fn p15_49(&mut self, v: f64) { self.log.push("p15_49", v, 0); }
    #[param(from = Gap)]
    pub fn mode(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("mode", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p18_29(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p18_29", v.0 as f64, ctx.sample_rate()); }
    #[param(default = -3.25)]
    pub fn p0_90(&mut self, v: f64) { self.log.push("p0_90", v, 0); }
    #[param]
    pub fn p17_55(&mut self, ) { self.log.push("p17_55", 0.0, 0); }
    #[param]
    pub fn freq(&mut self, ctx: &mut AudioCtx, v: bool) { self.log.push("freq", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p2_78(&mut self, v: bool) { self.log.push("p2_78", v as u8 as f64, 0); }
}

pub struct Gen83<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen83<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn p2_47(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("p2_47", v.0 as f64, ctx.sample_rate()); }
    #[param(kind = Q)]
    pub fn p10_72(&mut self, v: f64) { self.log.push("p10_72", v, 0); }
    #[param]
    pub fn p11_67(&mut self, ) { self.log.push("p11_67", 0.0, 0); }
    #[param(kind = Frequency, default = 0.0)]
    pub fn alpha(&mut self, v: f64) { self.log.push("alpha", v, 0); }
    #[param(kind = Seconds, default = 100.0, range = -10.0..=20000.0)]
    pub fn p15_13(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("p15_13", v, ctx.sample_rate()); }
    #[param(default = 0.0, kind = Amplitude, range = 0.5..=1.0, logarithmic = false)]
    pub fn p19_91(&mut self, v: f32) { self.log.push("p19_91", v as f64, 0); }
    #[param]
    pub fn on(&mut self, ctx: &mut AudioCtx) { self.log.push("on", 0.0, ctx.sample_rate()); }
    #[param(logarithmic = false, default = 0.5)]
    pub fn p7_21(&mut self, v: PFloat) { self.log.push("p7_21", v, 0); }
    #[param]
    pub fn p4_69(&mut self, ctx: &mut AudioCtx) { self.log.push("p4_69", 0.0, ctx.sample_rate()); }
    fn process_block(&mut self, input: [&[F]; 11], output: [&mut [F]; 9]) {
        let n = output[0].len();
        let mut output = output;
        for f in 0..n { for j in 0..9 { output[j][f] = block_out(&core::array::from_fn::<F, 11, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[param(from = Gap)]
    pub fn freq(&mut self, v: PInteger) { self.log.push("freq", v.0 as f64, 0); }
    #[param]
    pub fn n(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("n", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p13_61(&mut self, v: bool, ctx: &mut AudioCtx) { self.log.push("p13_61", v as u8 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, range = -10.0..=20000.0, kind = Q, default = 100.0)]
    pub fn p3_23(&mut self, v: f64) { self.log.push("p3_23", v, 0); }
    #[param(from = Gap)]
    pub fn delay_time(&mut self, v: PInteger) { self.log.push("delay_time", v.0 as f64, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(from = Done)]
    pub fn q(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("q", v.0 as f64, ctx.sample_rate()); }
    #[param(default = 0.0, kind = Seconds, logarithmic = false)]
    pub fn p5_85(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("p5_85", v, ctx.sample_rate()); }
    #[param(kind = Frequency, default = -3.25, range = -10.0..=20000.0)]
    pub fn p8_11(&mut self, v: f64) { self.log.push("p8_11", v, 0); }
    #[param(logarithmic = true, range = 0.5..=1.0, default = 100.0)]
    pub fn gain2(&mut self, v: PFloat) { self.log.push("gain2", v, 0); }
    #[param(default = 100.0, range = -10.0..=20000.0, kind = Q, logarithmic = true)]
    pub fn p0_39(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("p0_39", v, ctx.sample_rate()); }
    fn process(&mut self, ctx: &mut AudioCtx, input: [F; 11]) -> [F; 9] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn p1_76(&mut self, v: bool) { self.log.push("p1_76", v as u8 as f64, 0); }
    #[param]
    pub fn p9_19(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p9_19", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p18_18(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("p18_18", v.0 as f64, ctx.sample_rate()); }
    #[param(kind = Seconds, range = 0.5..=1.0, default = -3.25)]
    pub fn p12_27(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("p12_27", v, ctx.sample_rate()); }
}

pub struct Gen84<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen84<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags, input: [F; 4]) -> [F; 10] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Frequency, default = 0.0)]
    pub fn n(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("n", v, ctx.sample_rate()); }
    #[param(kind = Seconds, default = 0.5, range = -10.0..=20000.0)]
    pub fn p14_20(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("p14_20", v, ctx.sample_rate()); }
    #[param(from = Done)]
    pub fn p0_44(&mut self, v: PInteger) { self.log.push("p0_44", v.0 as f64, 0); }
    #[param(default = 0.0, kind = Seconds, logarithmic = true)]
    pub fn t_restart(&mut self, v: f64) { self.log.push("t_restart", v, 0); }
    #[param(from = Wave)]
    pub fn alpha(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("alpha", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn freq(&mut self, v: bool) { self.log.push("freq", v as u8 as f64, 0); }
    #[param(default = 0.0, range = -10.0..=20000.0, logarithmic = true)]
    pub fn p17_70(&mut self, ctx: &mut AudioCtx, v: f64) { self.log.push("p17_70", v, ctx.sample_rate()); }
    #[param(logarithmic = true, kind = Frequency)]
    pub fn delay_time(&mut self, v: PFloat) { self.log.push("delay_time", v, 0); }
    #[param(default = 100.0, logarithmic = true, kind = Seconds)]
    pub fn p12_6(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("p12_6", v as f64, ctx.sample_rate()); }
}

pub struct Gen85<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen85<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn p6_10(&mut self, ctx: &mut AudioCtx) { self.log.push("p6_10", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn gain2(&mut self, ) { self.log.push("gain2", 0.0, 0); }
    #[param]
    pub fn q(&mut self, ctx: &AudioCtx) { self.log.push("q", 0.0, ctx.sample_rate()); }
    #[param(from = Gap)]
    pub fn alpha(&mut self, v: PInteger) { self.log.push("alpha", v.0 as f64, 0); }
    #[param(from = Gap)]
    pub fn amp(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("amp", v.0 as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(default = 0.0, kind = Frequency)]
    pub fn p1_15(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("p1_15", v, ctx.sample_rate()); }
    #[param(default = 0.0, kind = Q)]
    pub fn n(&mut self, v: f64) { self.log.push("n", v, 0); }
    #[param(range = -10.0..=20000.0, default = 0.0, kind = Amplitude, logarithmic = true)]
    pub fn p10_39(&mut self, v: PFloat) { self.log.push("p10_39", v, 0); }
    #[param]
    pub fn p14_36(&mut self, ctx: &AudioCtx) { self.log.push("p14_36", 0.0, ctx.sample_rate()); }
    #[param(default = -3.25, logarithmic = false, kind = Seconds)]
    pub fn on(&mut self, v: f64) { self.log.push("on", v, 0); }
    #[param]
    pub fn t_restart(&mut self, ctx: &mut AudioCtx) { self.log.push("t_restart", 0.0, ctx.sample_rate()); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, input: [F; 12]) -> [F; 2] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(from = Gap)]
    pub fn p13_16(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p13_16", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, default = 0.0, kind = Q)]
    pub fn p15_41(&mut self, ctx: &AudioCtx, v: f32) { self.log.push("p15_41", v as f64, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Frequency, default = 0.5)]
    pub fn p19_99(&mut self, v: PFloat) { self.log.push("p19_99", v, 0); }
}

pub struct Gen86<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen86<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(default = 0.0, logarithmic = false, kind = Seconds)]
    pub fn alpha(&mut self, v: f64) { self.log.push("alpha", v, 0); }
    #[param(kind = Amplitude, range = 0.5..=1.0, logarithmic = false, default = 0.5)]
    pub fn p2_88(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("p2_88", v, ctx.sample_rate()); }
    #[process_block]
    fn tick_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 10]) {
        let n = input[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let _ = &input;
        self.n += n as u64;
    }
    #[param(logarithmic = false, range = 0.5..=1.0, kind = Q)]
    pub fn p19_98(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("p19_98", v, ctx.sample_rate()); }
    #[param(from = Wave)]
    pub fn n(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("n", v.0 as f64, ctx.sample_rate()); }
    #[param(from = Done)]
    pub fn p7_40(&mut self, v: PInteger) { self.log.push("p7_40", v.0 as f64, 0); }
    #[param]
    pub fn freq(&mut self, ) { self.log.push("freq", 0.0, 0); }
    #[param]
    pub fn p5_98(&mut self, ) { self.log.push("p5_98", 0.0, 0); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(from = Wave)]
    pub fn p14_96(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("p14_96", v.0 as f64, ctx.sample_rate()); }
    #[param(default = 0.0, kind = Amplitude, logarithmic = true)]
    pub fn p8_63(&mut self, v: f64, ctx: &AudioCtx) { self.log.push("p8_63", v, ctx.sample_rate()); }
    #[param(logarithmic = true, kind = Frequency, default = 0.5)]
    pub fn on(&mut self, v: PFloat) { self.log.push("on", v, 0); }
    #[param(default = 100.0, range = 0.5..=1.0, kind = Amplitude)]
    pub fn p6_82(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("p6_82", v as f64, ctx.sample_rate()); }
    #[param(default = 100.0, logarithmic = false, range = 0.5..=1.0)]
    pub fn p12_70(&mut self, v: PFloat) { self.log.push("p12_70", v, 0); }
    #[process]
    fn tick(&mut self, flags: &mut UGenFlags, input: [F; 10]) -> [F; 0] {
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param(kind = Frequency, range = -10.0..=20000.0, logarithmic = false)]
    pub fn p9_26(&mut self, v: f64) { self.log.push("p9_26", v, 0); }
    #[param(kind = Frequency)]
    pub fn p1_69(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("p1_69", v as f64, ctx.sample_rate()); }
}

pub struct Gen87<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen87<F> {
    type Inputs = U3;
    type Outputs = U10;
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param(kind = Seconds, range = 0.5..=1.0, logarithmic = false)]
    pub fn p11_8(&mut self, v: f64) { self.log.push("p11_8", v, 0); }
    #[param(from = Wave)]
    pub fn q(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("q", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = false, kind = Amplitude, default = 0.0)]
    pub fn p17_5(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("p17_5", v as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, default = 0.0)]
    pub fn freq(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("freq", v, ctx.sample_rate()); }
    #[param]
    pub fn zeta(&mut self, ) { self.log.push("zeta", 0.0, 0); }
    #[param(logarithmic = false)]
    pub fn p15_90(&mut self, v: PFloat) { self.log.push("p15_90", v, 0); }
    fn process(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: Frame<Self::Sample, Self::Inputs>) -> Frame<Self::Sample, Self::Outputs> {
        let _ = ctx;
        flags.mark_done(self.n as u32);
        let mut o = Frame::<F, U10>::default();
        for j in 0..10 { o[j] = frame_out(&input, j, self.n); }
        self.n += 1;
        o
    }
    #[param]
    pub fn p0_24(&mut self, ctx: &mut AudioCtx) { self.log.push("p0_24", 0.0, ctx.sample_rate()); }
    #[param(kind = Q, default = 100.0, logarithmic = true)]
    pub fn p6_86(&mut self, v: f64) { self.log.push("p6_86", v, 0); }
    #[param]
    pub fn p1_62(&mut self, v: bool) { self.log.push("p1_62", v as u8 as f64, 0); }
    #[param]
    pub fn p16_93(&mut self, ) { self.log.push("p16_93", 0.0, 0); }
    #[param]
    pub fn t_restart(&mut self, v: bool) { self.log.push("t_restart", v as u8 as f64, 0); }
    #[param]
    pub fn delay_time(&mut self, ctx: &mut AudioCtx, v: PInteger) { self.log.push("delay_time", v.0 as f64, ctx.sample_rate()); }
    #[param(logarithmic = true, range = -10.0..=20000.0, kind = Frequency)]
    pub fn mode(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("mode", v, ctx.sample_rate()); }
    #[param(kind = Frequency, logarithmic = true)]
    pub fn gain2(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("gain2", v, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Amplitude, logarithmic = true, default = 0.0)]
    pub fn p9_24(&mut self, v: f32, ctx: &mut AudioCtx) { self.log.push("p9_24", v as f64, ctx.sample_rate()); }
    #[param(from = Gap)]
    pub fn p14_67(&mut self, v: PInteger) { self.log.push("p14_67", v.0 as f64, 0); }
    #[param(range = -10.0..=20000.0, default = 0.0, logarithmic = true, kind = Amplitude)]
    pub fn alpha(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("alpha", v as f64, ctx.sample_rate()); }
    #[param]
    pub fn on(&mut self, v: PInteger) { self.log.push("on", v.0 as f64, 0); }
}

pub struct Gen88<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen88<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[param]
    pub fn p9_64(&mut self, ctx: &AudioCtx) { self.log.push("p9_64", 0.0, ctx.sample_rate()); }
    #[param(logarithmic = false, range = -10.0..=20000.0, kind = Amplitude)]
    pub fn p4_32(&mut self, v: PFloat, ctx: &AudioCtx) { self.log.push("p4_32", v, ctx.sample_rate()); }
    #[param]
    pub fn t_restart(&mut self, v: bool) { self.log.push("t_restart", v as u8 as f64, 0); }
    #[param(kind = Seconds, default = 0.5, logarithmic = true)]
    pub fn p6_79(&mut self, v: f64, ctx: &mut AudioCtx) { self.log.push("p6_79", v, ctx.sample_rate()); }
    #[param]
    pub fn alpha(&mut self, ctx: &mut AudioCtx) { self.log.push("alpha", 0.0, ctx.sample_rate()); }
    #[param(default = -3.25, kind = Frequency)]
    pub fn freq(&mut self, v: PFloat, ctx: &mut AudioCtx) { self.log.push("freq", v, ctx.sample_rate()); }
    #[param(default = 0.5, kind = Amplitude, logarithmic = false, range = -10.0..=20000.0)]
    pub fn p13_15(&mut self, v: PFloat) { self.log.push("p13_15", v, 0); }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, input: [F; 15]) -> [F; 4] {
        self.log.tick(ctx.sample_rate());
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn p2_2(&mut self, ) { self.log.push("p2_2", 0.0, 0); }
    #[param(kind = Seconds, logarithmic = true)]
    pub fn on(&mut self, v: PFloat) { self.log.push("on", v, 0); }
    #[param]
    pub fn p0_41(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("p0_41", v as u8 as f64, ctx.sample_rate()); }
    #[param(default = -3.25, range = -10.0..=20000.0, kind = Frequency, logarithmic = false)]
    pub fn zeta(&mut self, v: f64) { self.log.push("zeta", v, 0); }
    #[param]
    pub fn mode(&mut self, ctx: &AudioCtx, v: bool) { self.log.push("mode", v as u8 as f64, ctx.sample_rate()); }
    #[param(kind = Seconds, default = -3.25)]
    pub fn p1_77(&mut self, v: PFloat) { self.log.push("p1_77", v, 0); }
    #[param(range = 0.5..=1.0, logarithmic = false, kind = Frequency, default = 0.0)]
    pub fn p19_68(&mut self, ctx: &AudioCtx, v: PFloat) { self.log.push("p19_68", v, ctx.sample_rate()); }
    #[param(from = Wave)]
    pub fn gain2(&mut self, v: PInteger, ctx: &AudioCtx) { self.log.push("gain2", v.0 as f64, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, kind = Frequency)]
    pub fn p16_26(&mut self, v: f32, ctx: &AudioCtx) { self.log.push("p16_26", v as f64, ctx.sample_rate()); }
    fn init(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[process_block]
    fn tick_block(&mut self, flags: &mut UGenFlags, input: [&[F]; 15], output: [&mut [F]; 4]) {
        let n = output[0].len();
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..4 { output[j][f] = block_out(&core::array::from_fn::<F, 15, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
}

pub struct Gen89<F> { log: Log, n: u64, _f: PhantomData<F> }
#[impl_ugen]
impl<F: Float> Gen89<F> {
    pub fn make(log: Log) -> Self { Self { log, n: 0, _f: PhantomData } }
    #[process_block]
    fn tick_block(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [&[F]; 9], output: [&mut [F]; 10]) {
        let n = output[0].len();
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let mut output = output;
        for f in 0..n { for j in 0..10 { output[j][f] = block_out(&core::array::from_fn::<F, 9, _>(|i| input[i][f]), j, self.n + f as u64); } }
        self.n += n as u64;
    }
    #[process]
    fn tick(&mut self, ctx: &mut AudioCtx, flags: &mut UGenFlags, input: [F; 9]) -> [F; 10] {
        self.log.tick(ctx.sample_rate());
        flags.mark_done(self.n as u32);
        let o = core::array::from_fn(|j| frame_out(&input, j, self.n));
        self.n += 1;
        o
    }
    #[param]
    pub fn p7_68(&mut self, v: bool, ctx: &AudioCtx) { self.log.push("p7_68", v as u8 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p6_2(&mut self, ctx: &AudioCtx) { self.log.push("p6_2", 0.0, ctx.sample_rate()); }
    #[param]
    pub fn on(&mut self, ctx: &mut AudioCtx) { self.log.push("on", 0.0, ctx.sample_rate()); }
    #[param(range = -10.0..=20000.0, default = 0.0, logarithmic = false, kind = Frequency)]
    pub fn n(&mut self, ctx: &AudioCtx, v: f64) { self.log.push("n", v, ctx.sample_rate()); }
    #[param(kind = Seconds, range = -10.0..=20000.0, default = 0.0)]
    pub fn t_restart(&mut self, v: f64) { self.log.push("t_restart", v, 0); }
    #[param]
    pub fn delay_time(&mut self, ctx: &mut AudioCtx) { self.log.push("delay_time", 0.0, ctx.sample_rate()); }
    #[init]
    fn prepare(&mut self, sample_rate: u32, block_size: usize) { self.log.push("init", block_size as f64, sample_rate); }
    #[param(from = Wave)]
    pub fn p4_41(&mut self, ctx: &AudioCtx, v: PInteger) { self.log.push("p4_41", v.0 as f64, ctx.sample_rate()); }
    #[param]
    pub fn p13_33(&mut self, v: bool) { self.log.push("p13_33", v as u8 as f64, 0); }
    #[param]
    pub fn p1_12(&mut self, v: bool) { self.log.push("p1_12", v as u8 as f64, 0); }
    #[param]
    pub fn p19_35(&mut self, ctx: &mut AudioCtx) { self.log.push("p19_35", 0.0, ctx.sample_rate()); }
    #[param(kind = Frequency, default = 100.0)]
    pub fn p10_23(&mut self, v: f32) { self.log.push("p10_23", v as f64, 0); }
}

pub const COUNT: usize = 90;
pub fn any<F: Float>(k: usize, src: &mut Src, ctx: &mut Ctx) -> Res {
    match k {
        0 => run::<Gen0<F>, F>(Gen0::make, Def { ins: 0, outs: 0, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: true, params: &[] }, src, ctx),
        1 => run::<Gen1<F>, F>(Gen1::make, Def { ins: 1, outs: 0, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "gain2", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "alpha", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "zeta", kind: 2, ctx: true, hint: Hint::Int }] }, src, ctx),
        2 => run::<Gen2<F>, F>(Gen2::make, Def { ins: 2, outs: 1, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "n", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "t_restart", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "freq", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "zeta", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "amp", kind: 4, ctx: true, hint: Hint::Trig }] }, src, ctx),
        3 => run::<Gen3<F>, F>(Gen3::make, Def { ins: 3, outs: 4, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "n", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "q", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }] }, src, ctx),
        4 => run::<Gen4<F>, F>(Gen4::make, Def { ins: 4, outs: 0, init: false, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "n", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "delay_time", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "gain2", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }] }, src, ctx),
        5 => run::<Gen5<F>, F>(Gen5::make, Def { ins: 0, outs: 4, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "q", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "t_restart", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        6 => run::<Gen6<F>, F>(Gen6::make, Def { ins: 1, outs: 1, init: true, block: true, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: true, params: &[Par { name: "amp", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "gain2", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "q", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }] }, src, ctx),
        7 => run::<Gen7<F>, F>(Gen7::make, Def { ins: 0, outs: 0, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "mode", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "on", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "freq", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "delay_time", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: None, is_logarithmic: None }) }] }, src, ctx),
        8 => run::<Gen8<F>, F>(Gen8::make, Def { ins: 3, outs: 3, init: false, block: true, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "q", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "alpha", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "amp", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        9 => run::<Gen9<F>, F>(Gen9::make, Def { ins: 4, outs: 3, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        10 => run::<Gen10<F>, F>(Gen10::make, Def { ins: 0, outs: 2, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[] }, src, ctx),
        11 => run::<Gen11<F>, F>(Gen11::make, Def { ins: 1, outs: 0, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "alpha", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "zeta", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "mode", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "on", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "amp", kind: 3, ctx: false, hint: Hint::Bool }] }, src, ctx),
        12 => run::<Gen12<F>, F>(Gen12::make, Def { ins: 2, outs: 1, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: false, params: &[Par { name: "t_restart", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "delay_time", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }] }, src, ctx),
        13 => run::<Gen13<F>, F>(Gen13::make, Def { ins: 3, outs: 0, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "alpha", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "amp", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "t_restart", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "mode", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "delay_time", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        14 => run::<Gen14<F>, F>(Gen14::make, Def { ins: 0, outs: 0, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "t_restart", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "delay_time", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        15 => run::<Gen15<F>, F>(Gen15::make, Def { ins: 0, outs: 3, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: true, params: &[Par { name: "amp", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }] }, src, ctx),
        16 => run::<Gen16<F>, F>(Gen16::make, Def { ins: 1, outs: 0, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "freq", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "mode", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }] }, src, ctx),
        17 => run::<Gen17<F>, F>(Gen17::make, Def { ins: 2, outs: 2, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: false, block_ctx: true, params: &[Par { name: "gain2", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }] }, src, ctx),
        18 => run::<Gen18<F>, F>(Gen18::make, Def { ins: 3, outs: 3, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        19 => run::<Gen19<F>, F>(Gen19::make, Def { ins: 4, outs: 0, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "delay_time", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: None, is_logarithmic: None }) }, Par { name: "mode", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "t_restart", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "zeta", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "freq", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "n", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        20 => run::<Gen20<F>, F>(Gen20::make, Def { ins: 0, outs: 3, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "delay_time", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "zeta", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "gain2", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: None, is_logarithmic: None }) }, Par { name: "mode", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "q", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }] }, src, ctx),
        21 => run::<Gen21<F>, F>(Gen21::make, Def { ins: 0, outs: 0, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: true, params: &[Par { name: "zeta", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: None, is_logarithmic: None }) }, Par { name: "amp", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }] }, src, ctx),
        22 => run::<Gen22<F>, F>(Gen22::make, Def { ins: 2, outs: 3, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: true, block_ctx: false, params: &[Par { name: "gain2", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "mode", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "on", kind: 2, ctx: true, hint: Hint::Int }] }, src, ctx),
        23 => run::<Gen23<F>, F>(Gen23::make, Def { ins: 3, outs: 1, init: false, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: false, params: &[Par { name: "n", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "t_restart", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: None, is_logarithmic: Some(true) }) }] }, src, ctx),
        24 => run::<Gen24<F>, F>(Gen24::make, Def { ins: 4, outs: 1, init: false, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: false, params: &[] }, src, ctx),
        25 => run::<Gen25<F>, F>(Gen25::make, Def { ins: 0, outs: 0, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        26 => run::<Gen26<F>, F>(Gen26::make, Def { ins: 1, outs: 2, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        27 => run::<Gen27<F>, F>(Gen27::make, Def { ins: 2, outs: 1, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        28 => run::<Gen28<F>, F>(Gen28::make, Def { ins: 0, outs: 0, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "zeta", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "gain2", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "amp", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "n", kind: 4, ctx: true, hint: Hint::Trig }] }, src, ctx),
        29 => run::<Gen29<F>, F>(Gen29::make, Def { ins: 4, outs: 0, init: false, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "t_restart", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "alpha", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "gain2", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "on", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        30 => run::<Gen30<F>, F>(Gen30::make, Def { ins: 0, outs: 1, init: true, block: true, frame_flags: false, block_flags: false, frame_ctx: false, block_ctx: true, params: &[Par { name: "freq", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "alpha", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        31 => run::<Gen31<F>, F>(Gen31::make, Def { ins: 1, outs: 0, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: true, params: &[Par { name: "n", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "zeta", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "mode", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "amp", kind: 3, ctx: true, hint: Hint::Bool }] }, src, ctx),
        32 => run::<Gen32<F>, F>(Gen32::make, Def { ins: 2, outs: 1, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "on", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "amp", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "delay_time", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        33 => run::<Gen33<F>, F>(Gen33::make, Def { ins: 3, outs: 0, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "freq", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "amp", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "alpha", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "t_restart", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "zeta", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "q", kind: 3, ctx: false, hint: Hint::Bool }] }, src, ctx),
        34 => run::<Gen34<F>, F>(Gen34::make, Def { ins: 4, outs: 1, init: false, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: false, params: &[Par { name: "amp", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "mode", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "alpha", kind: 3, ctx: false, hint: Hint::Bool }] }, src, ctx),
        35 => run::<Gen35<F>, F>(Gen35::make, Def { ins: 0, outs: 0, init: false, block: true, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: true, params: &[Par { name: "gain2", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "n", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "delay_time", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "zeta", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "t_restart", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }] }, src, ctx),
        36 => run::<Gen36<F>, F>(Gen36::make, Def { ins: 1, outs: 4, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        37 => run::<Gen37<F>, F>(Gen37::make, Def { ins: 2, outs: 3, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "zeta", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }, Par { name: "alpha", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "on", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "t_restart", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "amp", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }] }, src, ctx),
        38 => run::<Gen38<F>, F>(Gen38::make, Def { ins: 3, outs: 3, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        39 => run::<Gen39<F>, F>(Gen39::make, Def { ins: 4, outs: 4, init: true, block: true, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: true, params: &[Par { name: "zeta", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "gain2", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "freq", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }] }, src, ctx),
        40 => run::<Gen40<F>, F>(Gen40::make, Def { ins: 0, outs: 1, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: true, params: &[Par { name: "freq", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "gain2", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "alpha", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "q", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        41 => run::<Gen41<F>, F>(Gen41::make, Def { ins: 1, outs: 3, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "delay_time", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "zeta", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "freq", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "amp", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "n", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        42 => run::<Gen42<F>, F>(Gen42::make, Def { ins: 0, outs: 0, init: true, block: true, frame_flags: false, block_flags: false, frame_ctx: false, block_ctx: true, params: &[Par { name: "t_restart", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "delay_time", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "zeta", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "alpha", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "on", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "mode", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }] }, src, ctx),
        43 => run::<Gen43<F>, F>(Gen43::make, Def { ins: 3, outs: 4, init: false, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        44 => run::<Gen44<F>, F>(Gen44::make, Def { ins: 4, outs: 1, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "mode", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "t_restart", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }] }, src, ctx),
        45 => run::<Gen45<F>, F>(Gen45::make, Def { ins: 0, outs: 3, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[] }, src, ctx),
        46 => run::<Gen46<F>, F>(Gen46::make, Def { ins: 1, outs: 4, init: true, block: true, frame_flags: false, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "mode", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "delay_time", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        47 => run::<Gen47<F>, F>(Gen47::make, Def { ins: 2, outs: 4, init: true, block: true, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "on", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "delay_time", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "q", kind: 4, ctx: true, hint: Hint::Trig }] }, src, ctx),
        48 => run::<Gen48<F>, F>(Gen48::make, Def { ins: 3, outs: 1, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        49 => run::<Gen49<F>, F>(Gen49::make, Def { ins: 0, outs: 0, init: false, block: true, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: true, params: &[Par { name: "freq", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "n", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "on", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "gain2", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "alpha", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "t_restart", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: None, is_logarithmic: Some(true) }) }] }, src, ctx),
        50 => run::<Gen50<F>, F>(Gen50::make, Def { ins: 0, outs: 3, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "q", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }] }, src, ctx),
        51 => run::<Gen51<F>, F>(Gen51::make, Def { ins: 1, outs: 1, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "mode", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "alpha", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "zeta", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }] }, src, ctx),
        52 => run::<Gen52<F>, F>(Gen52::make, Def { ins: 2, outs: 1, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "on", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "t_restart", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "delay_time", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }, Par { name: "amp", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: None, is_logarithmic: Some(true) }) }] }, src, ctx),
        53 => run::<Gen53<F>, F>(Gen53::make, Def { ins: 3, outs: 3, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "mode", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "q", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }, Par { name: "t_restart", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "gain2", kind: 2, ctx: false, hint: Hint::Int }] }, src, ctx),
        54 => run::<Gen54<F>, F>(Gen54::make, Def { ins: 4, outs: 2, init: false, block: true, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[] }, src, ctx),
        55 => run::<Gen55<F>, F>(Gen55::make, Def { ins: 0, outs: 0, init: true, block: true, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: true, params: &[Par { name: "t_restart", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "n", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "amp", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "mode", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        56 => run::<Gen56<F>, F>(Gen56::make, Def { ins: 0, outs: 0, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "delay_time", kind: 3, ctx: true, hint: Hint::Bool }] }, src, ctx),
        57 => run::<Gen57<F>, F>(Gen57::make, Def { ins: 2, outs: 4, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: true, params: &[Par { name: "amp", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "q", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "delay_time", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "t_restart", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "alpha", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }] }, src, ctx),
        58 => run::<Gen58<F>, F>(Gen58::make, Def { ins: 3, outs: 3, init: false, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: false, params: &[Par { name: "freq", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "gain2", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }, Par { name: "mode", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "delay_time", kind: 3, ctx: true, hint: Hint::Bool }] }, src, ctx),
        59 => run::<Gen59<F>, F>(Gen59::make, Def { ins: 4, outs: 2, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: true, params: &[Par { name: "amp", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }] }, src, ctx),
        60 => run::<Gen60<F>, F>(Gen60::make, Def { ins: 16, outs: 9, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "p11_34", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "q", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p17_25", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p18_52", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }, Par { name: "p10_72", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p2_1", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p1_75", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p6_22", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "gain2", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p0_12", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "p12_82", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "alpha", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }, Par { name: "n", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p15_18", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p8_98", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "freq", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "zeta", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p4_3", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p9_70", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p14_65", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p7_63", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "amp", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p3_85", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }] }, src, ctx),
        61 => run::<Gen61<F>, F>(Gen61::make, Def { ins: 11, outs: 0, init: true, block: true, frame_flags: false, block_flags: false, frame_ctx: false, block_ctx: true, params: &[Par { name: "p12_80", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "t_restart", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "gain2", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "p11_80", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p2_11", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p3_44", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p1_67", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p15_6", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p9_94", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "q", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p14_65", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "p19_54", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "delay_time", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p7_88", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "p8_64", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "freq", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p18_26", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p0_35", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "amp", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "alpha", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }] }, src, ctx),
        62 => run::<Gen62<F>, F>(Gen62::make, Def { ins: 2, outs: 10, init: false, block: true, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: true, params: &[Par { name: "p13_53", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p2_86", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p10_47", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "zeta", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p15_67", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p14_46", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p5_88", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p11_71", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: None }) }, Par { name: "alpha", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p4_57", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p7_18", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "p3_94", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }, Par { name: "p16_30", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }, Par { name: "p9_74", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "p8_84", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "delay_time", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }, Par { name: "freq", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "gain2", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p1_28", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "amp", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p0_24", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        63 => run::<Gen63<F>, F>(Gen63::make, Def { ins: 11, outs: 4, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "zeta", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p10_62", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p19_80", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p7_54", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p6_88", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }] }, src, ctx),
        64 => run::<Gen64<F>, F>(Gen64::make, Def { ins: 4, outs: 16, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "p0_83", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p18_99", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "gain2", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p16_12", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }, Par { name: "p4_58", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: None }) }, Par { name: "p12_32", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "alpha", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p15_60", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "p7_46", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p14_71", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p2_70", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p10_35", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p3_90", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p17_83", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }, Par { name: "p11_16", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "delay_time", kind: 3, ctx: true, hint: Hint::Bool }] }, src, ctx),
        65 => run::<Gen65<F>, F>(Gen65::make, Def { ins: 1, outs: 6, init: true, block: true, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "p2_52", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "mode", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p4_81", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p16_84", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p8_64", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "on", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "p5_0", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "q", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "t_restart", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p7_77", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "zeta", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "delay_time", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "freq", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "alpha", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p0_97", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "gain2", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p15_25", kind: 3, ctx: true, hint: Hint::Bool }] }, src, ctx),
        66 => run::<Gen66<F>, F>(Gen66::make, Def { ins: 10, outs: 12, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "zeta", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p14_66", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p11_23", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "t_restart", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "q", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "n", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }, Par { name: "alpha", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p0_74", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p3_6", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p8_24", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "delay_time", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p18_49", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p4_80", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p9_66", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "gain2", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p7_42", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "freq", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p13_35", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p15_33", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }] }, src, ctx),
        67 => run::<Gen67<F>, F>(Gen67::make, Def { ins: 5, outs: 10, init: true, block: true, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "freq", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "p1_82", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }, Par { name: "p2_89", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p0_52", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p9_93", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p3_16", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "on", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "p8_47", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "mode", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }] }, src, ctx),
        68 => run::<Gen68<F>, F>(Gen68::make, Def { ins: 13, outs: 2, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "p5_25", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "p7_58", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "zeta", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "on", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "gain2", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "p12_87", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p19_87", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "alpha", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p4_30", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p14_6", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p0_8", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "n", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "p3_29", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p17_50", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p11_73", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p6_75", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "mode", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        69 => run::<Gen69<F>, F>(Gen69::make, Def { ins: 1, outs: 9, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "p18_85", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "t_restart", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p19_52", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "on", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "q", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p15_60", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p12_35", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p2_79", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p8_99", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p6_81", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        70 => run::<Gen70<F>, F>(Gen70::make, Def { ins: 6, outs: 0, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: true, block_ctx: true, params: &[Par { name: "p4_73", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p3_36", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p14_54", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "n", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "p12_64", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "delay_time", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p17_80", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "alpha", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "t_restart", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p8_28", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p11_3", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p15_47", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }, Par { name: "amp", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p9_99", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }] }, src, ctx),
        71 => run::<Gen71<F>, F>(Gen71::make, Def { ins: 7, outs: 3, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "q", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "on", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p2_12", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }, Par { name: "t_restart", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p3_23", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p7_78", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "freq", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p5_67", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "p13_0", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "p12_48", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "mode", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "zeta", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p4_18", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: None }) }, Par { name: "n", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "amp", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p1_90", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p9_41", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p16_71", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "gain2", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p0_97", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p10_13", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "alpha", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }] }, src, ctx),
        72 => run::<Gen72<F>, F>(Gen72::make, Def { ins: 9, outs: 8, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "p12_3", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p3_66", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "q", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p16_28", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p11_97", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p8_36", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "p2_21", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "p13_28", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "mode", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "zeta", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p6_31", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "amp", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }, Par { name: "freq", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p18_49", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "p5_14", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p14_83", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p15_24", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "alpha", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p7_21", kind: 3, ctx: false, hint: Hint::Bool }] }, src, ctx),
        73 => run::<Gen73<F>, F>(Gen73::make, Def { ins: 9, outs: 2, init: true, block: true, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "p11_52", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }, Par { name: "n", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "freq", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p6_23", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p19_7", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "t_restart", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p0_55", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: None }) }, Par { name: "p5_48", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p13_67", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: None, is_logarithmic: None }) }, Par { name: "mode", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "on", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "zeta", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p16_9", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p1_9", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p7_88", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "p2_75", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        74 => run::<Gen74<F>, F>(Gen74::make, Def { ins: 8, outs: 16, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: true, block_ctx: true, params: &[Par { name: "t_restart", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p12_92", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p8_39", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p17_40", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p14_7", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p13_39", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "p0_28", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p6_87", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p10_40", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "mode", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "amp", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "freq", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "zeta", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p18_11", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p15_99", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p19_37", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p2_98", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p4_90", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p7_89", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p11_66", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p1_59", kind: 3, ctx: false, hint: Hint::Bool }] }, src, ctx),
        75 => run::<Gen75<F>, F>(Gen75::make, Def { ins: 15, outs: 14, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "zeta", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "p7_80", kind: 2, ctx: false, hint: Hint::Enum(&GAP) }, Par { name: "p9_60", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "delay_time", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "mode", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "gain2", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "p8_73", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p1_51", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p0_81", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p11_44", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p6_81", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p12_93", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p19_75", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p13_39", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p14_94", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p16_73", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "on", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p18_76", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "q", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "alpha", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "freq", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        76 => run::<Gen76<F>, F>(Gen76::make, Def { ins: 16, outs: 12, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "t_restart", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p10_46", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p3_3", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "amp", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "on", kind: 2, ctx: false, hint: Hint::Enum(&WAVE) }, Par { name: "freq", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p5_41", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "p14_70", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "p4_78", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p9_35", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "n", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p15_68", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }] }, src, ctx),
        77 => run::<Gen77<F>, F>(Gen77::make, Def { ins: 13, outs: 10, init: false, block: false, frame_flags: false, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "gain2", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p12_10", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "on", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p19_90", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p5_10", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "p2_69", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p9_19", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "alpha", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "freq", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "p15_37", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p6_62", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p3_62", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p4_35", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: None, is_logarithmic: None }) }, Par { name: "p0_20", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p10_54", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "p8_5", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "t_restart", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "p17_64", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "delay_time", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }, Par { name: "amp", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p16_75", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p11_97", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p14_53", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }] }, src, ctx),
        78 => run::<Gen78<F>, F>(Gen78::make, Def { ins: 0, outs: 2, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: false, block_ctx: true, params: &[Par { name: "p15_12", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "n", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }, Par { name: "p19_59", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p16_71", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }, Par { name: "p3_20", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "gain2", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p18_52", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }] }, src, ctx),
        79 => run::<Gen79<F>, F>(Gen79::make, Def { ins: 16, outs: 15, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "p3_41", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p10_44", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p13_46", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p11_21", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "p18_56", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p19_56", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p7_74", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "p0_91", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "amp", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "q", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "gain2", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p5_6", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p14_52", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p8_92", kind: 2, ctx: false, hint: Hint::Int }, Par { name: "delay_time", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p15_91", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p4_30", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "on", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p1_9", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "p16_35", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }] }, src, ctx),
        80 => run::<Gen80<F>, F>(Gen80::make, Def { ins: 7, outs: 6, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: true, params: &[Par { name: "n", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: None, is_logarithmic: None }) }, Par { name: "p2_61", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "q", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "delay_time", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p17_49", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "t_restart", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p6_84", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "zeta", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p1_91", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p4_1", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p7_48", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p5_6", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p19_13", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p16_70", kind: 4, ctx: false, hint: Hint::Trig }] }, src, ctx),
        81 => run::<Gen81<F>, F>(Gen81::make, Def { ins: 0, outs: 4, init: false, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: false, params: &[Par { name: "n", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p17_95", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p2_70", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "alpha", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p12_58", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p15_35", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "freq", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "amp", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p9_69", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p8_89", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "on", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p6_18", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p19_31", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p13_25", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p16_34", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p14_28", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "p4_78", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p7_48", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }] }, src, ctx),
        82 => run::<Gen82<F>, F>(Gen82::make, Def { ins: 12, outs: 14, init: true, block: false, frame_flags: true, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "p12_38", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "q", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "t_restart", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "p19_48", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "gain2", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "n", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p3_50", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "p16_13", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p8_15", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p13_62", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: None }) }, Par { name: "p10_66", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "p15_49", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "mode", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "p18_29", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "p0_90", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: None, is_logarithmic: None }) }, Par { name: "p17_55", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "freq", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p2_78", kind: 3, ctx: false, hint: Hint::Bool }] }, src, ctx),
        83 => run::<Gen83<F>, F>(Gen83::make, Def { ins: 11, outs: 9, init: true, block: true, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "p2_47", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "p10_72", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p11_67", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "alpha", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p15_13", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p19_91", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "on", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p7_21", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: None, is_logarithmic: None }) }, Par { name: "p4_69", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "freq", kind: 2, ctx: false, hint: Hint::Enum(&GAP) }, Par { name: "n", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p13_61", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p3_23", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "delay_time", kind: 2, ctx: false, hint: Hint::Enum(&GAP) }, Par { name: "q", kind: 2, ctx: true, hint: Hint::Enum(&DONE) }, Par { name: "p5_85", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p8_11", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "gain2", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "p0_39", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "p1_76", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p9_19", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p18_18", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "p12_27", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }] }, src, ctx),
        84 => run::<Gen84<F>, F>(Gen84::make, Def { ins: 4, outs: 10, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "n", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p14_20", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p0_44", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "t_restart", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "alpha", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "freq", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p17_70", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: None, is_logarithmic: Some(true) }) }, Par { name: "delay_time", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p12_6", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }] }, src, ctx),
        85 => run::<Gen85<F>, F>(Gen85::make, Def { ins: 12, outs: 2, init: true, block: false, frame_flags: false, block_flags: false, frame_ctx: true, block_ctx: false, params: &[Par { name: "p6_10", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "gain2", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "q", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "alpha", kind: 2, ctx: false, hint: Hint::Enum(&GAP) }, Par { name: "amp", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "p1_15", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "n", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p10_39", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p14_36", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "on", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "t_restart", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p13_16", kind: 2, ctx: true, hint: Hint::Enum(&GAP) }, Par { name: "p15_41", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "p19_99", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }] }, src, ctx),
        86 => run::<Gen86<F>, F>(Gen86::make, Def { ins: 10, outs: 0, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: false, block_ctx: true, params: &[Par { name: "alpha", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p2_88", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p19_98", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Q), is_logarithmic: None }) }, Par { name: "n", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "p7_40", kind: 2, ctx: false, hint: Hint::Enum(&DONE) }, Par { name: "freq", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p5_98", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p14_96", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "p8_63", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "on", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p6_82", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p12_70", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: None, is_logarithmic: None }) }, Par { name: "p9_26", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p1_69", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }] }, src, ctx),
        87 => run::<Gen87<F>, F>(Gen87::make, Def { ins: 3, outs: 10, init: false, block: false, frame_flags: true, block_flags: false, frame_ctx: false, block_ctx: false, params: &[Par { name: "p11_8", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "q", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "p17_5", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "freq", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: None, kind: None, is_logarithmic: Some(true) }) }, Par { name: "zeta", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "p15_90", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: None, is_logarithmic: None }) }, Par { name: "p0_24", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p6_86", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Q), is_logarithmic: Some(true) }) }, Par { name: "p1_62", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p16_93", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "t_restart", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "delay_time", kind: 2, ctx: true, hint: Hint::Int }, Par { name: "mode", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "gain2", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: Some(true) }) }, Par { name: "p9_24", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "p14_67", kind: 2, ctx: false, hint: Hint::Enum(&GAP) }, Par { name: "alpha", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: Some(true) }) }, Par { name: "on", kind: 2, ctx: false, hint: Hint::Int }] }, src, ctx),
        88 => run::<Gen88<F>, F>(Gen88::make, Def { ins: 15, outs: 4, init: true, block: true, frame_flags: false, block_flags: true, frame_ctx: true, block_ctx: false, params: &[Par { name: "p9_64", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p4_32", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "t_restart", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p6_79", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.5), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "alpha", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "freq", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "p13_15", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.5), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Amplitude), is_logarithmic: None }) }, Par { name: "p2_2", kind: 4, ctx: false, hint: Hint::Trig }, Par { name: "on", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: None, range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: Some(true) }) }, Par { name: "p0_41", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "zeta", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "mode", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p1_77", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(-3.25), range: None, kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "p19_68", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(0.5, 1.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "gain2", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "p16_26", kind: 1, ctx: true, hint: Hint::F(PFloatHint { default: None, range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }] }, src, ctx),
        89 => run::<Gen89<F>, F>(Gen89::make, Def { ins: 9, outs: 10, init: true, block: true, frame_flags: true, block_flags: true, frame_ctx: true, block_ctx: true, params: &[Par { name: "p7_68", kind: 3, ctx: true, hint: Hint::Bool }, Par { name: "p6_2", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "on", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "n", kind: 0, ctx: true, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }, Par { name: "t_restart", kind: 0, ctx: false, hint: Hint::F(PFloatHint { default: Some(0.0), range: Some(FloatParameterRange::Range(-10.0, 20000.0)), kind: Some(FloatParameterKind::Seconds), is_logarithmic: None }) }, Par { name: "delay_time", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p4_41", kind: 2, ctx: true, hint: Hint::Enum(&WAVE) }, Par { name: "p13_33", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p1_12", kind: 3, ctx: false, hint: Hint::Bool }, Par { name: "p19_35", kind: 4, ctx: true, hint: Hint::Trig }, Par { name: "p10_23", kind: 1, ctx: false, hint: Hint::F(PFloatHint { default: Some(100.0), range: None, kind: Some(FloatParameterKind::Frequency), is_logarithmic: None }) }] }, src, ctx),
        _ => unreachable!(),
    }
}
