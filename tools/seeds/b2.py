import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'b1.py')).read().split('SEEDS=[')[0])
G='knaster_graph/src/'; D='knaster_core_dsp/src/'; C='knaster_core/src/'
# UGens on their own, without a graph
UG=r'''
#![allow(unused)]
use knaster_core::{*, typenum::*, numeric_array::NumericArray, log::ArLogSender};
use knaster_core_dsp::wrappers_core::*;
fn ctx(sr: u32, bs: usize) -> AudioCtx { AudioCtx::new(sr, bs, ArLogSender::non_rt()) }
/// Puts out its parameters, one channel each.
struct Val { v: [f64; 2], n: usize }
impl UGen for Val {
    type Sample = f64; type Inputs = U0; type Outputs = U2; type Parameters = U2;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<f64, U0>) -> Frame<f64, U2> { self.n += 1; self.v.into() }
    fn param_descriptions() -> NumericArray<&'static str, U2> { ["a", "b"].into() }
    fn param_hints() -> NumericArray<ParameterHint, U2> { [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into() }
    fn param_apply(&mut self, _c: &mut AudioCtx, i: usize, v: ParameterValue) { self.v[i] = v.float().unwrap(); }
}
fn val() -> Val { Val { v: [0.0; 2], n: 0 } }
fn block<U: UGen<Sample = f64>>(u: &mut U, c: &mut AudioCtx, bs: usize) -> Vec<Vec<f64>> {
    let input: Vec<Vec<f64>> = vec![vec![0.0; bs]; U::Inputs::USIZE];
    run(u, c, &input, bs)
}
fn run<U: UGen<Sample = f64>>(u: &mut U, c: &mut AudioCtx, input: &[Vec<f64>], bs: usize) -> Vec<Vec<f64>> {
    let mut i = VecBlock::<f64>::new(U::Inputs::USIZE, bs);
    let mut o = VecBlock::<f64>::new(U::Outputs::USIZE, bs);
    for (k, ch) in input.iter().enumerate() { i.channel_as_slice_mut(k).copy_from_slice(ch); }
    c.block = BlockMetadata::new(bs);
    u.process_block(c, &mut UGenFlags::new(), &i, &mut o);
    (0..U::Outputs::USIZE).map(|k| Block::channel_as_slice(&o, k).to_vec()).collect()
}
'''
SEEDS=[
dict(id='p01-second-modulator', prop='P01',
 needs='a node with two modulated parameters in a graph where the source of the second one is not reached in any other way before the node',
 breaks='the source of the second audio rate parameter connection is processed after the node it modulates, so that the parameter follows the previous block although the connection is no feedback',
 edits=[(G+'graph.rs','for edge in param_input_edges.iter() {','for edge in param_input_edges.iter().take(1) {')],
 demo=PRE+r'''
struct Mod { v: [f32; 2] }
impl UGen for Mod {
    type Sample = f32; type Inputs = U0; type Outputs = U2; type Parameters = U2;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<f32, U0>) -> Frame<f32, U2> { self.v.into() }
    fn param_descriptions() -> NumericArray<&'static str, U2> { ["a", "b"].into() }
    fn param_hints() -> NumericArray<ParameterHint, U2> { [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into() }
    fn param_apply(&mut self, _c: &mut AudioCtx, i: usize, v: ParameterValue) { self.v[i] = v.float().unwrap() as f32; }
}
struct Count(f32);
impl UGen for Count {
    type Sample = f32; type Inputs = U0; type Outputs = U1; type Parameters = U0;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<f32, U0>) -> Frame<f32, U1> { self.0 += 1.0; [self.0].into() }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_apply(&mut self, _c: &mut AudioCtx, _i: usize, _v: ParameterValue) {}
}
fn main() {
    use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U2>(opts());
    g.edit(|g| {
        let m = g.push(Mod { v: [0.0; 2] }.ar_params());
        let a = g.push(Count(0.0));
        let b = g.push(Count(100.0));
        m.link("a", a);
        m.link("b", b);
        m.to_graph_out();
    });
    for k in 0..5 {
        p.run_without_inputs();
        let o = p.output_block();
        for f in 0..8 {
            let n = (k * 8 + f + 1) as f32;
            assert_eq!([o.read(0, f), o.read(1, f)], [n, n + 100.0]);
        }
    }
}
'''),
dict(id='p04-slow-drop', prop='P04',
 needs='more commits between two blocks than are cleared up per commit, so that what the audio thread gives back piles up',
 breaks='a commit clears up only the oldest one of the task lists the audio thread has given back, so that removed nodes live on for many commits more',
 edits=[(G+'graph.rs','let num_to_remove = self.task_data_to_be_dropped_consumer.slots();','let num_to_remove = self.task_data_to_be_dropped_consumer.slots().min(1);')],
 demo=PRE+r'''
use std::sync::atomic::{AtomicUsize, Ordering};
static DROPS: AtomicUsize = AtomicUsize::new(0);
struct D(f32);
impl Drop for D { fn drop(&mut self) { DROPS.fetch_add(1, Ordering::SeqCst); } }
impl UGen for D {
    type Sample = f32; type Inputs = U0; type Outputs = U1; type Parameters = U0;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<f32, U0>) -> Frame<f32, U1> { [self.0].into() }
    fn param_hints() -> NumericArray<ParameterHint, U0> { [].into() }
    fn param_apply(&mut self, _c: &mut AudioCtx, _i: usize, _v: ParameterValue) {}
}
fn main() {
    use knaster_graph::handle::HandleTrait;
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(opts());
    for _ in 0..4 {
        let id = g.edit(|g| g.push(D(1.0)).id());
        p.run_without_inputs();
        for _ in 0..12 { g.edit(|g| { g.push(node::<U0, U1>(1.0)); }); }
        g.edit(|g| { g.free_node(id).unwrap(); });
        p.run_without_inputs();
    }
    for _ in 0..4 { p.run_without_inputs(); g.edit(|g| { g.push(node::<U0, U1>(1.0)); }); }
    assert_eq!(DROPS.load(Ordering::SeqCst), 4);
}
'''),
dict(id='p06-nested-offset', prop='P06',
 needs='two wrappers with precise timing around one UGen, or any other partial block, and a change later in the block than where the partial block starts',
 breaks='within a partial block, a delayed change is applied later than its frame by the offset of the partial block',
 edits=[(D+'wrappers_core/precise_timing.rs','if (*delay as usize) <= block_i + ctx.block_start_offset() {','if (*delay as usize) <= block_i {'),
        (D+'wrappers_core/precise_timing.rs','.min((*delay) as usize - ctx.block_start_offset() - block_i);','.min((*delay) as usize - block_i);')],
 demo=UG+r'''
fn main() {
    let bs = 16;
    let mut c = ctx(8000, bs);
    let mut u = val().precise_timing::<4>();
    u.init(8000, bs);
    // the second half of a block, on its own
    let mut o = VecBlock::<f64>::new(2, 16);
    let i = EmptyBlock::new();
    let org = c.block;
    u.set_delay_within_block_for_param(&mut c, 0, 12);
    u.param_apply(&mut c, 0, ParameterValue::Float(5.0));
    c.block = org.make_partial(8, 8);
    u.process_block(&mut c, &mut UGenFlags::new(), &i, &mut o.partial_mut(8, 8));
    for f in 8..16 { assert_eq!(Block::read(&o, 0, f), if f < 12 { 0.0 } else { 5.0 }, "frame {f}"); }
}
'''),
dict(id='p01-many-modulations', prop='P01',
 needs='more than six audio rate parameter connections in one graph',
 breaks='connections of sources to parameters past the sixth have no effect: the parameter stays where it was',
 edits=[(G+'task.rs','for apc in &self.ar_parameter_changes {','for apc in self.ar_parameter_changes.iter().take(6) {')],
 demo=PRE+r'''
struct Mod { v: [f32; 2] }
impl UGen for Mod {
    type Sample = f32; type Inputs = U0; type Outputs = U2; type Parameters = U2;
    fn process(&mut self, _c: &mut AudioCtx, _f: &mut UGenFlags, _i: Frame<f32, U0>) -> Frame<f32, U2> { self.v.into() }
    fn param_descriptions() -> NumericArray<&'static str, U2> { ["a", "b"].into() }
    fn param_hints() -> NumericArray<ParameterHint, U2> { [ParameterHint::infinite_float(), ParameterHint::infinite_float()].into() }
    fn param_apply(&mut self, _c: &mut AudioCtx, i: usize, v: ParameterValue) { self.v[i] = v.float().unwrap() as f32; }
}
fn main() {
    use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U8>(opts());
    g.edit(|g| {
        for k in 0..4u16 {
            let m = g.push(Mod { v: [0.0; 2] }.ar_params());
            m.link("a", g.push(node::<U0, U1>(k as f32 + 1.0)));
            m.link("b", g.push(node::<U0, U1>(k as f32 + 10.0)));
            m.to_graph_out_channels([2 * k, 2 * k + 1]);
        }
    });
    for _ in 0..3 {
        p.run_without_inputs();
        let o = p.output_block();
        for k in 0..4 {
            assert_eq!([o.read(2 * k, 3), o.read(2 * k + 1, 3)], [k as f32 + 1.0, k as f32 + 10.0]);
        }
    }
}
'''),
dict(id='p08-second-ramp', prop='P08',
 needs='two changes of the same smoothed parameter where the first ramp has reached its end before the second change',
 breaks='a ramp that starts after a finished one starts from where the finished one started instead of from where it ended',
 edits=[(D+'wrappers_core/smooth_params.rs','''                            if *done {
                                *start_value = *end_value;
                            } else {
''','''                            if !*done {
''')],
 demo=UG+r'''
fn main() {
    let bs = 8;
    let mut c = ctx(8, bs);
    let mut u = val().smooth_params();
    u.init(8, bs);
    u.param_apply(&mut c, 0, ParameterValue::Smoothing(ParameterSmoothing::Linear(0.5), Rate::AudioRate));
    u.param_apply(&mut c, 0, ParameterValue::Float(4.0));
    let a = block(&mut u, &mut c, bs);
    assert_eq!(a[0], [0.0, 1.0, 2.0, 3.0, 4.0, 4.0, 4.0, 4.0]);
    u.param_apply(&mut c, 0, ParameterValue::Float(8.0));
    let a = block(&mut u, &mut c, bs);
    assert_eq!(a[0], [4.0, 5.0, 6.0, 7.0, 8.0, 8.0, 8.0, 8.0]);
}
'''),
dict(id='p12-late-silence', prop='P12',
 needs='a node that frees its parent, in a graph with more than one output channel, done at a frame other than the first',
 breaks='when a graph is freed by one of its nodes, only its first output channel goes silent at that frame',
 edits=[(G+'graph_gen.rs','for channel in output.iter_mut() {\n                    for sample in &mut channel[frame_num as usize..] {','for channel in output.iter_mut().take(1) {\n                    for sample in &mut channel[frame_num as usize..] {')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U2>(opts());
    g.edit(|g| {
        let mut n = node::<U0, U2>(1.0);
        n.done_at = 11;
        let a = g.push_with_done_action(n, Done::FreeParent);
        a.to_graph_out();
    });
    for k in 0..4 {
        p.run_without_inputs();
        let o = p.output_block();
        for f in 0..8 {
            let on = k * 8 + f < 11;
            assert_eq!([o.read(0, f), o.read(1, f)], if on { [1.0, 2.0] } else { [0.0, 0.0] }, "frame {}", k * 8 + f);
        }
    }
}
'''),
dict(id='p18-one-commit-at-a-time', prop='P18',
 needs='more than one commit between two blocks',
 breaks='the audio takes over one waiting commit per block, so that later commits are late although they were there at the start of the block',
 edits=[(G+'graph_gen.rs','let num_new_task_data = self.new_task_data_consumer.slots();','let num_new_task_data = self.new_task_data_consumer.slots().min(1);')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(opts());
    for k in 0..3 {
        g.edit(|g| { g.push(node::<U0, U1>(1.0)).to_graph_out(); });
        g.edit(|g| { g.push(node::<U0, U1>(10.0)).to_graph_out(); });
        p.run_without_inputs();
        assert_eq!(p.output_block().read(0, 0), 11.0 * (k + 1) as f32);
    }
}
'''),
dict(id='p20-segment-carry', prop='P20',
 needs='an envelope with several segments whose durations are not a whole number of frames',
 breaks='the time by which a segment was overshot is not carried over to the next one, so that every segment starts late',
 edits=[(D+'ugens/envelopes.rs','''                            current_time: current_time - segment.duration
                                + (self.time_scale * self.base_scale),''','''                            current_time: (current_time - segment.duration).min(0.0)
                                + (self.time_scale * self.base_scale),''')],
 demo=UG+r'''
use knaster_core_dsp::envelopes::*;
fn main() {
    let sr = 8;
    let segs: Vec<_> = (1..=8).map(|i| EnvelopeSegment::new(1.3 / 8.0, i as f64)).collect();
    let mut e = Envelope::<f64>::new(0.0, segs);
    let mut c = ctx(sr, 64);
    e.init(sr, 64);
    e.param_apply(&mut c, 2, ParameterValue::Trigger);
    let o = block(&mut e, &mut c, 64);
    // 8 segments of 1.3 frames
    let end = o[0].iter().position(|v| *v == 8.0).unwrap();
    assert!((10..=12).contains(&end), "{end} {:?}", &o[0][..20]);
}
'''),
dict(id='p21-clear-all', prop='P21',
 needs='clearing an allpass delay that is set to less than its maximum, and more input afterwards',
 breaks='after the delay is cleared it also swallows new input, for as long as its maximum delay',
 edits=[(D+'ugens/delay.rs','self.clear_nr_of_samples_left = self.num_frames;','self.clear_nr_of_samples_left = self.buffer.len();')],
 demo=UG+r'''
use knaster_core_dsp::delay::*;
fn main() {
    let mut d = AllpassDelay::<f64>::new(Seconds::from_secs_f64(2.0));
    d.init(16, 8);
    d.set_delay_in_frames(4.0);
    for i in 0..10 { d.read(); d.write_and_advance(100.0 + i as f64); }
    d.clear();
    let mut out = vec![];
    for i in 0..40 { out.push(d.read()); d.write_and_advance(i as f64 + 1.0); }
    assert!(out[..3].iter().all(|v| *v == 0.0));
    assert!((out[20] - 17.0).abs() < 1.0, "{out:?}");
}
'''),
dict(id='p23-start-keeps-end', prop='P23',
 needs='the start of the playback changed after the end, on a reader with a duration',
 breaks='changing where playback starts does not move where it ends, so that the set duration no longer holds',
 edits=[(D+'ugens/buffer.rs','''        self.start_frame = start_time.to_samples_f64(self.buffer.sample_rate());
        self.end_frame = self.start_frame + self.dur_frame;
''','''        self.start_frame = start_time.to_samples_f64(self.buffer.sample_rate());
        self.end_frame = self.end_frame.max(self.start_frame);
''')],
 demo=UG+r'''
use knaster_core_dsp::{buffer::BufferReader, dsp::buffer::Buffer};
fn main() {
    let b = Buffer::from_vec((0..64).map(|i| i as f64).collect(), 16.0);
    let mut r: BufferReader<f64, U1> = BufferReader::new(b, 1.0, true);
    let mut c = ctx(16, 32);
    r.init(16, 32);
    r.param(&mut c, "duration_s", 0.5).unwrap();
    r.param(&mut c, "start_s", 1.0).unwrap();
    r.param(&mut c, "t_restart", ParameterValue::Trigger).unwrap();
    let o = run_u(&mut r, &mut c);
    assert_eq!(o[..10], [16.0, 17.0, 18.0, 19.0, 20.0, 21.0, 22.0, 23.0, 16.0, 17.0]);
}
fn run_u<U: UGen<Sample = f64>>(u: &mut U, c: &mut AudioCtx) -> Vec<f64> {
    (0..32).map(|_| u.process(c, &mut UGenFlags::new(), Frame::default())[0]).collect()
}
'''),
]
