import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'b2.py')).read().split('SEEDS=[\n')[0])
W=D+'wrappers_core/'; U=D+'ugens/'
SEEDS=[
dict(id='p02-stale-feedback', prop='P02',
 needs='the source of a feedback connection removed while its sink stays in the graph',
 breaks='the last blocks of a removed feedback source keep sounding in the sink for good',
 edits=[(G+'graph.rs','        self.get_nodes_mut()[sink_node].strong_dependent = Some(source_node);\n','')],
 demo=PRE+r'''
fn main() {
    use knaster_graph::handle::HandleTrait;
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(opts());
    let a = g.edit(|g| {
        let a = g.push(node::<U0, U1>(1.0));
        let b = g.push(node::<U1, U1>(10.0));
        a.to_feedback(b);
        b.to_graph_out();
        a.id()
    });
    for _ in 0..3 { p.run_without_inputs(); }
    assert_eq!(p.output_block().read(0, 3), 11.0);
    g.edit(|g| g.free_node(a).unwrap());
    for _ in 0..4 {
        p.run_without_inputs();
        g.edit(|g| { g.push(node::<U0, U1>(1.0)); });
    }
    p.run_without_inputs();
    for f in 0..8 { assert_eq!(p.output_block().read(0, f), 10.0); }
}
'''),
dict(id='p03-output-bounds', prop='P03',
 needs='a node with more inputs than outputs connected to the graph output from a channel it does not have',
 breaks='a connection from an output channel that does not exist is accepted for a node with more inputs than outputs',
 edits=[(G+'graph.rs','''        if source_channel >= nodes[source.key()].data.outputs {
            return Err(GraphError::OutputOutOfBounds(source_channel));
        }
        self.connect_to_output_internal(''','''        let data = &nodes[source.key()].data;
        if source_channel >= data.outputs.max(data.inputs) {
            return Err(GraphError::OutputOutOfBounds(source_channel));
        }
        self.connect_to_output_internal(''')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U2>(opts());
    let a = g.push(node::<U3, U1>(1.0));
    assert!(g.connect2(&a, 1, 0, knaster_graph::graph::NodeOrGraph::Graph).is_err());
    assert!(g.connect2(&a, 0, 0, knaster_graph::graph::NodeOrGraph::Graph).is_ok());
    g.edit(|_| {});
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 3), 1.0);
}
'''),
dict(id='p05-set-many', prop='P05',
 needs='several changes sent at once, one of which, not the last, is invalid',
 breaks='the changes after an invalid one are not sent',
 edits=[(G+'graph.rs','''                log::error!("Error setting parameter {param:?} on node {node:?}: {e:?}",);
''','''                log::error!("Error setting parameter {param:?} on node {node:?}: {e:?}",);
                return;
''')],
 demo=PRE+r'''
fn main() {
    use knaster_graph::handle::HandleTrait;
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U2>(opts());
    let (a, b) = g.edit(|g| {
        let (a, b) = (g.push(node::<U0, U1>(1.0)), g.push(node::<U0, U1>(1.0)));
        a.to_graph_out();
        b.to_graph_out_channels(1);
        (a.id(), b.id())
    });
    p.run_without_inputs();
    g.set_many(&[(a, 0.into(), ParameterValue::Float(5.0)), (a, 7.into(), ParameterValue::Float(6.0)), (b, 0.into(), ParameterValue::Float(7.0))], Time::asap());
    p.run_without_inputs();
    let o = p.output_block();
    assert_eq!([o.read(0, 0), o.read(1, 0)], [5.0, 7.0]);
}
'''),
dict(id='p07-f64', prop='P07',
 needs='a graph of 64 bit samples and buffer values that are no 32 bit numbers',
 breaks='audio rate parameter values are rounded to 32 bits',
 edits=[(W+'audio_rate.rs','.to_f64() as PFloat;','.to_f64() as f32 as PFloat;')],
 demo=UG+r'''
fn main() {
    let mut c = ctx(8000, 4);
    let mut u = val().ar_params();
    u.init(8000, 4);
    let b = [0.1, 0.2, 1.0 / 3.0, 1e300];
    unsafe { u.set_ar_param_buffer(&mut c, 1, b.as_ptr()) };
    let o = block(&mut u, &mut c, 4);
    assert_eq!(o[1], b);
}
'''),
dict(id='p09-powi', prop='P09',
 needs='a negative integer exponent and frame by frame processing',
 breaks='wr_powi with a negative exponent gives the reciprocal when processed frame by frame',
 edits=[(W+'math.rs','''        for sample in &mut out {
            *sample = sample.powi(self.value);''','''        for sample in &mut out {
            *sample = sample.powi(self.value.abs());''')],
 demo=UG+r'''
fn main() {
    let mut c = ctx(8000, 4);
    let mut u = Val { v: [2.0, 4.0], n: 0 }.wr_powi(-1);
    u.init(8000, 4);
    let o = u.process(&mut c, &mut UGenFlags::new(), Frame::default());
    assert_eq!([o[0], o[1]], [0.5, 0.25]);
    assert_eq!(block(&mut u, &mut c, 4)[1], [0.25; 4]);
}
'''),
dict(id='p10-stack-inputs', prop='P10',
 needs='a stack of two type-erased handles that both have inputs, used as the target of a connection',
 breaks='a stack of two handles has the inputs of the second one first',
 edits=[(G+'graph_edit.rs','''        for chan in Dynamic::iter_inputs(&self.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_inputs(&s.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_outputs(&self.nodes) {''','''        for chan in Dynamic::iter_inputs(&s.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_inputs(&self.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_outputs(&self.nodes) {''')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U2>(opts());
    g.edit(|g| {
        let (a, b) = (g.push(node::<U0, U1>(1.0)).dynamic(), g.push(node::<U0, U1>(2.0)).dynamic());
        let (c, d) = (g.push(node::<U1, U1>(10.0)).dynamic(), g.push(node::<U1, U1>(20.0)).dynamic());
        a.stack(b).to(c.stack(d)).to_graph_out();
    });
    p.run_without_inputs();
    let o = p.output_block();
    assert_eq!([o.read(0, 0), o.read(1, 0)], [11.0, 22.0]);
}
'''),
dict(id='p11-last-frame', prop='P11',
 needs='a buffer that is played to its end within a block that is not processed frame by frame',
 breaks='the last frame of a buffer played to its end in blocks is silent, unlike frame by frame',
 edits=[(U+'buffer.rs','''                    stop_sample = Some(i + 1);
''','''                    stop_sample = Some(i);
''')],
 demo=UG+r'''
fn main() {
    use knaster_core_dsp::{buffer::BufferReader, dsp::buffer::Buffer};
    let make = || {
        let mut u = BufferReader::<f64, U1>::new(Buffer::from_vec(vec![1.0, 2.0, 3.0], 8000.0), 1.0, false);
        u.init(8000, 4);
        u
    };
    let mut c = ctx(8000, 4);
    let o = block(&mut make(), &mut c, 4);
    let mut u = make();
    let f: Vec<f64> = (0..4).map(|_| u.process(&mut c, &mut UGenFlags::new(), Frame::default())[0]).collect();
    assert_eq!(o[0], f);
    assert_eq!(f, [1.0, 2.0, 3.0, 0.0]);
}
'''),
dict(id='p13-stale-output', prop='P13',
 needs='a nested graph with an output that nothing is connected to (any more), and a buffer that held something else before',
 breaks='an unconnected output of a nested graph puts out what was in its buffer before instead of silence',
 edits=[(G+'graph_gen.rs','''            } else {
                out_channel.fill(F::ZERO);
            }
        }

        // Check if the free''','''            }
        }

        // Check if the free''')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U2>(opts());
    let mut sub = None;
    g.edit(|g| {
        let (h, s) = g.subgraph::<U0, U2>(GraphOptions::default(), |mut s| {
            let a = s.push(node::<U0, U2>(3.0));
            a.to_graph_out();
        });
        h.to_graph_out();
        sub = Some(s);
    });
    let mut sub = sub.unwrap();
    p.run_without_inputs();
    assert_eq!(p.output_block().read(1, 0), 4.0);

    sub.disconnect_input_to_sink(1, knaster_graph::graph::NodeOrGraph::Graph).unwrap(); sub.edit(|_| {});
    for _ in 0..3 { p.run_without_inputs(); }
    let o = p.output_block();
    for f in 0..8 { assert_eq!([o.read(0, f), o.read(1, f)], [3.0, 0.0]); }
}
'''),
dict(id='p15-read-bounds', prop='P15',
 needs='a frame outside of the block read from a raw contiguous block',
 breaks='reading a frame outside of a raw contiguous block reads another channel, or memory behind the block',
 edits=[(G+'block.rs','''        assert!(frame < self.block_size);
        unsafe { *self.buffer.add(channel * self.block_size + frame) }''','''        unsafe { *self.buffer.add(channel * self.block_size + frame) }''')],
 demo=PRE+r'''
fn main() {
    let mut data: Vec<f32> = (0..8).map(|i| i as f32).collect();
    let b = unsafe { knaster_graph::block::RawContiguousBlock::new(data.as_mut_ptr(), 2, 4) };
    assert_eq!(Block::read(&b, 0, 3), 3.0);
    assert!(std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| Block::read(&b, 0, 4))).is_err());
}
'''),
dict(id='p19-phase-wrap', prop='P19',
 needs='a sine of many periods whose frequency does not divide the sample rate',
 breaks='the numeric sine oscillator loses the rest of its phase at every wrap',
 edits=[(U+'osc.rs','''        if self.phase > F::ONE {
            self.phase -= F::ONE;
        }
        [out]''','''        if self.phase > F::ONE {
            self.phase = F::ZERO;
        }
        [out]''')],
 demo=UG+r'''
fn main() {
    let mut c = ctx(8000, 64);
    let mut u = knaster_core_dsp::osc::SinNumeric::<f64>::new(1100.0);
    u.init(8000, 64);
    let o = block(&mut u, &mut c, 64);
    for k in 0..64 {
        let want = (k as f64 * 1100.0 / 8000.0 * std::f64::consts::TAU).sin();
        assert!((o[0][k] - want).abs() < 1e-6, "{k}: {} {want}", o[0][k]);
    }
}
'''),
dict(id='p20-asr-early-release', prop='P20',
 needs='an envelope released while it is still rising',
 breaks='an envelope that is released in its attack jumps to full level first',
 edits=[(U+'envelopes.rs','self.release_scale = F::new(self.t);','self.release_scale = F::ONE;')],
 demo=UG+r'''
fn main() {
    let mut c = ctx(8000, 4);
    let mut u = knaster_core_dsp::envelopes::EnvAsr::<f64>::new(0.01, 0.01);
    u.init(8000, 4);
    u.param(&mut c, "t_restart", ParameterValue::Trigger).unwrap();
    let a = block(&mut u, &mut c, 4)[0][3];
    u.param(&mut c, "t_release", ParameterValue::Trigger).unwrap();
    let b = block(&mut u, &mut c, 4)[0][0];
    assert!(a < 0.1 && b < 0.1, "{a} {b}");
}
'''),
dict(id='p22-high-shelf', prop='P22',
 needs='a high shelf with a gain other than 0 dB, measured near its cutoff frequency',
 breaks='the high shelf filter has the wrong response around its cutoff',
 edits=[(U+'svf.rs','self.m1 = k * (F::ONE - amp) * amp;','self.m1 = k * (F::ONE - amp);')],
 demo=UG+r'''
fn main() {
    use knaster_core_dsp::svf::*;
    let mut c = ctx(48000, 64);
    let mut u = SvfFilter::<f64>::new(SvfFilterType::HighShelf, 6000.0, 0.7, 12.0);
    u.init(48000, 64);
    // The amplification at the cutoff, half the gain in dB
    let (mut re, mut im) = (0.0, 0.0);
    for k in 0..4800 {
        let p = k as f64 * 6000.0 / 48000.0 * std::f64::consts::TAU;
        let y = u.process(&mut c, &mut UGenFlags::new(), [p.sin()].into())[0];
        if k >= 2400 { re += y * p.sin() / 1200.0; im += y * p.cos() / 1200.0; }
    }
    let db = 20.0 * f64::hypot(re, im).log10();
    assert!((db - 6.0).abs() < 0.1, "{db}");
}
'''),
dict(id='p24-negative-fraction', prop='P24',
 needs='the fractional part of a negative number that is not an integer',
 breaks='Fract measures from the integer below instead of the integer towards zero: the fraction of -1.25 is 0.75',
 edits=[(U+'math.rs','*out = a.fract();','*out = *a - a.floor();')],
 demo=UG+r'''
fn main() {
    let mut c = ctx(8000, 4);
    let mut u = knaster_core_dsp::math::Math1UGen::<f64, knaster_core_dsp::math::Fract>::new();
    u.init(8000, 4);
    let o = u.process(&mut c, &mut UGenFlags::new(), [1.25].into());
    assert_eq!(o[0], 0.25);
    let o = u.process(&mut c, &mut UGenFlags::new(), [-1.25].into());
    assert_eq!(o[0], -0.25);
}
'''),
dict(id='p25-f64-parameter', prop='P25',
 needs='a parameter function taking an f64 and a value that is no 32 bit number',
 breaks='parameter functions that take an f64 get it rounded to 32 bits',
 edits=[('knaster_macros/src/lib.rs','to be a float") as f64 }','to be a float") as f32 as f64 }')],
 demo=UG+r'''
struct P<F>(f64, f64, F);
#[impl_ugen]
impl<F: Float> P<F> {
    #[param]
    fn a(&mut self, v: f64) { self.0 = v; }
    #[param]
    fn b(&mut self, v: PFloat) { self.1 = v; }
    fn process(&mut self) -> [F; 2] { [F::new(self.0), F::new(self.1)] }
}
fn main() {
    let mut c = ctx(8000, 4);
    let mut u = P::<f64>(0.0, 0.0, 0.0);
    UGen::init(&mut u, 8000, 4);
    u.param(&mut c, "a", ParameterValue::Float(0.1)).unwrap();
    u.param(&mut c, "b", ParameterValue::Float(0.2)).unwrap();
    let o = UGen::process(&mut u, &mut c, &mut UGenFlags::new(), Frame::default());
    assert_eq!([o[0], o[1]], [0.1, 0.2]);
}
'''),
dict(id='p27-negative-range', prop='P27',
 needs='a hint with a negative infinite range',
 breaks='the hint for a negative infinite range says positive',
 edits=[(C+'parameters.rs','self.range = Some(FloatParameterRange::NegativeInfinite);','self.range = Some(FloatParameterRange::PositiveInfinite);')],
 demo=UG+r'''
fn main() {
    let ParameterHint::Float(h) = ParameterHint::negative_infinite_float() else { panic!() };
    assert!(matches!(h.range, Some(FloatParameterRange::NegativeInfinite)));
}
'''),
]
