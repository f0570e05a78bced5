PRE = r'''
#![allow(unused)]
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::graph::{Graph, GraphOptions};
use knaster_graph::typenum::*;
use knaster_graph::numeric_array::NumericArray;
use knaster_graph::{Done, Seconds, Time, Param};
use knaster_core::{AudioCtx, UGenFlags, Frame, ParameterHint, ParameterValue, Size, Block, UGen};
fn opts() -> AudioProcessorOptions {
    AudioProcessorOptions { block_size: 8, sample_rate: 8000, ring_buffer_size: 100, ..Default::default() }
}
/// Adds its parameter to its inputs, each channel plus 1 more.
struct Node<I, O> { v: f32, done_at: i64, t: i64, p: core::marker::PhantomData<(I, O)> }
fn node<I: Size, O: Size>(v: f32) -> Node<I, O> { Node { v, done_at: -1, t: 0, p: core::marker::PhantomData } }
unsafe impl<I, O> Send for Node<I, O> {}
impl<I: Size + 'static, O: Size + 'static> UGen for Node<I, O> {
    type Sample = f32; type Inputs = I; type Outputs = O; type Parameters = U1;
    fn process(&mut self, _c: &mut AudioCtx, f: &mut UGenFlags, i: Frame<f32, I>) -> Frame<f32, O> {
        let s: f32 = i.iter().copied().sum();
        if self.t == self.done_at { f.mark_done((self.t % 8) as u32); }
        self.t += 1;
        let mut o = Frame::default();
        for c in 0..O::USIZE { o[c] = self.v + s + c as f32; }
        o
    }
    fn param_descriptions() -> NumericArray<&'static str, U1> { ["v"].into() }
    fn param_hints() -> NumericArray<ParameterHint, U1> { [ParameterHint::infinite_float()].into() }
    fn param_apply(&mut self, _c: &mut AudioCtx, _i: usize, v: ParameterValue) { self.v = v.float().unwrap() as f32; }
}
'''
SEEDS=[
dict(id='p01-buffer-units', prop='P01',
 needs='a block of few channels returned before a node with more channels (but no more than samples) asks for a buffer, and another buffer right behind still in use',
 breaks='the buffer of a multichannel node overlaps the buffer of another node, whose output is overwritten before it is read',
 edits=[('knaster_graph/src/buffer_allocator.rs','&& self.allocated_blocks[index].len >= len','&& self.allocated_blocks[index].len >= num_channels')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U4>(opts());
    g.edit(|g| {
        let a = g.push(node::<U0, U1>(1.0));
        let b = g.push(node::<U1, U1>(10.0));
        let c = g.push(node::<U1, U1>(100.0));
        let wide = g.push(node::<U1, U3>(1000.0));
        let d = a.to(b).to(c).to(wide);
        let other = g.push(node::<U0, U1>(5.0));
        let (b1, b2) = (g.push(node::<U0, U1>(7.0)), g.push(node::<U1, U1>(20.0)));
        b1.to(b2).to_graph_out_channels(3);
        d.to_graph_out_channels([0, 1, 2]);
        let _ = other;
    });
    for _ in 0..3 {
        p.run_without_inputs();
        let o = p.output_block();
        for f in 0..8 {
            assert_eq!([o.read(0, f), o.read(1, f), o.read(2, f), o.read(3, f)], [1111.0, 1112.0, 1113.0, 27.0]);
        }
    }
}
'''),
dict(id='p05-early-change', prop='P05',
 needs='a block processed after a change was sent to a node and before the commit that adds the node (another thread runs the audio while the edit is open)',
 breaks='a change sent to a node whose commit has not reached the audio thread yet is dropped instead of waiting for the node',
 edits=[('knaster_graph/src/graph_gen.rs','''                return None;
            }
        }
    }
    Some(event)''','''                break;
            }
        }
        return None;
    }
    Some(event)''')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(opts());
    p.run_without_inputs();
    g.edit(|g| {
        let a = g.push(node::<U0, U1>(1.0));
        a.to_graph_out();
        a.param("v").set(5.0).unwrap();
        p.run_without_inputs();
    });
    p.run_without_inputs();
    assert_eq!(p.output_block().read(0, 0), 5.0);
}
'''),
dict(id='p12-done-leak', prop='P12',
 needs='two nodes with a done action, the one evaluated earlier in the block being done while the later one is not',
 breaks='the done flag of a node leaks to the nodes with a done action evaluated after it in the same block, which are freed too',
 edits=[('knaster_graph/src/wrappers_graph/done.rs','''        flags.clear_node_flags();
        flags.mark_remove_self_supported();
        self.ugen.process_block(ctx, flags, input, output);''','''        flags.mark_remove_self_supported();
        self.ugen.process_block(ctx, flags, input, output);''')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(opts());
    g.edit(|g| {
        let mut first = node::<U0, U1>(1.0);
        first.done_at = 3;
        let a = g.push_with_done_action(first, Done::None);
        let b = g.push_with_done_action(node::<U1, U1>(10.0), Done::FreeSelf);
        a.to(b).to_graph_out();
    });
    for _ in 0..4 {
        p.run_without_inputs();
        g.edit(|g| { g.push(node::<U0, U1>(0.0)); });
        assert_eq!(p.output_block().read(0, 0), 11.0);
    }
}
'''),
dict(id='p14-carry', prop='P14',
 needs='saturating subtraction of two times with the same fraction',
 breaks='saturating subtraction gives a time with a full second of tesimals, which is not equal to and orders before the normalised time',
 edits=[('knaster_primitives/src/time.rs','''            Seconds::ZERO
        } else if self.subsecond_tesimals >= rhs.subsecond_tesimals {''','''            Seconds::ZERO
        } else if self.subsecond_tesimals > rhs.subsecond_tesimals {''')],
 demo=r'''
use knaster_primitives::*;
fn main() {
    let d = Seconds::new(3, 7_000_000).saturating_sub(Seconds::new(1, 7_000_000));
    assert_eq!(d, Seconds::new(2, 0));
    assert!(d > Seconds::from_secs_f64(1.999));
}
'''),
dict(id='p17-ring-end', prop='P17',
 needs='a log message whose end is the first element after the wrap of the ring buffer',
 breaks='the end of a message which falls on the first slot after the ring wraps is not handed over, so the message is glued to the next one',
 edits=[('knaster_core/src/log.rs','let slice1 = if last_end + pos < s0.len() {','let slice1 = if last_end + pos <= s0.len() {')],
 demo=r'''
use knaster_core::log::*;
use knaster_core::rt_log;
fn main() {
    let (mut s, mut r) = ArLogReceiver::new().sender(10);
    for round in 0..200u64 {
        let n = round % 5;
        for _ in 0..2 {
            if n == 0 { rt_log!(s; round); } else if n < 3 { rt_log!(s; round, "a"); } else { rt_log!(s; round, "a", "b"); }
        }
        let mut ends = 0;
        let mut vals = vec![];
        r.recv(|m| for m in m { match m { ArLogMessage::End => ends += 1, ArLogMessage::Unsigned(v) => vals.push(*v), _ => () } });
        assert_eq!(ends, 2, "round {round}");
        assert_eq!(vals, [round, round]);
    }
}
'''),
dict(id='p26-inspection-index', prop='P26',
 needs='an inspection of a node with an unconnected input before a connected one',
 breaks='the inspection numbers the inputs of a node by counting its connections instead of its channels',
 edits=[('knaster_graph/src/graph.rs','''                for (input_channel_index, edge) in edges
                    .iter()
                    .enumerate()
                    .filter_map(|(i, e)| e.map(|e| (i, e)))
                {
                    input_edges.push(''','''                for (input_channel_index, edge) in edges.iter().flatten().enumerate() {
                    input_edges.push(''')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(opts());
    g.edit(|g| {
        let a = g.push(node::<U0, U1>(1.0));
        let b = g.push(node::<U2, U1>(10.0));
        let e = knaster_graph::typenum::U2::USIZE;
        assert_eq!(e, 2);
        a.to_graph_out();
        b.to_graph_out();
    });
    let ins = g.inspection();
    assert!(ins.nodes.len() >= 2);
    // Two inputs, only the second one connected
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U2, U1>(opts());
    g.edit(|g| {
        let b = g.push(node::<U2, U1>(10.0)).name("b");
        g.from_inputs([0, 1]).unwrap().to(b);
        b.to_graph_out();
        b.disconnect_input(0);
    });
    let ins = g.inspection();
    let b = ins.nodes.iter().find(|n| n.name == "b").unwrap();
    assert_eq!(b.input_edges.len(), 1);
    assert_eq!(b.input_edges[0].from_index, 1);
    assert_eq!(b.input_edges[0].to_index, 1);
}
'''),
dict(id='p16-waiting-queue', prop='P16',
 needs='more scheduled changes waiting for their time than the ring buffer holds',
 breaks='the queue of waiting changes grows on the audio thread, which allocates',
 edits=[('knaster_graph/src/graph_gen.rs','''                    if self.waiting_parameter_changes.len()
                        < self.waiting_parameter_changes.capacity()
                    {
                        self.waiting_parameter_changes.push_back((event, 0));
                    }''','''                    self.waiting_parameter_changes.push_back((event, 0));''')],
 demo=PRE+r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! { static ON: Cell<bool> = const { Cell::new(false) }; static N: Cell<usize> = const { Cell::new(0) }; }
struct A;
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if ON.get() { N.set(N.get() + 1) } unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(opts());
    let mut par = g.edit(|g| { let a = g.push(node::<U0, U1>(1.0)); a.to_graph_out(); a.param("v") });
    for i in 0..6 {
        for k in 0..90 { par.set_after(k as f64, Seconds::from_secs_f64(0.5)).unwrap(); }
        ON.set(true);
        p.run_without_inputs();
        ON.set(false);
        assert_eq!(N.get(), 0, "allocations on the audio thread in block {i}");
    }
}
'''),
]
