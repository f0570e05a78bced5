import os
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'b2.py')).read().split('SEEDS=[\n')[0])
P='knaster_primitives/src/'
# An allocator that puts a pattern behind everything it hands out, and looks after it.
GUARD=r'''
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
struct Guard;
static BROKEN: AtomicUsize = AtomicUsize::new(0);
const BEHIND: usize = 512;
fn around(l: Layout) -> Layout { Layout::from_size_align(l.size() + BEHIND, l.align()).unwrap() }
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe {
            let p = System.alloc(around(l));
            if !p.is_null() { p.add(l.size()).write_bytes(0xff, BEHIND); }
            p
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            for i in 0..BEHIND {
                if *p.add(l.size() + i) != 0xff { BROKEN.fetch_add(1, Ordering::SeqCst); break; }
            }
            System.dealloc(p, around(l))
        }
    }
}
#[global_allocator]
static GUARD: Guard = Guard;
'''
SEEDS=[
dict(id='p30-seed-twice', prop='P30',
 needs='two threads creating UGens that use random numbers at the same moment',
 breaks='two threads get the same seed, so that noises that should be independent are identical',
 edits=[(D+'ugens/noise.rs','    NEXT_SEED.fetch_add(1, crate::core::sync::atomic::Ordering::SeqCst)\n','''    let seed = NEXT_SEED.load(crate::core::sync::atomic::Ordering::SeqCst);
    NEXT_SEED.store(
        seed.wrapping_add(1),
        crate::core::sync::atomic::Ordering::SeqCst,
    );
    seed
''')],
 demo=r'''
use knaster_core_dsp::noise::next_randomness_seed;
fn main() {
    for _ in 0..40 {
        let threads: Vec<_> = (0..4).map(|_| std::thread::spawn(|| (0..20000).map(|_| next_randomness_seed()).collect::<Vec<u64>>())).collect();
        let mut all: Vec<u64> = threads.into_iter().flat_map(|t| t.join().unwrap()).collect();
        let n = all.len();
        all.sort();
        all.dedup();
        assert_eq!(all.len(), n, "seeds given out twice");
    }
}
'''),
dict(id='p30-clock-halves', prop='P30',
 needs='the shared clock read on another thread at the moment the audio thread stores a time in a new second',
 breaks='the two halves of the time are stored and read separately, so that the clock read from another thread can be a second off and go back',
 edits=[(G+'scheduling.rs','pub struct SharedFrameClock(Arc<AtomicU64>);','pub struct SharedFrameClock(Arc<[crate::core::sync::atomic::AtomicU32; 2]>);'),
  (G+'scheduling.rs','        Self(Arc::new(AtomicU64::new(0)))\n','        Self(Arc::new(Default::default()))\n'),
  (G+'scheduling.rs','        self.0.store(as_u64, core::sync::atomic::Ordering::Relaxed);\n','''        // 64 bit atomics are not available everywhere
        self.0[0].store(as_u64 as u32, core::sync::atomic::Ordering::Relaxed);
        self.0[1].store((as_u64 >> 32) as u32, core::sync::atomic::Ordering::Relaxed);
'''),
  (G+'scheduling.rs','        let as_u64 = self.0.load(core::sync::atomic::Ordering::Relaxed);\n','''        let low = self.0[0].load(core::sync::atomic::Ordering::Relaxed) as u64;
        let high = self.0[1].load(core::sync::atomic::Ordering::Relaxed) as u64;
        let as_u64 = (high << 32) | low;
'''),
  (G+'scheduling.rs','atomic::{AtomicBool, AtomicU64}','atomic::AtomicBool')],
 demo=PRE+r'''
fn main() {
    let o = AudioProcessorOptions { block_size: 4, sample_rate: 12, ..Default::default() };
    let (g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(o);
    let clock = g.shared_frame_clock();
    let over = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let o2 = over.clone();
    let reader = std::thread::spawn(move || {
        let mut last = Seconds::ZERO;
        while !o2.load(std::sync::atomic::Ordering::Relaxed) {
            let now = clock.get();
            assert!(now >= last, "the clock went back from {last:?} to {now:?}");
            last = now;
        }
    });
    let t = std::time::Instant::now();
    while t.elapsed().as_secs() < 10 && !reader.is_finished() {
        for _ in 0..1000 { p.run_without_inputs(); }
    }
    over.store(true, std::sync::atomic::Ordering::Relaxed);
    reader.join().unwrap();
}
'''),
dict(id='p29-grow-last', prop='P29',
 needs='the buffer given back last being the last one of the allocation, and smaller than the next node needs',
 breaks='the last buffer is extended in place without counting the extension, so that the node that gets it writes past the end of the allocation',
 edits=[(G+'buffer_allocator.rs','        // todo!();\n','''        if let Some(&index) = self.return_order.last() {
            if index + 1 == self.allocated_blocks.len() {
                // The last block has nothing behind it and can simply grow
                self.return_order.pop();
                let block = &mut self.allocated_blocks[index];
                block.len = len;
                block.outstanding_borrows = num_borrows;
                self.next_free_pos = block.start_offset + len;
                return block.start_offset;
            }
        }
''')],
 demo=PRE+GUARD+r'''
fn main() {
    {
        let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U4>(opts());
        g.edit(|g| {
            let a = g.push(node::<U0, U1>(1.0));
            let b = g.push(node::<U1, U1>(10.0));
            let c = g.push(node::<U1, U1>(100.0));
            let wide = g.push(node::<U1, U4>(1000.0));
            a.to(b).to(c).to(wide).to_graph_out();
        });
        for _ in 0..3 { p.run_without_inputs(); }
        let o = p.output_block();
        for c in 0..4 { assert_eq!(o.read(c, 5), 1111.0 + c as f32); }
    }
    assert_eq!(BROKEN.load(Ordering::SeqCst), 0, "something was written behind an allocation");
}
'''),
dict(id='p29-closest-sample', prop='P29',
 needs='a phase within half a sample of the end of the wavetable',
 breaks='the lookup rounds the phase to the closest sample, which is behind the table in the last half sample of every period',
 edits=[(D+'dsp/wavetable.rs','            unsafe { *self.buffer.get_unchecked(phase.integer_component()) }','''            // Round to the closest sample
            let index = phase.integer_component() + (phase.fractional_component() >> 15) as usize;
            unsafe { *self.buffer.get_unchecked(index) }''')],
 demo=GUARD+r'''
use knaster_core_dsp::dsp::wavetable::*;
fn main() {
    let mut t = NonAaWavetable::<f32>::new();
    t.set_from_buffer(vec![1.0; TABLE_SIZE]);
    for phase in [0u32, 1 << 15, 1 << 20, u32::MAX - 40000, u32::MAX - 32768, u32::MAX] {
        assert_eq!(t.get(WavetablePhase(phase)), 1.0, "{phase:x}");
    }
}
'''),
dict(id='p05-reverse-waiting', prop='P05',
 needs='two changes of one parameter waiting for the same time (or for one token)',
 breaks='changes that had to wait are looked at from the latest to the earliest, so that of two that become due together the first one sent wins',
 edits=[(G+'graph_gen.rs','                    .pop_front()\n','                    .pop_back()\n'),
  (G+'graph_gen.rs','                        .push_back((unapplied, num_blocks_waiting + 1));','                        .push_front((unapplied, num_blocks_waiting + 1));')],
 demo=PRE+r'''
fn main() {
    let (mut g, mut p, _l) = AudioProcessor::<f32>::new::<U0, U1>(opts());
    let mut h = g.edit(|g| {
        let a = g.push(node::<U0, U1>(1.0));
        a.to_graph_out();
        a.param("v")
    });
    p.run_without_inputs();
    let at = Time::at(Seconds::from_samples(40, 8000));
    h.set_time(2.0, at).unwrap();
    h.set_time(3.0, at).unwrap();
    for _ in 0..6 { p.run_without_inputs(); }
    assert_eq!(p.output_block().read(0, 0), 3.0);
}
'''),
dict(id='p28-odd-seed', prop='P28',
 needs='an even seed',
 breaks='the seed is made odd to keep it from being zero, so that two seeds give the same numbers and none but odd ones give the sequence they stand for',
 edits=[(D+'dsp/xorrng.rs','''        if seed == 0 {
            seed = 17;
        }
''','''        if seed & 1 == 0 {
            seed = if seed == 0 { 17 } else { seed | 1 };
        }
''')],
 demo=r'''
use knaster_core_dsp::dsp::xorrng::XOrShift32Rng;
fn main() {
    for seed in 1..50u32 {
        let mut x = seed;
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        assert_eq!(XOrShift32Rng::new(seed).gen_u32(), x, "seed {seed}");
    }
}
'''),
]
