G='knaster_graph/src/'
MUT=[
('r-token','P30',[(G+'scheduling.rs','self.token.load(crate::core::sync::atomic::Ordering::SeqCst)','unsafe { *self.token.as_ptr() }')]),
('r-clock','P30',[(G+'scheduling.rs','let as_u64 = self.0.load(core::sync::atomic::Ordering::Relaxed);','let as_u64 = unsafe { *self.0.as_ptr() };')]),
('r-done','P30',[(G+'wrappers_graph/done.rs','''            self.free_self_flag
                .store(true, crate::core::sync::atomic::Ordering::Relaxed);''','''            unsafe { *self.free_self_flag.as_ptr() = true };''')]),
('r-seed','P30',[('knaster_core_dsp/src/ugens/noise.rs','NEXT_SEED.fetch_add(1, crate::core::sync::atomic::Ordering::SeqCst)','let s = NEXT_SEED.load(crate::core::sync::atomic::Ordering::SeqCst);\n    NEXT_SEED.store(s + 1, crate::core::sync::atomic::Ordering::SeqCst);\n    s')]),
('r-removeme','P30',[(G+'graph_gen.rs','self.remove_me_flag.store(true, Ordering::SeqCst);','unsafe { *self.remove_me_flag.as_ptr() = true };')]),
('r-applied','P30',[(G+'task.rs','self.applied.store(true, Ordering::SeqCst);','unsafe { *self.applied.as_ptr() = true };')]),
('r-clear','P30',[(G+'graph.rs','self.buffer_allocator.reset(self.block_size);','self.buffer_allocator.reset(self.block_size);\n        unsafe { self.buffer_allocator.buffer().as_slice_mut()[..1].fill(F::ZERO) };')]),
('r-clock-split','P30',[(G+'scheduling.rs','self.0.store(as_u64, core::sync::atomic::Ordering::Relaxed);','let old = self.0.load(core::sync::atomic::Ordering::Relaxed);\n        self.0.store((old & 0xffff_ffff_0000_0000) | (as_u64 & 0xffff_ffff), core::sync::atomic::Ordering::Relaxed);\n        self.0.store(as_u64, core::sync::atomic::Ordering::Relaxed);')]),
]
