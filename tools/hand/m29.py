G='knaster_graph/src/'
MUT=[
('m-buf-alive','P29',[(G+'graph.rs','current_buffer_allocation: self.buffer_allocator.buffer(),','current_buffer_allocation: Arc::new(OwnedRawBuffer::new(1)),')]),
('m-add-le','P29',[(G+'graph.rs','if add < self.ptr.len() {','if add <= self.ptr.len() {')]),
('m-finish-lt','P29',[(G+'buffer_allocator.rs','if self.virtual_allocation_size <= self.buffer.ptr.len() {','if self.virtual_allocation_size <= self.buffer.ptr.len() + 1 {')]),
('m-virt','P29',[(G+'buffer_allocator.rs','if self.next_free_pos + num_channels * block_size > self.virtual_allocation_size {\n            self.virtual_allocation_size = self.next_free_pos + num_channels * block_size;','if self.next_free_pos + num_channels * block_size > self.virtual_allocation_size {\n            self.virtual_allocation_size = (self.next_free_pos + num_channels * block_size).max(block_size) - (num_channels / 3);')]),
('m-aggr-frame','P29',[(G+'block.rs',"impl<F: Float> BlockRead for RawAggregateBlockRead<'_, F> {\n    type Sample = F;\n\n    fn channel_as_slice(&self, channel: usize) -> &[Self::Sample] {\n        unsafe { crate::core::slice::from_raw_parts(self.buffers[channel], self.block_size) }\n    }\n\n    fn read(&self, channel: usize, frame: usize) -> Self::Sample {\n        assert!(channel < self.buffers.len());\n        assert!(frame < self.block_size);\n        ","impl<F: Float> BlockRead for RawAggregateBlockRead<'_, F> {\n    type Sample = F;\n\n    fn channel_as_slice(&self, channel: usize) -> &[Self::Sample] {\n        unsafe { crate::core::slice::from_raw_parts(self.buffers[channel], self.block_size) }\n    }\n\n    fn read(&self, channel: usize, frame: usize) -> Self::Sample {\n        assert!(channel < self.buffers.len());\n        debug_assert!(!self.buffers.is_empty());\n        ")]),
('m-contig-ch','P29',[(G+'block.rs','''    fn channel_as_slice_mut(&mut self, channel: usize) -> &mut [Self::Sample] {
        assert!(channel < self.channels);''','''    fn channel_as_slice_mut(&mut self, channel: usize) -> &mut [Self::Sample] {
        assert!(channel <= self.channels);''')]),
('m-ar-stale','P29',[('knaster_core_dsp/src/wrappers_core/audio_rate.rs','self.buffers[index] = (!buffer.is_null()).then_some(buffer);','if self.buffers[index].is_none() || buffer.is_null() {\n            self.buffers[index] = (!buffer.is_null()).then_some(buffer);\n        }')]),
('m-out-buf','P29',[(G+'processor.rs','OwnedRawBuffer::new(options.block_size * Outputs::USIZE)','OwnedRawBuffer::new(options.block_size * Outputs::USIZE.min(2))')]),
('m-graph-in','P29',[(G+'graph_gen.rs','let s = unsafe { slice::from_raw_parts(*ptr, self.block_size) };','let s = unsafe { slice::from_raw_parts(*ptr, ctx.block_size() + 1) };\n                        let s = &s[..self.block_size];')]),
('m-log-uninit','P29',[('knaster_core/src/log.rs','for (i, p) in self.receivers.into_iter().enumerate() {\n            array[i].write(p);','for (i, p) in self.receivers.into_iter().enumerate() {\n            array[i.min(1)].write(p);')]),
('m-wt-mask','P29',[('knaster_core_dsp/src/dsp/wavetable.rs','*self.buffer.get_unchecked(phase.integer_component())','*self.buffer.get_unchecked(phase.integer_component() + 1)')]),
('m-old-buf','P29',[(G+'graph.rs','if Arc::<OwnedRawBuffer<F>>::strong_count(&self.buffers_to_free_when_safe[i]) == 1 {','if Arc::<OwnedRawBuffer<F>>::strong_count(&self.buffers_to_free_when_safe[i]) >= 1 {')]),
]
