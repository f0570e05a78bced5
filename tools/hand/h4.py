"""The audio thread side, clause by clause: what happens when a UGen is done, when task data is
replaced, when events wait, what logs and inspections say."""
G='knaster_graph/src/'
D=G+'wrappers_graph/done.rs'; GG=G+'graph_gen.rs'; PR=G+'processor.rs'; TK=G+'task.rs'; IN=G+'inspection.rs'; SC=G+'scheduling.rs'
UG='knaster_core/src/ugen.rs'; LG='knaster_core/src/log.rs'; BL=G+'block.rs'
MUT=[
('done-none','P12',[(D,'Done::None => {}','Done::None => flags.mark_remove_self(ctx),')]),
('done-parent-frame','P12',[(D,'flags.mark_remove_parent(frame)','flags.mark_remove_parent(frame + 1)')]),
('done-parent-zero','P12',[(D,'flags.mark_remove_parent(frame)','flags.mark_remove_parent(0)')]),
('done-self-if','P12',[(D,'        if flags.remove_self() {\n','        if flags.remove_self() && flags.done().is_some() {\n')]),
('done-clear-block','P12',[(D,'''        flags.clear_node_flags();
        flags.mark_remove_self_supported();
        self.ugen.process_block''','''        flags.mark_remove_self_supported();
        self.ugen.process_block''')]),
('done-supported','P12',[(D,'''        flags.mark_remove_self_supported();
        self.ugen.process_block''','''        self.ugen.process_block''')]),
('done-param-index','P12,P05',[(D,'if index == T::Parameters::USIZE {','if index >= T::Parameters::USIZE.max(1) {')]),
('done-ar-pass','P12,P01',[(D,'''        if index < T::Parameters::USIZE {
            unsafe''','''        if index + 1 < T::Parameters::USIZE {
            unsafe''')]),
('done-delay-pass','P05,P12',[(D,'''        if index < T::Parameters::USIZE {
            self.ugen
''','''        if index + 1 < T::Parameters::USIZE {
            self.ugen
''')]),
('done-desc-order','P12,P26,P27',[(D,'d[T::Parameters::USIZE] = "done_action"','d[T::Parameters::USIZE] = "done"')]),
('done-hints','P12,P26,P27',[(D,'ParameterHint::from_pinteger_enum::<Done>()','ParameterHint::new_integer((knaster_core::PInteger(0), knaster_core::PInteger(1)), |h| h)')]),
('gg-freed-nozero','P12',[(GG,'''            for output_channel in output.iter_mut() {
                output_channel.fill(F::ZERO);
            }
            return;''','''            return;''')]),
('gg-freed-first','P12',[(GG,'''            for output_channel in output.iter_mut() {
                output_channel.fill(F::ZERO);
            }
            return;''','''            for output_channel in output.iter_mut().take(1) {
                output_channel.fill(F::ZERO);
            }
            return;''')]),
('gg-remove-le','P12',[(GG,'if (frame_num as usize) < self.block_size {','if (frame_num as usize) + 1 < self.block_size {')]),
('gg-remove-channel','P12',[(GG,'''                for channel in output.iter_mut() {
                    for sample''','''                for channel in output.iter_mut().take(1) {
                    for sample''')]),
('gg-no-freed','P12',[(GG,'            self.freed = true;\n','')]),
('gg-no-flag','P12',[(GG,'            self.remove_me_flag.store(true, Ordering::SeqCst);\n','')]),
('gg-flags-shared','P12',[(GG,'task.run(ctx, &mut new_flags)','task.run(ctx, _flags)')]),
('gg-keep','P05',[(GG,'if num_blocks_waiting > self.blocks_to_keep_scheduled_changes','if num_blocks_waiting > 4')]),
('gg-keep-init','P05',[(GG,'self.blocks_to_keep_scheduled_changes = self.sample_rate / self.block_size as u32','self.blocks_to_keep_scheduled_changes = 480000 / self.block_size as u32')]),
('gg-never-expire','P16,P05',[(GG,'.push_back((unapplied, num_blocks_waiting + 1))','.push_back((unapplied, num_blocks_waiting))')]),
('gg-wait-front','P05',[(GG,'.push_back((unapplied, num_blocks_waiting + 1))','.push_front((unapplied, num_blocks_waiting + 1))')]),
('gg-cap-bound','P05',[(GG,'''                        < self.waiting_parameter_changes.capacity()
''','''                        < 16.min(self.waiting_parameter_changes.capacity())
''')]),
('gg-cap-none','P16',[(GG,'''                    if self.waiting_parameter_changes.len()
                        < self.waiting_parameter_changes.capacity()
                    {
                        self''','''                    {
                        self''')]),
('gg-token-or','P05',[(GG,'ready_to_apply = ready_to_apply && (delay_in_block < block_size)','ready_to_apply = ready_to_apply || (delay_in_block < block_size)')]),
('gg-due-le','P05',[(GG,'(delay_in_block < block_size)','(delay_in_block <= block_size)')]),
('gg-smoothing-order','P05',[(GG,'''smoothing.into_iter().chain(event.value)''','''event.value.into_iter().chain(smoothing)''')]),
('gg-delay-once','P05',[(GG,'                    if delay_in_block > 0 {','                    if delay_in_block > 0 && event.smoothing.is_none() {')]),
('gg-delay-param0','P05',[(GG,'''                            event.parameter,
                            delay_in_block as u16,''','''                            0,
                            delay_in_block as u16,''')]),
('gg-unknown-drop','P05',[(GG,'''            }
        }
    }
    Some(event)''','''            }
        }
        return None;
    }
    Some(event)''')]),
('gg-gi-swap','P01',[(GG,'node_in_buffers[*node_input] = graph_input_ptr','node_in_buffers[*graph_input % node_in_buffers.len()] = graph_input_ptr;let _ = node_input')]),
('gg-out-gi','P01',[(GG,'let s = input.channel_as_slice(*channel);','let s = input.channel_as_slice(0 * *channel);')]),
('gg-out-none','P01,P13',[(GG,'                out_channel.fill(F::ZERO);\n            }\n        }\n\n        // Check','                let _ = &out_channel;\n            }\n        }\n\n        // Check')]),
('gg-one-td','P13,P04,P01',[(GG,'let num_new_task_data = self.new_task_data_consumer.slots();','let num_new_task_data = self.new_task_data_consumer.slots().min(1);')]),
('gg-events-first','P05',[(GG,'''let parameter_changes_waiting = self.scheduling_event_receiver.slots();''','''let parameter_changes_waiting = self.scheduling_event_receiver.slots().min(8);''')]),
('gg-init','P05',[(GG,'self.sample_rate / self.block_size as u32','_sample_rate / (_block_size as u32).max(64)')]),
('td-not-applied','P04,P16,P18',[(TK,'        self.applied.store(true, Ordering::SeqCst);\n','')]),
('td-applied-late','P04,P16,P12',[(TK,'        self.applied.store(true, Ordering::SeqCst);\n','        old_task_data.applied.store(true, Ordering::SeqCst);\n')]),
('td-ar-first','P01',[(TK,'for apc in &self.ar_parameter_changes {','for apc in self.ar_parameter_changes.iter().rev() {')]),
('td-channels','P01,P13',[(TK,'RawContiguousBlock::new(self.out_buffer, self.output_channels, ctx.block_size())','RawContiguousBlock::new(self.out_buffer, self.output_channels.min(2), ctx.block_size())')]),
('pr-clock-after','P05,P26',[(PR,'''            *ptr = slice.as_ptr();
        }
        self.ctx.block.set_frame_clock(self.frame_clock);''','''            *ptr = slice.as_ptr();
        }
        self.ctx.block.set_frame_clock(self.frame_clock + 1);''')]),
('pr-clock-inc','P05,P14,P26',[(PR,'''        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
        self.frame_clock += self.block_size as u64;
        self.shared_frame_clock
            .store_new_time(Seconds::from_samples(
                self.frame_clock,
                self.sample_rate as u64,
            ));
    }

    /// Produce one block of audio for a graph''','''        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
        self.shared_frame_clock
            .store_new_time(Seconds::from_samples(
                self.frame_clock,
                self.sample_rate as u64,
            ));
        self.frame_clock += self.block_size as u64;
    }

    /// Produce one block of audio for a graph''')]),
('pr-raw-clock','P05,P14,P26,P02',[(PR,'''        let input = unsafe { RawAggregateBlockRead::new(input_pointers, self.block_size) };
        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
        self.frame_clock += self.block_size as u64;''','''        let input = unsafe { RawAggregateBlockRead::new(input_pointers, self.block_size) };
        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
        self.frame_clock += self.ctx.frames_to_process() as u64 - 1;''')]),
('pr-raw-shared','P05,P14,P26,P02',[(PR,'''        let input = unsafe { RawAggregateBlockRead::new(input_pointers, self.block_size) };
        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
        self.frame_clock += self.block_size as u64;
        self.shared_frame_clock
            .store_new_time(Seconds::from_samples(
                self.frame_clock,
                self.sample_rate as u64,
            ));''','''        let input = unsafe { RawAggregateBlockRead::new(input_pointers, self.block_size) };
        ugen.process_block(&mut self.ctx, &mut flags, &input, &mut self.output_block);
        self.frame_clock += self.block_size as u64;''')]),
('pr-run-len','P26,P03,P01,P13',[(PR,'assert_eq!(inputs.len(), self.input_pointers.len());','')]),
('pr-inputs','P26',[(PR,'self.graph_node.data.inputs','self.graph_node.data.outputs')]),
('pr-outputs','P26',[(PR,'self.graph_node.data.outputs','self.graph_node.data.inputs')]),
('pr-log-cap','P17,P26,P05',[(PR,'log_receiver.sender(options.log_channel_capacity)','log_receiver.sender(100)')]),
('pr-ring','P18,P16,P05',[(PR,'ring_buffer_size: options.ring_buffer_size','ring_buffer_size: 1000')]),
('uf-max','P12',[(UG,'self.remove_parent_from_frame_in_block.min(from_frame)','from_frame')]),
('uf-max2','P12',[(UG,'self.remove_parent_from_frame_in_block.min(from_frame)','self.remove_parent_from_frame_in_block.max(from_frame)')]),
('uf-clear-node','P12',[(UG,'        self.done = false;\n','')]),
('uf-clear-self','P12',[(UG,'        self.remove_self = false;\n        self.remove_self_supported = false;\n','        self.remove_self_supported = false;\n')]),
('uf-clear-parent','P12,P08,P15',[(UG,'''        self.remove_parent = false;
        self.remove_parent_from''','''        self.remove_parent_from''')]),
('uf-unsupported','P12',[(UG,'''        if self.remove_self_supported {
            self.remove_self = true;
        } else {''','''        self.remove_self = true;
        if !self.remove_self_supported {''')]),
('uf-done-min','P12',[(UG,'self.done_frame_in_block = from_frame','self.done_frame_in_block = self.done_frame_in_block.min(from_frame)')]),
('bm-partial-off','P15,P07,P08,P02',[(UG,'block_start_offset: self.block_start_offset + start_offset','block_start_offset: start_offset')]),
('bm-partial-clock','P15,P07,P08,P02',[(UG,'frame_clock: self.frame_clock + start_offset as u64','frame_clock: self.frame_clock')]),
('bm-partial-clock2','P15,P07,P08,P02',[(UG,'frame_clock: self.frame_clock + start_offset as u64','frame_clock: self.frame_clock + self.block_start_offset as u64 + start_offset as u64')]),
('ug-default-frames','P15,P07,P02,P06',[(UG,'ctx.block = org_block.make_partial(frame, 1);','ctx.block = org_block.make_partial(frame, org_block.frames_to_process - frame);')]),
('ug-default-restore','P15,P07,P02,P06,P08',[(UG,'        ctx.block = org_block;\n','')]),
('lg-skip','P17',[(LG,'.skip(last_end)\n                    .position','.skip(last_end.saturating_sub(1))\n                    .position')]),
('lg-commit','P17',[(LG,'read_chunk.commit(last_end)','read_chunk.commit_all()')]),
('lg-s0-min','P17',[(LG,'&s0[last_end..(last_end + pos + 1).min(s0.len())]','&s0[last_end..(last_end + pos).min(s0.len())]')]),
('lg-s1','P17',[(LG,'let slice1 = if last_end + pos < s0.len() {','let slice1 = if last_end + pos + 1 < s0.len() {')]),
('lg-s1-start','P17',[(LG,'} else if last_end >= s0.len() {\n                        &s1','} else if last_end > s0.len() {\n                        &s1')]),
('lg-slots','P17',[(LG,'sender.slots() > 1','sender.slots() > 0')]),
('lg-first-rec','P17',[(LG,'for rec in &mut self.receivers {','for rec in self.receivers.iter_mut().take(3) {')]),
('lg-i32','P17',[(LG,'ArLogMessage::Signed(value as i64)\n    }\n}\nimpl From<i16>','ArLogMessage::Signed(value as u32 as i64)\n    }\n}\nimpl From<i16>')]),
('in-key','P26',[(IN,'key: node.key,','key: self.nodes[0].key,')]),
('in-outs','P26',[(IN,'outputs: node.outputs,','outputs: node.inputs,')]),
('in-dot-out-name','P26',[(IN,'"\\"{source_name}\\":o{from_index} -> {node_name}:i{to_index} [penwidth=3] \\n"','"\\"{source_name}\\":o{from_index} -> {node_name}:i{from_index} [penwidth=3] \\n"')]),
('in-dot-inport','P26',[(IN,'"{source_name}:o{from_index} -> \\"{j}_{node_name}\\":i{to_index}\\n"','"{source_name}:o{to_index} -> \\"{j}_{node_name}\\":i{to_index}\\n"')]),
('in-dot-gt','P26',[(IN,'let name = name.replace("<", "&#60;");','')]),
('sc-abs-rel','P05',[(SC,'''    pub fn to_absolute(mut self) -> Self {
        self.absolute = true;''','''    pub fn to_absolute(mut self) -> Self {
        self.absolute = !self.absolute;''')]),
('sc-sat','P05',[(SC,'t.saturating_sub(frame_clock)','t.abs_diff(frame_clock)')]),
('sc-dec','P05',[(SC,'.saturating_sub(Seconds::from_samples(block_size, sample_rate));\n                samples','.saturating_sub(Seconds::from_samples(block_size.min(64), sample_rate));\n                samples')]),
('sc-retain','P16,P05',[(SC,'Arc::strong_count(&t.token) > 1','Arc::strong_count(&t.token) > 2')]),
('sc-retain0','P16',[(SC,'        tokens.retain(|t| Arc::strong_count(&t.token) > 1);\n','')]),
('sc-clock','P05,P14',[(SC,'let as_u64 = self.0.load(core::sync::atomic::Ordering::Relaxed);','let as_u64 = self.0.load(core::sync::atomic::Ordering::Relaxed) & !1;')]),
]
