G='knaster_graph/src/graph.rs'; GG='knaster_graph/src/graph_gen.rs'; N='knaster_graph/src/node.rs'; T='knaster_graph/src/task.rs'; B='knaster_graph/src/buffer_allocator.rs'; H='knaster_graph/src/handle.rs'; S='knaster_graph/src/scheduling.rs'
GR='P01,P03,P04,P02,P13,P16,P05,P18,P26,P12'
MUT=[
('g-disc-out-ports', GR, [(G,"""        for edge in self.output_edges.iter_mut().filter(|e| e.is_some()) {
            let edge_unwraped = edge.as_mut().unwrap();
            if edge_unwraped.channel_in_source == source_channel && source == edge_unwraped.source {
                *edge = None;
            }
        }
""","")]),
('g-disc-out-param', GR, [(G,"""                edge.channel_in_source != source_channel
                    || NodeKeyOrGraph""","""                edge.channel_in_source > source_channel
                    || NodeKeyOrGraph""")]),
('g-disc-out-norecalc', GR, [(G,"""                    || NodeKeyOrGraph::Node(edge.source) != source
            });
        }

        self.recalculation_required = true;""","""                    || NodeKeyOrGraph::Node(edge.source) != source
            });
        }

        self.recalculation_required |= matches!(source, NodeKeyOrGraph::Node(_));""")]),
('g-sum-keep-channel', GR, [(G,"""                                    edge.source = source;
                                    edge.channel_in_source = input_edge.channel_in_source;""","""                                    edge.source = source;""")]),
('g-sum-param-graphinput', GR, [(G,"""                        for edge in self.output_edges.iter_mut().flatten() {
                            if let NodeKeyOrGraph::Node(source) = &edge.source {
                                if *source == key {
                                    *edge = input_edge;""","""                        for edge in self.output_edges.iter_mut().flatten() {
                            if let NodeKeyOrGraph::Node(source) = &edge.source {
                                if *source == key {
                                    edge.source = input_edge.source;""")]),
('g-sum-input-channel', GR, [(G,"""                                    if *source == key {
                                        *edge = input_edge;
                                    }
                                }
                            }
                        }
                        for edge""","""                                    if *source == key {
                                        edge.source = input_edge.source;
                                    }
                                }
                            }
                        }
                        for edge""")]),
('g-dependents-outputs', GR, [(G,"""            || self.output_edges.iter().flatten().any(is_source)
""","")]),
('g-dependents-params', GR, [(G,"""            || self
                .node_parameter_edges
                .values()
                .any(|edges| edges.iter().any(|edge| edge.source == key))
""","")]),
('g-path-params', GR, [(G,"""                if let Some(edges) = self.node_parameter_edges.get(node) {
                    stack.extend(edges.iter().map(|edge| edge.source));
                }
""","")]),
('g-path-first-param', GR, [(G,"""stack.extend(edges.iter().map(|edge| edge.source));""","""stack.extend(edges.iter().take(2).map(|edge| edge.source));""")]),
('g-free-mortal-dep', GR, [(G,"""        if let Some(dep) = self.get_nodes()[node_key].strong_dependent {
            self.free_node_from_key(dep).ok();
        }""","""        if let Some(dep) = self.get_nodes()[node_key].strong_dependent {
            self.get_nodes_mut()[dep].strong_dependent = None;
        }""")]),
('g-free-paramedges', GR, [(G,"""        for (_k, edges) in &mut self.node_parameter_edges {
            edges.retain(|edge| edge.source != node_key);
        }
""","""        for (_k, edges) in &mut self.node_parameter_edges {
            if let Some(i) = edges.iter().position(|edge| edge.source == node_key) {
                edges.remove(i);
            }
        }
""")]),
('g-auto-free-source', GR, [(G,"""                if let Some(edges) = self.node_input_edges.get(key) {
                    if edges.iter().flatten().peekable().peek().is_some() {
                        unconnected = false;
                        break 'unconnected_block;
                    }
                }
""","")]),
('g-auto-free-dependents', GR, [(G,"""                            if *source == key {
                                unconnected = false;
                                break 'unconnected_block;
                            }""","""                            let _ = source;""")]),
('g-commit-full', GR, [(G,"""            if self.graph_gen_communicator.new_task_data_producer.is_full() {
                return""","""            if self.graph_gen_communicator.new_task_data_producer.is_full() {
                self.recalculation_required = false;
                return""")]),
('g-commit-fullcheck', GR, [(G,"""            if self.graph_gen_communicator.new_task_data_producer.is_full() {
                return""","""            if false {
                return""")]),
('g-ar-unset', GR, [(G,"""            if let Some(node_index) = self.node_order.iter().position(|k| k == node_key) {
                apc.push(ArParameterChange {
                    node: node_index,
                    parameter_index: *parameter_index as usize,
                    buffer: crate::core::ptr::null(),
                });
            }""","""            let _ = (node_key, parameter_index);""")]),
('g-ar-chan', GR, [(G,"""unsafe { buffer.add(channel_in_source as usize * self.block_size) };""","""unsafe { buffer.add((channel_in_source as usize).min(1) * self.block_size) };""")]),
('g-deps-param', GR, [(G,"""            for edge in edges {
                (unsafe { &mut *self.nodes.get() })[edge.source].num_output_dependents += 1;
            }""","""            if let Some(edge) = edges.first() {
                (unsafe { &mut *self.nodes.get() })[edge.source].num_output_dependents += 1;
            }""")]),
('g-deps-out', GR, [(G,"""        for edge in self.output_edges.iter().flatten() {
            if let NodeKeyOrGraph::Node(source_key) = edge.source {
                (unsafe""","""        for edge in self.output_edges.iter().skip(1).flatten() {
            if let NodeKeyOrGraph::Node(source_key) = edge.source {
                (unsafe""")]),
('g-inputs-empty', GR, [(G,"""                if input.is_null() {
                    *input = self.buffer_allocator.empty_channel();
                }""","""                if input.is_null() {
                    *input = unsafe { self.buffer_allocator.empty_channel().add(self.block_size) };
                }""")]),
('g-dfs-outputs-order', GR, [(G,"""        for node in output_nodes {
            if visited.insert(node) {
                let stack = self.depth_first_search(&mut visited, &mut vec![node]);
                self.node_order.extend(stack);
            }
        }
""","""        let mut start: Vec<NodeKey> = output_nodes.into_iter().filter(|n| visited.insert(*n)).collect();
        let stack = self.depth_first_search(&mut visited, &mut start);
        self.node_order.extend(stack);
""")]),
('g-dfs-params-late', GR, [(G,"""                        nodes_to_process.push(source);
                        visited.insert(source);
                        found_unvisited = true;
                        break;
                    }
                }
            }
            if !found_unvisited {
                node_order""","""                        nodes_to_process.insert(0, source);
                        visited.insert(source);
                        break;
                    }
                }
            }
            if !found_unvisited {
                node_order""")]),
('g-remaining-first', GR, [(G,"""        self.node_order.extend(remaining_nodes.iter());""","""        self.node_order.extend(remaining_nodes.iter().rev());""")]),
('g-free-old-flag', GR, [(G,"""            if flag.load(Ordering::SeqCst) {
                unsafe { self.nodes""","""            if flag.load(Ordering::SeqCst) || i > 2 {
                unsafe { self.nodes""")]),
('g-free-old-noremove', GR, [(G,"""                unsafe { self.nodes.get().as_mut().unwrap().remove(*key) };""","""                if i < 4 { unsafe { self.nodes.get().as_mut().unwrap().remove(*key) }; }""")]),
('g-buffers-free', GR, [(G,"""                if Arc::<OwnedRawBuffer<F>>::strong_count(&self.buffers_to_free_when_safe[i]) == 1 {""","""                if Arc::<OwnedRawBuffer<F>>::strong_count(&self.buffers_to_free_when_safe[i]) == 0 {""")]),
('g-mortality-inv', GR, [(G,"""        self.node_mortality[node.key()] = mortality;""","""        self.node_mortality[node.key()] &= mortality;""")]),
('g-free-flag', GR, [(G,"""            .push((node_key, ggc.next_change_flag.clone()));""","""            .push((node_key, Arc::new(AtomicBool::new(ggc.next_change_flag.load(Ordering::SeqCst)))));""")]),
('g-set-time', GR, [(G,"""                value: Some(value),
                smoothing: None,
                token: None,
                time: Some(t.into()),""","""                value: Some(value),
                smoothing: None,
                token: None,
                time: Some(t.into().to_absolute()),""")]),
('g-param-replace-all', GR, [(G,"""            edges.retain(|pe| pe.parameter_index != param_index);
            edges.push""","""            edges.clear();
            edges.push""")]),
('g-param-add-order', GR, [(G,"""                    source: existing_edge.source.into(),
                    channel_in_source: existing_edge.channel_in_source,
                    is_feedback: false,""","""                    source: existing_edge.source.into(),
                    channel_in_source: source_channel,
                    is_feedback: false,""")]),
('g-name-lookup-freed', GR, [(G,"""            if node.name == name && self.node_exists(id) {""","""            if node.name == name {""")]),
('g-node-data-freed', GR, [(G,"""        if node_id.graph != self.graph_id || !self.node_exists(node_id.key()) {
            return None;""","""        if node_id.graph != self.graph_id {
            return None;""")]),
('g-data-name-freed', GR, [(G,"""            .find(|node| node.1.name == name && self.node_exists(node.0))""","""            .find(|node| node.1.name == name)""")]),
('gg-freed', GR, [(GG,"""        if self.freed {
            for output_channel in output.iter_mut() {
                output_channel.fill(F::ZERO);
            }
            return;
        }""","""        if self.freed && !self.new_task_data_consumer.is_empty() {
            for output_channel in output.iter_mut() {
                output_channel.fill(F::ZERO);
            }
            return;
        }""")]),
('gg-freed-nofill', GR, [(GG,"""        if self.freed {
            for output_channel in output.iter_mut() {
                output_channel.fill(F::ZERO);
            }
            return;""","""        if self.freed {
            return;""")]),
('gg-one-td', GR, [(GG,"""self.new_task_data_consumer.read_chunk(num_new_task_data) {""","""self.new_task_data_consumer.read_chunk(num_new_task_data.min(2)) {""")]),
('gg-pushfront', GR, [(GG,"""                        .push_back((unapplied, num_blocks_waiting + 1));""","""                        .push_front((unapplied, num_blocks_waiting + 1));""")]),
('gg-wait-count', GR, [(GG,"""(unapplied, num_blocks_waiting + 1)""","""(unapplied, num_blocks_waiting + 2)""")]),
('gg-wait-noinc', GR, [(GG,"""(unapplied, num_blocks_waiting + 1)""","""(unapplied, num_blocks_waiting)""")]),
('gg-wait-cmp', GR, [(GG,"""num_blocks_waiting > self.blocks_to_keep""","""num_blocks_waiting + 1 > self.blocks_to_keep""")]),
('gg-events-before', GR, [(GG,"""                        self.waiting_parameter_changes.push_back((event, 0));""","""                        self.waiting_parameter_changes.push_front((event, 0));""")]),
('gg-delay-le', GR, [(GG,"""(delay_in_block < block_size)""","""(delay_in_block <= block_size)""")]),
('gg-token', GR, [(GG,"""        ready_to_apply = ready_to_apply && (delay_in_block < block_size);""","""        ready_to_apply = delay_in_block < block_size;""")]),
('gg-smooth-delay', GR, [(GG,"""                for value in smoothing.into_iter().chain(event.value) {
                    // A delay applies to one change, so it has to be set for each of them
                    if delay_in_block > 0 {
                        g.set_delay""","""                for (i, value) in smoothing.into_iter().chain(event.value).enumerate() {
                    // A delay applies to one change, so it has to be set for each of them
                    if delay_in_block > 0 && i == 0 {
                        g.set_delay""")]),
('gg-value-first', GR, [(GG,"""for value in smoothing.into_iter().chain(event.value) {""","""for value in event.value.into_iter().chain(smoothing) {""")]),
('gg-input-once', GR, [(GG,"""                node_in_buffers[*node_input] = graph_input_ptr;""","""                if node_in_buffers[*node_input].is_null() || *graph_input < 3 { node_in_buffers[*node_input] = graph_input_ptr; }""")]),
('gg-remove-frame', GR, [(GG,"""                    for sample in &mut channel[frame_num as usize..] {""","""                    for sample in &mut channel[(frame_num as usize).max(1)..] {""")]),
('gg-remove-onechan', GR, [(GG,"""                // output zeroes from the frame it's supposed to be freed
                for channel in output.iter_mut() {""","""                // output zeroes from the frame it's supposed to be freed
                if let Some(channel) = output.iter_mut().next() {""")]),
('gg-outputs-nofill', GR, [(GG,"""            } else {
                out_channel.fill(F::ZERO);
            }
        }

        // Check""","""            } else if out_channel[0] != F::ZERO {
                out_channel.fill(F::ZERO);
            }
        }

        // Check""")]),
('t-apply-order', GR, [(T,"""        for task in self.tasks.iter_mut() {
            if let""","""        for task in self.tasks.iter_mut().rev() {
            if let""")]),
('t-applied-early', GR, [(T,"""        self.applied.store(true, Ordering::SeqCst);""","""        self.applied.store(!self.tasks.is_empty(), Ordering::SeqCst);""")]),
('b-return-lt', GR, [(B,"""                && self.allocated_blocks[index].len >= len""","""                && self.allocated_blocks[index].len + block_size > len""")]),
('b-borrows', GR, [(B,"""                self.allocated_blocks[index].outstanding_borrows = num_borrows;""","""                self.allocated_blocks[index].outstanding_borrows = num_borrows.min(3);""")]),
('b-virtual', GR, [(B,"""            self.virtual_allocation_size = self.next_free_pos + num_channels * block_size;""","""            self.virtual_allocation_size = self.next_free_pos + num_channels.min(4) * block_size;""")]),
('b-reset', GR, [(B,"""        self.return_order.clear();
""","")]),
('b-empty-len', GR, [(B,"""        self.get_block(1, block_size, usize::MAX);""","""        self.get_block(1, block_size, 8);""")]),
('h-any-param', 'P05,P26', [(H,"""                if param_i >= self.parameters.len() {""","""                if param_i > self.parameters.len() {""")]),
('h-tuple-token', 'P05', [(H,"""            value: Some(value.into()),
            smoothing: None,
            token: Some(token),""","""            value: Some(value.into()),
            smoothing: None,
            token: Some(token).filter(|t| t.is_activated()),""")]),
('h-tuple-smooth-token', 'P05,P07', [(H,"""            smoothing: Some(smoothing.into()),
            token: Some(token),""","""            smoothing: Some(smoothing.into()),
            token: None.or(Some(token)).filter(|_| false),""")]),
('h-at', 'P05', [(H,"""        let t = v.into().to_absolute();
        self.time = Some(t);""","""        let t = v.into();
        self.time = Some(t);""")]),
('h-abandoned', 'P05,P04', [(H,"""            if sender.is_abandoned() {""","""            if sender.is_abandoned() && event.token.is_some() {""")]),
('s-after', 'P05', [(S,"""                    .saturating_sub(Seconds::from_samples(block_size, sample_rate));
                samples""","""                    .saturating_sub(Seconds::from_samples(block_size + 1, sample_rate));
                samples""")]),
('s-zero', 'P05', [(S,"""            t.saturating_sub(frame_clock)""","""            t.wrapping_sub(frame_clock)""")]),
('s-tokens-keep', 'P12,P05', [(S,"""        if !tokens.iter().any(|t| Arc::ptr_eq(&t.token, &token.token)) {""","""        if tokens.is_empty() {""")]),
('n-live', GR, [(N,"""            NodeUGen::Live(index) => UGenEnum::TakeFromTask(index),""","""            NodeUGen::Live(index) => UGenEnum::TakeFromTask(index.min(node_order_index + 6)),""")]),
('n-params', 'P26,P05', [(N,"""            let s = (self.parameter_descriptions_fn)(i);
            i += 1;""","""            let s = (self.parameter_descriptions_fn)(i);
            i += 1 + (i > 2) as usize;""")]),
]
