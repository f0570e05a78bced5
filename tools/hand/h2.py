E='knaster_graph/src/graph_edit.rs'; P='P10,P01,P02,P05'
def one(name,o,n,props=P): return (name,props,[(E,o,n)])
MUT=[
one('e-free-graphcheck',"""        if node.graph != graph_id {
            return Err(""","""        if node.graph != graph_id && node.graph > graph_id {
            return Err("""),
one('e-from-inputs',"""            if c >= num_inputs {""","""            if c > num_inputs {"""),
one('e-fb-replace-static',"""            g.connect2_feedback_replace(source, source_channel, sink_channel, sink)
                .expect("type safe interface should""","""            g.connect2_feedback(source, source_channel, sink_channel, sink)
                .expect("type safe interface should"""),
one('e-replace-static',"""            g.connect2_replace(source, source_channel, sink_channel, sink)
                .expect("type safe""","""            g.connect2(source, source_channel, sink_channel, sink)
                .expect("type safe"""),
one('e-graph-out-replace',"""            g.connect2_replace(source, source_channel, i as u16, NodeOrGraph::Graph)
                .expect("Error connecting to graph output channel");""","""            g.connect2(source, source_channel, i as u16, NodeOrGraph::Graph)
                .expect("Error connecting to graph output channel");"""),
one('e-chan-replace',"""            g.connect2_replace(source, source_channel, sink_channel, NodeOrGraph::Graph)
                .expect("Error connecting to graph output channel.");""","""            g.connect2(source, source_channel, sink_channel, NodeOrGraph::Graph)
                .expect("Error connecting to graph output channel.");"""),
one('e-dyn-out-replace',"""            if let Err(e) = g.connect2_replace(source, source_channel, i as u16, NodeOrGraph::Graph)
            {""","""            if let Err(e) = g.connect2(source, source_channel, i as u16, NodeOrGraph::Graph)
            {"""),
one('e-dyn-chan-replace',"""                g.connect2_replace(source, source_channel, sink_channel, NodeOrGraph::Graph)
            {""","""                g.connect2(source, source_channel, sink_channel, NodeOrGraph::Graph)
            {"""),
one('e-dyn-fb-replace',"""            if let Err(e) = g.connect2_feedback_replace(source, source_channel, sink_channel, sink)
            {""","""            if let Err(e) = g.connect2_feedback(source, source_channel, sink_channel, sink)
            {"""),
one('e-dyn-replace',"""            if let Err(e) = g.connect2_replace(source, source_channel, sink_channel, sink) {""","""            if let Err(e) = g.connect2(source, source_channel, sink_channel, sink) {"""),
one('e-dyn-fb',"""            if let Err(e) = g.connect2_feedback(source, source_channel, sink_channel, sink) {
                log::error!("Failed to connect nodes: {e}");""","""            if let Err(e) = g.connect2(source, source_channel, sink_channel, sink) {
                log::error!("Failed to connect nodes: {e}");"""),
one('e-try-to',"""            g.connect2(source, source_channel, sink_channel, sink)?;
        }
        Ok(n)""","""            g.connect2(source, source_channel, sink_channel, sink).ok();
        }
        Ok(n)"""),
one('e-dyn-stack-in',"""        for chan in Dynamic::iter_inputs(&s.nodes) {
            in_channels.push(chan);
        }
        for chan in Dynamic::iter_outputs(&self.nodes) {
            out_channels.push(chan);
        }
        for chan in Dynamic::iter_outputs(&s.nodes) {
            out_channels.push(chan);
        }
        DH""","""        for chan in Dynamic::iter_inputs(&s.nodes) {
            in_channels.insert(0, chan);
        }
        for chan in Dynamic::iter_outputs(&self.nodes) {
            out_channels.push(chan);
        }
        for chan in Dynamic::iter_outputs(&s.nodes) {
            out_channels.push(chan);
        }
        DH"""),
one('e-stack-dyn-in',"""        for chan in Static::iter_inputs(&self.s1) {
            in_channels.push(chan);
        }""","""        for chan in Static::iter_inputs(&self.s1) {
            in_channels.insert(0, chan);
        }"""),
one('e-const-i32',"""            ConstantNumber::I32(i) => F::new(i as f64),""","""            ConstantNumber::I32(i) => F::new(i as u8 as i8 as f64),"""),
one('e-const-usize',"""            ConstantNumber::Usize(u) => F::from_usize(u),""","""            ConstantNumber::Usize(u) => F::from_usize(u as u8 as usize),"""),
one('e-const-f64',"""            ConstantNumber::F64(f) => F::new(f),""","""            ConstantNumber::F64(f) => F::new(f as f32),"""),
one('e-const-lhs-div',"""div_constant_dynamic_sources,
    knaster_core_dsp::math::Div,
    1,
    0""","""div_constant_dynamic_sources,
    knaster_core_dsp::math::Div,
    0,
    1"""),
one('e-const-lhs-sub',"""math_gen_fn_static_constant!(
    sub_constant_static_sources,
    knaster_core_dsp::math::Sub,
    1,
    0""","""math_gen_fn_static_constant!(
    sub_constant_static_sources,
    knaster_core_dsp::math::Sub,
    0,
    1"""),
one('e-sh-dh-sub',"""    sub_sources_dynamic,
    Sub,
    sub,
    DH<'a, 'b, F, S1>,
    SH<'a, 'b, F, S0>""","""    add_sources_dynamic,
    Sub,
    sub,
    DH<'a, 'b, F, S1>,
    SH<'a, 'b, F, S0>"""),
one('e-sh-dh-div',"""    div_sources_dynamic,
    Div,
    div,
    SH<'a, 'b, F, S0>,
    DH<'a, 'b, F, S1>""","""    mul_sources_dynamic,
    Div,
    div,
    SH<'a, 'b, F, S0>,
    DH<'a, 'b, F, S1>"""),
one('e-bitor-ds',"""        self.stack(rhs.dynamic())""","""        rhs.dynamic().stack(self)"""),
one('e-bitor-sd',"""        let s = self.dynamic();
        s.stack(rhs)""","""        let s = self.dynamic();
        rhs.stack(s)"""),
one('e-link-add',"""            if let Err(e) =
                g.connect_replace_to_parameter(source_node, input.1, p, self.nodes.node_id)
            {
                log::error!("Failed to connect signal to parameter: {e}");
            }
        } else {
            log::error!(
                "Graph input provided as input to a parameter. This is not currently supported. Connection ignored."
            );
        }
        self
    }

    /// Returns the [`NodeId`] of the node this handle points to.
    pub fn id(self) -> NodeId {
        self.nodes.node_id
    }
    /// Get a parameter from the node this handle points to if it exists. Panics if the parameter doesn't exist.
    pub fn param(self, p: impl Into<Param>) -> Parameter {
        self.try""","""            if let Err(e) =
                g.connect_to_parameter(source_node, input.1, p, self.nodes.node_id)
            {
                log::error!("Failed to connect signal to parameter: {e}");
            }
        } else {
            log::error!(
                "Graph input provided as input to a parameter. This is not currently supported. Connection ignored."
            );
        }
        self
    }

    /// Returns the [`NodeId`] of the node this handle points to.
    pub fn id(self) -> NodeId {
        self.nodes.node_id
    }
    /// Get a parameter from the node this handle points to if it exists. Panics if the parameter doesn't exist.
    pub fn param(self, p: impl Into<Param>) -> Parameter {
        self.try"""),
one('e-smooth-time',"""    pub fn smooth_time(
        &mut self,
        s: impl Into<ParameterSmoothing>,
        t: impl Into<Time>,
    ) -> Result<(), GraphError> {
        let s = s.into();
        self.sender.send(crate::SchedulingEvent {
            node_key: self.node.key(),
            parameter: self.param_index as usize,
            value: None,
            smoothing: Some(s),
            token: None,
            time: Some(t.into()),""","""    pub fn smooth_time(
        &mut self,
        s: impl Into<ParameterSmoothing>,
        t: impl Into<Time>,
    ) -> Result<(), GraphError> {
        let s = s.into();
        self.sender.send(crate::SchedulingEvent {
            node_key: self.node.key(),
            parameter: self.param_index as usize,
            value: None,
            smoothing: Some(s),
            token: None,
            time: Some(t.into().to_absolute()),""",'P05,P07'),
one('e-smooth-after',"""            value: None,
            smoothing: Some(s),
            token: None,
            time: Some(Time::after(t.into())),""","""            value: None,
            smoothing: Some(s),
            token: None,
            time: None,""",'P05,P07'),
one('e-trig-after',"""            value: Some(ParameterValue::Trigger),
            smoothing: None,
            token: None,
            time: Some(Time::after(t.into())),""","""            value: Some(ParameterValue::Trigger),
            smoothing: None,
            token: None,
            time: Some(Time::at(t.into())),""",'P05'),
one('e-trig-at',"""            value: Some(ParameterValue::Trigger),
            smoothing: None,
            token: None,
            time: Some(Time::at(t.into())),""","""            value: Some(ParameterValue::Trigger),
            smoothing: None,
            token: None,
            time: Some(Time::after(t.into())),""",'P05'),
one('e-dyn-param-desc',"""                for (i, desc) in self.nodes.data.parameter_descriptions().enumerate() {
                    if s == desc {""","""                for (i, desc) in self.nodes.data.parameter_descriptions().enumerate() {
                    if desc.starts_with(s) {""",'P05,P26,P10'),
one('e-dyn-param-index',"""                if i < self.nodes.data.parameters as usize {""","""                if i <= self.nodes.data.parameters as usize {""",'P05,P26,P10'),
one('e-dyn-disc',"""        g.disconnect_output_from_source(source.0, source.1)
            .expect("Error disconnecting from output channel.");
    }
    /// Disconnect any input from the specified channel.
    pub fn disconnect_input(&self, sink_channel: u16) {
        let mut g = self.graph.write();
        let sink = self
            .nodes
            .iter_inputs()
            .nth(sink_channel as usize)
            .expect("Input channel to disconnect does not exist.");
        g.disconnect_input_to_sink(sink.1, sink.0)
            .expect("Error disconnecting input channel.");
    }
    /// Connect this handle to another handle, returning a [`Stack`] which can be used to connect
    /// to other handles.
    ///
    /// This is useful for connecting multiple outputs of a single node to multiple nodes or vice
    /// versa.
    pub fn stack<S: Dynamic>""","""        g.disconnect_output_from_source(source.0, source_channel)
            .expect("Error disconnecting from output channel.");
    }
    /// Disconnect any input from the specified channel.
    pub fn disconnect_input(&self, sink_channel: u16) {
        let mut g = self.graph.write();
        let sink = self
            .nodes
            .iter_inputs()
            .nth(sink_channel as usize)
            .expect("Input channel to disconnect does not exist.");
        g.disconnect_input_to_sink(sink_channel, sink.0)
            .expect("Error disconnecting input channel.");
    }
    /// Connect this handle to another handle, returning a [`Stack`] which can be used to connect
    /// to other handles.
    ///
    /// This is useful for connecting multiple outputs of a single node to multiple nodes or vice
    /// versa.
    pub fn stack<S: Dynamic>"""),
one('e-static-disc',"""        g.disconnect_input_to_sink(sink.1, sink.0)
            .expect("Error disconnecting input channel.");
    }
    /// Connect this handle to another handle, returning a [`Stack`] which can be used to connect
    /// to other handles.
    ///
    /// This is useful for connecting multiple outputs of a single node to multiple nodes or vice
    /// versa.
    pub fn stack<S1: Static>""","""        g.disconnect_input_to_sink(sink_channel, sink.0)
            .expect("Error disconnecting input channel.");
    }
    /// Connect this handle to another handle, returning a [`Stack`] which can be used to connect
    /// to other handles.
    ///
    /// This is useful for connecting multiple outputs of a single node to multiple nodes or vice
    /// versa.
    pub fn stack<S1: Static>"""),
one('e-out-order',"""            channels[i] = self.nodes.iter_outputs().nth(c as usize).unwrap();""","""            channels[i] = self.nodes.iter_outputs().nth((c as usize).max(i.min(1) * (c as usize / 2))).unwrap();"""),
one('e-add-static-swap',"""                if let Err(e) = g.connect2(s1.0, s1.1, 1, NodeOrGraph::Node(mul.node_id())) {
                    log::error!("Failed to connect node to arithmetics node: {e}");
                }
                out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);""","""                if let Err(e) = g.connect2(s1.0, s0.1, 1, NodeOrGraph::Node(mul.node_id())) {
                    log::error!("Failed to connect node to arithmetics node: {e}");
                }
                out_channels.push(NodeOrGraph::Node(mul.node_id()), 0);"""),
]
