W='knaster_core_dsp/src/wrappers_core/'; U='knaster_core_dsp/src/ugens/'; D='knaster_core_dsp/src/dsp/'
MUT=[]
def m(name,props,f,*eds): MUT.append((name,props,[(f,o,n) for o,n in eds]))
S=W+'smooth_params.rs'
m('sm-done-start','P08',S,("""                                start_value: end_value,
                                end_value,""","""                                start_value,
                                end_value,"""))
m('sm-relinear-done','P08',S,("""                                rate: new_rate,
                                done: false,""","""                                rate: new_rate,
                                done,""") ,("""                        done,
                        rate: _,""","""                        done,
                        rate: old_rate,"""),("""                            let current_mix = ramp_position(frames_elapsed, duration_frames);
                            let current_value =
                                (end_value - start_value) * current_mix + start_value;
                            self.smoothing""","""                            let current_mix = ramp_position(frames_elapsed, duration_frames);
                            let new_rate = if new_duration_in_frames == duration_frames { old_rate } else { new_rate };
                            let current_value =
                                (end_value - start_value) * current_mix + start_value;
                            self.smoothing"""))
m('sm-relinear-rate','P08',S,("""                        rate: _,
                    } => {
                        if done {
                            self.smoothing_state[index] = ParameterSmoothingState::Linear {
                                start_value: end_value,
                                end_value,
                                duration_frames: new_duration_in_frames,
                                frames_elapsed: 0,
                                rate: new_rate,""","""                        rate: old_rate,
                    } => {
                        if done {
                            self.smoothing_state[index] = ParameterSmoothingState::Linear {
                                start_value: end_value,
                                end_value,
                                duration_frames: new_duration_in_frames,
                                frames_elapsed: 0,
                                rate: old_rate,"""))
m('sm-block-partial','P08',S,("""                        if let Some(new_value) = state.next_value(frames_to_process, i) {""","""                        if let Some(new_value) = state.next_value(frames_to_process - i, i) {"""))
m('sm-block-bs','P08',S,("""                if let Some(new_value) = state.next_value(ctx.frames_to_process(), 0) {""","""                if let Some(new_value) = state.next_value(ctx.block_size(), 0) {"""))
m('sm-any-ar','P08',S,("""            there_is_an_ar_parameter = there_is_an_ar_parameter || p.has_new_ar_value();""","""            there_is_an_ar_parameter = p.has_new_ar_value();"""))
m('sm-any-ar2','P08',S,("""                    there_is_a_new_smoothing_value =
                        there_is_a_new_smoothing_value || p.has_new_ar_value();""","""                    there_is_a_new_smoothing_value = p.has_new_ar_value();"""))
m('sm-ctx-partial','P08,P11',S,("""                    let partial_ctx = org_block.make_partial(i, 1);
                    ctx.block = partial_ctx;""","""                    let partial_ctx = org_block.make_partial(0, 1);
                    ctx.block = partial_ctx;"""))
m('sm-ctx-rest','P08,P11',S,("""                    let partial_ctx = org_block.make_partial(i, frames_left);
                    ctx.block = partial_ctx;""","""                    let partial_ctx = org_block.make_partial(0, frames_left);
                    ctx.block = partial_ctx;"""))
m('sm-ctx-restore','P08,P11,P09,P20',S,("""            ctx.block = org_block;
        } else {""","""        } else {"""))
m('sm-int-ramp','P08',S,("""                        } => {
                            if *done {
                                *start_value = *end_value;
                            } else {""","""                        } => {
                            if *done || *frames_elapsed == 0 {
                                *start_value = *end_value;
                            } else {"""))
m('sm-same-value','P08',S,("""                            *end_value = float_value;
                            *done = false;
                            *frames_elapsed = 0;""","""                            *frames_elapsed = if *end_value == float_value && *done { *duration_frames } else { 0 };
                            *end_value = float_value;
                            *done = false;"""))
m('sm-none-value','P08',S,("""                            *current_value = float_value;
                            self.ugen.param_apply(ctx, index, value)""","""                            if *current_value != float_value {
                                *current_value = float_value;
                                self.ugen.param_apply(ctx, index, value)
                            }"""))
m('sm-dur-round','P08',S,("""(new_duration as f64 * sample_rate) as usize;""","""(new_duration as f64 * sample_rate).round() as usize;"""))
m('sm-dur-f32','P08',S,("""(new_duration as f64 * sample_rate) as usize;""","""(new_duration as f32 * sample_rate as f32) as usize;"""))
m('sm-bool','P08',S,("""            ParameterValue::Integer(_) | ParameterValue::Trigger | ParameterValue::Bool(_) => {
                self.ugen.param_apply(ctx, index, value)""","""            ParameterValue::Bool(_) => {}
            ParameterValue::Integer(_) | ParameterValue::Trigger => {
                self.ugen.param_apply(ctx, index, value)"""))
m('sm-delay-pass','P08,P07,P05',S,("""        self.ugen
            .set_delay_within_block_for_param(ctx, index, delay);""","""        let _ = (ctx, index, delay);"""))
m('sm-ar-pass','P08,P06',S,("""            self.ugen.set_ar_param_buffer(ctx, index, buffer);""","""            let _ = (ctx, index, buffer);"""))
m('sm-zero-dur','P08',S,("""    if duration_frames == 0 {
        1.0""","""    if duration_frames == 0 {
        0.0"""))
P=W+'precise_timing.rs'
m('pt-lt','P07',P,("if (*delay as usize) <= block_i","if (*delay as usize) < block_i"))
m('pt-offset','P07',P,("""                            .min((*delay) as usize - ctx.block_start_offset() - block_i);""","""                            .min((*delay) as usize - block_i);"""))
m('pt-cap','P07',P,("} else if self.next_delay_i < DELAYED_CHANGES_PER_BLOCK {","} else if self.next_delay_i + 1 < DELAYED_CHANGES_PER_BLOCK {"))
m('pt-delay-shared','P07',P,("        self.next_delay[index] = delay;","        self.next_delay.iter_mut().for_each(|d| *d = 0);\n        self.next_delay[index] = delay;"))
m('pt-delay-sticky','P07',P,("let delay = core::mem::take(&mut self.next_delay[index]);","let delay = self.next_delay[index];"))
m('pt-max-delay','P07',P,("        self.next_delay[index] = delay;","        self.next_delay[index] = self.next_delay[index].max(delay);"))
m('pt-last-frame','P07',P,("""            if block_i >= ctx.frames_to_process() {
                break;""","""            if block_i + 1 >= ctx.frames_to_process() && block_i > 0 && false {
                break;
            }
            if block_i >= ctx.frames_to_process() {
                break;"""))
m('pt-process-order','P07',P,("for waiting_change in &mut self.waiting_changes {","for waiting_change in self.waiting_changes.iter_mut().rev() {"))
m('pt-process-reset','P07',P,("""        self.next_delay_i = 0;
        self.ugen.process(ctx, flags, input)""","""        self.ugen.process(ctx, flags, input)"""))
m('pt-ar','P07,P06,P05',P,("unsafe { self.ugen.set_ar_param_buffer(ctx, index, buffer) }","let _ = (ctx, index, buffer);"))
m('pt-none-break','P07',P,("""                    self.ugen.param_apply(ctx, *index, *value);
                        self.waiting_changes[change_i] = None;""".replace("                    self","                        self",1),"""                        self.ugen.param_apply(ctx, *index, *value);
                        self.waiting_changes[change_i] = None;
                        if *delay as usize == ctx.block_start_offset() { break; }""")) if False else None
A=W+'audio_rate.rs'
m('ar-f32','P06',A,("let value = unsafe { *ptr.add(self.block_index) }.to_f64() as PFloat;","let value = unsafe { *ptr.add(self.block_index) }.to_f32() as PFloat;"))
m('ar-mod','P06',A,("(self.block_index + 1) % ctx.block_size()","(self.block_index + 1) % ctx.frames_to_process().max(2)"))
m('ar-null','P06',A,("self.buffers[index] = (!buffer.is_null()).then_some(buffer);","if !buffer.is_null() { self.buffers[index] = Some(buffer); }"))
m('ar-apply','P06',A,("if self.buffers[index].is_none() {","if self.buffers[0].is_none() {"))
m('ar-delay','P06,P07,P05',A,("""        self.ugen
            .set_delay_within_block_for_param(ctx, index, delay);""","""        let _ = (ctx, index, delay);"""))
m('ar-change-only','P06',A,("""                self.ugen
                    .param_apply(ctx, param, ParameterValue::Float(value))""","""                if self.block_index == 0 || unsafe { *ptr.add(self.block_index - 1) } != unsafe { *ptr.add(self.block_index) } {
                self.ugen
                    .param_apply(ctx, param, ParameterValue::Float(value))
                }"""))
L=U+'delay.rs'
m('dl-min','P21',L,("self.delay_samples.min(self.buffer.len() - 1);","self.delay_samples.min(self.buffer.len() - 1).min(self.buffer.len().saturating_sub(2));"))
m('dl-sec','P21',L,("self.delay_samples = (seconds * ctx.sample_rate() as PFloat) as usize;","self.delay_samples = (seconds as f32 * ctx.sample_rate() as f32) as usize;"))
m('dl-ap-state','P21',L,("        self.prev_output = output;\n","        self.prev_output = if self.coeff == F::ONE { input } else { output };\n"))
m('dl-ap-clear','P21',L,("""        self.prev_input = F::ZERO;
        self.prev_output = F::ZERO;
    }""","""        self.prev_output = F::ZERO;
    }"""))
m('dl-ap-half','P21',L,("delta < F::new(0.5) {","delta <= F::new(0.5) {"))
m('dl-ap-half2','P21',L,("delta < F::new(0.5) {","delta < F::new(0.4) {"))
m('dl-ap-long','P21',L,("if (delay_frames as usize) <= self.buffer.len() {","if (delay_frames as usize) < self.buffer.len() {"))
m('dl-ap-long2','P21',L,("if (delay_frames as usize) <= self.buffer.len() {","if delay_frames <= self.buffer.len() as PFloat {"))
m('dl-ap-read','P21',L,("self.read_frame = if self.write_frame >= self.num_frames {","self.read_frame = if self.write_frame > self.num_frames {"))
m('dl-ap-clearn','P21',L,("self.clear_nr_of_samples_left = self.num_frames;","self.clear_nr_of_samples_left = self.num_frames - 1;"))
m('dl-ap-zero','P21',L,("            delta = F::ZERO;\n        } else if","        } else if"))
m('dl-fb-clear','P21',L,("""    pub fn clear(&mut self) {
        self.allpass_delay.clear();""","""    pub fn clear(&mut self) {
        self.allpass_delay.allpass.clear();"""))
m('dl-fb-gain','P21',L,("delayed_sig - self.feedback * delay_write","delayed_sig - self.feedback * (if self.feedback < F::ZERO { input } else { delay_write })"))
m('dl-st-len','P21,P24',L,("        self.position %= self.delay_length;\n","        self.position = 0;\n"))
m('dl-st-read','P21,P24',L,("            output[0..(block_size - read_end)]\n                .copy_from_slice(&self.buffer[self.position..self.delay_length]);\n            output[(block_size - read_end)..].copy_from_slice(&self.buffer[0..read_end]);","            output[0..(block_size - read_end)]\n                .copy_from_slice(&self.buffer[self.position..self.delay_length]);\n            output[(block_size - read_end)..].copy_from_slice(&self.buffer[(self.delay_length % self.buffer.len()).min(self.buffer.len() - read_end)..][..read_end]);"))
m('dl-st-lin','P21,P24',L,("""        if high >= self.buffer.len() {
            high -= self.buffer.len();
        }""","""        if high >= self.buffer.len() {
            high = low;
        }"""))
m('dl-st-proc','P21,P24',L,("if self.delay_length > block_size {\n            self.read_block(output);\n            self.write_block_and_advance(input);","if self.delay_length >= block_size {\n            self.write_block_and_advance(input);\n            self.position = (self.position + self.delay_length - block_size) % self.delay_length;\n            self.read_block(output);\n            self.position = (self.position + block_size) % self.delay_length;"))
E=U+'envelopes.rs'
m('ev-asr-restart-stop','P20',E,("""            self.t = self.t.powi(3) * self.release_scale;
        }
        self.state = AsrState::Attacking;""","""            self.t = self.t.powi(3);
        }
        self.state = AsrState::Attacking;"""))
m('ev-asr-sustain-restart','P20',E,("""        self.state = AsrState::Attacking;""","""        if !matches!(self.state, AsrState::Sustaining) {
            self.state = AsrState::Attacking;
        }"""))
m('ev-asr-scale-sus','P20',E,("""            AsrState::Sustaining => {
                self.release_scale = F::ONE;""","""            AsrState::Sustaining => {"""))
m('ev-asr-done','P20,P11,P12',E,("""                    self.state = AsrState::Stopped;
                    self.t = F::ZERO;
                    flags.mark_done(sample_in_block);""","""                    self.state = AsrState::Stopped;
                    self.t = F::ZERO;
                    flags.mark_done(sample_in_block + 1);"""))
m('ev-ar-scale','P20',E,("""                    self.release_scale = F::ONE;
                    self.state = ArState::Releasing;""","""                    self.state = ArState::Releasing;"""))
m('ev-ar-t','P20',E,("""                    self.state = ArState::Stopped;
                    self.t = F::ZERO;""","""                    self.state = ArState::Stopped;"""))
m('ev-ar-offset','P20,P11',E,("""        for (i, out) in output.channel_as_slice_mut(0).iter_mut().enumerate() {
            *out = self.next_sample(flags, (offset + i) as u32);""","""        for (i, out) in output.channel_as_slice_mut(0).iter_mut().enumerate() {
            *out = self.next_sample(flags, (offset.min(1) * offset + i) as u32);"""))
m('ev-env-carry','P20',E,("""                            current_time: current_time - segment.duration
                                + (self.time_scale * self.base_scale),""","""                            current_time: self.time_scale * self.base_scale,"""))
m('ev-env-from','P20',E,("""                    self.from_value = self.start_value;
                }
                3""","""                    if !self.looping { self.from_value = self.start_value; }
                }
                3"""))
m('ev-env-loop','P20',E,("""                                current_segment: 0,
                                current_time: 0.,""","""                                current_segment: 0,
                                current_time: self.time_scale * self.base_scale,"""))
m('ev-env-jump','P20',E,("""                            *current_segment = jump_to_segment;
                            *current_time = 0.0;""","""                            if *current_segment != jump_to_segment { *current_time = 0.0; }
                            *current_segment = jump_to_segment;"""))
m('ev-env-stop','P20',E,("""                        } else {
                            segment.value
                        };""","""                        } else {
                            self.from_value
                        };"""))
m('ev-env-jumpclamp','P20',E,("""                        jump_to_segment = self.segments.len() - 1;""","""                        jump_to_segment = 0;"""))
O=U+'onepole.rs'
m('op-f32sr','P22',O,(""".set_freq_lowpass(F::new(freq), F::from(ctx.sample_rate()).unwrap())""",""".set_freq_lowpass(F::new(freq as f32), F::from(ctx.sample_rate()).unwrap())"""))
m('op-hp','P22',O,("        input - self.last_output\n","        input - self.last_output * (F64X).into()\n")) if False else None
m('op-init','P22',O,("""        if self.op.a0 == F::ONE {
            let freq = self.op.b1;
            self.op.set_freq_lowpass(""","""        if self.op.a0 == F::ONE || self.op.b1 > F::new(0.9999) {
            let freq = self.op.b1;
            self.op.set_freq_lowpass("""))
C=U+'osc.rs'
m('os-sin-init','P19',C,("        if self.phase_increment == F::ZERO {\n            // Set freq","        {\n            // Set freq"))
m('os-sin-reset','P19',C,("""    pub fn reset_phase(&mut self) {
        self.phase = F::ZERO;""","""    pub fn reset_phase(&mut self) {
        self.phase = -self.phase_offset;"""))
m('os-ph-wrap','P19',C,("while self.phase >= 1.0 {\n            self.phase -= 1.0;","if self.phase >= 1.0 {\n            self.phase -= 1.0;"))
m('os-ph-wrap2','P19',C,("while self.phase >= 1.0 {","while self.phase > 1.0 {"))
m('os-ph-freq','P19',C,("        if self.freq_to_phase_step_mult == 0.0 {\n            self.step = freq;","        if self.freq_to_phase_step_mult == 0.0 {\n            self.step = freq.max(0.0);"))
V=U+'svf.rs'
m('sv-q-change','P22',V,("""    pub fn q(&mut self, q: PFloat, ctx: &AudioCtx) {
        self.q = F::new(q);
        self""","""    pub fn q(&mut self, q: PFloat, ctx: &AudioCtx) {
        if self.q == F::new(q) { return; }
        self.q = F::new(q);
        self"""))
m('sv-gain-low','P22',V,("""                let g = ((F::PI * cutoff) / sample_rate).tan() / amp.sqrt();""","""                let g = ((F::PI * cutoff) / sample_rate).tan() / amp.max(F::ONE).sqrt();"""))
m('sv-bell-neg','P22',V,("let k = F::ONE / (q * amp);","let k = F::ONE / (if gain_db < F::ZERO { q / amp } else { q * amp });"))
m('sv-filter-no','P22',V,("""        self.ty = SvfFilterType::from(filter);
        self.set_coeffs(""","""        self.ty = SvfFilterType::from(filter);
        self.ic1eq = F::ZERO;
        self.set_coeffs("""))
m('sv-peak','P22',V,("                self.m2 = -F::new(2.);","                self.m2 = -F::new(2.0001);"))
m('sv-all','P22',V,("self.m1 = -F::new(2.) * k;","self.m1 = -F::new(2.) * k.min(F::new(8.));"))
N=U+'noise.rs'
m('nz-pink-mask','P24,P19',N,("self.counter &= self.mask - 1;","self.counter %= self.mask - 1;"))
m('nz-brown','P24,P19',N,("self.last_output.clamp(-F::ONE, F::ONE);","self.last_output.clamp(-F::new(0.999), F::ONE);"))
m('nz-lin-start','P24,P19',N,("        self.phase = F::new(0.0);\n","        self.phase -= F::ONE;\n"))
m('nz-lin-freq','P24,P19',N,("""            self.phase_step = F::new(value) * self.freq_to_phase_inc;""","""            self.phase_step = F::new(value).abs() * self.freq_to_phase_inc;"""))
m('nz-lin-init','P24,P19',N,("""        self.phase_step *= self.freq_to_phase_inc;
        self.new_value();""","""        self.phase_step *= self.freq_to_phase_inc;"""))
T=U+'util.rs'
m('ut-done','P24,P11,P12',T,("""            self.triggered = false;
            flags.mark_done""","""            flags.mark_done"""))
m('ut-const','P24,P11',T,("output[0].fill(self.value);","let v = F::new(self.value.to_f32());\n        output[0].fill(v);"))
m('ut-probe','P17,P24,P11',T,("            self.sample_counter = self.samples_between_logs;","            self.sample_counter = self.samples_between_logs + 1;"))
m('pan-clamp','P24',U+'pan.rs',("""    pub fn pan(&mut self, pan: f32) {
        self.pan = pan * 0.5 + 0.5;""","""    pub fn pan(&mut self, pan: f32) {
        self.pan = (pan * 0.5 + 0.5).clamp(0.01, 0.99);"""))
m('lim-nan','P24',U+'dynamics.rs',("let s = if s.is_nan() { F::new(0.0) } else { s };","let s = if input[0].is_nan() && input[0].is_sign_positive() { F::new(0.0) } else { s };"))
B=U+'buffer.rs'
m('bf-done','P23,P11',B,("flags.mark_done((ctx.block_start_offset() + i + 1) as u32);","flags.mark_done((ctx.block_start_offset() + i) as u32);"))
m('bf-start-end','P23',B,("""        self.start_frame = start_time.to_samples_f64(self.buffer.sample_rate());
        self.end_frame = self.start_frame + self.dur_frame;""","""        self.start_frame = start_time.to_samples_f64(self.buffer.sample_rate());
        self.end_frame = (self.start_frame + self.dur_frame).min(self.buffer.num_frames());"""))
m('bf-dur-neg','P23',B,("if duration_s < 0.0 {","if duration_s <= 0.0 {"))
m('bf-loop-fin','P23',B,("""    pub fn looping(&mut self, value: bool) {
        self.looping = value;""","""    pub fn looping(&mut self, value: bool) {
        self.looping = value;
        if value { self.finished = false; }"""))
m('bf-rate-chan','P23',B,("""                self.read_pointer += self.base_rate * self.rate;
                if self.read_pointer >= self.end_frame {
                    self.finished = true;
                    if self.looping {
                        self.reset();
                    } else {
                        flags.mark_done((""","""                self.read_pointer += self.base_rate * self.rate;
                if self.read_pointer >= self.end_frame {
                    self.finished = true;
                    if self.looping {
                        let over = self.read_pointer - self.end_frame;
                        self.reset();
                        self.read_pointer += over;
                    } else {
                        flags.mark_done(("""))
m('bf-stop','P23',B,("stop_sample = Some(i + 1);","stop_sample = Some(i + 1 + (i & 0));\n                    if i + 2 == ctx.frames_to_process() { stop_sample = None; }"))
G=D+'buffer.rs'
m('bu-wrap','P23',G,("let next = (index_u + self.num_channels) % self.buffer.len();","let next = if index_u + self.num_channels < self.buffer.len() { index_u + self.num_channels } else { 0 };"))
m('bu-neg','P23',G,("""        let frame = if index >= 0.0 {
            Some(index as usize)""","""        let frame = if index > -1.0 {
            Some(index as usize)"""))
m('bu-dc','P23',G,("let c = i % self.num_channels;","let c = i % self.num_channels.min(2);"))
m('bu-frames','P23',G,("let size = (buffer.len() / num_channels) as f64;","let size = buffer.len() as f64 / num_channels as f64;"))
Q=U+'polyblep.rs'
m('pb-inc','P19',Q,("        self.t -= bitwise_or_zero(self.t);\n    }\n\n    fn get_and","        if self.t >= F::ONE {\n            self.t -= F::ONE;\n        }\n    }\n\n    fn get_and"))
m('pb-quarter','P19',Q,("if self.get_freq_in_hz() >= self.sample_rate / F::new(4.) {","if self.get_freq_in_hz() > self.sample_rate / F::new(4.) {"))
m('pb-tri2-clamp','P19',Q,("let pulse_width = self.pulse_width.min(F::new(0.9999)).max(F::new(0.0001));","let pulse_width = self.pulse_width.min(F::new(0.999)).max(F::new(0.0001));"))
m('pb-trip-zero','P19',Q,("if self.pulse_width > F::new(0.) {","if self.pulse_width > F::new(0.01) {"))
m('pb-sync','P19',Q,("            self.t += F::ONE - bitwise_or_zero(self.t);","            self.t += F::ONE;"))
m('pb-blamp','P19',Q,("""        t = (t - F::ONE) / dt + F::ONE;
        F::ONE / F::new(3.) * square_number(t) * t""","""        t = (t - F::ONE) / dt + F::ONE;
        F::ONE / F::new(3.) * square_number(t)"""))
m('pb-half','P19',Q,("""            * (blamp(self.t, self.freq_in_seconds_per_sample)
                + blamp(t2, self.freq_in_seconds_per_sample));

        y
    }

    fn full""","""            * (blamp(self.t, self.freq_in_seconds_per_sample)
                - blamp(t2, self.freq_in_seconds_per_sample));

        y
    }

    fn full"""))
MUT=[x for x in MUT if x]
