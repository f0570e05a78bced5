E = "exploration"
MB = "model-based random edit histories, compared with a reference evaluator, with shrinking"

prop("P01", "Rendered audio equals what the declared graph computes",
 "After any accepted sequence of node additions, removals, connections, replacements and disconnections is committed, every following block of output equals, sample for sample, what the declared graph computes when every node is evaluated after everything it reads (each input being the sum of all its connections, unconnected inputs being silent, parameters connected to signals following the sum of those frame by frame, and graph inputs being the audio passed in). Nodes keep their state across edits, run exactly once per block over consecutive frames, and every graph output carries exactly what is connected to it.",
 ["histories", "inputs", "configurations"], "All histories of valid edits and commits, node shapes (including nodes without inputs or outputs), parameter connections, block sizes, sample rates and sample types, for every block and every channel.",
 "Tests build a handful of small fixed graphs; ordering, buffer reuse and recompilation bugs need particular shapes and particular edit histories.",
 [G+"graph.rs", G+"graph_gen.rs", G+"task.rs", G+"buffer_allocator.rs", G+"node.rs", G+"edge.rs", G+"processor.rs", G+"block.rs"],
 [("evaluation order and edge bookkeeping", G+"graph.rs"), ("buffer allocation", G+"buffer_allocator.rs"), ("task list execution", G+"graph_gen.rs")],
 True, MB, "Random edit histories over integer-valued nodes; exact comparison of every output sample with an independent evaluator.")
prop("P02", "Feedback connections deliver the previous block, exactly one block late",
 "A feedback connection delivers to its sink, in every block, exactly what its source produced at the same offset of the previous block, and silence in the first block after it was connected. This holds for any number of feedback connections per source and sink, in cycles and outside them, mixed with ordinary connections, and while the rest of the graph is edited.",
 ["histories", "inputs", "configurations"], "All edit histories with feedback connections (self loops, several per channel, replaced and disconnected), block sizes and inputs.",
 "Tests have two small feedback graphs; the delay depends on where the nodes land in the evaluation order and on edits made while it runs.",
 [G+"graph.rs", G+"node.rs", G+"edge.rs"],
 [("feedback source and sink nodes", G+"graph.rs"), ("task ordering", G+"graph.rs")],
 True, MB, "Random edit histories with feedback connections against a reference evaluator with a one block delay.")
prop("P03", "Invalid edits are rejected with an error and leave the graph as it was",
 "An edit that names a node of another graph, a removed node, a channel or parameter that does not exist, or that would close a cycle without a feedback connection returns an error instead of panicking or corrupting anything; every edit that is valid is accepted. A rejected edit changes nothing: the audio that follows is the audio of the graph without it.",
 ["histories", "inputs"], "All histories mixing valid and invalid edits: foreign, freed and made-up ids, channels and parameters out of range, unknown names, cycles through signal and parameter connections, immortal nodes.",
 "Tests try a few invalid calls on one graph and do not look at the audio that follows.",
 [G+"graph.rs", G+"graph_edit.rs", G+"connectable2.rs"],
 [("id and channel validation", G+"graph.rs"), ("cycle detection", G+"graph.rs")],
 True, MB, "Random edit histories with about one invalid edit in ten, accepted and rejected per a reference model, audio compared afterwards.")
prop("P04", "Every node is initialised once, processed while in the graph, dropped once",
 "Each node added to a graph is initialised exactly once, with the sample rate and block size of its graph, before it is first processed; it is processed from the first block after its commit until its removal takes effect and never again; and it is dropped exactly once, with one of the commits after the audio thread has taken up its removal, never on the audio thread, never while the audio thread can still reach it. This holds for explicit removal, nodes that free themselves, nested graphs, handles dropped early, and tearing everything down in any order.",
 ["histories", "schedules", "configurations"], "All histories of edits, self-freeing nodes, nested graphs, delayed commits and teardown orders of graph handles and the audio processor.",
 "Tests free a few nodes in one order; use-after-free and double drop depend on the interleaving of removal, commit, audio and teardown.",
 [G+"graph.rs", G+"node.rs", G+"graph_gen.rs", G+"task.rs", G+"processor.rs"],
 [("owned node storage and deferred freeing", G+"node.rs"), ("task data handed back by the audio thread", G+"task.rs")],
 True, "model-based random histories with drop counting and a poisoning allocator", "Random histories; nodes count their own lifecycle; a poisoning, quarantining allocator detects late writes.")

prop("P05", "Parameter changes reach their node exactly once, in order, at their time",
 "Every parameter change or trigger that the sending call accepted is applied to its node exactly once, to the right parameter with the value sent. A change without a time is applied before the next block is processed; a change for a time (absolute, or after a duration) is applied in the block that contains that time, at that frame offset, or at once when the time has passed; a change tied to a token waits for the token. Changes without a time to the same parameter are applied in the order sent. This holds through every sending interface (graph, edit closure, parameter, node and type-erased handles), for nodes in nested graphs, while the graph is edited, and until the node is removed; removing a node never misdirects its changes to another one. A change that names a missing node, parameter or graph is refused with an error and has no effect. A change that can no longer be applied (its node is gone, its token is never activated, its time is too far ahead) takes up room for about a second of audio at most, and then no longer stands in the way of others.",
 ["histories", "inputs", "configurations"], "All histories of changes through all interfaces, interleaved with edits and blocks, with no more outstanding changes than the ring holds, times up to about a second ahead of the audio, and sample rates whose frames convert exactly to the time type.",
 "Tests send a few changes to a fixed graph; lost, duplicated, misplaced or misdirected changes depend on the interleaving of sending, edits and block boundaries.",
 [G+"graph_gen.rs", G+"scheduling.rs", G+"handle.rs", G+"graph.rs", G+"graph_edit.rs", G+"dynugen.rs"],
 [("event queue of the audio thread", G+"graph_gen.rs"), ("sending interfaces", G+"graph_edit.rs"), ("handles", G+"handle.rs")],
 True, MB, "Random histories of changes, edits and blocks; every application of a change on every node is recorded and compared with a model of what is due in that block.")
prop("P12", "Done actions free the right nodes at the right moment",
 "A node that reports it is done is freed according to its done action: with no action nothing happens, freeing itself removes the node (and its connections) at the next commit, and freeing its parent silences the enclosing graph from the earliest frame any of its nodes asked for, for good, and removes that graph from its parent at the parent's next commit. Until its removal takes effect a node that is done keeps running; a node is removed at most once, however often and in whichever way it reports done, also when it is freed by hand meanwhile; immortal nodes are not removed; no other node is affected, and marking done never panics or blocks the audio. The done action can be changed by its parameter while running.",
 ["histories", "inputs", "configurations"], "All histories in which nodes report done, once or repeatedly, in any block at any frame, at the top level and in nested graphs, with edits, late commits and changes of the done action in between.",
 "Tests let a single envelope finish; which node is removed, when and how often depends on the blocks and commits between being done and being removed.",
 [G+"graph.rs", G+"graph_gen.rs", G+"node.rs", G+"wrappers_graph/done.rs", "knaster_core/src/ugen.rs"],
 [("freeing nodes that are done", G+"graph.rs"), ("graph output after the parent is freed", G+"graph_gen.rs"), ("done wrapper", G+"wrappers_graph/done.rs")],
 True, MB, "Random histories with nodes that report done at random frames; audio, lifecycle and existence of every node compared with a model.")
prop("P13", "A nested graph behaves like its contents in place",
 "Moving a set of nodes into a nested graph, to any depth, and connecting it through the nested graph's inputs and outputs does not change the output of the whole by a single sample: graph inputs and outputs are passed through every channel, nested graphs see the same blocks, sample rate and frame clock as their parent, parameter changes arrive at the same frames, feedback is delayed by exactly one block, and edits of the nested graph are committed by its own commits, independently of its parent's. Removing the nested graph's node removes everything in it.",
 ["inputs", "configurations", "histories"], "All sets of nodes, ways of grouping them, channel counts, block sizes and later edits.",
 "Tests nest one small graph; channel mapping and timing across the boundary depend on the shape on both sides.",
 [G+"graph.rs", G+"graph_gen.rs", G+"graph_edit.rs", G+"block.rs"],
 [("creating nested graphs", G+"graph.rs"), ("running a nested graph", G+"graph_gen.rs")],
 True, "differential property testing: the same random nodes flat and nested, plus model-based histories, with shrinking", "Generated graphs are rendered flat and nested and compared sample by sample; edit histories with nested graphs are compared with a reference evaluator.")
prop("P16", "Rendering audio never allocates or frees memory, and nothing leaks",
 "Processing a block neither allocates nor frees memory on the audio thread, whatever was edited, scheduled, smoothed, freed or dropped before, in the first block after a commit as in any other, for nested graphs and for nodes that free themselves or their parent; what the audio thread is done with is freed by the editing side with one of the next commits, so the same edits undone over and over do not use more and more memory.",
 ["histories", "schedules", "configurations"], "All histories of edits, parameter changes and tokens, self-freeing nodes, nested graphs, dropped graphs and edits made inside a block.",
 "The repository checks a few fixed scenarios by eye; a release on the audio thread needs a particular hand-over to happen in a particular block.",
 [G+"graph_gen.rs", G+"processor.rs", G+"task.rs", G+"node.rs", G+"scheduling.rs", G+"graph.rs"],
 [("hand-over of task data", G+"graph_gen.rs"), ("scheduled changes", G+"graph_gen.rs"), ("deferred freeing", G+"node.rs")],
 True, "random histories under a counting allocator, with shrinking", "Random histories; a global allocator counts every allocation and release made while a block is rendered.")
prop("P18", "A commit is seen by the audio as a whole, at a block boundary",
 "Edits take effect on the audio only by a commit and only between blocks: a block that is being processed is not affected by edits or commits made meanwhile, every block is the output of one committed state in full, states appear in commit order, and the last committed state is reached however many commits are made between two blocks. Committing, editing or sending changes at any moment relative to the audio never corrupts memory or panics.",
 ["schedules", "histories"], "All placements of edits, commits and parameter changes relative to block processing, including inside a block, bursts of more commits than the change ring holds, and free-running editing, audio and sending threads.",
 "Tests alternate edits and blocks on one thread; torn or lost updates need edits during a block or a backlog of commits.",
 [G+"graph.rs", G+"graph_gen.rs", G+"task.rs", G+"node.rs"],
 [("hand-over of task data", G+"graph_gen.rs"), ("commit and back-pressure", G+"graph.rs")],
 True, "model-based random histories with edits injected inside blocks, plus randomised multi-thread runs", "Deterministic injection of edits inside a block against a reference model, bursts beyond the ring size, and free-running threads checked for whole and ordered states.")
prop("P26", "Inspections and name lookups describe the graph as declared",
 "An inspection of a graph lists exactly its nodes, each with its name, channel counts and parameter names and kinds, and exactly its connections: node to node, graph input to node, node to graph output and feedback connections, each with the right channels; nested graphs are marked with the id of their graph, and parameter changes sent through handles made from the inspection reach the node listed. It reflects every edit accepted so far. Looking up a node by name finds a node with that name and only then, and fails with an error for a name no node has.",
 ["histories", "inputs"], "All edit histories with named and unnamed nodes, nested graphs, removals, renames by re-adding and rejected edits.",
 "Tests inspect one or two fixed graphs.",
 [G+"inspection.rs", G+"graph.rs", G+"graph_edit.rs"],
 [("building the inspection", G+"graph.rs"), ("name lookup", G+"graph_edit.rs")],
 True, MB, "Random edit histories; the inspection after each commit and name lookups compared with the model of the declared graph.")

PB = "property-based testing against an exact model, with shrinking"
prop("P14", "Musical and wall-clock time arithmetic is exact",
 "Seconds and Beats behave as exact fixed-point numbers: ordering, addition, checked and saturating subtraction and sums agree with integer arithmetic on their tesimals and give normalised results; products, scaling by floats and integers and conversions to and from floats and durations are right to within a tesimal (or what the float type can express); the documented fractions of a beat are exact. A number of frames at a common sample rate survives the conversion to Seconds and back, at any sample rate the conversion to frames gives the number of whole frames that fit, and the order of times is the order of the frames.",
 ["inputs"], "All normalised values whose results stay in range (with edges: zero, whole, one tesimal below a whole), all float factors, the thirteen common and all other sample rates, and frame counts up to decades.",
 "Tests convert a few round numbers; carries, truncation and mixed terms go wrong only for particular fractions.",
 [P+"time.rs"], [("fixed-point arithmetic", P+"time.rs")],
 True, PB, "Random values biased to carries and edges; every operation compared with 128-bit integer arithmetic.")
prop("P15", "Blocks and their views show the same samples",
 "Every block type (owned, static, raw contiguous, raw aggregate, empty) and every view of it (slices, single samples, the mutable channel iterator, partial and nested partial views, read-only views) reads and writes the sample at the channel and frame it names and no other; the channel iterator yields every channel once, disjointly; accesses outside a raw block are refused without touching other memory. Partial block metadata, however deeply nested, gives the offset from the start of the block, the number of frames and the frame clock of its part. A UGen that only processes single frames is shown, when given a block, every frame of it once and in order, with its inputs, its offset and its clock, and its outputs end up at that frame.",
 ["inputs", "histories"], "All shapes (zero channels and frames included), sequences of writes through all access paths, and nestings of partial views.",
 "Tests read back a few samples of fixed shapes.",
 [P+"block.rs", C+"ugen.rs", G+"block.rs"],
 [("partial views and iterators", P+"block.rs"), ("raw blocks", G+"block.rs"), ("partial block metadata", C+"ugen.rs")],
 True, PB, "Random writes through all access paths compared with a plain array after each one.")
prop("P17", "Log messages from the audio thread arrive whole and in order",
 "Every message logged from the audio thread that fits the channel is received exactly once, complete, unchanged and in the order sent, per sender; a message that does not fit is dropped or cut short but never mixed with another one, and never blocks or panics. Messages of nodes reach the receiver of their processor, from nested graphs too.",
 ["inputs", "histories", "schedules"], "All sequences of parts, messages and receiving on one to four channels of any capacity, overflowing or not, across threads, and from nodes of nested graphs.",
 "Tests log a handful of messages into a large channel.",
 [C+"log.rs", G+"processor.rs"], [("message ring and receiver", C+"log.rs")],
 True, "model-based random histories and randomised multi-thread runs, with shrinking", "Random sends and receives compared with a queue of messages; a free-running audio thread checked for whole, ordered messages.")
prop("P25", "UGens written with the macros do what their functions say",
 "A UGen defined with impl_ugen has the inputs, outputs and parameters its functions declare, with their names, types and hints; its init, process and block functions are called with the inputs, outputs, context and flags they ask for, exactly as written, also for partial blocks and when no process_block function is written; setting a parameter by index or name calls exactly the matching function with the value given; an unknown index or a smoothing setting without a wrapper calls nothing and does not panic. Enums deriving KnasterIntegerParameter convert to integers and back, with their default for unknown integers and the names of their variants, with or without numbers of their own, as descriptions.",
 ["inputs", "configurations", "histories"], "A generated family of 60 definitions covering channel counts, signatures, argument orders, attributes, overridden types and parameter types, in f32 and f64, under random frames, (partial) blocks and parameter changes.",
 "Tests define a few UGens and mostly check that they compile.",
 ["knaster_macros/src/lib.rs"], [("impl_ugen", "knaster_macros/src/lib.rs")],
 True, "property-based testing over a generated family of macro definitions against their declaration, with shrinking", "60 generated definitions under random calls; each call that arrives and each sample compared with the definition.")
prop("P27", "Parameter values, hints and names keep their type and meaning",
 "A parameter value keeps what it was made from: it has that type, reads back as that type only, and integers round-trip through enums with the default for unknown integers. Hints built from any sequence of builder calls contain exactly what was set and know their type, range, default and descriptions. Setting a parameter through UGen::param by index or name applies it exactly once to that parameter if it exists and the value has its type, and otherwise returns the matching error and applies nothing.",
 ["inputs", "histories"], "All values (non-finite floats and extreme integers included), conversions, hint builder chains, names and indices.",
 "Tests convert single values.",
 [C+"parameters/types.rs", C+"parameters.rs", C+"ugen.rs", P+"parameters.rs"], [("values and conversions", C+"parameters/types.rs"), ("UGen::param", C+"ugen.rs")],
 True, PB, "Random values, hints and parameter settings compared with a model.")
prop("P28", "Number conversions are exact or rounded, random numbers are reproducible",
 "Code that is generic over the sample type gets the number it asks for: converting between f32, f64 and integers through Float::new, to_f32, to_f64 and from_usize gives the same number if the target can hold it and the nearest one otherwise (infinities and NaN stay what they are), the constants are those of the type, and the anti-denormal number is inaudible and keeps sums with denormals normal. The pseudo random number generator gives the xorshift sequence of its seed, never 0, the same for the same seed (0 meaning 17), and floats within 0 to 1 that are its numbers scaled.",
 ["inputs"], "All bit patterns of the sample types, all integers, all seeds and numbers of calls.",
 "No test converts numbers that the target cannot hold, or looks at the generator.",
 [P+"float.rs", D+"dsp/xorrng.rs"], [("sample types", P+"float.rs"), ("random numbers", D+"dsp/xorrng.rs")],
 True, PB, "Random bit patterns through every conversion, compared bit by bit; random seeds and calls of the generator against its definition.")
prop("P29", "Safe use never touches memory that is not its own",
 "Whatever is done through the safe interfaces (any history of valid and invalid edits, commits, parameter changes, blocks, removals and drops in any order, from inside a block or from another thread; any UGen and wrapper rendered whole, in partial blocks or frame by frame, with any values of its parameters, any buffer and any sound file; blocks read and written at any index, inside UGens too; wavetables made from buffers of any length; blocks run with inputs of any number and length), no byte outside of a live object is read or written: buffers of nodes, inputs, feedback and graph outputs stay valid for as long as anything on the audio thread refers to them, they are large enough for the channels and frames used, indexes are checked before they are used, inputs shorter than a block are refused, and nothing is used after it was freed or freed twice.",
 ["histories", "schedules", "inputs", "configurations"], "All histories and inputs of the other properties.",
 "A stray read of one sample rarely changes what a test compares, and needs the shape, block size or order of events that exposes it.",
 [G+"graph.rs", G+"graph_gen.rs", G+"task.rs", G+"buffer_allocator.rs", G+"block.rs", G+"node.rs", "knaster_primitives/src/block.rs", "knaster_core/src/log.rs", D+"wrappers_core/audio_rate.rs", D+"dsp/wavetable.rs"],
 [("buffers handed to tasks", G+"graph.rs"), ("raw blocks", G+"block.rs"), ("wavetable lookups", D+"dsp/wavetable.rs")],
 True, "random histories and inputs of the other properties under the address sanitizer, with shrinking", "The generators of the other properties, run in a build instrumented by the address sanitizer; every report is a violation and is shrunk.")
prop("P30", "Threads that edit, send, listen and render never race",
 "While one thread renders, others may edit the graph and, each on its own thread, the graphs nested in it, send parameter changes through clones of handles, activate tokens, read the shared clock, receive the log, share buffers between readers, read one graph from two threads, move the graph to another thread, or drop the graph or the audio processor at any time, in any order: no two threads ever access the same memory without ordering when one of them writes. The clock read from another thread is always the time at which some block ended and never goes back; seeds handed out on different threads all differ.",
 ["schedules", "histories"], "All edit histories over nested graphs, with every other thread doing what it is meant to at any moment, for any ring and block size.",
 "A race shows on one interleaving in millions, or only on other hardware; tests use one thread.",
 [G+"graph.rs", G+"graph_gen.rs", G+"task.rs", G+"node.rs", G+"handle.rs", G+"scheduling.rs", G+"wrappers_graph/done.rs", G+"processor.rs", "knaster_core/src/log.rs", D+"ugens/noise.rs"],
 [("flags and hand-over", G+"task.rs"), ("clock and tokens", G+"scheduling.rs"), ("seeds", D+"ugens/noise.rs")],
 True, "random multi-thread histories under the thread sanitizer, whose harness orders nothing itself, with shrinking", "Random programs for the editing, sending, listening and rendering threads; the oracle is happens-before order as the thread sanitizer tracks it (standard library instrumented too), plus direct checks on the clock and seeds.")
prop("P10", "Handle expressions build the graph they spell out",
 "A program in the handle language renders what it says: +, -, *, / and pow between any two handles (single nodes, channel selections, results of arithmetic, graph inputs, stacks, typed or type-erased) with the same number of channels combine them channel by channel with the left operand on the left; a constant of any supported number type, on either side, counts with its full value; out selects, | and stack concatenate, to, >>, try_to, to_replace and their feedback forms connect channel by channel (replacing or adding), to_graph_out and its forms reach the graph outputs named, link lets a parameter follow a signal, and disconnecting removes exactly the channel named. Looking up a node gives a handle to that node only. Connections that would close a cycle, and channels or inputs that do not exist, are refused without effect by the forms that report or log errors.",
 ["inputs", "histories"], "All programs of handle operations over nodes of up to three channels, all operand kinds and number types, in f32 and f64, over several edits.",
 "Tests use single operators on single nodes; operand order, channel order and the many operator implementations differ per combination of handle kinds.",
 [G+"graph_edit.rs", D+"ugens/math.rs", D+"ugens/util.rs"], [("operators on handles", G+"graph_edit.rs"), ("connecting handles", G+"graph_edit.rs")],
 True, "random programs of the handle language against a direct evaluation that tracks rounding error, with shrinking", "Random programs over every handle kind; each output sample compared with a direct evaluation.")
prop("P06", "A parameter change delayed within a block takes effect at its exact frame",
 "Under the precise timing wrapper, every parameter change that is given a delay within the block (scheduled in order, at most as many waiting as the wrapper was made for) is applied exactly once, to its parameter, before the frame it was delayed to is processed and not a frame earlier; changes without a delay are applied at once; a delay applies to the one change that follows it. The wrapped UGen processes every frame of the block exactly once and in order, whichever way the block is cut; its frame clock, its inputs and outputs, its done flag and its audio rate parameters are those it would have without the wrapper, and the context is left as it was found. Setting parameters between the partial blocks of a block gives the same output as scheduling them with delays.",
 ["inputs", "configurations", "histories"], "All sequences of blocks with any number of changes at any offsets smaller than the block size, block sizes, sample types, capacities of the wrapper, and UGens with their own state.",
 "The repository tests a ramp with a few changes; off-by-one frames, duplicated or forgotten changes and wrong partial block bounds depend on where the changes fall.",
 [D+"wrappers_core/precise_timing.rs", C+"ugen.rs", "knaster_primitives/src/block.rs"],
 [("splitting a block at waiting changes", D+"wrappers_core/precise_timing.rs")],
 True, "model-based random schedules of changes over blocks with a recording UGen, plus a metamorphic comparison with explicit partial blocks, with shrinking", "Every call on the wrapped UGen (process, parameter, delay, buffer) is recorded and compared with a model.")
prop("P07", "Audio rate parameter buffers control a parameter frame by frame",
 "A UGen under the audio rate parameter wrapper (or one with smoothed parameters outside or inside of it) that is given a buffer for a parameter behaves as if that parameter were set to the buffer's value before every single frame; parameters without a buffer are unaffected; while a parameter has a buffer, values set for it are ignored, and after the buffer is removed it keeps the last value. Wrappers pass buffers and delays on for the parameters they do not handle.",
 ["inputs", "configurations", "histories"], "All histories of buffers set and removed, values set in between, block sizes, sample types and stackings of the wrappers.",
 "Tests drive one parameter of one node; which index a buffer reaches through stacked wrappers and what happens when it is removed is not sampled.",
 [D+"wrappers_core/audio_rate.rs", D+"wrappers_core/smooth_params.rs", D+"wrappers_core/math.rs", C+"ugen.rs"],
 [("applying buffers per frame", D+"wrappers_core/audio_rate.rs")],
 True, "model-based random histories over a recording UGen, with shrinking", "Every parameter application and frame of the wrapped UGen is recorded and compared with a model.")
prop("P08", "Smoothed parameters ramp linearly to their target and stay there",
 "A float parameter with linear smoothing that is set to a new value moves from its current value to the target along a straight line, start + (target - start) * t / duration after t frames (the duration in whole frames, rounded down), reaching the target after the duration and then staying there; a new target in the middle of a ramp starts from the value reached, as does a new duration, towards the same target; a duration of zero jumps. With audio rate smoothing the wrapped UGen gets the value of every frame, with block rate smoothing that of the start of every (partial) block, each independent of how the audio is cut into blocks. Parameters without smoothing, triggers and parameters of other types are passed on unchanged and at once, each parameter has its own smoothing, and turning smoothing off makes further changes immediate.",
 ["inputs", "configurations", "histories"], "All histories of targets, durations, kinds and rates of smoothing per parameter, after a first value was given; block sizes, partial blocks, sample rates and sample types.",
 "Tests ramp one parameter once; interrupted ramps, changed rates and durations that are not a whole number of blocks need particular histories.",
 [D+"wrappers_core/smooth_params.rs", C+"parameters/types.rs"],
 [("ramps", D+"wrappers_core/smooth_params.rs")],
 True, "model-based random histories against an exact linear ramp, with shrinking", "Values the wrapped UGen gets are recorded with their frame and compared with a reference ramp.")
prop("P09", "Arithmetic wrappers apply exactly their operation to every sample",
 "wr_add, wr_sub, wr_v_sub_gen, wr_mul, wr_div, wr_v_div_gen, wr_powf, wr_powi and the closure wrapper turn every sample of every output channel of the wrapped UGen into exactly that operation (with the operands in that order) of it, whether processed frame by frame, in blocks or in partial blocks, alone or stacked in any order. Inputs, parameters, parameter names and hints, audio rate buffers, delays, initialisation and done flags reach the wrapped UGen and come back from it unchanged; the multiplier of wr_mul is an additional last parameter that can be changed while running.",
 ["inputs", "configurations"], "All stacks of up to four wrappers, constants, channels, block sizes and splits, and sample types.",
 "Tests wrap one UGen with one operator; operand order, parameter indices through several wrappers and partial blocks are combinations.",
 [D+"wrappers_core/math.rs", D+"wrappers_core/closure.rs", D+"wrappers_core.rs"],
 [("arithmetic wrappers", D+"wrappers_core/math.rs"), ("closure wrapper", D+"wrappers_core/closure.rs")],
 True, "random stacks of wrappers over a recording UGen against direct evaluation, with shrinking", "Random stacks of wrappers; every output sample and every call that reaches the wrapped UGen compared with a model.")
prop("P11", "How audio is cut into blocks never changes what a UGen puts out",
 "Every UGen of the library (oscillators, envelopes, delays, filters, buffer players, noise, math, panning, closures, wrapped or not) gives the same samples, and is done at the same frame, for the same inputs and the same parameter changes at the same frames, whatever the block size, wherever the blocks are cut into partial blocks, and when it is processed frame by frame instead. Rendering is deterministic: UGens that use random numbers give the same samples in every process that makes them in the same order, for any block size and cuts.",
 ["inputs", "configurations", "schedules"], "All UGens of the library and stacks of wrappers on them, parameter histories, inputs, block sizes, partial blocks, sample rates and sample types.",
 "Tests run a UGen at one block size with one history; state at block boundaries, offsets of partial blocks and process against process_block are never compared.",
 [C+"ugen.rs", C+"block.rs", D+"ugens/envelopes.rs", D+"ugens/buffer.rs", D+"ugens/delay.rs", D+"ugens/osc.rs", D+"ugens/polyblep.rs", D+"ugens/noise.rs", D+"ugens/util.rs", "knaster_airwindows/src/galactic.rs"],
 [("process and process_block of each UGen", D+"ugens"), ("default process_block", C+"ugen.rs"), ("random seeds in order of creation", D+"ugens/noise.rs")],
 True, "metamorphic testing: two runs of one random parameter history with different block structure compared, across two processes for random UGens, with shrinking", "Two runs of the same UGen and history with different block sizes, cuts and frame by frame; random UGens in two processes.")
prop("P19", "Oscillators and noise put out the waveform and frequency they are set to",
 "The sine oscillators and the phasor put out, at every frame, the value of their waveform at the phase accumulated from the frequencies set so far (plus the phase offset), within the resolution of their table and number type, start at phase 0 and restart there when reset. PolyBlep puts out each of its waveforms at that phase with the jumps and corners of the waveform, and nothing else, smoothed within one frame of them (and a sine from a quarter of the sample rate on). White, pink and brown noise and RandomLin stay within -1 to 1 and follow their definition from the random numbers of their seed; RandomLin moves in a straight line between random values at its frequency. Wavetables hold the sum of what was put in them, leave out added sines above 20 kHz for the frequency played and none well below, and interpolate between neighbouring samples, the last and the first included.",
 ["inputs", "histories"], "All frequencies up to the sample rate, pulse widths, waveforms, phase offsets, histories of changes and resets, block structures, sample rates and types, table contents and phases.",
 "Tests compare a few samples at one frequency; discontinuities, wrap-around and changes in mid-cycle depend on exact phases.",
 [D+"ugens/osc.rs", D+"ugens/polyblep.rs", D+"ugens/noise.rs", D+"dsp/wavetable.rs", D+"dsp/xorrng.rs"],
 [("sine oscillators", D+"ugens/osc.rs"), ("band limited waveforms", D+"ugens/polyblep.rs"), ("noise", D+"ugens/noise.rs"), ("wavetables", D+"dsp/wavetable.rs")],
 True, "random parameter histories against reference waveforms computed from the exact phase, with shrinking", "Every sample compared with the waveform at the exact phase; every PolyBLEP corner with an independent polynomial residual.")
prop("P20", "Envelopes follow their segments and are done exactly once",
 "EnvAsr and EnvAr rise in a straight line from the current value to 1 in the attack time, EnvAsr then holds 1 until released, both fall as a cube from the value they have to 0 in the release time, restart from the current value, ignore a release while already released, and are done exactly once per release, at the frame it ends; times can change at any point and hold from there. Envelope goes through its segments in a straight line each, from the start value through each segment's value, exact at its end, with no time lost or gained between segments, scaled by the time scale, starting over at the end when looping and otherwise done once and holding the last value; stopping it holds the current value.",
 ["inputs", "histories"], "All times (zero and less than a frame included), values, time scales, triggers and changes at any frame, in any block structure, sample rates and types.",
 "Tests run one envelope once; restarting in a release, zero durations and done frames at block ends are combinations.",
 [D+"ugens/envelopes.rs"], [("EnvAsr and EnvAr", D+"ugens/envelopes.rs"), ("Envelope", D+"ugens/envelopes.rs")],
 True, "model-based random histories; the model follows every outcome rounding allows, with shrinking", "Every sample and done frame compared with an exact model under random triggers and times.")
prop("P21", "Delays give back exactly what went in, the set time ago",
 "A delay line puts out what was put in the delay time ago, and silence before that, at every frame, for any changes of the time and any number of wraps around its buffer. SampleDelay rounds the time down to whole frames and limits it to its maximum; AllpassDelay and AllpassFeedbackDelay interpolate fractional times with a first order allpass filter, ignore times longer than their maximum, and the latter mixes in its feedback; clearing leaves silence. StaticSampleDelay gives the same frame by frame and in blocks of any size, and reads by position.",
 ["inputs", "histories"], "All delay times, maximum times, changes at any frame, inputs, block sizes and structures, clears, sample rates and types.",
 "Tests use one delay time for a few samples; wrap-around, times equal to the maximum and changes of the time depend on the position in the buffer.",
 [D+"ugens/delay.rs"], [("delay lines", D+"ugens/delay.rs")],
 True, "model-based random histories against an unbounded record of the input, with shrinking", "Every sample compared with a model that keeps all input.")
prop("P22", "Filters have the response their settings describe",
 "The one pole lowpass and highpass smooth their input with exactly the coefficient of their cutoff frequency and are complementary; the highpass passes on its input until it is given a frequency. SvfFilter, for every filter type, is the trapezoidal state variable filter of its cutoff frequency, Q and gain: its measured amplification at any frequency is that of the analog filter of that name at the warped frequency (1 at the cutoff for the allpass, Q for low, high and band, 0 for the notch, the gain for the bell, half the gain in dB for the shelves), and changing any parameter takes effect at once and keeps the state. Resetting clears the state and keeps the coefficients.",
 ["inputs", "histories"], "All filter types, cutoff frequencies, Q and gains, histories of changes at any frame, inputs, block structures, sample rates and types.",
 "Tests run a filter over one signal without comparing its response; a wrong coefficient of one type, or state lost at a change, is not seen.",
 [D+"ugens/svf.rs", D+"ugens/onepole.rs"], [("state variable filter", D+"ugens/svf.rs"), ("one pole filters", D+"ugens/onepole.rs")],
 True, "random parameter histories against a differently formulated filter, and measured frequency responses against the analog prototype, with shrinking", "Every sample compared with a reference filter; amplification measured at random frequencies compared with the analog transfer function.")
prop("P23", "Buffers play back what they hold, at the speed and within the bounds set",
 "BufferReader reads the buffer at its position with linear interpolation (the last frame being followed by the first), gives silence outside of the buffer, for channels the buffer does not have and once finished; the position moves by the rate scaled by the ratio of the sample rates; at the end it starts over when looping and is done once otherwise, at the frame after the last; start, duration, end, rate, looping and restart take effect as set, at any frame. Buffers keep their samples, sizes and rates, give interpolated samples within and silence outside of them, and remove_dc filters every channel on its own. A buffer saved to a wave file and loaded again has the same channels, frames and rate, and its samples within 16 bit resolution, clipped to full scale. Wave files with 8 to 32 bit integer or float samples load as they are; a file that is missing, cut short, damaged or no sound file gives an error or what could be read, never a panic.",
 ["inputs", "histories"], "All buffer contents, lengths, channels, sample rates, rates (not negative), bounds, parameter histories and block structures, sample types; files of up to eight channels.",
 "Tests play one buffer at one rate; loops, bounds, partial frames and channel mismatches need combinations.",
 [D+"ugens/buffer.rs", D+"dsp/buffer.rs"], [("playing buffers", D+"ugens/buffer.rs"), ("buffers and sound files", D+"dsp/buffer.rs")],
 True, "model-based random histories, and round trips through files, with shrinking", "Every sample and done frame compared with a model of the read position; random buffers saved and loaded.")
prop("P24", "Utility UGens compute exactly what they are named after",
 "Pan2 distributes its input with the cosine and sine of the pan position (within its approximation); SafetyLimiter clamps to -1 to 1 and replaces NaN by 0; Constant puts out its value; MathUGen combines channel n with channel n + Channels with its operation and Math1UGen applies its function to every sample. Closures are called once for every frame in order, with that frame's inputs and context, and their results and done marks are kept. DoneOnTrig is done exactly once per trigger, at its frame; LogProbe logs the first and then every N-th sample, N being the sample rate, with its name. The Galactic reverb puts out the network of delays its parameters describe, left and right crossed, mixed with its input.",
 ["inputs", "histories"], "All samples (non-finite ones included), operations, channel counts, closures, triggers, log probes and reverb settings, in any block structure, sample rates and types.",
 "Tests use single values or none at all (Galactic); channel order, edge values and behaviour over time are not covered.",
 [D+"ugens/pan.rs", D+"ugens/dynamics.rs", D+"ugens/math.rs", D+"ugens/closure.rs", D+"ugens/util.rs", "knaster_airwindows/src/galactic.rs"],
 [("utility UGens", D+"ugens/util.rs"), ("math UGens", D+"ugens/math.rs"), ("closures", D+"ugens/closure.rs"), ("reverb", "knaster_airwindows/src/galactic.rs")],
 True, "random inputs and histories against direct evaluation and a reference model of the reverb, with shrinking", "Every sample, call, mark and message compared with direct evaluation; the reverb with an independent model.")
