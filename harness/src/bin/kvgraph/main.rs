mod donewrap;
mod events;
mod inspect;
mod leak;
mod nest;
mod ops;
mod probe;
mod threads;
mod world;
use kv::*;
use ops::*;

fn p01_f32(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, max_ops: 14, ..Default::default() })
}
fn p01_f64(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f64>(s, c, Profile { graph_in: true, params: true, feedback: true, max_ops: 24, ..Default::default() })
}
fn p01_params(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, params: true, max_ops: 20, ..Default::default() })
}
fn p01_large(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, params: true, feedback: true, large: true, max_ops: 24, ..Default::default() })
}
fn p02(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, max_ops: 20, ..Default::default() })
}
fn p03(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, params: true, invalid: true, subs: true, mortality: true, max_ops: 24, ..Default::default() })
}
fn p03_large(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f64>(s, c, Profile { graph_in: true, feedback: true, params: true, invalid: true, large: true, mortality: true, max_ops: 40, ..Default::default() })
}
fn p02_large(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f64>(s, c, Profile { graph_in: true, feedback: true, params: true, large: true, max_ops: 40, ..Default::default() })
}
fn p04(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, params: true, subs: true, drop_graph: true, settle: true, mortality: true, done: true, delayed_commit: true, max_ops: 24, ..Default::default() })
}
fn p04_churn(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, subs: true, drop_graph: true, settle: true, churn: true, max_ops: 12, ..Default::default() })
}
fn p05(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, params: true, subs: true, mortality: true, events: true, done: true, invalid: true, delayed_commit: true, max_ops: 24, ..Default::default() })
}
fn p05_focus(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f64>(s, c, Profile { subs: true, events: true, event_weight: 60, delayed_commit: true, max_ops: 40, ..Default::default() })
}
fn p05_mid(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { subs: true, events: true, event_weight: 40, midblock: true, delayed_commit: true, max_ops: 24, ..Default::default() })
}
fn p18_mid(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, params: true, feedback: true, subs: true, events: true, midblock: true, drop_graph: true, max_ops: 24, ..Default::default() })
}
fn p12(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, params: true, subs: true, done: true, done_heavy: true, mortality: true, delayed_commit: true, feedback: true, max_ops: 20, ..Default::default() })
}
fn p12_actions(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f64>(s, c, Profile { subs: true, done: true, done_heavy: true, events: true, event_weight: 8, max_ops: 24, ..Default::default() })
}
fn p13(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, params: true, subs: true, sub_heavy: true, max_ops: 24, ..Default::default() })
}
fn p16(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, params: true, subs: true, drop_graph: true, settle: true, mortality: true, done: true, delayed_commit: true, events: true, max_ops: 24, ..Default::default() })
}
fn p16_mid(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f64>(s, c, Profile { graph_in: true, feedback: true, params: true, subs: true, drop_graph: true, events: true, event_weight: 20, midblock: true, max_ops: 24, ..Default::default() })
}
fn p26(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, params: true, subs: true, invalid: true, mortality: true, done: true, inspect: true, delayed_commit: true, max_ops: 24, ..Default::default() })
}

fn main() {
    const RULE: &str = "A case is a random history: usually a build-up of 2-11 connected nodes, then 1-6 batches of edits (add, remove, connect, replace, disconnect, nested graphs, per part), each committed (sometimes late, sometimes half way) and followed by 1-4 blocks; block size 1-64. Non-trivial: at least two blocks were rendered, at least one batch of edits came after audio had been rendered, and the final graph has a connection between nodes and something connected to its output.";
    const R5: &str = "changes/focus: a random history as in P01 (2-11 nodes, edits, blocks) with parameter changes sent through every API (Graph::set, GraphEdit::set/set_many, Parameter handles, Handle, AnyHandle; asap, at a time, after a duration, tokens fired later, smoothing); midblock: the same with changes also sent, and nodes added, while a block is being processed; far: changes close to one second ahead of the audio; ring: more outstanding changes than the ring holds; expire: as many changes as the ring holds that can never be applied (to removed nodes, with tokens that are never activated, hours ahead), and after a little over a second of audio as many that can; handles: whether handles can send and what time they show, before, while and after their graph or the processor goes away. Non-trivial: the history rendered at least two blocks and edits or changes were made after audio had been rendered (far, ring: changes were delivered as well; expire: the ring was full of changes that are never applied; handles: a graph went away).";
    const R18: &str = "midblock: a random history whose edits, commits and changes are also made by the harness while a node is being processed inside a block; burst: more commits than the change ring holds between two blocks, so some have to be kept back (non-trivial: more commits than room); threads: real editing, audio and change-sending threads run freely, every block must show one of the committed states and never an older one than before (non-trivial: three or more different states were rendered).";
    const R12: &str = "done: a random history as in P01 whose nodes often report that they are done (wrapped in a done action, or through mark_remove_self / mark_remove_parent, once or repeatedly, in any block and at any frame), with immortal nodes, late commits and nested graphs; actions: the same with the done action changed and done state triggered by parameter changes; wrapped: up to four nodes with 0-4 parameters, plain or in other wrappers, pushed with a done action: changes to every parameter and to the action, audio-rate connections to parameters (non-trivial: three or more changes over two or more blocks); flags: marks and clears of the flags in any order against a model (non-trivial: three marks and a clear). Non-trivial: at least two blocks were rendered, edits came after audio, and the final graph is connected.";
    const R13: &str = "inlined: a random set of 3-13 connected nodes (feedback and parameter connections included) is built twice, flat and with random consecutive groups moved into nested graphs (up to three inputs and outputs each, nested up to several levels, connected by id or by handle inside the creating callback); both are driven with the same inputs and parameter changes and have to produce the same samples and the same parameter deliveries (non-trivial: at least one nested graph and audible output). nested: edit histories as in P01 with three in ten edits concerning nested graphs, against the reference evaluator.";
    const R16: &str = "everything/midblock: random histories with all features (nested graphs, feedback, parameter connections, self-freeing nodes, tokens, smoothing, dropped graphs, late commits; midblock: edits made inside blocks; flood: more changes waiting for their time or token than the queue holds). steady: the same random edits, blocks and clean-up 22 times over, after which the memory in use may not have grown every time (non-trivial: two nodes and a nested graph, feedback or removals). While a block is rendered every allocation and release on that thread is counted, and none may happen. Non-trivial: at least two blocks were rendered, edits came after audio, and the final graph is connected.";
    const R26: &str = "inspect: a random history as in P03 with named nodes; after commits the inspection of every live graph is compared with the model (nodes, names, channel counts, parameter names, edges with source, sink and kind, feedback edges) and nodes are looked up by name. Non-trivial: at least two blocks were rendered, edits came after audio, and the final graph is connected.";
    const A: &[&str] = &["Nodes compute integers modulo 65521 that stay exact in the sample type; the few histories whose sums leave the exact range are counted and not compared.", "Edits are made from one thread, blocks are rendered between edits; concurrent interleavings are the subject of P18."];
    main_for(vec![
        Prop { id: "P01", rule: RULE, assumptions: A, parts: vec![part("edits", 100000, p01_f32), part("params", 60000, p01_params), part("edits64", 60000, p01_f64), part("large", 10000, p01_large)] },
        Prop { id: "P02", rule: RULE, assumptions: A, parts: vec![part("feedback", 150000, p02), part("large", 10000, p02_large)] },
        Prop { id: "P03", rule: RULE, assumptions: A, parts: vec![part("invalid", 150000, p03), part("large", 10000, p03_large)] },
        Prop { id: "P04", rule: RULE, assumptions: A, parts: vec![part("life", 150000, p04), part("churn", 20000, p04_churn)] },
        Prop { id: "P05", rule: R5, assumptions: A, parts: vec![part("changes", 90000, p05), part("focus", 60000, p05_focus), part("midblock", 30000, p05_mid), part("far", 20000, events::far), part("ring", 40000, events::small_ring), part("expire", 6000, events::expire), part("handles", 40000, events::handles)] },
        Prop { id: "P18", rule: R18, assumptions: A, parts: vec![part("midblock", 100000, p18_mid), part("burst", 40000, threads::burst), part("threads", 8000, threads::threads)] },
        Prop { id: "P12", rule: R12, assumptions: A, parts: vec![part("done", 100000, p12), part("actions", 80000, p12_actions), part("wrapped", 60000, donewrap::wrapped), part("flags", 200000, donewrap::flags)] },
        Prop { id: "P13", rule: R13, assumptions: A, parts: vec![part("inlined", 60000, nest::inlined), part("nested", 80000, p13)] },
        Prop { id: "P16", rule: R16, assumptions: A, parts: vec![part("everything", 80000, p16), part("midblock", 60000, p16_mid), part("flood", 20000, events::flood), part("steady", 40000, leak::steady)] },
        Prop { id: "P26", rule: R26, assumptions: A, parts: vec![part("inspect", 45000, p26)] },
    ])
}
