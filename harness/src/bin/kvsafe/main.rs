#[path = "../kvgraph/donewrap.rs"]
mod donewrap;
#[path = "../kvgraph/events.rs"]
mod events;
#[path = "../kvgraph/inspect.rs"]
mod inspect;
#[path = "../kvgraph/leak.rs"]
mod leak;
#[path = "../kvgraph/nest.rs"]
mod nest;
#[path = "../kvgraph/ops.rs"]
mod ops;
#[path = "../kvgraph/probe.rs"]
mod probe;
#[path = "../kvgraph/threads.rs"]
mod threads;
#[path = "../kvgraph/world.rs"]
mod world;
#[path = "../kvdsp/arith.rs"]
mod arith;
#[path = "../kvdsp/buf.rs"]
mod buf;
#[path = "../kvdsp/delay.rs"]
mod delay;
#[path = "../kvdsp/det.rs"]
mod det;
#[path = "../kvdsp/dynu.rs"]
mod dynu;
#[path = "../kvdsp/env.rs"]
mod env;
#[path = "../kvdsp/filt.rs"]
mod filt;
#[path = "../kvdsp/ingraph.rs"]
mod ingraph;
#[path = "../kvdsp/misc.rs"]
mod misc;
#[path = "../kvdsp/osc.rs"]
mod osc;
#[path = "../kvdsp/wraps.rs"]
mod wraps;
#[path = "../kvdsp/zoo.rs"]
mod zoo;
#[path = "../kvprim/blocks.rs"]
mod blocks;
#[path = "../kvprim/logs.rs"]
mod logs;
#[path = "../kvdsl/main.rs"]
mod dsl;
mod inputs;
use kv::*;
use ops::*;

/// Only memory errors count here: what else is wrong with a case is for the other properties.
macro_rules! mem {
    ($f:expr) => {
        |s: &mut Src, c: &mut Ctx| {
            let r = guard(|| $f(s, c));
            c.class_if(!matches!(r, Ok(Ok(()))), "not judged here: failed in another way");
            Ok(())
        }
    };
}
fn everything(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, params: true, subs: true, drop_graph: true, settle: true, mortality: true, done: true, invalid: true, delayed_commit: true, events: true, max_ops: 24, ..Default::default() })
}
fn midblock(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f64>(s, c, Profile { graph_in: true, feedback: true, params: true, subs: true, drop_graph: true, events: true, event_weight: 20, midblock: true, invalid: true, max_ops: 24, ..Default::default() })
}
fn large(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f64>(s, c, Profile { graph_in: true, feedback: true, params: true, invalid: true, large: true, mortality: true, max_ops: 40, ..Default::default() })
}
fn churn(s: &mut Src, c: &mut Ctx) -> Res {
    history::<f32>(s, c, Profile { graph_in: true, feedback: true, subs: true, drop_graph: true, settle: true, churn: true, max_ops: 12, ..Default::default() })
}

fn main() {
    const RULE: &str = "The generators of the other properties, in a build with the address sanitizer: everything/midblock/large/churn: histories of graphs (P01-P05, P12, P16, P18); nested: P13; threads: real threads (P18); done: P12 wrapped; flood: P16; blocks: P15; logs: P17; ugens: every UGen and wrapper in whole blocks, parts and frames (P11); precise, ar, smooth, delays, reader, data, foreign, sines, wavetable, polyblep, envelopes, filters, reverb, closure: P06-P08 and P19-P24; programs: P10. inputs: blocks run with inputs of any number and length, which have to be refused if too short. indexes: a UGen in a graph accesses its blocks at any channel and frame, which have to be refused outside of them. tables: wavetables made from buffers of any length. Non-trivial as stated there.";
    main_for(vec![Prop {
        id: "P29",
        rule: RULE,
        assumptions: &["the standard library is not instrumented", "memory that was freed is recognised as such while it is in the quarantine of the sanitizer (256 MB)"],
        parts: vec![
            part("everything", 20000, mem!(everything)),
            part("midblock", 16000, mem!(midblock)),
            part("large", 2000, mem!(large)),
            part("churn", 2500, mem!(churn)),
            part("nested", 10000, mem!(nest::inlined)),
            part("threads", 400, mem!(threads::threads)),
            part("done", 6000, mem!(donewrap::wrapped)),
            part("flood", 2000, mem!(events::flood)),
            part("blocks", 100000, mem!(blocks::owned)),
            part("logs", 20000, mem!(logs::channel)),
            part("ugens", 240000, mem!(zoo::blocks)),
            part("precise", 20000, mem!(wraps::precise_rec)),
            part("precise-graph", 6000, mem!(ingraph::precise)),
            part("ar", 20000, mem!(wraps::ar_params)),
            part("ar-graph", 6000, mem!(ingraph::ar)),
            part("smooth", 10000, mem!(wraps::smooth)),
            part("delay-whole", 20000, mem!(delay::whole)),
            part("delay-allpass", 20000, mem!(delay::allpass)),
            part("delay-fixed", 20000, mem!(delay::fixed)),
            part("reader", 20000, mem!(buf::reader)),
            part("data", 20000, mem!(buf::data)),
            part("foreign", 1000, mem!(buf::foreign)),
            part("reverb", 300, mem!(misc::reverb)),
            part("programs", 20000, mem!(dsl::programs)),
            part("sines", 20000, mem!(osc::sines)),
            part("wavetable", 200, mem!(osc::wavetable)),
            part("polyblep", 10000, mem!(osc::polyblep)),
            part("envelopes", 20000, mem!(env::segments)),
            part("filters", 20000, mem!(filt::svf)),
            part("closure", 5000, mem!(misc::closure)),
            part("inputs", 20000, inputs::lengths),
            part("indexes", 30000, inputs::indexes),
            part("tables", 3000, inputs::tables),
        ],
    }])
}
