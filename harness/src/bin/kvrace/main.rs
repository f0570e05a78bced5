mod race;
#[path = "../kvgraph/events.rs"]
mod events;
#[path = "../kvgraph/ops.rs"]
mod ops;
#[path = "../kvgraph/inspect.rs"]
mod inspect;
#[path = "../kvgraph/probe.rs"]
mod probe;
#[path = "../kvgraph/threads.rs"]
mod threads;
#[path = "../kvgraph/world.rs"]
mod world;
#[path = "../kvprim/logs.rs"]
mod logs;
use kv::*;

/// Only data races count in these: what else is wrong with a case is for the other properties.
macro_rules! race {
    ($f:expr) => {
        |s: &mut Src, c: &mut Ctx| {
            let r = guard(|| $f(s, c));
            c.class_if(!matches!(r, Ok(Ok(()))), "not judged here: failed in another way");
            Ok(())
        }
    };
}

fn main() {
    const RULE: &str = "In a build with the thread sanitizer (standard library included): histories: a graph is rendered on one thread while others edit it and the graphs nested in it, send parameter changes and tokens, inspect it, receive its log, move or drop it, and the clock read meanwhile is always the end of a block and never goes back (non-trivial: 5 or more blocks were rendered meanwhile, with connections, and nodes were freed or done, nested graphs edited, or changes sent); values: as in P18 threads; logs: as in P17 threads; beside: UGens made and rendered on several threads at once, and all seeds handed out differ.";
    main_for(vec![Prop {
        id: "P30",
        rule: RULE,
        assumptions: &["orderings are those of the C11 memory model as the thread sanitizer knows it (it does not know fences), on the interleavings that occurred"],
        parts: vec![
            part("histories", 6000, race::histories),
            part("values", 2000, race!(threads::threads)),
            part("logs", 400, race!(logs::threads)),
            part("beside", 2000, race::side_by_side),
        ],
    }])
}
