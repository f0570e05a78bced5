mod blocks;
mod logs;
mod numbers;
mod params;
mod times;
use kv::*;

fn main() {
    const R14: &str = "seconds/beats: random values (edge-heavy: zero, whole, one tesimal below a whole, random) and operations; samples: frame counts and sample rates, common and odd. Non-trivial: a value with a fractional part took part.";
    const R15: &str = "owned: a VecBlock, StaticBlock or raw block of random shape under random writes through every access path and nested partial views, compared with a plain array after every operation (non-trivial: writes through at least two different access paths, one of them a partial view or the mutable channel iterator); partial_ctx: chains of partial block metadata; per_frame: a UGen that only processes single frames is given a block, whole or in parts (non-trivial: in parts, more than one channel).";
    const R17: &str = "channel: random logging, part by part and by macro, and receiving, on one to four channels of random capacity, compared with a queue of messages (non-trivial: the ring wrapped and, in every second case, overflowed); threads: a real audio thread logs while another receives; graph: nodes of a nested graph log while being processed.";
    const R27: &str = "values: random parameter values through every conversion and accessor; hints: random hints built and read back; set: a UGen with parameters of every type receives random values under random names and indices through UGen::param, and the calls that reach it are compared with a model (non-trivial: at least one accepted and one refused call).";
    const R28: &str = "convert: random numbers (all bit patterns, edges, whole numbers) through every conversion between the sample types, compared bit by bit with the conversions of the language (non-trivial: a finite number that f32 cannot hold); random: random seeds and calls of the generator against its definition (non-trivial: more than 10 calls).";
    const NONE: &[&str] = &[];
    main_for(vec![
        Prop { id: "P14", rule: R14, assumptions: &["Values are normalised (less than one second or beat of tesimals) and results stay within the range of the type."], parts: vec![part("seconds", 3000000, times::seconds), part("samples", 3000000, times::samples), part("beats", 3000000, times::beats)] },
        Prop { id: "P15", rule: R15, assumptions: NONE, parts: vec![part("owned", 1500000, blocks::owned), part("partial_ctx", 400000, blocks::partial_ctx), part("per_frame", 100000, blocks::per_frame)] },
        Prop { id: "P17", rule: R17, assumptions: NONE, parts: vec![part("channel", 400000, logs::channel), part("threads", 800, logs::threads), part("graph", 20000, logs::graph)] },
        Prop { id: "P27", rule: R27, assumptions: NONE, parts: vec![part("values", 1500000, params::values), part("hints", 1000000, params::hints), part("set", 1500000, params::set)] },
        Prop { id: "P28", rule: R28, assumptions: NONE, parts: vec![part("convert", 4000000, numbers::convert), part("random", 400000, numbers::random)] },
    ])
}
