mod arith;
mod buf;
mod delay;
mod det;
mod dynu;
mod env;
mod filt;
mod ingraph;
mod misc;
mod osc;
mod wraps;
mod zoo;
use kv::*;

fn main() {
    if let Ok(s) = std::env::var("KV_DET") {
        return det::child(&s);
    }
    main_for(vec![
        Prop {
            id: "P06",
            rule: "at least two changes with a delay were scheduled",
            assumptions: &[
                "delays are less than the block size and scheduled in order, as documented",
                "the wrapper is outside of wrappers that run partial blocks, as documented (or every change lies in the partial block that follows: parts)",
            ],
            parts: vec![
                part("record", 1_500_000, wraps::precise_rec),
                part("split", 800_000, wraps::precise_split),
                part("parts", 400_000, wraps::precise_parts),
                part("graph", 200_000, ingraph::precise),
            ],
        },
        Prop {
            id: "P07",
            rule: "a buffer controlled a parameter for at least two blocks; forward: at least two things were told to the stack",
            assumptions: &["the buffers are valid for a block, and every block is processed whole"],
            parts: vec![
                part("ar", 800_000, wraps::ar_params),
                part("forward", 100_000, wraps::forward),
                part("graph", 200_000, ingraph::ar),
            ],
        },
        Prop {
            id: "P08",
            rule: "at least one ramp was started",
            assumptions: &[
                "parameters have been given a value before their first ramp",
                "the value of a parameter whose smoothing is turned off in the middle of a ramp is not compared until it is set again",
            ],
            parts: vec![
                part("smooth", 600_000, wraps::smooth),
                part("graph", 200_000, ingraph::smooth),
            ],
        },
        Prop {
            id: "P09",
            rule: "at least one parameter of the wrapped UGen was set",
            assumptions: &[
                "samples behind a power in a chain are not compared (rounding is amplified)",
            ],
            parts: vec![part("arith", 600_000, arith::arith)],
        },
        Prop {
            id: "P11",
            rule: "the output is not constant or the UGen was done; two or more random UGens",
            assumptions: &["parameters are in the ranges their descriptions give"],
            parts: vec![
                part("blocks", 2_500_000, zoo::blocks),
                part("determinism", 4_000, det::determinism),
            ],
        },
        Prop {
            id: "P19",
            rule: "more than half a cycle or ten frames of sound, or a table that was added to",
            assumptions: &[
                "frequencies are not negative; wavetable sines are at most half the sample rate",
                "pulse widths are 0.03 to 0.97; phase offsets are 0 to 1",
                "single precision oscillators are compared with the rounding error of their phase",
            ],
            parts: vec![
                part("sines", 1_500_000, osc::sines),
                part("polyblep", 600_000, osc::polyblep),
                part("noise", 500_000, osc::noise),
                part("wavetable", 6_000, osc::wavetable),
                part("xorshift", 100_000, osc::xorshift),
            ],
        },
        Prop {
            id: "P20",
            rule: "at least three stages, or two segments, or an envelope that was done",
            assumptions: &[
                "Envelope has at least one segment, and is not made to jump to a segment",
                "rounding may decide whether a stage ends at the frame of its exact end or the one after",
            ],
            parts: vec![
                part("asr", 500_000, env::asr),
                part("segments", 500_000, env::segments),
            ],
        },
        Prop {
            id: "P21",
            rule: "a delay was set and something other than silence came out of it",
            assumptions: &[
                "delay times are not within rounding of a change of the interpolation filter",
                "after a change of the length of a StaticSampleDelay only what is written from then on is compared",
            ],
            parts: vec![
                part("whole", 500_000, delay::whole),
                part("allpass", 600_000, delay::allpass),
                part("allpass-direct", 500_000, delay::allpass_direct),
                part("fixed", 600_000, delay::fixed),
            ],
        },
        Prop {
            id: "P22",
            rule: "more than two frames of a signal other than silence",
            assumptions: &[
                "cutoff frequencies are between 0.05 % and 49 % of the sample rate (45 % in single precision)",
                "Q is between 0.1 and 20, gain within +-24 dB",
            ],
            parts: vec![
                part("onepole", 800_000, filt::onepole),
                part("svf", 600_000, filt::svf),
                part("response", 60_000, filt::response),
            ],
        },
        Prop {
            id: "P23",
            rule: "more than two frames were played, the buffer has more than one frame, or the file had at least one",
            assumptions: &[
                "rates are not negative",
                "rounding may decide whether the end is reached at a frame or the one after",
                "panics inside the decoder library (symphonia) are counted, not reported",
            ],
            parts: vec![
                part("reader", 300_000, buf::reader),
                part("data", 300_000, buf::data),
                part("file", 6_000, buf::file),
                part("foreign", 20_000, buf::foreign),
            ],
        },
        Prop {
            id: "P24",
            rule: "more than one frame, a trigger or three log messages, or audible reverberation",
            assumptions: &[
                "the gains of Pan2 are approximated within 0.2 % of full scale",
                "the size of the reverb is set before processing; sample rates are at least 22050 Hz",
            ],
            parts: vec![
                part("small", 800_000, misc::small),
                part("closure", 300_000, misc::closure),
                part("probe", 300_000, misc::probe),
                part("reverb", 16_000, misc::reverb),
            ],
        },
    ])
}
