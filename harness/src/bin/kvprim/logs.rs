//! Messages logged from the audio thread against a queue.
use knaster_core::log::*;
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_graph::processor::*;
use kv::*;
use std::sync::atomic::{AtomicBool, Ordering::*};

#[derive(Clone, Debug, PartialEq)]
enum P {
    S(&'static str),
    F(f64),
    U(u64),
    I(i64),
    T(Seconds),
    End,
}
fn p(m: &ArLogMessage) -> P {
    match m {
        ArLogMessage::Str(s) => P::S(s),
        ArLogMessage::Float(x) => P::F(*x),
        ArLogMessage::Unsigned(x) => P::U(*x),
        ArLogMessage::Signed(x) => P::I(*x),
        ArLogMessage::Timestamp(s) => P::T(*s),
        ArLogMessage::End => P::End,
    }
}
fn show(m: &P) -> String {
    match m {
        P::S(s) => s.to_string(),
        P::F(x) => x.to_string(),
        P::U(x) => x.to_string(),
        P::I(x) => x.to_string(),
        P::T(s) => format!("{} seconds", s.to_secs_f64()),
        P::End => "End".into(),
    }
}
const STRS: [&str; 4] = ["", "a", "freq: ", "räksmörgås"];
/// A part with a number no other part has; sent the way `rt_log!` does it.
fn gen_part(src: &mut Src, id: u64) -> (P, ArLogMessage) {
    match src.below(12) {
        0 => (P::U(id), ArLogMessage::from(id)),
        1 => (P::U(id), ArLogMessage::from(id as usize)),
        2 => (P::U(id), ArLogMessage::from(id as u32)),
        3 => (P::I(id as i64), ArLogMessage::from(id as i64)),
        4 => (P::I(-(id as i64)), ArLogMessage::from(-(id as i32))),
        5 => (P::F(id as f64 + 0.25), ArLogMessage::from(id as f64 + 0.25)),
        6 => (P::F(id as f64 + 0.5), ArLogMessage::from(id as f32 + 0.5)),
        7 => (P::T(Seconds::new(id as u32, 5)), ArLogMessage::from(Seconds::new(id as u32, 5))),
        8 if id < 256 => (P::U(id), ArLogMessage::from(id as u8)),
        9 if id < 128 => (P::I(-(id as i64)), ArLogMessage::from(-(id as i8))),
        10 if id < 60000 => (P::U(id), ArLogMessage::from(id as u16)),
        11 if id < 30000 => (P::I(-(id as i64)), ArLogMessage::from(-(id as i16))),
        _ => (P::U(id), ArLogMessage::from(id)),
    }
}
struct Chan {
    sent: Vec<Vec<P>>, // complete messages, without their End
    open: Vec<P>,
    cap: usize,
    used: usize, // parts in the ring, if nothing was ever dropped
    full: bool,  // something may have been dropped
    got: Vec<Vec<P>>,
    part: Vec<P>,
}
pub fn channel(src: &mut Src, ctx: &mut Ctx) -> Res {
    let n = src.range(1, 4);
    let overflow = src.bool();
    let caps: Vec<usize> = (0..n).map(|_| if overflow { src.range(1, 8) } else { src.range(8, 40) }).collect();
    ctx.note(|| format!("capacities {caps:?}"));
    let mut chans: Vec<Chan> = caps.iter().map(|c| Chan { sent: vec![], open: vec![], cap: *c, used: 0, full: false, got: vec![], part: vec![] }).collect();
    let r = ArLogReceiver::new();
    let (s0, r1) = r.sender(caps[0]);
    if n == 1 {
        return drive(vec![s0], r1, chans.as_mut_slice(), overflow, src, ctx);
    }
    let (s1, r2) = r1.sender(caps[1]);
    if n == 2 {
        return drive(vec![s0, s1], r2, chans.as_mut_slice(), overflow, src, ctx);
    }
    let (s2, r3) = r2.sender(caps[2]);
    if n == 3 {
        return drive(vec![s0, s1, s2], r3, chans.as_mut_slice(), overflow, src, ctx);
    }
    let (s3, r4) = r3.sender(caps[3]);
    drive(vec![s0, s1, s2, s3], r4, chans.as_mut_slice(), overflow, src, ctx)
}
fn drive<N: Size>(mut tx: Vec<ArLogSender>, mut rx: ArLogReceiver<N>, ch: &mut [Chan], overflow: bool, src: &mut Src, ctx: &mut Ctx) -> Res {
    check!(rx.channels() == ch.len(), "number of channels", "{} instead of {}", rx.channels(), ch.len());
    let mut id = 0u64;
    let mut received = 0;
    let mut wrapped = false;
    for _ in 0..src.range(4, 40) {
        let k = src.idx(ch.len());
        let room = ch[k].cap.saturating_sub(ch[k].used);
        match src.weighted(&[5, 2, 3]) {
            // one part
            0 if overflow || room > 1 || room == 1 && !ch[k].open.is_empty() => {
                id += 1;
                let end = !ch[k].open.is_empty() && (src.chance(1, 3) || !overflow && room == 1);
                if end {
                    ctx.note(|| format!("{k}: End"));
                    let m = std::mem::take(&mut ch[k].open);
                    ch[k].sent.push(m);
                    tx[k].send(ArLogMessage::End);
                } else {
                    let (p, m) = gen_part(src, id);
                    ctx.note(|| format!("{k}: part {p:?}"));
                    check!(m.to_string() == show(&p) && !m.is_end(), "text of a log part", "{m:?} is {:?}, expected {:?}", m.to_string(), show(&p));
                    ch[k].open.push(p);
                    tx[k].send(m);
                    // (one slot may be kept for the end of a message)
                    ch[k].full |= ch[k].used + 1 >= ch[k].cap;
                }
                ch[k].used += 1;
            }
            // a whole message by macro
            1 if (overflow || room > 3) && ch[k].open.is_empty() => {
                id += 1;
                let s = *src.pick(&STRS);
                ctx.note(|| format!("{k}: rt_log {s:?} {id} {}", -(id as f64)));
                rt_log!(tx[k]; s, id, -(id as f64));
                ch[k].sent.push(vec![P::S(s), P::U(id), P::F(-(id as f64))]);
                ch[k].used += 4;
            }
            _ => {
                ctx.note(|| "recv".into());
                receive(&mut rx, ch, &mut received)?;
            }
        }
        for c in ch.iter_mut() {
            c.full |= c.used > c.cap;
            wrapped |= c.got.iter().map(|m| m.len() + 1).sum::<usize>() + c.used > c.cap;
        }
    }
    receive(&mut rx, ch, &mut received)?;
    receive(&mut rx, ch, &mut received)?;
    let over = ch.iter().any(|c| c.full);
    ctx.class_if(over, "overflow");
    ctx.class_if(wrapped && !over, "ring wrapped without loss");
    ctx.class_if(ch.len() > 1, "several channels");
    ctx.nontrivial_if(received > 0 && (wrapped || over));
    Ok(())
}
/// Each message belongs to the channel that has sent its parts.
fn receive<N: Size>(rx: &mut ArLogReceiver<N>, ch: &mut [Chan], received: &mut usize) -> Res {
    let mut all: Vec<P> = vec![];
    let (_, _, _) = ((), (), rx.recv(|m| all.extend(m.iter().map(p))));
    // channels are handed over one after the other, in full messages
    let mut msgs: Vec<Vec<P>> = vec![vec![]];
    for x in all {
        if x == P::End {
            msgs.push(vec![]);
        } else {
            msgs.last_mut().unwrap().push(x);
        }
    }
    check!(msgs.pop().unwrap().is_empty(), "log: an unfinished message was handed over", "{msgs:?}");
    *received += msgs.len();
    let mut k = 0;
    for m in msgs {
        // parts carry numbers: find who sent them (a message cut down to nothing may be anyone's)
        let num = |x: &P| !matches!(x, P::S(_));
        let Some(tag) = m.iter().find(|x| num(x)) else {
            let any_full = ch.iter().any(|c| c.full);
            check!(any_full, "log: a message that was not sent", "{m:?}");
            continue;
        };
        let owner = (0..ch.len()).find(|i| ch[*i].sent.iter().any(|s| s.contains(tag)));
        let Some(owner) = owner else { bail!("log: a message that was not sent", "{m:?}") };
        check!(owner >= k, "log: channels are mixed", "channel {owner} after {k}");
        k = owner;
        let c = &mut ch[owner];
        let i = c.sent.iter().position(|s| s.contains(tag)).unwrap();
        // in order, and each part at most once
        let mut it = c.sent[i].iter();
        for x in &m {
            check!(it.any(|y| y == x), "log: a message was changed", "sent {:?}, received {m:?}", c.sent[i]);
        }
        if !c.full {
            check!(i == 0 && m == c.sent[i], "log: a message was lost", "expected {:?}, received {m:?}", c.sent[0]);
        }
        c.sent.drain(..=i);
        c.got.push(m);
    }
    for (k, c) in ch.iter_mut().enumerate() {
        if !c.full {
            check!(c.sent.is_empty(), "log: a message was not received", "channel {k}: {:?}", c.sent[0]);
            c.used = c.open.len();
        } else {
            c.used = c.cap + 1; // nothing is known any more
        }
        c.part.clear();
    }
    Ok(())
}
/// A real audio thread logs while another one receives.
pub fn threads(src: &mut Src, ctx: &mut Ctx) -> Res {
    let cap = src.range(4, 64);
    let n = src.range(20, 300) as u64;
    let pause = src.below(3);
    let (mut tx, mut rx) = ArLogReceiver::new().sender(cap);
    let done = AtomicBool::new(false);
    let mut got: Vec<P> = vec![];
    std::thread::scope(|s| {
        s.spawn(|| {
            for i in 0..n {
                match i % 3 {
                    0 => rt_log!(tx; i),
                    1 => rt_log!(tx; i, "x", i as f64),
                    _ => rt_log!(tx; i, 1_i32, 2.0_f32, "y"),
                }
                for _ in 0..pause * (i % 7) {
                    std::hint::spin_loop();
                }
                if i % 16 == 0 {
                    std::thread::yield_now();
                }
            }
            done.store(true, SeqCst);
        });
        loop {
            let last = done.load(SeqCst);
            rx.recv(|m| got.extend(m.iter().map(p)));
            if last {
                break;
            }
        }
    });
    let msgs: Vec<&[P]> = got.split(|x| *x == P::End).collect();
    check!(msgs.last().is_some_and(|m| m.is_empty()), "log: an unfinished message was handed over", "{:?}", msgs.last());
    let mut next = 0u64;
    let mut whole = 0;
    for m in &msgs[..msgs.len() - 1] {
        let Some(P::U(i)) = m.first() else { continue }; // its first part was lost
        check!(*i >= next && *i < n, "log: messages out of order", "{i} when {next} is next");
        next = i + 1;
        let full = match i % 3 {
            0 => vec![P::U(*i)],
            1 => vec![P::U(*i), P::S("x"), P::F(*i as f64)],
            _ => vec![P::U(*i), P::I(1), P::F(2.0), P::S("y")],
        };
        let mut it = full.iter();
        for x in *m {
            check!(it.any(|y| y == x), "log: a message was changed", "expected {full:?}, received {m:?}");
        }
        whole += (m.len() == full.len()) as u64;
    }
    check!(whole > 0, "log: nothing arrived", "{n} messages, capacity {cap}");
    ctx.class_if(whole == n, "nothing was lost");
    ctx.class_if(whole < n, "some were lost");
    ctx.nontrivial_if(n as usize > cap);
    Ok(())
}

struct Logger {
    id: u64,
    every: u64,
    n: u64,
}
impl UGen for Logger {
    type Sample = f32;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U0;
    fn process(&mut self, ctx: &mut AudioCtx, _flags: &mut UGenFlags, _input: Frame<f32, U1>) -> Frame<f32, U1> {
        if self.n % self.every == 0 {
            rt_log!(ctx.logger(); "node ", self.id, self.n);
        }
        self.n += 1;
        [0.0].into()
    }
    fn param_hints() -> numeric_array::NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
/// Nodes, in nested graphs too, log through the receiver of the processor.
pub fn graph(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[4usize, 1, 16, 64]);
    let cap = 1024;
    let o = AudioProcessorOptions { block_size: bs, sample_rate: 8000, ring_buffer_size: 100, log_channel_capacity: cap };
    let (mut g, mut proc, mut rx) = AudioProcessor::<f32>::new::<U0, U1>(o);
    let mut ids: Vec<(u64, u64)> = vec![];
    let mut subs = vec![];
    for i in 0..src.range(1, 4) as u64 {
        let every = src.pickc(&[bs as u64, 1, 3]);
        // as many as fit for a block
        let every = every.max(bs as u64 / 8);
        ids.push((i, every));
        let l = Logger { id: i, every, n: 0 };
        if src.chance(1, 3) {
            let (_, mut sub) = {
                let mut out = None;
                g.edit(|g| {
                    let (h, sg) = g.subgraph::<U0, U1>(knaster_graph::graph::GraphOptions::default(), |_| {});
                    h.to_graph_out();
                    out = Some(((), sg));
                });
                out.unwrap()
            };
            sub.edit(|g| {
                g.push(l).to_graph_out();
            });
            subs.push(sub);
        } else {
            g.edit(|g| {
                g.push(l).to_graph_out();
            });
        }
    }
    ctx.note(|| format!("block size {bs}, (node, logs every n frames): {ids:?}, {} in nested graphs", subs.len()));
    ctx.nontrivial_if(ids.len() > 1);
    ctx.class_if(!subs.is_empty(), "nested");
    let mut n = 0u64;
    for _ in 0..src.range(1, 5) {
        let k = src.range(1, 3);
        for _ in 0..k {
            unsafe { proc.run_without_inputs() };
        }
        let mut got: Vec<P> = vec![];
        rx.recv(|m| got.extend(m.iter().map(p)));
        let mut want: Vec<Vec<P>> = vec![];
        for f in n..n + (k * bs) as u64 {
            for (i, e) in &ids {
                if f % e == 0 {
                    want.push(vec![P::S("node "), P::U(*i), P::U(f)]);
                }
            }
        }
        n += (k * bs) as u64;
        let mut msgs: Vec<Vec<P>> = got.split(|x| *x == P::End).map(|m| m.to_vec()).collect();
        check!(msgs.pop().is_some_and(|m| m.is_empty()), "log: an unfinished message was handed over", "{got:?}");
        // the order of nodes within a block is free
        for (i, _) in &ids {
            let of = |l: &[Vec<P>]| l.iter().filter(|m| m.get(1) == Some(&P::U(*i))).cloned().collect::<Vec<_>>();
            check!(of(&msgs) == of(&want), "log: messages of a node", "node {i}: {:?}, expected {:?}", of(&msgs), of(&want));
        }
        check!(msgs.len() == want.len(), "log: number of messages", "{} instead of {}", msgs.len(), want.len());
    }
    Ok(())
}
