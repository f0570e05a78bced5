//! Programs of the handle language: arithmetic on handles, channel selection, stacking, routing.
mod model;
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_core_dsp::wrappers_core::*;
use knaster_graph::graph::{Graph, GraphError, NodeId};
use knaster_graph::graph_edit::*;
use knaster_graph::processor::*;
use kv::*;
use model::*;
use std::marker::PhantomData;

/// Source number `id` with `O` channels.
struct Source<F, O> {
    id: usize,
    n: u64,
    _p: PhantomData<(F, O)>,
}
impl<F: Float, O: Size> UGen for Source<F, O> {
    type Sample = F;
    type Inputs = U0;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, _: Frame<F, U0>) -> Frame<F, O> {
        let mut o = Frame::<F, O>::default();
        for j in 0..O::USIZE {
            o[j] = F::new(source(self.id, j, self.n));
        }
        self.n += 1;
        o
    }
    fn param_hints() -> numeric_array::NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
struct Mix<F, I, O>(PhantomData<(F, I, O)>);
impl<F: Float, I: Size, O: Size> UGen for Mix<F, I, O> {
    type Sample = F;
    type Inputs = I;
    type Outputs = O;
    type Parameters = U0;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, x: Frame<F, I>) -> Frame<F, O> {
        let mut o = Frame::<F, O>::default();
        for j in 0..O::USIZE {
            for i in 0..I::USIZE {
                o[j] = o[j] + x[i] * F::new(weight(i, j));
            }
        }
        o
    }
    fn param_hints() -> numeric_array::NumericArray<ParameterHint, U0> {
        [].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, _: ParameterValue) {}
}
struct Amp<F>(F);
impl<F: Float> UGen for Amp<F> {
    type Sample = F;
    type Inputs = U1;
    type Outputs = U1;
    type Parameters = U1;
    fn process(&mut self, _: &mut AudioCtx, _: &mut UGenFlags, x: Frame<F, U1>) -> Frame<F, U1> {
        [x[0] * self.0].into()
    }
    fn param_descriptions() -> numeric_array::NumericArray<&'static str, U1> {
        ["amp"].into()
    }
    fn param_hints() -> numeric_array::NumericArray<ParameterHint, U1> {
        [ParameterHint::infinite_float()].into()
    }
    fn param_apply(&mut self, _: &mut AudioCtx, _: usize, v: ParameterValue) {
        self.0 = v.f().unwrap();
    }
}
type K<F> = WrArParams<Amp<F>>;

#[derive(Clone)]
enum Val<'a, 'b, F: Float> {
    A1(SH<'a, 'b, F, ChannelsHandle<U1>>),
    A2(SH<'a, 'b, F, ChannelsHandle<U2>>),
    A3(SH<'a, 'b, F, ChannelsHandle<U3>>),
    S1(SH<'a, 'b, F, Handle3<Source<F, U1>>>),
    S2(SH<'a, 'b, F, Handle3<Source<F, U2>>>),
    S3(SH<'a, 'b, F, Handle3<Source<F, U3>>>),
    M11(SH<'a, 'b, F, Handle3<Mix<F, U1, U1>>>),
    M21(SH<'a, 'b, F, Handle3<Mix<F, U2, U1>>>),
    M12(SH<'a, 'b, F, Handle3<Mix<F, U1, U2>>>),
    M22(SH<'a, 'b, F, Handle3<Mix<F, U2, U2>>>),
    M32(SH<'a, 'b, F, Handle3<Mix<F, U3, U2>>>),
    M23(SH<'a, 'b, F, Handle3<Mix<F, U2, U3>>>),
    K11(SH<'a, 'b, F, Handle3<K<F>>>),
    D(DH<'a, 'b, F, DynamicHandle3>),
    C(DH<'a, 'b, F, DynamicChannelsHandle>),
}
use Val::*;
macro_rules! any_of {
    ($v:expr, $h:ident => $b:expr, $($k:ident)*) => {
        match $v {
            $( $k($h) => Some($b), )*
            _ => None,
        }
    };
}
macro_rules! out1 { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, A1 S1 M11 M21 K11) }; }
macro_rules! out2 { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, A2 S2 M12 M22 M32) }; }
macro_rules! out3 { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, A3 S3 M23) }; }
macro_rules! in1 { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, M11 M12 K11) }; }
macro_rules! in2 { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, M21 M22 M23) }; }
macro_rules! in3 { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, M32) }; }
macro_rules! stat { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, A1 A2 A3 S1 S2 S3 M11 M21 M12 M22 M32 M23 K11) }; }
macro_rules! dynam { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, D C) }; }
macro_rules! every { ($v:expr, $h:ident => $b:expr) => { any_of!($v, $h => $b, A1 A2 A3 S1 S2 S3 M11 M21 M12 M22 M32 M23 K11 D C).unwrap() }; }
macro_rules! arith {
    ($op:expr, $a:expr, $b:expr) => {
        match $op {
            0 => $a + $b,
            1 => $a - $b,
            2 => $a * $b,
            _ => $a / $b,
        }
    };
}
macro_rules! arith_pow {
    ($op:expr, $a:expr, $b:expr) => {
        match $op {
            4 => $a.pow($b),
            o => arith!(o, $a, $b),
        }
    };
}
macro_rules! mode {
    ($m:expr, $a:expr, $b:expr) => {
        match $m {
            0 => $a.to($b),
            1 => $a >> $b,
            2 => $a.to_replace($b),
            3 => $a.to_feedback($b),
            _ => $a.to_feedback_replace($b),
        }
    };
}
fn is_static<F: Float>(v: &Val<F>) -> bool {
    !matches!(v, D(_) | C(_))
}
const OPS: [&str; 5] = ["+", "-", "*", "/", "pow"];
const MODES: [&str; 6] = ["to", ">>", "to_replace", "to_feedback", "to_feedback_replace", "try_to"];

#[derive(Clone)]
struct Han<'a, 'b, F: Float> {
    v: Val<'a, 'b, F>,
    outs: Vec<Chan>,
    ins: Vec<Chan>,
    node: Option<usize>,
}
impl<'a, 'b, F: Float> Han<'a, 'b, F> {
    fn chans(v: Val<'a, 'b, F>, outs: Vec<Chan>) -> Self {
        Han { v, outs, ins: vec![], node: None }
    }
    fn name(&self) -> String {
        let k = match &self.v {
            A1(_) | A2(_) | A3(_) => "channels".to_string(),
            C(_) => "dyn channels".to_string(),
            D(_) => format!("dyn n{}", self.node.unwrap()),
            _ => format!("n{}", self.node.unwrap()),
        };
        format!("{k}{:?}", self.outs.iter().map(|c| match c { Chan::In(c) => format!("in:{c}"), Chan::Node(n, c) => format!("{n}:{c}") }).collect::<Vec<_>>())
    }
}
/// Nodes that can be pushed.
fn push<'a, 'b, F: Float>(g: &'a GraphEdit<'b, F>, m: &mut Model, k: u64) -> Han<'a, 'b, F> {
    let n = m.nodes.len();
    macro_rules! src {
        ($v:ident, $o:ty) => {
            ($v(g.push(Source::<F, $o> { id: n, n: 0, _p: PhantomData })), Kind::Src, 0, <$o>::USIZE)
        };
    }
    macro_rules! mix {
        ($v:ident, $i:ty, $o:ty) => {
            ($v(g.push(Mix::<F, $i, $o>(PhantomData))), Kind::Mix, <$i>::USIZE, <$o>::USIZE)
        };
    }
    let (v, kind, i, o) = match k {
        0 => src!(S1, U1),
        1 => src!(S2, U2),
        2 => src!(S3, U3),
        3 => mix!(M11, U1, U1),
        4 => mix!(M21, U2, U1),
        5 => mix!(M12, U1, U2),
        6 => mix!(M22, U2, U2),
        7 => mix!(M32, U3, U2),
        8 => mix!(M23, U2, U3),
        _ => (K11(g.push(WrArParams::new(Amp(F::ONE)))), Kind::Amp, 1, 1),
    };
    m.add(kind, i, o);
    Han { v, outs: (0..o).map(|c| Chan::Node(n, c)).collect(), ins: (0..i).map(|c| Chan::Node(n, c)).collect(), node: Some(n) }
}
fn constant<F: Float>(src: &mut Src) -> (u64, f64) {
    match src.below(4) {
        0 => (0, src.pickc(&[0.5f64, -2.0, 1.0, 0.1f32 as f64, 3.25, 0.0])),
        1 => (1, src.pickc(&[0.5f64, -2.0, 1.0, 0.1, 3.25, 1e-9, 0.0])),
        2 => (2, src.pickc(&[1.0f64, 2.0, 3.0, 7.0, 0.0, 16777217.0])),
        _ => (3, src.pickc(&[1.0f64, -2.0, 3.0, 7.0, 0.0, -16777217.0, 2147483647.0])),
    }
}
fn run_edit<'a, 'b, F: Float>(g: &'a GraphEdit<'b, F>, m: &mut Model, ids: &mut Vec<NodeId>, src: &mut Src, ctx: &mut Ctx, st: &mut Stats) -> Res {
    let mut pool: Vec<Han<'a, 'b, F>> = vec![];
    // nodes of before, as type-erased handles
    if src.chance(1, 5) {
        let alive: Vec<usize> = (0..m.nodes.len()).filter(|n| m.nodes[*n].alive && m.nodes[*n].named.is_some()).collect();
        if alive.len() > 2 {
            let n = *src.pick(&alive);
            ctx.note(|| format!("free n{n}"));
            check!(g.free_node(ids[n]).is_ok(), "freeing a node", "n{n} is refused");
            m.free(n);
        }
    }
    for n in 0..m.nodes.len() {
        let nd = &m.nodes[n];
        if nd.named.is_none() || !nd.alive && !src.chance(1, 4) {
            continue;
        }
        let h = match &nd.named {
            Some(Some(s)) if src.bool() => g.handle_from_name(&s[..]),
            _ => g.handle(ids[n]),
        };
        check!(h.is_some() == nd.alive, "handle to an existing node", "n{n} exists: {}, handle: {}", nd.alive, h.is_some());
        let Some(h) = h else { continue };
        check!(h.clone().id() == ids[n], "handle to another node", "n{n} is {:?}, handle to {:?}", ids[n], h.clone().id());
        pool.push(Han { v: D(h), outs: (0..nd.outs).map(|c| Chan::Node(n, c)).collect(), ins: (0..nd.ins.len()).map(|c| Chan::Node(n, c)).collect(), node: Some(n) });
    }
    let count = src.range(4, 24);
    for step in 0..count {
        let what = if step < 3 && pool.len() < 4 { 0 } else { src.weighted(&[4, 2, 7, 5, 3, 3, 8, 5, 1, 5]) };
        match what {
            0 => {
                let h = push(g, m, src.below(13));
                let n = h.node.unwrap();
                let id = stat_id(&h);
                ids.resize(n, id);
                ids.push(id);
                let mut named = None;
                if src.chance(1, 3) {
                    let s = format!("node {n}");
                    named = Some(s.clone());
                    let h2 = h.clone();
                    macro_rules! nm { ($($k:ident)*) => { match h2.v { $($k(x) => { x.name(s); })* _ => unreachable!() } } }
                    nm!(S1 S2 S3 M11 M21 M12 M22 M32 M23 K11);
                }
                ctx.note(|| format!("n{n} = {:?} {} -> {}", m.nodes[n].kind, m.nodes[n].ins.len(), m.nodes[n].outs));
                m.nodes[n].named = Some(named);
                pool.push(h);
            }
            1 => {
                // graph inputs
                let k = src.range(1, 3);
                let c: Vec<u16> = (0..k).map(|_| src.idx(m.n_in + 1) as u16).collect();
                let ok = c.iter().all(|c| (*c as usize) < m.n_in);
                let outs = c.iter().map(|c| Chan::In(*c as usize)).collect();
                let r: Result<Val<F>, GraphError> = match k {
                    1 => g.from_inputs::<U1>(c[0]).map(A1),
                    2 => g.from_inputs::<U2>([c[0], c[1]]).map(A2),
                    _ => g.from_inputs::<U3>([c[0], c[1], c[2]]).map(A3),
                };
                check!(r.is_ok() == ok, "graph inputs", "channels {c:?} of {}: accepted {}", m.n_in, r.is_ok());
                if let Ok(v) = r {
                    ctx.note(|| format!("from_inputs({c:?})"));
                    pool.push(Han::chans(v, outs));
                }
            }
            2 => {
                // arithmetic between handles
                let a = src.pick(&pool).clone();
                let same: Vec<&Han<F>> = pool.iter().filter(|h| h.outs.len() == a.outs.len()).collect();
                let b = (*src.pick(&same)).clone();
                let mixed = is_static(&a.v) != is_static(&b.v);
                let op = src.below(if mixed { 4 } else { 5 });
                if a.outs.is_empty() {
                    continue;
                }
                ctx.note(|| format!("{} {} {}", a.name(), OPS[op as usize], b.name()));
                let outs: Vec<Chan> = a.outs.iter().zip(&b.outs).map(|(x, y)| m.math(op, *x, *y)).collect();
                let (av, bv) = (a.v, b.v);
                let v = match (is_static(&av), is_static(&bv)) {
                    (true, true) => {
                        let (a1, b1) = (av.clone(), bv.clone());
                        let (a2, b2) = (av.clone(), bv.clone());
                        out1!(a1, a => out1!(b1, b => A1(arith_pow!(op, a, b)))).or_else(|| out2!(a2, a => out2!(b2, b => A2(arith_pow!(op, a, b))))).or_else(|| out3!(av, a => out3!(bv, b => A3(arith_pow!(op, a, b))))).unwrap().unwrap()
                    }
                    (true, false) => stat!(av, a => dynam!(bv, b => C(arith!(op, a, b))).unwrap()).unwrap(),
                    (false, true) => dynam!(av, a => stat!(bv, b => C(arith!(op, a, b))).unwrap()).unwrap(),
                    _ => dynam!(av, a => dynam!(bv, b => C(arith_pow!(op, a, b))).unwrap()).unwrap(),
                };
                st.math += 1;
                pool.push(Han::chans(v, outs));
            }
            3 => {
                // arithmetic with a constant, on either side
                let a = src.pick(&pool).clone();
                if a.outs.is_empty() {
                    continue;
                }
                let op = src.below(4);
                let left = src.bool();
                let (ty, c) = constant::<F>(src);
                ctx.note(|| if left { format!("{c}{} {} {}", ["f32", "f64", "usize", "i32"][ty as usize], OPS[op as usize], a.name()) } else { format!("{} {} {c}{}", a.name(), OPS[op as usize], ["f32", "f64", "usize", "i32"][ty as usize]) });
                let k = m.constant::<F>(c);
                let outs: Vec<Chan> = a.outs.iter().map(|x| if left { m.math(op, k, *x) } else { m.math(op, *x, k) }).collect();
                macro_rules! with {
                    ($h:expr) => {
                        match (ty, left) {
                            (0, false) => arith!(op, $h, c as f32),
                            (1, false) => arith!(op, $h, c),
                            (2, false) => arith!(op, $h, c as usize),
                            (_, false) => arith!(op, $h, c as i32),
                            (0, true) => arith!(op, c as f32, $h),
                            (1, true) => arith!(op, c, $h),
                            (2, true) => arith!(op, c as usize, $h),
                            (_, true) => arith!(op, c as i32, $h),
                        }
                    };
                }
                let v = match a.v {
                    A1(h) => A1(with!(h)),
                    A2(h) => A2(with!(h)),
                    A3(h) => A3(with!(h)),
                    S1(h) => A1(with!(h)),
                    S2(h) => A2(with!(h)),
                    S3(h) => A3(with!(h)),
                    M11(h) => A1(with!(h)),
                    M21(h) => A1(with!(h)),
                    M12(h) => A2(with!(h)),
                    M22(h) => A2(with!(h)),
                    M32(h) => A2(with!(h)),
                    M23(h) => A3(with!(h)),
                    K11(h) => A1(with!(h)),
                    D(h) => C(with!(h)),
                    C(h) => C(with!(h)),
                };
                st.math += 1;
                pool.push(Han::chans(v, outs));
            }
            4 => {
                // some channels of a handle
                let a = src.pick(&pool).clone();
                if a.outs.is_empty() {
                    continue;
                }
                let k = src.range(1, 3);
                let c: Vec<u16> = (0..k).map(|_| src.idx(a.outs.len()) as u16).collect();
                ctx.note(|| format!("{}.out({c:?})", a.name()));
                let outs = c.iter().map(|c| a.outs[*c as usize]).collect();
                let dy = !is_static(&a.v);
                let v = if dy {
                    dynam!(a.v, h => C(match k { 1 => h.out::<U1>(c[0]), 2 => h.out::<U2>([c[0], c[1]]), _ => h.out::<U3>([c[0], c[1], c[2]]) })).unwrap()
                } else {
                    stat!(a.v, h => match k { 1 => A1(h.out::<U1>(c[0])), 2 => A2(h.out::<U2>([c[0], c[1]])), _ => A3(h.out::<U3>([c[0], c[1], c[2]])) }).unwrap()
                };
                pool.push(Han::chans(v, outs));
            }
            5 => {
                // stacking, and forgetting types
                let (a, b) = (src.pick(&pool).clone(), src.pick(&pool).clone());
                let way = src.below(4);
                if way == 0 {
                    ctx.note(|| format!("{}.dynamic()", a.name()));
                    let mut a = a;
                    a.v = match a.v {
                        A1(h) => C(h.dynamic()),
                        A2(h) => C(h.dynamic()),
                        A3(h) => C(h.dynamic()),
                        C(h) => C(h.dynamic()),
                        D(h) => { if src.bool() { C(h.to_channels_handle()) } else { D(h.dynamic()) } },
                        v => D(any_of!(v, h => h.dynamic(), S1 S2 S3 M11 M21 M12 M22 M32 M23 K11).unwrap()),
                    };
                    pool.push(a);
                    continue;
                }
                if a.outs.len() + b.outs.len() > 8 || a.ins.len() + b.ins.len() > 8 {
                    continue;
                }
                ctx.note(|| format!("{} | {}", a.name(), b.name()));
                let outs: Vec<Chan> = a.outs.iter().chain(&b.outs).copied().collect();
                let ins: Vec<Chan> = a.ins.iter().chain(&b.ins).copied().collect();
                let bar = src.bool();
                let v = match (is_static(&a.v), is_static(&b.v)) {
                    (true, true) => {
                        macro_rules! st { ($x:expr, $y:expr) => { if bar { ($x | $y).dynamic() } else { $x.stack($y).dynamic() } }; }
                        let (av, bv) = (a.v, b.v);
                        let Some(v) = any_of!(av, x => any_of!(bv, y => st!(x, y), A1 A2 S1 S2 M11 M12 M21), A1 A2 S1 S2 M11 M12 M21).flatten() else { continue };
                        v
                    }
                    (true, false) => stat!(a.v, x => dynam!(b.v, y => x | y).unwrap()).unwrap(),
                    (false, true) => dynam!(a.v, x => stat!(b.v, y => x | y).unwrap()).unwrap(),
                    _ => dynam!(a.v, x => dynam!(b.v, y => if bar { x | y } else { x.stack(y) }).unwrap()).unwrap(),
                };
                st.stack += 1;
                pool.push(Han { v: C(v), outs, ins, node: None });
            }
            6 => {
                // connect to the inputs of nodes
                let a = src.pick(&pool).clone();
                let sinks: Vec<&Han<F>> = pool.iter().filter(|h| !h.ins.is_empty()).collect();
                if sinks.is_empty() || a.outs.is_empty() {
                    continue;
                }
                let b = (*src.pick(&sinks)).clone();
                let mut mode = src.below(6);
                let (sa, sb) = (is_static(&a.v), is_static(&b.v));
                let fb = mode == 3 || mode == 4;
                let repl = mode == 2 || mode == 4;
                let pairs: Vec<(Chan, Chan)> = a.outs.iter().copied().zip(b.ins.iter().copied()).collect();
                let name_b = match b.node { Some(n) => format!("n{n}"), None => format!("inputs {:?}", b.ins) };
                if sa && sb {
                    if a.outs.len() != b.ins.len() {
                        // a stack of sinks?
                        let Some(c) = sinks.iter().find(|c| is_static(&c.v) && c.ins.len() + b.ins.len() == a.outs.len()).map(|c| (*c).clone()) else { continue };
                        ctx.note(|| format!("{} >> ({name_b} | n{})", a.name(), c.node.unwrap()));
                        let all: Vec<Chan> = b.ins.iter().chain(&c.ins).copied().collect();
                        let (av, av2, bv, cv) = (a.v.clone(), a.v, b.v, c.v);
                        let (bv2, cv2) = (bv.clone(), cv.clone());
                        let done = out2!(av, x => in1!(bv, y => in1!(cv, z => { x.to(y.stack(z)); })).flatten()).flatten().or_else(|| out3!(av2, x => any_of!(bv2, y => any_of!(cv2, z => { x.to(y | z); }, M11 M12), M21 M22).flatten()).flatten());
                        if done.is_some() {
                            for (s, k) in a.outs.iter().zip(&all) {
                                m.connect(*s, *k, false, false);
                            }
                            st.stack_sink += 1;
                        }
                        continue;
                    }
                    if mode == 5 {
                        mode = 0;
                    }
                    // these panic if the graph would get a cycle
                    if repl && !fb && !pairs.iter().all(|(s, k)| m.can(*s, *k)) {
                        continue;
                    }
                    ctx.note(|| format!("{} {} {name_b}", a.name(), MODES[mode as usize]));
                    for (s, k) in &pairs {
                        m.connect(*s, *k, fb, repl);
                    }
                    let (a1, a2, b1, b2) = (a.v.clone(), a.v.clone(), b.v.clone(), b.v.clone());
                    macro_rules! back { ($r:expr) => { Some($r) }; }
                    let id = back!(out1!(a.v, x => in1!(b.v, y => mode!(mode, x, y).id())).flatten().or_else(|| out2!(a1, x => in2!(b1, y => mode!(mode, x, y).id())).flatten()).or_else(|| out3!(a2, x => in3!(b2, y => mode!(mode, x, y).id())).flatten())).flatten();
                    check!(id == Some(ids[b.node.unwrap()]), "connecting returns another handle", "{id:?}");
                } else {
                    // (mixed: only >> connects a static and a type-erased handle)
                    if sa != sb {
                        mode = 1;
                    }
                    let (fb, repl) = (mode == 3 || mode == 4, mode == 2 || mode == 4);
                    ctx.note(|| format!("{} {} {name_b}", a.name(), MODES[mode as usize]));
                    let mut all = true;
                    for (s, k) in &pairs {
                        let ok = m.connect(*s, *k, fb, repl);
                        all &= ok;
                        if mode == 5 && !ok {
                            break;
                        }
                    }
                    match (sa, sb) {
                        (true, false) => { stat!(a.v, x => dynam!(b.v, y => { let _ = x >> y; })); }
                        (false, true) => { dynam!(a.v, x => stat!(b.v, y => { let _ = x >> y; })); }
                        _ if mode == 5 => {
                            let ok = dynam!(a.v, x => dynam!(b.v, y => x.try_to(y).is_ok()).unwrap()).unwrap();
                            check!(ok == all, "try_to", "accepted: {ok}, expected {all}");
                        }
                        _ => { dynam!(a.v, x => dynam!(b.v, y => { let _ = mode!(mode, x, y); })); }
                    }
                }
                st.routes += 1;
            }
            7 => {
                // connect to the outputs of the graph
                let a = src.pick(&pool).clone();
                if a.outs.is_empty() {
                    continue;
                }
                let repl = src.bool();
                let pickc = src.bool();
                let stc = is_static(&a.v);
                let no = m.n_out;
                let k = if pickc { if stc { a.outs.len() } else { src.range(1, 3) } } else { a.outs.len() };
                let c: Vec<u16> = (0..k)
                    .map(|i| {
                        let over = pickc && !stc && src.chance(1, 8);
                        if pickc { src.idx(no + over as usize) as u16 } else { i as u16 }
                    })
                    .collect();
                if stc && (k > 3 || c.iter().any(|c| *c as usize >= no)) {
                    continue;
                }
                ctx.note(|| format!("{} to graph out {c:?} {}", a.name(), if repl { "replace" } else { "" }));
                for (s, c) in a.outs.iter().zip(&c) {
                    if (*c as usize) < no {
                        m.connect_out(*s, *c as usize, repl);
                    }
                }
                macro_rules! gout { ($h:expr, $n:ty, $cs:expr) => { match (pickc, repl) { (false, false) => $h.to_graph_out(), (false, true) => $h.to_graph_out_replace(), (true, false) => $h.to_graph_out_channels::<$n>($cs), (true, true) => $h.to_graph_out_channels_replace::<$n>($cs) } }; }
                if stc {
                    let (a1, a2) = (a.v.clone(), a.v.clone());
                    out1!(a.v, h => gout!(h, U1, c[0])).or_else(|| out2!(a1, h => gout!(h, U2, [c[0], c[1]]))).or_else(|| out3!(a2, h => gout!(h, U3, [c[0], c[1], c[2]]))).unwrap();
                } else {
                    dynam!(a.v, h => match c.len() { 1 => gout!(h, U1, c[0]), 2 => gout!(h, U2, [c[0], c[1]]), 3 => gout!(h, U3, [c[0], c[1], c[2]]), _ => if repl { h.to_graph_out_replace() } else { h.to_graph_out() } }).unwrap();
                }
                st.outs += 1;
            }
            8 => {
                let a = src.pick(&pool).clone();
                if src.bool() {
                    if a.outs.is_empty() {
                        continue;
                    }
                    let c = src.idx(a.outs.len());
                    ctx.note(|| format!("{}.disconnect_output({c})", a.name()));
                    every!(a.v, h => h.disconnect_output(c as u16));
                    m.disconnect_source(a.outs[c]);
                } else {
                    if a.ins.is_empty() {
                        continue;
                    }
                    let c = src.idx(a.ins.len());
                    ctx.note(|| format!("{}.disconnect_input({c}) {:?}", a.name(), a.ins[c]));
                    every!(a.v, h => h.disconnect_input(c as u16));
                    if let Chan::Node(n, c) = a.ins[c] {
                        m.nodes[n].ins[c].clear();
                    }
                }
            }
            _ => {
                // a parameter follows a signal
                let amps: Vec<&Han<F>> = pool.iter().filter(|h| matches!(h.v, K11(_) | D(_))).collect();
                let sigs: Vec<&Han<F>> = pool.iter().filter(|h| is_static(&h.v) && h.outs.len() == 1).collect();
                if amps.is_empty() || sigs.is_empty() {
                    continue;
                }
                let (a, s) = ((*src.pick(&amps)).clone(), (*src.pick(&sigs)).clone());
                let n = a.node.unwrap();
                let p: Param = src.pickc(&[Param::Index(0), Param::Desc("amp"), Param::Index(1), Param::Desc("freq")]);
                ctx.note(|| format!("n{n}.link({p:?}, {})", s.name()));
                let exists = matches!(m.nodes[n].kind, Kind::Amp) && matches!(p, Param::Index(0) | Param::Desc("amp"));
                if exists {
                    if let Chan::Node(k, _) = s.outs[0] {
                        if !m.path(n, k) {
                            m.nodes[n].param = Some(s.outs[0]);
                            st.links += 1;
                        }
                    }
                }
                match a.v {
                    K11(h) => { out1!(s.v, x => { h.link(p, x); }); }
                    D(h) => { out1!(s.v, x => { h.link(p, x); }); }
                    _ => unreachable!(),
                }
            }
        }
    }
    Ok(())
}
fn stat_id<F: Float>(h: &Han<F>) -> NodeId {
    any_of!(h.clone().v, x => x.id(), S1 S2 S3 M11 M21 M12 M22 M32 M23 K11).unwrap()
}
#[derive(Default)]
struct Stats {
    math: usize,
    stack: usize,
    stack_sink: usize,
    routes: usize,
    outs: usize,
    links: usize,
}
fn new_proc<F: Float>(i: usize, o: usize, opt: AudioProcessorOptions) -> (Graph<F>, AudioProcessor<F>) {
    macro_rules! n { ($i:ty, $o:ty) => {{ let (g, p, _) = AudioProcessor::<F>::new::<$i, $o>(opt); (g, p) }}; }
    match (i, o) {
        (0, 1) => n!(U0, U1),
        (0, 3) => n!(U0, U3),
        (1, 2) => n!(U1, U2),
        (2, 2) => n!(U2, U2),
        _ => n!(U3, U4),
    }
}
fn go<F: Float>(src: &mut Src, ctx: &mut Ctx) -> Res {
    let bs = src.pickc(&[2usize, 1, 4, 7]);
    let (n_in, n_out) = src.pickc(&[(2usize, 2usize), (0, 1), (0, 3), (1, 2), (3, 4)]);
    let (mut g, mut proc) = new_proc::<F>(n_in, n_out, AudioProcessorOptions { block_size: bs, sample_rate: 8000, ring_buffer_size: 64, log_channel_capacity: 64 });
    let mut m = Model::new(n_in, n_out, F::new(0.1f64).to_f64() != 0.1f64);
    let mut ids = vec![];
    let mut st = Stats::default();
    let mut heard = false;
    ctx.note(|| format!("{} block size {bs}, {n_in} inputs, {n_out} outputs", std::any::type_name::<F>()));
    let mut clock = 0u64;
    for _ in 0..src.range(1, 4) {
        ctx.note(|| "edit".into());
        g.edit(|g| run_edit(&g, &mut m, &mut ids, src, ctx, &mut st))?;
        for _ in 0..src.range(1, 3) {
            let inp: Vec<Vec<f64>> = (0..n_in).map(|c| (0..bs as u64).map(|f| source(100 + c, 0, clock + f)).collect()).collect();
            let fin: Vec<Vec<F>> = inp.iter().map(|c| c.iter().map(|x| F::new(*x)).collect()).collect();
            let refs: Vec<&[F]> = fin.iter().map(|c| &c[..]).collect();
            proc.run(&refs);
            let want = m.block(&inp, bs);
            let ob = proc.output_block();
            for c in 0..n_out {
                for f in 0..bs {
                    let got = Block::read(&*ob, c, f).to_f64();
                    let w = want[c][f];
                    if w.e == f64::INFINITY {
                        continue;
                    }
                    heard |= got != 0.0;
                    check!((got - w.v).abs() <= w.e, "handle program computes something else", "block at {clock}: output {c} frame {f} is {got}, expected {} +- {}", w.v, w.e);
                }
            }
            clock += bs as u64;
        }
    }
    ctx.class_if(st.math > 3, "4+ operators");
    ctx.class_if(st.stack > 0, "stacks");
    ctx.class_if(st.stack_sink > 0, "stacked sinks");
    ctx.class_if(st.links > 0, "links");
    ctx.class_if(m.rejected > 0, "cycles refused");
    ctx.nontrivial_if(heard && st.math > 0 && st.routes + st.outs > 1);
    Ok(())
}
pub fn programs(src: &mut Src, ctx: &mut Ctx) -> Res {
    if src.bool() { go::<f32>(src, ctx) } else { go::<f64>(src, ctx) }
}
fn main() {
    const R: &str = "programs: one to four edits of 4-24 random steps of the handle language (pushing nodes of many channel counts, + - * / pow between static, stacked, selected, graph input and type-erased handles, with f32, f64, usize and i32 constants on either side, out, stack/|, dynamic, to/>>/to_replace/feedback/try_to, to_graph_out in all forms, link, disconnecting, looking up by id and name, freeing), each followed by one to three blocks whose every sample is compared with a direct evaluation that tracks rounding; non-trivial: something was heard, at least one operator and two connections were made.";
    main_for(vec![Prop { id: "P10", rule: R, assumptions: &["Samples whose exact value is undefined or ill-conditioned (division by zero, powers of negative sums) are not compared; they are computed all the same."], parts: vec![part("programs", 250000, programs)] }])
}
