//! A real `Graph` + `AudioProcessor` next to a reference model of what the declared graph computes.
use crate::probe::*;
use knaster_core::typenum::*;
use knaster_core::*;
use knaster_core_dsp::wrappers_core::UGenWrapperCoreExt;
use knaster_graph::graph::{Graph, GraphError, GraphOptions, NodeId, NodeOrGraph};
use knaster_graph::graph_edit::{GraphEdit, Parameter};
use knaster_graph::handle::{AnyHandle, HandleTrait};
use crate::events::{Change, send_handle};
use knaster_graph::processor::{AudioProcessor, AudioProcessorOptions};
use knaster_graph::{SchedulingToken, Time};
use kv::*;
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::sync::Arc;
use std::sync::atomic::Ordering::SeqCst;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MSrc {
    In(u16),
    Node(usize, u16),
    /// feedback connection: (connection number, source node, channel)
    Fb(u64, usize, u16),
}
#[derive(Clone, Debug, Default)]
pub struct Struct {
    pub alive: Vec<bool>,
    pub ins: Vec<Vec<Vec<MSrc>>>,
    pub pedges: Vec<BTreeMap<usize, Vec<(usize, u16)>>>,
    pub outs: Vec<Vec<MSrc>>,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Kind {
    pub ins: usize,
    pub outs: usize,
    pub ar: bool,
    pub done: Option<Done>,
}
pub struct MNode {
    pub id: NodeId,
    pub kind: Kind,
    pub coef: Coef,
    pub log: Arc<ProbeLog>,
    pub sub: Option<usize>,
    pub t: u64,
    pub params: [i64; NP],
    pub prev_out: Vec<Vec<u64>>,
    pub done_at: Option<DoneAt>,
    pub done_action: Done,
    /// the audio thread asked for this node to be removed
    pub remove_flag: bool,
    pub mortal: bool,
    pub name: Option<String>,
    pub expected: Vec<Ev>,
    pub first_clock: Option<u64>,
    pub pars: Vec<(usize, Parameter)>,
    pub anyh: Option<AnyHandle>,
    pub typed: Option<Box<dyn Fn(Change) -> Result<(), GraphError>>>,
}
#[derive(Clone, Copy, Debug)]
pub enum MTime {
    Asap,
    At(u64),
    After(u64),
}
#[derive(Clone, Debug)]
pub struct MEvent {
    pub node: usize,
    pub param: usize,
    pub value: Option<PV>,
    pub time: MTime,
    pub token: Option<usize>,
    pub waited: u64,
}
#[derive(Default)]
pub struct GModel {
    pub n_in: usize,
    pub n_out: usize,
    pub nodes: Vec<MNode>,
    pub decl: Struct,
    pub live: Struct,
    pub queued: Option<Struct>,
    pub dirty: bool,
    pub incoming: VecDeque<MEvent>,
    pub waiting: VecDeque<MEvent>,
    pub fb_age: HashMap<u64, u64>,
    /// every (node, channel) that has been the source of a feedback connection
    pub fb_ever: Vec<(usize, u16)>,
    pub freed: bool,
    pub parent: Option<(usize, usize)>,
}
pub const SETTLE: usize = 2;
pub struct World<F: Float> {
    pub graphs: Vec<Option<Graph<F>>>,
    pub ms: Vec<GModel>,
    pub proc: Option<AudioProcessor<F>>,
    pub bs: usize,
    pub sr: u32,
    pub clock: u64,
    pub next_fb: u64,
    pub tokens: Vec<(Option<SchedulingToken>, Option<SchedulingToken>, bool)>,
    pub max_value: u64,
    pub record: bool,
    pub mism: Option<Failure>,
    /// graphs that may be edited right now
    pub only: Option<Vec<usize>>,
    /// allocations/frees seen while processing
    pub rt_alloc: u64,
    pub rt_free: u64,
    pub rounded: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Mode {
    Add,
    Replace,
    Fb,
    FbReplace,
}
/// A node reference as a user could hold it: a valid, freed, foreign or invalid id, or the graph.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ref {
    Graph,
    Node(usize),
    Foreign(usize, usize),
    Invalid,
}

pub const SHAPES: [(usize, usize); 15] =
    [(0, 1), (1, 1), (2, 1), (1, 2), (2, 2), (0, 2), (3, 1), (1, 3), (1, 0), (2, 0), (0, 0), (3, 3), (0, 4), (4, 2), (0, 3)];
pub const AR_SHAPES: [(usize, usize); 4] = [(0, 1), (1, 1), (2, 2), (1, 0)];

macro_rules! shapes {
    ($k:expr, $f:ident, $ar:ident, $else:expr; $(($a:literal,$b:literal,$i:ty,$o:ty)),*) => {
        match ($k.ins, $k.outs, $k.$ar) {
            $(($a,$b,true) => $f!($i,$o),)*
            _ => $else,
        }
    };
}

pub fn push_probe<F: Float>(g: &GraphEdit<F>, kind: Kind, coef: Coef, log: Arc<ProbeLog>, done_at: Option<DoneAt>) -> NodeId {
    macro_rules! plain {
        ($i:ty,$o:ty) => {
            g.push(Probe::<F, $i, $o>::new(coef, log, done_at)).id()
        };
    }
    macro_rules! ar {
        ($i:ty,$o:ty) => {
            g.push(Probe::<F, $i, $o>::new(coef, log, done_at).ar_params()).id()
        };
    }
    macro_rules! done {
        ($i:ty,$o:ty) => {
            g.push_with_done_action(Probe::<F, $i, $o>::new(coef, log, done_at), kind.done.unwrap()).id()
        };
    }
    macro_rules! donear {
        ($i:ty,$o:ty) => {
            g.push_with_done_action(Probe::<F, $i, $o>::new(coef, log, done_at).ar_params(), kind.done.unwrap()).id()
        };
    }
    struct K {
        ins: usize,
        outs: usize,
        plain: bool,
        ar: bool,
        done: bool,
        donear: bool,
    }
    let k = K {
        ins: kind.ins,
        outs: kind.outs,
        plain: !kind.ar && kind.done.is_none(),
        ar: kind.ar && kind.done.is_none(),
        done: !kind.ar && kind.done.is_some(),
        donear: kind.ar && kind.done.is_some(),
    };
    if k.plain {
        return shapes!(k, plain, plain, panic!("shape {kind:?}"); (0,1,U0,U1),(1,1,U1,U1),(2,1,U2,U1),(1,2,U1,U2),(2,2,U2,U2),(0,2,U0,U2),(3,1,U3,U1),(1,3,U1,U3),(1,0,U1,U0),(2,0,U2,U0),(0,0,U0,U0),(3,3,U3,U3),(0,4,U0,U4),(4,2,U4,U2),(0,3,U0,U3));
    }
    if k.ar {
        return shapes!(k, ar, ar, panic!("shape {kind:?}"); (0,1,U0,U1),(1,1,U1,U1),(2,2,U2,U2),(1,0,U1,U0));
    }
    if k.done {
        return shapes!(k, done, done, panic!("shape {kind:?}"); (0,1,U0,U1),(1,1,U1,U1),(2,2,U2,U2),(1,0,U1,U0));
    }
    shapes!(k, donear, donear, panic!("shape {kind:?}"); (0,1,U0,U1),(1,1,U1,U1))
}

pub type Pushed = (NodeId, AnyHandle, Box<dyn Fn(Change) -> Result<(), GraphError>>);
/// `Graph::push`, which gives a handle that can outlive the edit (not for done actions).
pub fn push_probe_graph<F: Float>(g: &mut Graph<F>, kind: Kind, coef: Coef, log: Arc<ProbeLog>, done_at: Option<DoneAt>) -> Pushed {
    macro_rules! plain {
        ($i:ty,$o:ty) => {{
            let h = g.push(Probe::<F, $i, $o>::new(coef, log, done_at));
            (h.node_id(), h.clone().into_any(), Box::new(move |c| send_handle(&h, c)))
        }};
    }
    macro_rules! ar {
        ($i:ty,$o:ty) => {{
            let h = g.push(Probe::<F, $i, $o>::new(coef, log, done_at).ar_params());
            (h.node_id(), h.clone().into_any(), Box::new(move |c| send_handle(&h, c)))
        }};
    }
    struct K {
        ins: usize,
        outs: usize,
        plain: bool,
        ar: bool,
    }
    let k = K { ins: kind.ins, outs: kind.outs, plain: !kind.ar, ar: kind.ar };
    if k.plain {
        return shapes!(k, plain, plain, panic!("shape {kind:?}"); (0,1,U0,U1),(1,1,U1,U1),(2,1,U2,U1),(1,2,U1,U2),(2,2,U2,U2),(0,2,U0,U2),(3,1,U3,U1),(1,3,U1,U3),(1,0,U1,U0),(2,0,U2,U0),(0,0,U0,U0),(3,3,U3,U3),(0,4,U0,U4),(4,2,U4,U2),(0,3,U0,U3));
    }
    shapes!(k, ar, ar, panic!("shape {kind:?}"); (0,1,U0,U1),(1,1,U1,U1),(2,2,U2,U2),(1,0,U1,U0))
}

pub const IO: [(usize, usize); 8] = [(0, 1), (0, 2), (1, 1), (2, 2), (3, 1), (1, 3), (0, 4), (4, 4)];
pub fn new_proc<F: Float>(ins: usize, outs: usize, o: AudioProcessorOptions) -> (Graph<F>, AudioProcessor<F>) {
    macro_rules! n {
        ($i:ty,$o:ty) => {{
            let (g, p, _) = AudioProcessor::<F>::new::<$i, $o>(o);
            (g, p)
        }};
    }
    match (ins, outs) {
        (0, 1) => n!(U0, U1),
        (0, 2) => n!(U0, U2),
        (1, 1) => n!(U1, U1),
        (2, 2) => n!(U2, U2),
        (3, 1) => n!(U3, U1),
        (1, 3) => n!(U1, U3),
        (0, 4) => n!(U0, U4),
        (4, 4) => n!(U4, U4),
        _ => panic!("io"),
    }
}
pub const SUBIO: [(usize, usize); 6] = [(0, 1), (1, 1), (2, 2), (1, 0), (0, 2), (2, 1)];
pub fn new_sub<F: Float>(g: &GraphEdit<F>, ins: usize, outs: usize, o: GraphOptions, cb: impl FnOnce(GraphEdit<F>)) -> (NodeId, Graph<F>) {
    macro_rules! n {
        ($i:ty,$o:ty) => {{
            let (h, sub) = g.subgraph::<$i, $o>(o, cb);
            (h.id(), sub)
        }};
    }
    match (ins, outs) {
        (0, 0) => n!(U0, U0),
        (0, 1) => n!(U0, U1),
        (0, 2) => n!(U0, U2),
        (0, 3) => n!(U0, U3),
        (1, 0) => n!(U1, U0),
        (1, 1) => n!(U1, U1),
        (1, 2) => n!(U1, U2),
        (1, 3) => n!(U1, U3),
        (2, 0) => n!(U2, U0),
        (2, 1) => n!(U2, U1),
        (2, 2) => n!(U2, U2),
        (2, 3) => n!(U2, U3),
        (3, 0) => n!(U3, U0),
        (3, 1) => n!(U3, U1),
        (3, 2) => n!(U3, U2),
        (3, 3) => n!(U3, U3),
        _ => panic!("subio"),
    }
}

impl GModel {
    pub fn alive(&self, n: usize) -> bool {
        self.decl.alive.get(n).copied().unwrap_or(false)
    }
    pub fn alive_nodes(&self) -> Vec<usize> {
        (0..self.nodes.len()).filter(|n| self.alive(*n)).collect()
    }
    pub fn add_node(&mut self, n: MNode) -> usize {
        self.decl.alive.push(true);
        self.decl.ins.push(vec![Vec::new(); n.kind.ins]);
        self.decl.pedges.push(BTreeMap::new());
        self.nodes.push(n);
        self.dirty = true;
        self.nodes.len() - 1
    }
    /// is `to` reachable from `from` through non-feedback edges (parameters included)?
    pub fn has_path(&self, from: usize, to: usize) -> bool {
        let mut seen = HashSet::new();
        let mut st = vec![to];
        while let Some(n) = st.pop() {
            if n == from {
                return true;
            }
            if !seen.insert(n) {
                continue;
            }
            for s in self.decl.ins[n].iter().flatten() {
                if let MSrc::Node(p, _) = s {
                    st.push(*p);
                }
            }
            for (p, _) in self.decl.pedges[n].values().flatten() {
                st.push(*p);
            }
        }
        false
    }
    pub fn free(&mut self, n: usize) {
        let gone = |s: &MSrc| matches!(s, MSrc::Node(p, _) | MSrc::Fb(_, p, _) if *p == n);
        self.decl.alive[n] = false;
        for ch in self.decl.ins[n].iter_mut() {
            ch.clear();
        }
        self.decl.pedges[n].clear();
        for ch in self.decl.ins.iter_mut().flatten() {
            ch.retain(|s| !gone(s));
        }
        for ch in self.decl.outs.iter_mut() {
            ch.retain(|s| !gone(s));
        }
        for e in self.decl.pedges.iter_mut() {
            for l in e.values_mut() {
                l.retain(|(p, _)| *p != n);
            }
            e.retain(|_, l| !l.is_empty());
        }
        self.dirty = true;
    }
    pub fn disconnect_source(&mut self, src: Option<usize>, ch: u16) {
        let gone = |s: &MSrc| match (s, src) {
            (MSrc::In(c), None) => *c == ch,
            (MSrc::Node(p, c), Some(n)) | (MSrc::Fb(_, p, c), Some(n)) => *p == n && *c == ch,
            _ => false,
        };
        for l in self.decl.ins.iter_mut().flatten() {
            l.retain(|s| !gone(s));
        }
        for l in self.decl.outs.iter_mut() {
            l.retain(|s| !gone(s));
        }
        if let Some(n) = src {
            for e in self.decl.pedges.iter_mut() {
                for l in e.values_mut() {
                    l.retain(|(p, c)| !(*p == n && *c == ch));
                }
                e.retain(|_, l| !l.is_empty());
            }
        }
        self.dirty = true;
    }
}

/// Evaluate one block of graph `gi`.
pub fn eval(ms: &mut Vec<GModel>, gi: usize, inputs: &[Vec<u64>], bs: usize, sr: u32, clock: u64, tokens: &[bool], max: &mut u64) -> Vec<Vec<u64>> {
    let n_out = ms[gi].n_out;
    if ms[gi].freed {
        return vec![vec![0; bs]; n_out];
    }
    if let Some(q) = ms[gi].queued.take() {
        ms[gi].live = q;
    }
    let live = std::mem::take(&mut ms[gi].live);
    // parameter changes
    {
        let m = &mut ms[gi];
        let horizon = (sr as u64) / bs as u64;
        let mut todo: VecDeque<(MEvent, bool)> = m.waiting.drain(..).map(|e| (e, true)).collect();
        todo.extend(m.incoming.drain(..).map(|e| (e, false)));
        for (mut e, was_waiting) in todo {
            if was_waiting && e.waited > horizon {
                continue;
            }
            let due_in = match &mut e.time {
                MTime::Asap => 0,
                MTime::At(t) => t.saturating_sub(clock),
                MTime::After(s) => {
                    let d = *s;
                    *s = s.saturating_sub(bs as u64);
                    d
                }
            };
            let ok = e.token.is_none_or(|t| tokens[t]) && due_in < bs as u64 && live.alive.get(e.node).copied().unwrap_or(false);
            if ok {
                let n = &mut m.nodes[e.node];
                if n.sub.is_some() {
                    continue;
                }
                let ar = n.kind.ar && live.pedges[e.node].contains_key(&e.param);
                if let Some(v) = e.value {
                    if e.param == NP && n.kind.done.is_some() {
                        if let PV::I(i) = v {
                            n.done_action = Done::from(PInteger(i));
                        }
                    } else if !ar {
                        n.expected.push(Ev { clock, frame: n.t, param: e.param, value: v, off: due_in as u16 });
                        if e.param < NP {
                            let old = n.params[e.param];
                            n.params[e.param] = match v {
                                PV::F(f) => f as i64,
                                PV::T => old + 1,
                                PV::I(i) => i as i64,
                                PV::B(b) => b as i64,
                                PV::S => old,
                            };
                        }
                    }
                }
            } else {
                if was_waiting {
                    e.waited += 1;
                }
                m.waiting.push_back(e);
            }
        }
    }
    // evaluation order
    let n = live.alive.len();
    let mut order = Vec::new();
    let mut state = vec![0u8; n];
    fn visit(x: usize, live: &Struct, state: &mut [u8], order: &mut Vec<usize>) {
        if state[x] != 0 {
            return;
        }
        state[x] = 1;
        for s in live.ins[x].iter().flatten() {
            if let MSrc::Node(p, _) = s {
                visit(*p, live, state, order);
            }
        }
        for (p, _) in live.pedges[x].values().flatten() {
            visit(*p, live, state, order);
        }
        order.push(x);
    }
    for x in 0..n {
        if live.alive[x] {
            visit(x, &live, &mut state, &mut order);
        }
    }
    let mut cur: Vec<Option<Vec<Vec<u64>>>> = vec![None; n];
    let mut parent_free: Option<usize> = None;
    let sum = |m: &GModel, cur: &Vec<Option<Vec<Vec<u64>>>>, l: &[MSrc]| -> Vec<u64> {
        let mut v = vec![0u64; bs];
        for s in l {
            let add: Option<&Vec<u64>> = match s {
                MSrc::In(c) => Some(&inputs[*c as usize]),
                MSrc::Node(p, c) => Some(&cur[*p].as_ref().expect("order")[*c as usize]),
                MSrc::Fb(id, p, c) => {
                    if m.fb_age.get(id).copied().unwrap_or(0) == 0 {
                        None
                    } else {
                        m.nodes[*p].prev_out.get(*c as usize)
                    }
                }
            };
            if let Some(a) = add {
                for (x, y) in v.iter_mut().zip(a) {
                    *x += *y;
                }
            }
        }
        v
    };
    for &x in &order {
        let ins: Vec<Vec<u64>> = live.ins[x].iter().map(|l| sum(&ms[gi], &cur, l)).collect();
        for v in ins.iter().flatten() {
            *max = (*max).max(*v);
        }
        let out = if let Some(sub) = ms[gi].nodes[x].sub {
            let o = eval(ms, sub, &ins, bs, sr, clock, tokens, max);
            if ms[sub].freed {
                ms[gi].nodes[x].remove_flag = true;
            }
            o
        } else {
            let ar: Vec<(usize, Vec<u64>)> = if ms[gi].nodes[x].kind.ar {
                live.pedges[x]
                    .iter()
                    .map(|(p, l)| {
                        let l: Vec<MSrc> = l.iter().map(|(n, c)| MSrc::Node(*n, *c)).collect();
                        (*p, sum(&ms[gi], &cur, &l))
                    })
                    .collect()
            } else {
                vec![]
            };
            let nd = &mut ms[gi].nodes[x];
            nd.first_clock.get_or_insert(clock);
            let mut out = vec![vec![0u64; bs]; nd.kind.outs];
            let mut done = None;
            for f in 0..bs {
                for (p, v) in &ar {
                    if *p < NP {
                        nd.params[*p] = v[f] as i64;
                    }
                }
                for (o, ch) in out.iter_mut().enumerate() {
                    ch[f] = probe_out(nd.coef, o, nd.t, ins.iter().map(|c| c[f]), &nd.params);
                }
                if let Some(d) = DoneAt::hit(nd.done_at, nd.t) {
                    let f = (nd.t % bs as u64) as usize;
                    match d.how {
                        0 => done = Some(f),
                        1 => nd.remove_flag |= nd.kind.done.is_some(),
                        _ => parent_free = Some(parent_free.map_or(f + d.off as usize, |p: usize| p.min(f + d.off as usize))),
                    }
                }
                nd.t += 1;
            }
            if let (Some(f), Some(_)) = (done, nd.kind.done) {
                match nd.done_action {
                    Done::None => {}
                    Done::FreeSelf => nd.remove_flag = true,
                    Done::FreeParent => parent_free = Some(parent_free.map_or(f, |p: usize| p.min(f))),
                }
            }
            out
        };
        cur[x] = Some(out);
    }
    let mut outs: Vec<Vec<u64>> = live.outs.iter().map(|l| sum(&ms[gi], &cur, l)).collect();
    for v in outs.iter().flatten() {
        *max = (*max).max(*v);
    }
    if let Some(f) = parent_free {
        for ch in outs.iter_mut() {
            ch[f.min(bs)..].fill(0);
        }
        ms[gi].freed = true;
    }
    // feedback connections that are live are now one block older
    let mut fbs: Vec<u64> = Vec::new();
    for s in live.ins.iter().flatten().flatten() {
        if let MSrc::Fb(id, _, _) = s {
            fbs.push(*id);
        }
    }
    for id in fbs {
        *ms[gi].fb_age.entry(id).or_insert(0) += 1;
    }
    for (x, o) in cur.into_iter().enumerate() {
        if let Some(o) = o {
            ms[gi].nodes[x].prev_out = o;
        }
    }
    ms[gi].live = live;
    outs
}

impl<F: Float> World<F> {
    pub fn new(ins: usize, outs: usize, bs: usize, sr: u32, ring: usize) -> Self {
        let (g, p) = new_proc::<F>(ins, outs, AudioProcessorOptions { block_size: bs, sample_rate: sr, ring_buffer_size: ring, log_channel_capacity: 256 });
        let m = GModel { n_in: ins, n_out: outs, decl: Struct { outs: vec![vec![]; outs], ..Default::default() }, live: Struct { outs: vec![vec![]; outs], ..Default::default() }, ..Default::default() };
        World {
            graphs: vec![Some(g)],
            ms: vec![m],
            proc: Some(p),
            bs,
            sr,
            clock: 0,
            next_fb: 0,
            tokens: vec![],
            max_value: 0,
            record: false,
            mism: None,
            only: None,
            rt_alloc: 0,
            rt_free: 0,
            rounded: false,
        }
    }
    pub fn g(&mut self, gi: usize) -> &mut Graph<F> {
        self.graphs[gi].as_mut().expect("graph handle alive")
    }
    pub fn live_graphs(&self) -> Vec<usize> {
        (0..self.graphs.len()).filter(|g| self.graphs[*g].is_some() && self.only.as_ref().is_none_or(|o| o.contains(g))).collect()
    }
    /// What `edit` does when it ends: nodes the audio thread flagged are removed, everything
    /// declared goes to the audio thread.
    pub fn model_commit(&mut self, gi: usize) {
        // flags of subgraph nodes are set through the subgraph
        for n in 0..self.ms[gi].nodes.len() {
            if self.ms[gi].nodes[n].remove_flag && self.ms[gi].alive(n) && self.ms[gi].nodes[n].mortal {
                self.ms[gi].free(n);
            }
        }
        if self.ms[gi].dirty {
            let d = self.ms[gi].decl.clone();
            self.ms[gi].queued = Some(d);
            self.ms[gi].dirty = false;
        }
    }
    pub fn commit(&mut self, gi: usize) {
        self.g(gi).edit(|_| {});
        self.model_commit(gi);
    }
    fn mnode(&self, id: NodeId, kind: Kind, coef: Coef, log: Arc<ProbeLog>, done_at: Option<DoneAt>) -> MNode {
        MNode {
            id,
            kind,
            coef,
            log,
            sub: None,
            t: 0,
            params: [0; NP],
            prev_out: vec![],
            done_at,
            done_action: kind.done.unwrap_or(Done::None),
            remove_flag: false,
            mortal: true,
            name: None,
            expected: vec![],
            first_clock: None,
            pars: vec![],
            anyh: None,
            typed: None,
        }
    }
    /// a bare model node with the same function
    pub fn mnode_like(&self, n: &MNode) -> MNode {
        self.mnode(n.id, n.kind, n.coef, n.log.clone(), None)
    }
    /// push within an edit of its own (which commits)
    pub fn push(&mut self, gi: usize, kind: Kind, coef: Coef, done_at: Option<DoneAt>) -> usize {
        let log = Arc::new(ProbeLog::default());
        log.graph.store(gi as u64, SeqCst);
        log.record.store(self.record && !kind.ar, SeqCst);
        let l = log.clone();
        let id = self.g(gi).edit(|g| push_probe(&g, kind, coef, l, done_at));
        let n = self.mnode(id, kind, coef, log, done_at);
        let r = self.ms[gi].add_node(n);
        self.model_commit(gi);
        r
    }
    /// push through the graph itself (not committed)
    pub fn push_graph(&mut self, gi: usize, kind: Kind, coef: Coef, done_at: Option<DoneAt>) -> usize {
        let log = Arc::new(ProbeLog::default());
        log.graph.store(gi as u64, SeqCst);
        log.record.store(self.record && !kind.ar, SeqCst);
        let (id, anyh, typed) = push_probe_graph(self.g(gi), kind, coef, log.clone(), done_at);
        let mut n = self.mnode(id, kind, coef, log, done_at);
        n.anyh = Some(anyh);
        n.typed = Some(typed);
        self.ms[gi].add_node(n)
    }
    pub fn raw_id(&self, gi: usize, r: Ref) -> Option<NodeId> {
        match self.id_of(gi, r) {
            NodeOrGraph::Node(n) => Some(n),
            NodeOrGraph::Graph => None,
        }
    }
    /// add the model of a node pushed inside a larger edit
    pub fn adopt(&mut self, gi: usize, id: NodeId, kind: Kind, coef: Coef, log: Arc<ProbeLog>, done_at: Option<DoneAt>) -> usize {
        let n = self.mnode(id, kind, coef, log, done_at);
        self.ms[gi].add_node(n)
    }
    pub fn push_sub(&mut self, gi: usize, ins: usize, outs: usize) -> (usize, usize) {
        let ring = 200;
        let (id, sub) = self.g(gi).edit(|g| new_sub(&g, ins, outs, GraphOptions::default().name("sub").ring_buffer_size(ring), |_| {}));
        self.adopt_sub(gi, id, sub, ins, outs)
    }
    pub fn adopt_sub(&mut self, gi: usize, id: NodeId, sub: Graph<F>, ins: usize, outs: usize) -> (usize, usize) {
        let kind = Kind { ins, outs, ar: false, done: None };
        let mut n = self.mnode(id, kind, Coef::default(), Arc::new(ProbeLog::default()), None);
        let si = self.graphs.len();
        n.sub = Some(si);
        let nid = self.ms[gi].add_node(n);
        self.graphs.push(Some(sub));
        self.ms.push(GModel { n_in: ins, n_out: outs, parent: Some((gi, nid)), decl: Struct { outs: vec![vec![]; outs], ..Default::default() }, live: Struct { outs: vec![vec![]; outs], ..Default::default() }, ..Default::default() });
        self.model_commit(gi);
        (nid, si)
    }
    pub fn id_of(&self, gi: usize, r: Ref) -> NodeOrGraph {
        match r {
            Ref::Graph => NodeOrGraph::Graph,
            Ref::Node(n) => NodeOrGraph::Node(self.ms[gi].nodes[n].id),
            Ref::Foreign(g, n) => NodeOrGraph::Node(self.ms[g].nodes[n].id),
            Ref::Invalid => NodeOrGraph::Node(NodeId::invalid()),
        }
    }
    fn n_outs(&self, gi: usize, r: Ref) -> Option<usize> {
        match r {
            Ref::Graph => Some(self.ms[gi].n_in),
            Ref::Node(n) if self.ms[gi].alive(n) => Some(self.ms[gi].nodes[n].kind.outs),
            _ => None,
        }
    }
    fn n_ins(&self, gi: usize, r: Ref) -> Option<usize> {
        match r {
            Ref::Graph => Some(self.ms[gi].n_out),
            Ref::Node(n) if self.ms[gi].alive(n) => Some(self.ms[gi].nodes[n].kind.ins),
            _ => None,
        }
    }
    pub fn connect_ok(&self, gi: usize, src: Ref, so: u16, si: u16, sink: Ref, mode: Mode) -> bool {
        let (Some(no), Some(ni)) = (self.n_outs(gi, src), self.n_ins(gi, sink)) else { return false };
        if so as usize >= no || si as usize >= ni {
            return false;
        }
        if let (Ref::Node(a), Ref::Node(b)) = (src, sink) {
            if matches!(mode, Mode::Add | Mode::Replace) && self.ms[gi].has_path(b, a) {
                return false;
            }
        }
        true
    }
    pub fn model_connect(&mut self, gi: usize, src: Ref, so: u16, si: u16, sink: Ref, mode: Mode) {
        let fb = matches!(mode, Mode::Fb | Mode::FbReplace);
        let e = match src {
            Ref::Graph => MSrc::In(so),
            Ref::Node(n) if fb && matches!(sink, Ref::Node(_)) => {
                self.next_fb += 1;
                MSrc::Fb(self.next_fb, n, so)
            }
            Ref::Node(n) => MSrc::Node(n, so),
            _ => unreachable!(),
        };
        let m = &mut self.ms[gi];
        let l = match sink {
            Ref::Graph => &mut m.decl.outs[si as usize],
            Ref::Node(n) => &mut m.decl.ins[n][si as usize],
            _ => unreachable!(),
        };
        if matches!(mode, Mode::Replace | Mode::FbReplace) {
            l.clear();
        }
        l.push(e);
        if let MSrc::Fb(_, n, c) = e {
            m.fb_ever.push((n, c));
        }
        m.dirty = true;
    }
    /// connect without committing
    pub fn connect(&mut self, gi: usize, src: Ref, so: u16, si: u16, sink: Ref, mode: Mode) -> Result<bool, Failure> {
        let (a, b) = (self.id_of(gi, src), self.id_of(gi, sink));
        let ok = self.connect_ok(gi, src, so, si, sink, mode);
        let g = self.g(gi);
        let r = match mode {
            Mode::Add => g.connect2(a, so, si, b),
            Mode::Replace => g.connect2_replace(a, so, si, b),
            Mode::Fb => g.connect2_feedback(a, so, si, b),
            Mode::FbReplace => g.connect2_feedback_replace(a, so, si, b),
        };
        let what = || format!("connect {src:?}:{so} -> {sink:?}:{si} {mode:?} in graph {gi}: {r:?}");
        match (&r, ok) {
            (Ok(()), true) => self.model_connect(gi, src, so, si, sink, mode),
            (Err(GraphError::SendToGraphGen(_)), _) => bail!("connect: send error", "{}", what()),
            (Err(_), false) => {}
            (Ok(()), false) => bail!("invalid connection accepted", "{}", what()),
            (Err(_), true) => bail!("valid connection rejected", "{}", what()),
        }
        Ok(ok)
    }
    pub fn connect_param(&mut self, gi: usize, src: Ref, so: u16, p: Param, sink: Ref, replace: bool) -> Result<bool, Failure> {
        let id = |s: &Self, r| match s.id_of(gi, r) {
            NodeOrGraph::Node(n) => n,
            NodeOrGraph::Graph => NodeId::invalid(),
        };
        let (a, b) = (id(self, src), id(self, sink));
        let mut pi = None;
        let ok = (|| {
            let (Ref::Node(s), Ref::Node(k)) = (src, sink) else { return false };
            let m = &self.ms[gi];
            if !m.alive(s) || !m.alive(k) || so as usize >= m.nodes[s].kind.outs || m.nodes[k].sub.is_some() {
                return false;
            }
            let np = NP + m.nodes[k].kind.done.is_some() as usize;
            pi = match p {
                Param::Index(i) if i < np => Some(i),
                Param::Desc(d) => ["pa", "pb", "trig", "int", "flag", "done_action"][..np].iter().position(|x| *x == d),
                _ => None,
            };
            pi.is_some() && !m.has_path(k, s)
        })();
        let g = self.g(gi);
        let r = if replace { g.connect_replace_to_parameter(a, so, p, b) } else { g.connect_to_parameter(a, so, p, b) };
        let what = || format!("connect parameter {src:?}:{so} -> {sink:?}:{p:?} replace {replace} in graph {gi}: {r:?}");
        match (&r, ok) {
            (Ok(()), true) => {
                let (Ref::Node(s), Ref::Node(k)) = (src, sink) else { unreachable!() };
                let l = self.ms[gi].decl.pedges[k].entry(pi.unwrap()).or_default();
                if replace {
                    l.clear();
                }
                l.push((s, so));
                self.ms[gi].dirty = true;
            }
            (Err(_), false) => {}
            (Ok(()), false) => bail!("invalid parameter connection accepted", "{}", what()),
            (Err(_), true) => bail!("valid parameter connection rejected", "{}", what()),
        }
        Ok(ok)
    }
    pub fn disconnect_out(&mut self, gi: usize, src: Ref, ch: u16) -> Result<bool, Failure> {
        let ok = self.n_outs(gi, src).is_some_and(|n| (ch as usize) < n);
        let a = self.id_of(gi, src);
        let r = self.g(gi).disconnect_output_from_source(a, ch);
        if r.is_ok() != ok {
            bail!(if ok { "valid disconnect rejected" } else { "invalid disconnect accepted" }, "disconnect output {src:?}:{ch} in graph {gi}: {r:?}");
        }
        if ok {
            self.ms[gi].disconnect_source(if let Ref::Node(n) = src { Some(n) } else { None }, ch);
        }
        Ok(ok)
    }
    pub fn disconnect_in(&mut self, gi: usize, sink: Ref, ch: u16) -> Result<bool, Failure> {
        let ok = self.n_ins(gi, sink).is_some_and(|n| (ch as usize) < n);
        let a = self.id_of(gi, sink);
        let r = self.g(gi).disconnect_input_to_sink(ch, a);
        if r.is_ok() != ok {
            bail!(if ok { "valid disconnect rejected" } else { "invalid disconnect accepted" }, "disconnect input {sink:?}:{ch} in graph {gi}: {r:?}");
        }
        if ok {
            let m = &mut self.ms[gi];
            match sink {
                Ref::Node(n) => m.decl.ins[n][ch as usize].clear(),
                _ => m.decl.outs[ch as usize].clear(),
            }
            m.dirty = true;
        }
        Ok(ok)
    }
    pub fn free(&mut self, gi: usize, r: Ref) -> Result<bool, Failure> {
        let id = match self.id_of(gi, r) {
            NodeOrGraph::Node(n) => n,
            NodeOrGraph::Graph => NodeId::invalid(),
        };
        let res = self.g(gi).edit(|g| g.free_node(id));
        let mut freed = false;
        match r {
            Ref::Node(n) if self.ms[gi].alive(n) => {
                let ok = self.ms[gi].nodes[n].mortal;
                if res.is_ok() != ok {
                    bail!(if ok { "valid free rejected" } else { "freeing an immortal node accepted" }, "free {r:?} in graph {gi}: {res:?}");
                }
                if ok {
                    self.ms[gi].free(n);
                    freed = true;
                }
            }
            // freeing twice may be an error or do nothing
            Ref::Node(_) => {}
            _ => {
                if res.is_ok() {
                    bail!("freeing a node of another graph accepted", "free {r:?} in graph {gi}: {res:?}");
                }
            }
        }
        self.model_commit(gi);
        Ok(freed)
    }
    pub fn set_mortality(&mut self, gi: usize, r: Ref, mortal: bool) -> Res {
        let id = match self.id_of(gi, r) {
            NodeOrGraph::Node(n) => n,
            NodeOrGraph::Graph => NodeId::invalid(),
        };
        let res = self.g(gi).set_mortality(id, mortal);
        match r {
            Ref::Node(n) if self.ms[gi].alive(n) => {
                check!(res.is_ok(), "set_mortality rejected", "{r:?}: {res:?}");
                self.ms[gi].nodes[n].mortal = mortal;
            }
            Ref::Node(_) => {}
            _ => check!(res.is_err(), "set_mortality for a node of another graph accepted", "{r:?}"),
        }
        Ok(())
    }
    /// A time that falls into this frame, often somewhere between its start and the next one.
    pub fn frames_time(&self, frames: u64) -> Seconds {
        let q = 282_240_000 / self.sr as u64;
        let extra = [0, 0, 1, q / 2, q - 1][(frames as usize ^ (self.clock as usize >> 1)) % 5];
        let t = Seconds::from_samples(frames, self.sr as u64);
        if 282_240_000 % self.sr as u64 == 0 { t + Seconds::from_subsample_tesimals_u64(extra) } else { t }
    }
    pub fn mtime(&self, t: MTime) -> Time {
        match t {
            MTime::Asap => Time::asap(),
            MTime::At(f) if f % 4 == 3 => Time::after(self.frames_time(f)).to_absolute(),
            MTime::At(f) if f % 4 == 2 => Time::at(self.frames_time(f)).to_absolute(),
            MTime::At(f) => Time::at(self.frames_time(f)),
            MTime::After(f) if f % 4 == 3 => Time::at(self.frames_time(f)).to_relative(),
            MTime::After(f) if f % 4 == 2 => Time::after(self.frames_time(f)).to_relative(),
            MTime::After(f) => Time::after(self.frames_time(f)),
        }
    }
    pub fn model_event(&mut self, gi: usize, node: usize, param: usize, value: Option<PV>, time: MTime, token: Option<usize>) {
        self.ms[gi].incoming.push_back(MEvent { node, param, value, time, token, waited: 0 });
    }

    /// Process one block on both sides and compare.
    pub fn run_block(&mut self, src: &mut Src) -> Res {
        self.run_block_with(src, |_, _| ())
    }
    /// As `run_block`; `around` is given the world before the audio processor runs and sets up
    /// what happens in the middle of the block.
    pub fn run_block_with(&mut self, src: &mut Src, around: impl FnOnce(&mut Self, &mut Src)) -> Res {
        let n_in = self.ms[0].n_in;
        let bs = self.bs;
        let inputs: Vec<Vec<u64>> = (0..n_in)
            .map(|c| {
                let a = src.below(M);
                (0..bs as u64).map(|i| (a + i * (c as u64 + 1) * 7) % M).collect()
            })
            .collect();
        let tokens: Vec<bool> = self.tokens.iter().map(|t| t.2).collect();
        let mut max = self.max_value;
        let want = eval(&mut self.ms, 0, &inputs, bs, self.sr, self.clock, &tokens, &mut max);
        self.max_value = max;
        let real_in: Vec<Vec<F>> = inputs.iter().map(|c| c.iter().map(|v| F::new(*v as f64)).collect()).collect();
        let Some(mut proc) = self.proc.take() else { return Ok(()) };
        let refs: Vec<&[F]> = real_in.iter().map(|c| &c[..]).collect();
        around(self, src);
        let p = &mut proc;
        let ((), a, f) = kv::alloc::rt(|| if n_in == 0 && bs % 2 == 0 { p.run_without_inputs() } else { p.run(&refs) });
        self.rt_alloc += a;
        self.rt_free += f;
        let limit = if std::mem::size_of::<F>() == 4 { 1u64 << 24 } else { 1 << 50 };
        if self.max_value >= limit {
            self.rounded = true;
        }
        MID.set(None);
        self.only = None;
        if let Some(f) = self.mism.take() {
            return Err(f);
        }
        self.proc = Some(proc);
        let p = self.proc.as_mut().unwrap();
        let ob = p.output_block();
        let outs = self.ms[0].n_out;
        let shape = (Block::channels(&*ob), Block::block_size(&*ob));
        check!(shape == (outs, bs), "output block shape", "{shape:?}");
        if !self.rounded {
            for ch in 0..outs {
                for fr in 0..bs {
                    let got = Block::read(&*ob, ch, fr).to_f64();
                    if got != want[ch][fr] as f64 {
                        let all: Vec<f64> = (0..bs.min(16)).map(|f| Block::read(&*ob, ch, f).to_f64()).collect();
                        let w: Vec<u64> = want[ch].iter().copied().take(16).collect();
                        bail!("output differs from the declared graph", "block starting at frame {}: channel {ch} frame {fr}: got {got}, declared graph gives {}\n got  {all:?}\n want {w:?}", self.clock, want[ch][fr]);
                    }
                }
            }
        }
        self.clock += bs as u64;
        let now = Seconds::from_samples(self.clock, self.sr as u64);
        for g in self.graphs.iter().flatten() {
            let t = g.shared_frame_clock().get();
            check!(t == now, "shared frame clock", "after frame {}: {t:?} instead of {now:?}", self.clock);
        }
        Ok(())
    }

    /// Are the nodes of all graphs around `gi` still in place?
    pub fn attached(&self, gi: usize) -> bool {
        match self.ms[gi].parent {
            Some((p, n)) => self.ms[p].alive(n) && self.attached(p),
            None => true,
        }
    }
    pub fn check_probes(&self) -> Res {
        for (gi, m) in self.ms.iter().enumerate() {
            for (ni, n) in m.nodes.iter().enumerate() {
                if n.sub.is_some() {
                    continue;
                }
                let l = &n.log;
                let who = format!("node {ni} of graph {gi} {:?}", n.kind);
                check!(l.inits.load(SeqCst) == 1, "node not initialised exactly once", "{who}: {} times", l.inits.load(SeqCst));
                check!(l.sr.load(SeqCst) == self.sr && l.bs.load(SeqCst) == self.bs as u64, "node initialised with the wrong rate or block size", "{who}");
                check!(l.frames.load(SeqCst) == n.t, "node not processed once per block", "{who}: processed {} frames, {} expected", l.frames.load(SeqCst), n.t);
                check!(l.wrong.load(SeqCst) == 0, "node processed out of turn", "{who}: processed before init, after drop, at an unexpected time or with the wrong shape");
                let d = l.dropped.load(SeqCst);
                check!(d <= 1, "node dropped twice", "{who}");
                check!(l.dropped_rt.load(SeqCst) == 0, "node dropped on the audio thread", "{who}");
                if m.alive(ni) && self.proc.is_some() && self.graphs[gi].is_some() && self.attached(gi) {
                    check!(d == 0, "node dropped while in the graph", "{who}");
                }
                if let (Some(f), got) = (n.first_clock, l.first_clock.load(SeqCst)) {
                    check!(f == got, "node started at the wrong block", "{who}: first processed at {got}, committed for {f}");
                }
            }
        }
        Ok(())
    }
    pub fn check_events(&self) -> Res {
        for (gi, m) in self.ms.iter().enumerate() {
            for (ni, n) in m.nodes.iter().enumerate() {
                if n.sub.is_some() || !n.log.record.load(SeqCst) {
                    continue;
                }
                let got = n.log.events.lock().unwrap().clone();
                check!(got == n.expected, "parameter changes differ", "node {ni} of graph {gi}:\n got  {got:?}\n want {:?}", n.expected);
            }
        }
        Ok(())
    }
    pub fn check_rt(&self) -> Res {
        check!(self.rt_alloc == 0, "allocation on the audio thread", "{} allocations", self.rt_alloc);
        check!(self.rt_free == 0, "free on the audio thread", "{} frees", self.rt_free);
        Ok(())
    }
    /// A few more commits and blocks: what was removed has to be gone then, without waiting for
    /// the graph to be dropped.
    pub fn settle(&mut self, src: &mut Src) -> Res {
        let mut dead = Vec::new();
        for i in 0..=SETTLE {
            for gi in self.live_graphs() {
                self.commit(gi);
            }
            if i == 0 {
                dead = self.ms.iter().map(|m| (0..m.nodes.len()).map(|n| !m.alive(n)).collect::<Vec<_>>()).collect();
            }
            if i < SETTLE {
                self.run_block(src)?;
            }
        }
        for gi in self.live_graphs() {
            // (a graph freed as a whole is left alone by the audio)
            let mut g = Some(gi);
            let mut running = self.attached(gi);
            while let Some(x) = g {
                running &= !self.ms[x].freed;
                g = self.ms[x].parent.map(|p| p.0);
            }
            if !running {
                continue;
            }
            for (ni, n) in self.ms[gi].nodes.iter().enumerate() {
                if n.sub.is_none() && dead[gi][ni] {
                    let d = n.log.dropped.load(SeqCst);
                    check!(d == 1, "removed node not dropped", "node {ni} of graph {gi} {:?} was removed, but not dropped by {SETTLE} more commits and blocks", n.kind);
                }
            }
        }
        Ok(())
    }
    /// Drop everything in some order and check that every node was dropped exactly once.
    pub fn finish(mut self, src: &mut Src) -> Res {
        let logs: Vec<(usize, usize, Arc<ProbeLog>)> = self.ms.iter().enumerate().flat_map(|(g, m)| m.nodes.iter().enumerate().filter(|n| n.1.sub.is_none()).map(move |(n, x)| (g, n, x.log.clone()))).collect();
        let mut order: Vec<usize> = (0..=self.graphs.len()).collect();
        for i in (1..order.len()).rev() {
            let j = i - src.idx(i + 1);
            order.swap(i, j);
        }
        for o in order {
            if o == self.graphs.len() {
                self.proc = None;
            } else {
                self.graphs[o] = None;
            }
        }
        drop(self);
        for (g, n, l) in logs {
            let d = l.dropped.load(SeqCst);
            check!(d == 1, if d == 0 { "node never dropped" } else { "node dropped twice" }, "node {n} of graph {g} was dropped {d} times");
        }
        Ok(())
    }
}
