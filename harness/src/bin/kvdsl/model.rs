//! A direct evaluation of what the handle language declares.
use knaster_core::Float;
pub fn source(id: usize, ch: usize, n: u64) -> f64 {
    ((id as u64 * 7 + ch as u64 * 5 + n * (3 + 2 * (id as u64 % 3))) % 16) as f64 / 2.0 - 3.75
}
pub fn weight(i: usize, j: usize) -> f64 {
    ((i + j) % 3 + 1) as f64
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chan {
    In(usize),
    Node(usize, usize),
}
#[derive(Clone, Copy, Debug)]
pub enum Kind {
    Src,
    Mix,
    Amp,
    Math(u64),
    Const(f64),
}
#[derive(Clone)]
pub enum Edge {
    Plain(Chan),
    Fb(Chan, usize),
}
pub struct Node {
    pub kind: Kind,
    pub ins: Vec<Vec<Edge>>,
    pub outs: usize,
    pub param: Option<Chan>,
    pub alive: bool,
    /// pushed by the program itself; and its name
    pub named: Option<Option<String>>,
    n: u64,
    amp: V,
}
/// A value and how far off the computed one may be.
#[derive(Clone, Copy, Debug)]
pub struct V {
    pub v: f64,
    pub e: f64,
}
const ZERO: V = V { v: 0.0, e: 0.0 };
pub struct Model {
    pub n_in: usize,
    pub n_out: usize,
    pub nodes: Vec<Node>,
    pub outs: Vec<Vec<Edge>>,
    pub rejected: usize,
    single: bool,
    /// the previous block of each feedback connection
    fb: Vec<Vec<V>>,
}
impl Model {
    pub fn new(n_in: usize, n_out: usize, single: bool) -> Self {
        Model { n_in, n_out, nodes: vec![], outs: vec![vec![]; n_out], rejected: 0, single, fb: vec![] }
    }
    pub fn add(&mut self, kind: Kind, i: usize, o: usize) -> usize {
        self.nodes.push(Node { kind, ins: vec![vec![]; i], outs: o, param: None, alive: true, named: None, n: 0, amp: V { v: 1.0, e: 0.0 } });
        self.nodes.len() - 1
    }
    pub fn math(&mut self, op: u64, a: Chan, b: Chan) -> Chan {
        let n = self.add(Kind::Math(op), 2, 1);
        self.nodes[n].ins = vec![vec![Edge::Plain(a)], vec![Edge::Plain(b)]];
        Chan::Node(n, 0)
    }
    pub fn constant<F: Float>(&mut self, c: f64) -> Chan {
        let n = self.add(Kind::Const(F::new(c).to_f64()), 0, 1);
        Chan::Node(n, 0)
    }
    /// does `to` depend on `from`?
    pub fn path(&self, from: usize, to: usize) -> bool {
        let mut seen = vec![false; self.nodes.len()];
        let mut todo = vec![to];
        while let Some(n) = todo.pop() {
            if n == from {
                return true;
            }
            if std::mem::replace(&mut seen[n], true) {
                continue;
            }
            for e in self.nodes[n].ins.iter().flatten() {
                if let Edge::Plain(Chan::Node(k, _)) = e {
                    todo.push(*k);
                }
            }
            if let Some(Chan::Node(k, _)) = self.nodes[n].param {
                todo.push(k);
            }
        }
        false
    }
    pub fn can(&self, s: Chan, k: Chan) -> bool {
        match (s, k) {
            (Chan::Node(a, _), Chan::Node(b, _)) => !self.path(b, a),
            _ => true,
        }
    }
    pub fn connect(&mut self, s: Chan, k: Chan, fb: bool, repl: bool) -> bool {
        let Chan::Node(n, c) = k else { unreachable!() };
        let fb = fb && matches!(s, Chan::Node(..));
        if !fb && !self.can(s, k) {
            self.rejected += 1;
            return false;
        }
        let e = if fb {
            self.fb.push(vec![]);
            Edge::Fb(s, self.fb.len() - 1)
        } else {
            Edge::Plain(s)
        };
        let l = &mut self.nodes[n].ins[c];
        if repl {
            l.clear();
        }
        l.push(e);
        true
    }
    pub fn connect_out(&mut self, s: Chan, c: usize, repl: bool) {
        if repl {
            self.outs[c].clear();
        }
        self.outs[c].push(Edge::Plain(s));
    }
    fn remove(&mut self, gone: impl Fn(Chan) -> bool) {
        for l in self.nodes.iter_mut().flat_map(|n| n.ins.iter_mut()).chain(self.outs.iter_mut()) {
            l.retain(|e| match e { Edge::Plain(c) | Edge::Fb(c, _) => !gone(*c) });
        }
        for n in self.nodes.iter_mut() {
            if n.param.is_some_and(&gone) {
                n.param = None;
            }
        }
    }
    pub fn disconnect_source(&mut self, s: Chan) {
        self.remove(|c| c == s);
    }
    pub fn free(&mut self, n: usize) {
        self.nodes[n].alive = false;
        for l in self.nodes[n].ins.iter_mut() {
            l.clear();
        }
        self.nodes[n].param = None;
        self.remove(|c| matches!(c, Chan::Node(k, _) if k == n));
    }
    fn round(&self, v: f64) -> f64 {
        if self.single { v as f32 as f64 } else { v }
    }
    fn eps(&self) -> f64 {
        if self.single { f32::EPSILON as f64 } else { f64::EPSILON }
    }
    fn sane(&self, x: V) -> V {
        if !x.v.is_finite() || !x.e.is_finite() || x.v.abs() > 1e30 || (x.v != 0.0 && x.v.abs() < 1e-30) { V { v: x.v, e: f64::INFINITY } } else { x }
    }
    /// an operation with the error it was given and that of rounding an inexact result
    fn fin(&self, exact: f64, e: f64) -> V {
        let v = self.round(exact);
        self.sane(V { v, e: if e == 0.0 { 0.0 } else { e * 1.01 + v.abs() * self.eps() * 2.0 } })
    }
    fn sum(&self, l: &[V]) -> V {
        let mut v = 0.0;
        let mut mag = 0.0;
        let mut e = 0.0;
        for x in l {
            v = self.round(v + x.v);
            mag += x.v.abs();
            e += x.e;
        }
        if l.len() > 2 {
            e += mag * self.eps() * l.len() as f64;
        }
        self.fin(v, e)
    }
    fn op(&self, op: u64, a: V, b: V) -> V {
        let inf = V { v: 0.0, e: f64::INFINITY };
        if a.e == f64::INFINITY || b.e == f64::INFINITY {
            return inf;
        }
        match op {
            0 => self.fin(a.v + b.v, a.e + b.e),
            1 => self.fin(a.v - b.v, a.e + b.e),
            2 => self.fin(a.v * b.v, a.e * b.v.abs() + b.e * a.v.abs() + a.e * b.e),
            3 => {
                if b.v == 0.0 || b.v.abs() <= b.e * 4.0 {
                    return inf;
                }
                self.fin(a.v / b.v, (a.e + (a.v / b.v).abs() * b.e) / (b.v.abs() - b.e))
            }
            _ => {
                let v = if self.single { (a.v as f32).powf(b.v as f32) as f64 } else { a.v.powf(b.v) };
                if a.e == 0.0 && b.e == 0.0 {
                    return self.sane(V { v, e: v.abs() * self.eps() * 8.0 });
                }
                if a.v <= a.e * 8.0 || a.v == 0.0 {
                    return inf;
                }
                let rel = (b.v.abs() + b.e) * a.e / (a.v - a.e) + a.v.ln().abs() * b.e;
                if rel > 0.01 {
                    return inf;
                }
                self.fin(v, v.abs() * (rel * 1.1 + self.eps() * 8.0))
            }
        }
    }
    /// Evaluate a block.
    pub fn block(&mut self, inputs: &[Vec<f64>], bs: usize) -> Vec<Vec<V>> {
        let mut vals: Vec<Option<Vec<Vec<V>>>> = vec![None; self.nodes.len()];
        for n in 0..self.nodes.len() {
            self.node(n, inputs, bs, &mut vals);
        }
        let read = |m: &Model, l: &[Edge], f: usize| -> V {
            let x: Vec<V> = l.iter().map(|e| m.edge(e, f, inputs, &vals)).collect();
            m.sum(&x)
        };
        let out = self.outs.iter().map(|l| (0..bs).map(|f| read(self, l, f)).collect()).collect();
        // what feedback connections deliver next
        let mut next = vec![];
        for e in self.nodes.iter().filter(|n| n.alive).flat_map(|n| n.ins.iter().flatten()) {
            if let Edge::Fb(c, k) = e {
                next.push((*k, (0..bs).map(|f| self.edge(&Edge::Plain(*c), f, inputs, &vals)).collect()));
            }
        }
        for (k, b) in next {
            self.fb[k] = b;
        }
        out
    }
    fn edge(&self, e: &Edge, f: usize, inputs: &[Vec<f64>], vals: &[Option<Vec<Vec<V>>>]) -> V {
        match e {
            Edge::Plain(Chan::In(c)) => V { v: inputs[*c][f], e: 0.0 },
            Edge::Plain(Chan::Node(n, c)) => vals[*n].as_ref().unwrap()[*c][f],
            Edge::Fb(_, k) => self.fb[*k].get(f).copied().unwrap_or(ZERO),
        }
    }
    fn node(&mut self, n: usize, inputs: &[Vec<f64>], bs: usize, vals: &mut Vec<Option<Vec<Vec<V>>>>) {
        if vals[n].is_some() || !self.nodes[n].alive {
            return;
        }
        let mut deps: Vec<usize> = vec![];
        for e in self.nodes[n].ins.iter().flatten() {
            if let Edge::Plain(Chan::Node(k, _)) = e {
                deps.push(*k);
            }
        }
        if let Some(Chan::Node(k, _)) = self.nodes[n].param {
            deps.push(k);
        }
        for k in deps {
            self.node(k, inputs, bs, vals);
        }
        let mut out = vec![vec![ZERO; bs]; self.nodes[n].outs];
        for f in 0..bs {
            let x: Vec<V> = self.nodes[n].ins.iter().map(|l| { let v: Vec<V> = l.iter().map(|e| self.edge(e, f, inputs, vals)).collect(); self.sum(&v) }).collect();
            match self.nodes[n].kind {
                Kind::Src => {
                    for j in 0..out.len() {
                        out[j][f] = V { v: source(n, j, self.nodes[n].n), e: 0.0 };
                    }
                    self.nodes[n].n += 1;
                }
                Kind::Mix => {
                    for j in 0..out.len() {
                        let mut a = ZERO;
                        for (i, x) in x.iter().enumerate() {
                            a = self.op(0, a, self.op(2, *x, V { v: weight(i, j), e: 0.0 }));
                        }
                        out[j][f] = a;
                    }
                }
                Kind::Amp => {
                    if let Some(c) = self.nodes[n].param {
                        self.nodes[n].amp = self.edge(&Edge::Plain(c), f, inputs, vals);
                    }
                    out[0][f] = self.op(2, x[0], self.nodes[n].amp);
                }
                Kind::Math(o) => out[0][f] = self.op(o, x[0], x[1]),
                Kind::Const(c) => out[0][f] = V { v: c, e: 0.0 },
            }
        }
        vals[n] = Some(out);
    }
}
