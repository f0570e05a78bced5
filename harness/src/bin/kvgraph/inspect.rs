//! What inspection, name lookups and handles say about a graph, compared with what was declared.
use crate::ops::*;
use crate::probe::*;
use crate::world::*;
use knaster_core::*;
use knaster_graph::graph::NodeKey;
use knaster_graph::handle::HandleTrait;
use knaster_graph::inspection::*;
use kv::*;
use std::collections::{BTreeMap, HashMap};

type Leaf = (i64, u16);
const GRAPH: i64 = -1;
const FB: i64 = -2;

pub fn check_inspection<F: Float>(w: &mut World<F>, gi: usize, src: &mut Src, ctx: &mut Ctx) -> Res {
    let m = &w.ms[gi];
    let g = w.graphs[gi].as_ref().unwrap();
    let ins = g.inspection();
    check!(ins.num_inputs as usize == m.n_in && ins.num_outputs as usize == m.n_out && ins.graph_id == g.graph_id(), "inspection: graph data", "{} inputs, {} outputs", ins.num_inputs, ins.num_outputs);
    let known: HashMap<NodeKey, usize> = m.nodes.iter().enumerate().map(|(i, n)| (n.id.key(), i)).collect();
    let mut listed: BTreeMap<usize, &NodeInspection> = BTreeMap::new();
    let mut by_key: HashMap<NodeKey, &NodeInspection> = HashMap::new();
    for n in &ins.nodes {
        check!(by_key.insert(n.key, n).is_none(), "inspection: node listed twice", "{}", n.name);
        if let Some(i) = known.get(&n.key) {
            listed.insert(*i, n);
        }
    }
    // (nodes that were freed may be listed while they are pending removal)
    for i in m.alive_nodes() {
        check!(listed.contains_key(&i), "inspection: node missing", "node {i} of graph {gi}");
    }
    // follow the nodes the graph made itself (sums, feedback) to what was declared
    fn leaves(key: &EdgeInspection, known: &HashMap<NodeKey, usize>, by_key: &HashMap<NodeKey, &NodeInspection>, out: &mut Vec<Leaf>, depth: usize) -> Res {
        match key.source {
            EdgeSource::Graph => out.push((GRAPH, key.from_index)),
            EdgeSource::Node(k) => {
                if let Some(i) = known.get(&k) {
                    out.push((*i as i64, key.from_index));
                } else {
                    let Some(n) = by_key.get(&k) else { bail!("inspection: edge from a node that is not listed", "{key:?}") };
                    if n.inputs == 0 {
                        out.push((FB, 0));
                    } else {
                        check!(depth < 1000, "inspection: endless chain of edges", "{key:?}");
                        for e in &n.input_edges {
                            leaves(e, known, by_key, out, depth + 1)?;
                        }
                    }
                }
            }
        }
        Ok(())
    }
    let decl = |l: &[MSrc]| -> Vec<Leaf> {
        let mut v: Vec<Leaf> = l
            .iter()
            .map(|s| match s {
                MSrc::In(c) => (GRAPH, *c),
                MSrc::Node(n, c) => (*n as i64, *c),
                MSrc::Fb(..) => (FB, 0),
            })
            .collect();
        v.sort();
        v
    };
    let mut edges = 0;
    for i in m.alive_nodes() {
        let n = &m.nodes[i];
        let x = listed[&i];
        let who = format!("node {i} of graph {gi}");
        check!((x.inputs as usize, x.outputs as usize) == (n.kind.ins, n.kind.outs), "inspection: channels", "{who}: {} {}", x.inputs, x.outputs);
        let names = if n.sub.is_some() { &[][..] } else { &crate::events::NAMES[..NP + n.kind.done.is_some() as usize] };
        check!(x.parameter_descriptions == names, "inspection: parameters", "{who}: {:?}", x.parameter_descriptions);
        check!(x.parameter_hints.len() == names.len(), "inspection: parameter hints", "{who}");
        for (a, b) in x.parameter_hints.iter().zip([ParameterType::Float, ParameterType::Float, ParameterType::Trigger, ParameterType::Integer, ParameterType::Bool, ParameterType::Integer]) {
            check!(std::mem::discriminant(&a.ty()) == std::mem::discriminant(&b), "inspection: parameter hints", "{who}: {a:?}");
        }
        for (i, a) in x.parameter_hints.iter().enumerate() {
            let want = <Probe<F, knaster_core::typenum::U0, knaster_core::typenum::U0> as UGen>::param_hints().get(i).copied().unwrap_or_else(ParameterHint::from_pinteger_enum::<Done>);
            check!(format!("{a:?}") == format!("{want:?}"), "inspection: parameter hints", "{who}: {a:?}, expected {want:?}");
        }
        let want_graph = n.sub.and_then(|s| w.graphs[s].as_ref()).map(|g| g.graph_id());
        if n.sub.is_none() || want_graph.is_some() {
            check!(x.is_graph == want_graph, "inspection: is_graph", "{who}: {:?}, expected {want_graph:?}", x.is_graph);
        }
        match &n.name {
            Some(s) => check!(x.name == *s, "inspection: name", "{who}: {:?}, was named {s:?}", x.name),
            None if n.sub.is_some() => check!(x.name == "sub", "inspection: name", "{who}: {:?}, the nested graph is called \"sub\"", x.name),
            None => check!(x.name.contains("Probe"), "inspection: name", "{who}: {:?}, the UGen is a Probe", x.name),
        }
        for ch in 0..n.kind.ins {
            let mut got = vec![];
            for e in x.input_edges.iter().filter(|e| e.to_index as usize == ch) {
                leaves(e, &known, &by_key, &mut got, 0)?;
            }
            got.sort();
            let want = decl(&m.decl.ins[i][ch]);
            edges += want.len();
            check!(got == want, "inspection: connections", "{who} input {ch}: {got:?}, declared {want:?} (node, channel; -1 = graph input, -2 = feedback)");
        }
        check!(x.input_edges.iter().all(|e| (e.to_index as usize) < n.kind.ins), "inspection: connections", "{who}: edge to a channel it does not have");
    }
    for ch in 0..m.n_out {
        let mut got = vec![];
        for e in ins.graph_output_edges.iter().filter(|e| e.to_index as usize == ch) {
            leaves(e, &known, &by_key, &mut got, 0)?;
        }
        got.sort();
        let want = decl(&m.decl.outs[ch]);
        check!(got == want, "inspection: graph outputs", "output {ch} of graph {gi}: {got:?}, declared {want:?}");
    }
    // feedback
    let mut got: Vec<Leaf> = ins.nodes.iter().flat_map(|n| &n.input_edges).filter(|e| e.is_feedback).map(|e| (if let EdgeSource::Node(k) = e.source { known.get(&k).map_or(-9, |i| *i as i64) } else { GRAPH }, e.from_index)).collect();
    let mut want: Vec<Leaf> = m.decl.ins.iter().flatten().flatten().filter_map(|s| if let MSrc::Fb(_, n, c) = s { Some((*n as i64, *c)) } else { None }).collect();
    got.sort();
    want.sort();
    // (the nodes of a replaced feedback connection may be pending removal)
    for x in &want {
        let Some(k) = got.iter().position(|y| y == x) else { bail!("inspection: feedback connections", "graph {gi}: declared {want:?}, {x:?} is not listed as feedback") };
        got.swap_remove(k);
    }
    for (n, c) in got {
        check!(n >= 0 && m.fb_ever.contains(&(n as usize, c)), "inspection: edge wrongly marked as feedback", "graph {gi}: from node {n} channel {c} (-1 = graph input, -9 = a node the graph made)");
    }
    check!(ins.graph_output_edges.iter().all(|e| !e.is_feedback), "inspection: edge wrongly marked as feedback", "graph {gi}: to a graph output");
    ctx.class_if(!want.is_empty(), "feedback inspected");
    ctx.class_if(edges >= 4, "4+ edges inspected");
    // the dot text: one statement per node, one per edge, and nothing refers to a node that has none
    let dot = ins.to_dot_string();
    let n_edges: usize = ins.nodes.iter().map(|n| n.input_edges.len()).sum::<usize>() + ins.graph_output_edges.len();
    let arrows: Vec<&str> = dot.lines().filter(|l| l.contains(" -> ")).collect();
    check!(arrows.len() == n_edges, "dot: number of edges", "{} arrows for {n_edges} edges\n{dot}", arrows.len());
    let strip = |s: &str| s.trim().trim_matches('"').to_string();
    // "index_name" (or an end of the graph) and port
    let end = |s: &str, kind: &str| -> Option<(i64, u16, String)> {
        let (l, p) = s.trim().rsplit_once(kind)?;
        let l = strip(l);
        let port: String = p.chars().take_while(|c| c.is_ascii_digit()).collect();
        let i = if l == "graph_in" || l == "graph_out" { GRAPH } else { l.split_once('_')?.0.parse().ok()? };
        Some((i, port.parse().ok()?, l))
    };
    let sections: HashMap<String, &str> = dot.split("];").flat_map(|t| t.lines().filter_map(move |line| line.trim_end().strip_suffix('[').map(|id| (strip(id), t)))).collect();
    let mut got = vec![];
    for a in arrows {
        let (l, r) = a.split_once(" -> ").unwrap();
        let (Some(l), Some(r)) = (end(l, ":o"), end(r, ":i")) else { bail!("dot: edge", "{a}") };
        for (x, kind) in [(&l, 'o'), (&r, 'i')] {
            let Some(text) = sections.get(&x.2) else { bail!("dot: edge end without a node", "{a}: {:?}\n{dot}", x.2) };
            check!(text.contains(&format!("port='{kind}{}'", x.1)), "dot: edge end without a port", "{a}: {x:?}\n{dot}");
        }
        got.push((l.0, l.1, r.0, r.1));
    }
    let index = |e: &EdgeSource| match e {
        EdgeSource::Graph => GRAPH,
        EdgeSource::Node(k) => ins.nodes.iter().position(|n| n.key == *k).map_or(-9, |i| i as i64),
    };
    let mut want: Vec<_> = ins.nodes.iter().enumerate().flat_map(|(i, n)| n.input_edges.iter().map(move |e| (e, i as i64))).chain(ins.graph_output_edges.iter().map(|e| (e, GRAPH))).map(|(e, to)| (index(&e.source), e.from_index, to, e.to_index)).collect();
    got.sort();
    want.sort();
    check!(got == want, "dot: edges", "{got:?}, expected {want:?}\n{dot}");
    for (i, n) in ins.nodes.iter().enumerate() {
        let html = n.name.replace('<', "&#60;").replace('>', "&#62;");
        check!(dot.contains(&format!("{i}: {html}\n")), "dot: label of a node", "{i}: {html}\n{dot}");
    }
    // handles made from the inspection reach the node they belong to
    let handles = ins.node_handles();
    check!(handles.len() == ins.nodes.len(), "inspection: handles", "{} handles", handles.len());
    let mut sent = None;
    for (h, n) in handles.iter().zip(&ins.nodes) {
        check!(h.node_id().key() == n.key && (h.inputs(), h.outputs()) == (n.inputs, n.outputs), "inspection: handles", "handle {:?} for {:?}", h.node_id(), n.name);
        check!(h.parameters() == n.parameter_descriptions && format!("{:?}", h.hints()) == format!("{:?}", n.parameter_hints), "inspection: handles", "parameters of the handle for {:?}: {:?} {:?}", n.name, h.parameters(), h.hints());
        if let Some(i) = known.get(&n.key).copied() {
            check!(h.node_id() == m.nodes[i].id, "inspection: handles", "node {i}");
            if m.alive(i) && m.nodes[i].sub.is_none() && sent.is_none() && src.chance(1, 8) {
                sent = Some((i, h.clone()));
            }
        }
    }
    if let Some((i, h)) = sent {
        let v = src.below(M);
        ctx.note(|| format!("g{gi}: node {i} pa = {v} via a handle from the inspection"));
        let r = h.set(("pa", v as f64));
        let gone = !w.attached(gi);
        check!(r.is_ok() || gone, "inspection: handle cannot send", "{r:?}");
        if r.is_ok() {
            w.model_event(gi, i, 0, Some(PV::F(v as f64)), MTime::Asap, None);
            ctx.class("handle from an inspection");
        }
    }
    Ok(())
}

/// Lookups by name and by id.
pub fn check_lookup<F: Float>(w: &mut World<F>, gi: usize, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let name = *src.pick(&POOL);
    let m = &w.ms[gi];
    let cand: Vec<_> = m.alive_nodes().into_iter().filter(|i| m.nodes[*i].name.as_deref() == Some(name)).map(|i| m.nodes[i].id).collect();
    let g = w.graphs[gi].as_mut().unwrap();
    let a = g.node_id_with_name(name);
    let b = g.node_data_from_name(name).map(|x| x.0);
    let c = g.edit(|g| g.handle_from_name(name).map(|h| h.id()));
    w.model_commit(gi);
    let m = &w.ms[gi];
    ctx.class_if(cand.len() == 1, "unique name looked up");
    ctx.class_if(cand.is_empty(), "unknown name looked up");
    for x in [a, b, c] {
        match x {
            None => check!(cand.is_empty(), "name not found", "{name:?} in graph {gi}: there are {cand:?}"),
            Some(id) => {
                check!(cand.contains(&id), "lookup found the wrong node", "{name:?} in graph {gi}: got {id:?}, named so: {cand:?}");
            }
        }
    }
    let r = gen_ref(w, gi, src, p, false);
    let Some(id) = w.raw_id(gi, r) else { return Ok(()) };
    let alive = matches!(r, Ref::Node(n) if w.ms[gi].alive(n));
    let g = w.graphs[gi].as_mut().unwrap();
    let d = g.node_data(id);
    check!(d.is_some() == alive, "node data", "{r:?} in graph {gi}: found {}, in the graph: {alive}", d.is_some());
    let h = g.edit(|g| g.handle(id).map(|h| h.id()));
    check!(h == alive.then_some(id), "handle by id", "{r:?} in graph {gi}: {h:?}");
    w.model_commit(gi);
    Ok(())
}
pub const POOL: [&str; 5] = ["alpha", "beta", "gamma", "Vec<f32>", "a b"];
pub fn op_name<F: Float>(w: &mut World<F>, gi: usize, src: &mut Src, ctx: &mut Ctx, p: &Profile) -> Res {
    let r = gen_ref(w, gi, src, p, false);
    let Some(id) = w.raw_id(gi, r) else { return Ok(()) };
    let name = *src.pick(&POOL);
    let alive = matches!(r, Ref::Node(n) if w.ms[gi].alive(n));
    let api = src.below(2);
    ctx.note(|| format!("g{gi}: name {r:?} {name:?} (way {api})"));
    let g = w.graphs[gi].as_mut().unwrap();
    if api == 0 {
        g.set_name(id, name.into());
    } else {
        g.edit(|g| {
            if let Some(h) = g.handle(id) {
                h.name(name);
            }
        });
    }
    // the name counts if the node was there
    if let Ref::Node(n) = r {
        if alive {
            w.ms[gi].nodes[n].name = Some(name.to_string());
        }
    }
    if api == 1 {
        w.model_commit(gi);
    }
    ctx.class("named");
    Ok(())
}
