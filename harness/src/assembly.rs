//! C22: building a network from its description.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::aggregated_node::*;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::models::ModelBuilder;
use pywr_core::network::{Network, NetworkBuilder, UnresolvedEdge};
use pywr_core::node::UnresolvedStorageInitialVolume;
use pywr_core::node::{CostAggFunc, UnresolvedNode};
use pywr_core::parameters::*;
use pywr_core::recorders::MetricSetBuilder;
use pywr_core::state::State;
use pywr_core::virtual_storage::VirtualStorageNodeBuilder;
use pywr_core::{AggregatedNodeBuilder, AggregatedStorageNodeBuilder, NodeBuilder};
use std::collections::{HashMap, HashSet};

pub const CASES: &[(&str, CaseFn)] = &[("description", description), ("references", references)];

type Name = (String, Option<String>);
fn un(n: &Name) -> UnresolvedNode {
    UnresolvedNode::new(&n.0, n.1.as_deref())
}
fn nm(a: &str, b: Option<&str>) -> Name {
    (a.to_string(), b.map(|s| s.to_string()))
}
/// what an attribute of a description says, and what that means: Err when it cannot be, else the value (when one is known)
/// and whether it is known without looking at the network
type Meaning = Result<(Option<f64>, bool), ()>;
fn meaning(r: &mut Rng, nodes: &HashSet<Name>, bad: f64) -> (UnresolvedMetricF64, Meaning) {
    let pv = |n: &str, rv: ParameterReturnValue| UnresolvedMetricF64::ParameterValue { name: n.into(), return_value: rv };
    use ParameterReturnValue::*;
    if r.p(bad) {
        return match r.us(0, 7) {
            0 => (pv("zz", Before), Err(())),
            1 => (pv("pc", After), Err(())),
            2 => (pv("ps", AfterOrElseInitial), Err(())),
            3 => (pv("pg", After), Err(())),
            4 => (pv("pg", AfterOrElseInitial), Err(())),
            5 => (pv("pa", r.pick(&[Before, After])), Err(())),
            6 => (pv("pb", After), Err(())),
            _ => (UnresolvedMetricF64::NodeOutFlow(UnresolvedNode::new("vin", Some("other"))), Err(())),
        };
    }
    match r.us(0, 7) {
        0 | 1 => {
            let v = r.coarse(0.0, 20.0);
            (v.into(), Ok((Some(v), true)))
        }
        2 => (pv("pc", Before), Ok((Some(3.0), true))),
        3 => (pv("ps", Before), Ok((Some(5.0), true))),
        4 => (pv("pg", Before), Ok((Some(10.0), false))),
        5 => (pv("pa", AfterOrElseInitial), Ok((None, false))),
        6 => (pv("pb", Before), Ok((Some(17.0), false))),
        _ => {
            let mut ns: Vec<Name> = nodes.iter().cloned().collect();
            ns.sort();
            let n = r.pick(&ns);
            (UnresolvedMetricF64::NodeOutFlow(un(&n)), Ok((None, false)))
        }
    }
}
/// the parameters referred to
fn add_params(nb: &mut NetworkBuilder) {
    nb.parameters().f64(Box::new(ConstantParameterBuilder::new("pc".into(), 3.0)));
    nb.parameters().f64(Box::new(Array1ParameterBuilder::new("ps".into(), ndarray::Array1::from(vec![5.0; 2]))));
    let seven = UnresolvedMetricF64::NodeMaxFlow("vin".into());
    let mut g = AggregatedParameterBuilder::before("pg".into(), AggFuncF64::Sum);
    g.metric(seven.clone());
    g.metric(param("pc"));
    nb.parameters().f64(Box::new(g));
    let mut a = AggregatedParameterBuilder::after("pa".into(), AggFuncF64::Sum);
    a.metric(seven.clone());
    nb.parameters().f64(Box::new(a));
    let mut b = AggregatedParameterBuilder::both("pb".into(), AggFuncF64::Sum);
    b.metric(seven);
    b.metric(param("pg"));
    nb.parameters().f64(Box::new(b));
}
#[derive(Clone, Debug, Default)]
struct Said {
    known: bool,
    val: Option<f64>,
}
/// an optional attribute; `ok` becomes false when it cannot be
fn attr(r: &mut Rng, nodes: &HashSet<Name>, p: f64, simple: bool, bad: f64, ok: &mut bool) -> (Option<UnresolvedMetricF64>, Said) {
    if !r.p(p) {
        return (None, Said::default());
    }
    loop {
        let (u, m) = meaning(r, nodes, bad);
        match m {
            Err(()) => {
                *ok = false;
                return (Some(u), Said { known: true, val: None });
            }
            // a volume must be known before the network is looked at
            Ok((_, false)) if simple && !r.p(bad) => continue,
            Ok((v, s)) => {
                if simple && !s {
                    *ok = false;
                }
                return (Some(u), Said { known: true, val: v });
            }
        }
    }
}
#[derive(Clone, Debug)]
struct NodeSaid {
    name: Name,
    kind: usize,
    lo: Said,
    hi: Said,
    cost: Said,
    /// how its cost is combined with those of its virtual storages: sum, largest, smallest
    func: Option<usize>,
}
#[derive(Clone, Debug)]
struct AggSaid {
    name: Name,
    sets: Vec<Vec<Name>>,
    lo: Said,
    hi: Said,
    rel: usize,
    excl: (u64, u64),
}
#[derive(Clone, Debug)]
struct VsSaid {
    name: Name,
    nodes: Vec<Name>,
    factors: Option<Vec<f64>>,
    lo: Said,
    hi: Said,
    cost: Said,
}
#[derive(Clone, Debug, Default)]
struct AllSaid {
    nodes: Vec<NodeSaid>,
    edges: Vec<(Name, Name)>,
    aggs: Vec<AggSaid>,
    stores: Vec<(Name, Vec<Name>)>,
    vss: Vec<VsSaid>,
}
fn dup<T: std::hash::Hash + Eq + Clone>(v: &[T]) -> bool {
    v.iter().cloned().collect::<HashSet<T>>().len() != v.len()
}
fn val(what: &str, got: Result<f64, String>, s: &Said, none: f64) -> Result<(), String> {
    let got = got.map_err(|e| format!("{what}: {e}"))?;
    match (s.known, s.val) {
        (false, _) => expect_eq(what, got, none),
        (true, Some(v)) => expect_eq(what, got, v),
        _ => Ok(()),
    }
}
/// the cost of a node with those of the virtual storages that count it
fn whole_cost(d: &AllSaid, n: &NodeSaid) -> Said {
    let Some(f) = n.func else { return n.cost.clone() };
    let mut c = if n.cost.known { n.cost.val } else { Some(0.0) };
    for v in &d.vss {
        for _ in v.nodes.iter().filter(|m| **m == n.name) {
            let x = if v.cost.known { v.cost.val } else { Some(0.0) };
            c = match (c, x) {
                (Some(a), Some(b)) => Some(match f {
                    0 => a + b,
                    1 => a.max(b),
                    _ => a.min(b),
                }),
                _ => None,
            };
        }
    }
    Said { known: true, val: c }
}
fn check(d: &AllSaid, net: &Network, st: &State) -> Result<(), String> {
    let kinds = ["Input", "Output", "Link", "Storage"];
    let at: HashMap<&Name, usize> = d.nodes.iter().enumerate().map(|(i, n)| (&n.name, i)).collect();
    ensure!(net.nodes().len() == d.nodes.len(), "{} nodes, {} described", net.nodes().len(), d.nodes.len());
    ensure!(net.edges().len() == d.edges.len(), "{} edges, {} described", net.edges().len(), d.edges.len());
    for (i, s) in d.nodes.iter().enumerate() {
        let n = &net.nodes()[i];
        let full = (s.name.0.as_str(), s.name.1.as_deref());
        ensure!(n.full_name() == full && n.name() == full.0 && n.sub_name() == full.1, "node {i} is named {:?}, described {full:?}", n.full_name());
        ensure!(*n.index() == i, "node {i} has index {}", *n.index());
        ensure!(net.get_node_index_by_name(full.0, full.1).map(|x| *x) == Some(i), "node {full:?} is not found by its name");
        ensure!(format!("{:?}", n.node_type()) == kinds[s.kind], "node {full:?} is a {:?}, described {}", n.node_type(), kinds[s.kind]);
        let outs: Vec<usize> = (0..d.edges.len()).filter(|k| d.edges[*k].0 == s.name).collect();
        let ins: Vec<usize> = (0..d.edges.len()).filter(|k| d.edges[*k].1 == s.name).collect();
        if s.kind != 0 {
            let g: Vec<usize> = n.get_incoming_edges().map_err(es)?.iter().map(|e| **e).collect();
            ensure!(g == ins, "edges into {full:?}: {g:?}, described {ins:?}");
        }
        if s.kind != 1 {
            let g: Vec<usize> = n.get_outgoing_edges().map_err(es)?.iter().map(|e| **e).collect();
            ensure!(g == outs, "edges out of {full:?}: {g:?}, described {outs:?}");
        }
        let cost = whole_cost(d, s);
        if s.kind == 3 {
            val(&format!("minimum volume of {full:?}"), n.get_min_volume(st).map_err(es), &s.lo, 0.0)?;
            val(&format!("maximum volume of {full:?}"), n.get_max_volume(st).map_err(es), &s.hi, f64::MAX)?;
            val(&format!("cost out of {full:?}"), n.get_outgoing_cost(net, st).map_err(es).map(|x| -x), &cost, 0.0)?;
        } else {
            val(&format!("minimum flow of {full:?}"), n.get_min_flow(net, st).map_err(es), &s.lo, 0.0)?;
            val(&format!("maximum flow of {full:?}"), n.get_max_flow(net, st).map_err(es), &s.hi, f64::MAX)?;
            let h = if s.kind == 2 { 2.0 } else { 1.0 };
            if s.kind != 1 {
                val(&format!("cost out of {full:?}"), n.get_outgoing_cost(net, st).map_err(es).map(|x| x * h), &cost, 0.0)?;
            }
            if s.kind != 0 {
                val(&format!("cost into {full:?}"), n.get_incoming_cost(net, st).map_err(es).map(|x| x * h), &cost, 0.0)?;
            }
        }
    }
    for (k, (f, t)) in d.edges.iter().enumerate() {
        let e = &net.edges()[k];
        ensure!(*e.index() == k && *e.from_node_index() == at[f] && *e.to_node_index() == at[t], "edge {k} is {:?}, described {f:?} to {t:?}", e);
        ensure!(net.get_edge_index(e.from_node_index(), e.to_node_index()).map(|x| *x) == Some(k), "edge {k} is not found by its ends");
    }
    ensure!(net.aggregated_nodes().len() == d.aggs.len(), "aggregated nodes");
    for (i, s) in d.aggs.iter().enumerate() {
        let n = &net.aggregated_nodes()[i];
        let full = (s.name.0.as_str(), s.name.1.as_deref());
        ensure!(n.full_name() == full && *n.index() == i, "aggregated node {i} is {:?}, described {full:?}", n.full_name());
        ensure!(net.get_aggregated_node_index_by_name(full.0, full.1).map(|x| *x) == Some(i), "aggregated node {full:?} is not found by its name");
        let g: Vec<Vec<usize>> = n.iter_nodes().map(|x| x.iter().map(|y| **y).collect()).collect();
        let w: Vec<Vec<usize>> = s.sets.iter().map(|x| x.iter().map(|y| at[y]).collect()).collect();
        ensure!(g == w, "aggregated node {full:?} is of {g:?}, described {w:?}");
        val(&format!("minimum flow of {full:?}"), n.get_min_flow(net, st).map_err(es), &s.lo, 0.0)?;
        val(&format!("maximum flow of {full:?}"), n.get_max_flow(net, st).map_err(es), &s.hi, f64::MAX)?;
        let excl = n.get_exclusivity().map(|e| (e.min_active(), e.max_active()));
        ensure!(excl == (if s.rel == 4 { Some(s.excl) } else { None }), "exclusivity of {full:?}: {excl:?}, described {s:?}");
        let fk = match n.get_factors() {
            None => 0,
            Some(Factors::Proportion { .. }) => 1,
            Some(Factors::Ratio { .. }) => 2,
            Some(Factors::Coefficients { .. }) => 3,
        };
        ensure!(fk == (if s.rel == 4 { 0 } else { s.rel }), "relationship of {full:?}: {fk}, described {s:?}");
    }
    ensure!(net.aggregated_storage_nodes().len() == d.stores.len(), "aggregated storages");
    for (i, (name, ns)) in d.stores.iter().enumerate() {
        let n = &net.aggregated_storage_nodes()[i];
        let full = (name.0.as_str(), name.1.as_deref());
        ensure!(n.full_name() == full && *n.index() == i, "aggregated storage {i} is {:?}, described {full:?}", n.full_name());
        ensure!(net.get_aggregated_storage_node_index_by_name(full.0, full.1).map(|x| *x) == Some(i), "aggregated storage {full:?} is not found by its name");
        let g: Vec<usize> = n.iter_nodes().map(|x| **x).collect();
        let w: Vec<usize> = ns.iter().map(|y| at[y]).collect();
        ensure!(g == w, "aggregated storage {full:?} is of {g:?}, described {w:?}");
    }
    ensure!(net.virtual_storage_nodes().len() == d.vss.len(), "virtual storages");
    for (i, s) in d.vss.iter().enumerate() {
        let n = &net.virtual_storage_nodes()[i];
        let full = (s.name.0.as_str(), s.name.1.as_deref());
        ensure!(n.full_name() == full && *n.index() == i, "virtual storage {i} is {:?}, described {full:?}", n.full_name());
        ensure!(net.get_virtual_storage_node_index_by_name(full.0, full.1).map(|x| *x) == Some(i), "virtual storage {full:?} is not found by its name");
        let g: Vec<(usize, f64)> = n.iter_nodes_with_factors().map(|(x, f)| (**x, f)).collect();
        let w: Vec<(usize, f64)> = s.nodes.iter().enumerate().map(|(k, y)| (at[y], s.factors.as_ref().map_or(1.0, |f| f[k]))).collect();
        ensure!(g == w, "virtual storage {full:?} counts {g:?}, described {w:?}");
        val(&format!("minimum volume of {full:?}"), n.get_min_volume(st).map_err(es), &s.lo, 0.0)?;
        val(&format!("maximum volume of {full:?}"), n.get_max_volume(st).map_err(es), &s.hi, f64::MAX)?;
        val(&format!("cost of {full:?}"), n.get_cost(net, st).map_err(es), &s.cost, 0.0)?;
    }
    ensure!(net.get_node_by_name("nobody", None).is_none() && net.get_node_by_name("vin", Some("zz")).is_none(), "a node that was not described is found");
    Ok(())
}
/// a description, right or wrong: a right one is built as described, a wrong one is an error
fn description(r: &mut Rng, log: &mut Log) -> Res {
    let bad = if r.p(0.5) { 0.0 } else { 0.04 };
    let pool: Vec<Name> = ["a", "b", "c"].iter().flat_map(|n| [nm(n, None), nm(n, Some("1")), nm(n, Some("2"))]).collect();
    let mut nb = NetworkBuilder::default();
    let mut d = AllSaid::default();
    let mut ok = true;
    // the names and the kinds first
    let extra = r.us(0, 6);
    let mut names: Vec<(Name, usize)> = vec![(nm("vin", None), 0), (nm("vout", None), 1)];
    while names.len() < 2 + extra {
        let n = r.pick(&pool);
        if names.iter().any(|x| x.0 == n) && !r.p(bad) {
            continue;
        }
        names.push((n, r.us(0, 3)));
    }
    let all: HashSet<Name> = names.iter().map(|x| x.0.clone()).collect();
    // then the edges
    let mut edges: Vec<(Name, Name)> = vec![(nm("vin", None), nm("vout", None))];
    for (n, k) in names.iter().skip(2) {
        if *k != 1 && r.p(0.97) {
            edges.push((n.clone(), nm("vout", None)));
        }
        if *k != 0 && r.p(0.97) {
            edges.push((nm("vin", None), n.clone()));
        }
    }
    for _ in 0..r.us(0, 4) {
        let (f, t) = (r.pick(&names), r.pick(&names));
        let e = (f.0.clone(), t.0.clone());
        if r.p(bad) || (f.1 != 1 && t.1 != 0 && f.0 != t.0 && !edges.contains(&e)) {
            edges.push(e);
        }
    }
    if r.p(bad) {
        edges.push((nm("vin", None), nm("nobody", None)));
    }
    for i in (1..edges.len()).rev() {
        edges.swap(i, r.us(0, i));
    }
    ok &= !dup(&names.iter().map(|x| x.0.clone()).collect::<Vec<_>>()) && !dup(&edges) && edges.iter().all(|(f, t)| all.contains(f) && all.contains(t) && f != t);
    for (n, k) in &names {
        let (i, o) = (edges.iter().filter(|e| e.1 == *n).count(), edges.iter().filter(|e| e.0 == *n).count());
        ok &= match k {
            0 => i == 0 && o > 0,
            1 => i > 0 && o == 0,
            2 => i > 0 && o > 0,
            _ => true,
        };
        let mut b = match (k, r.p(0.5)) {
            (0, true) => NodeBuilder::input(n.0.as_str()),
            (1, true) => NodeBuilder::output(n.0.as_str()),
            (2, true) => NodeBuilder::link(n.0.as_str()),
            (3, true) => NodeBuilder::storage(n.0.as_str()),
            (0, _) => NodeBuilder::input(un(n)),
            (1, _) => NodeBuilder::output(un(n)),
            (2, _) => NodeBuilder::link(un(n)),
            _ => NodeBuilder::storage(un(n)),
        };
        if let Some(s) = &n.1 {
            b.sub_name(s);
        }
        let mut s = NodeSaid { name: n.clone(), kind: *k, lo: Said::default(), hi: Said::default(), cost: Said::default(), func: None };
        if n.0 == "vin" {
            b.max_flow(7.0.into());
            s.hi = Said { known: true, val: Some(7.0) };
        } else {
            let (lo, sl) = attr(r, &all, 0.5, *k == 3, bad, &mut ok);
            let (hi, sh) = attr(r, &all, 0.5, *k == 3, bad, &mut ok);
            let (c, sc) = attr(r, &all, 0.5, false, bad, &mut ok);
            (s.lo, s.hi, s.cost) = (sl, sh, sc);
            if let Some(u) = lo {
                if *k == 3 { b.min_volume(u) } else { b.min_flow(u) };
            }
            if let Some(u) = hi {
                if *k == 3 { b.max_volume(u) } else { b.max_flow(u) };
            }
            if let Some(u) = c {
                b.cost(u);
            }
            if r.p(0.4) {
                let f = r.us(0, 2);
                s.func = Some(f);
                b.cost_agg_func([CostAggFunc::Sum, CostAggFunc::Max, CostAggFunc::Min][f]);
            }
            if *k == 3 {
                if r.p(bad) {
                    ok = false;
                } else {
                    b.initial_volume(UnresolvedStorageInitialVolume::Absolute(0.0));
                }
            }
        }
        d.nodes.push(s);
        nb.node(b);
    }
    for (f, t) in &edges {
        if f.1.is_none() && t.1.is_none() && r.p(0.5) {
            nb.connect(f.0.as_str(), t.0.as_str());
        } else {
            nb.connect(un(f), un(t));
        }
    }
    d.edges = edges;
    let flows: Vec<Name> = names.iter().filter(|x| x.1 != 3).map(|x| x.0.clone()).collect();
    let stores: Vec<Name> = names.iter().filter(|x| x.1 == 3).map(|x| x.0.clone()).collect();
    let ghost = nm("nobody", Some("1"));
    let names_for = |r: &mut Rng, used: &mut Vec<Name>| loop {
        let n = r.pick(&pool);
        if !used.contains(&n) || r.p(bad) {
            used.push(n.clone());
            return n;
        }
    };
    let mut list = |r: &mut Rng, of: &[Name], n: usize, ok: &mut bool| -> Vec<Name> {
        (0..n)
            .map(|_| {
                if r.p(bad) {
                    *ok = false;
                    ghost.clone()
                } else {
                    r.pick(of)
                }
            })
            .collect()
    };
    let mut used = vec![];
    for _ in 0..r.us(0, 2) {
        let name = names_for(r, &mut used);
        let mut b = if r.p(0.5) { AggregatedNodeBuilder::new(un(&name)) } else { AggregatedNodeBuilder::new(name.0.as_str()) };
        if let Some(s) = &name.1 {
            b.sub_name(s);
        }
        let sets: Vec<Vec<Name>> = (0..r.us(1, 3)).map(|_| { let n = r.us(1, 2); list(r, &flows, n, &mut ok) }).collect();
        for s in &sets {
            b.nodes(s.iter().map(un).collect());
        }
        let (lo, sl) = attr(r, &all, 0.4, false, bad, &mut ok);
        let (hi, sh) = attr(r, &all, 0.4, false, bad, &mut ok);
        if let Some(u) = lo {
            b.min_flow(u);
        }
        if let Some(u) = hi {
            b.max_flow(u);
        }
        let rel = r.us(0, 4);
        let mut excl = (0, 1);
        let mut fs: Vec<UnresolvedMetricF64> = vec![];
        if (1..=3).contains(&rel) {
            for _ in 0..sets.len() {
                let (u, m) = meaning(r, &all, bad);
                ok &= m.is_ok();
                fs.push(u);
            }
        }
        match rel {
            1 => {
                let mut f = ProportionalFactorsBuilder::default();
                fs.into_iter().for_each(|u| { f.factor(u); });
                b.relationship(Box::new(f));
            }
            2 => {
                let mut f = RatioFactorsBuilder::default();
                fs.into_iter().for_each(|u| { f.factor(u); });
                b.relationship(Box::new(f));
            }
            3 => {
                let mut f = CoefficientFactorsBuilder::default();
                fs.into_iter().for_each(|u| { f.factor(u); });
                if let (Some(u), _) = attr(r, &all, 0.5, false, bad, &mut ok) {
                    f.rhs(u);
                }
                b.relationship(Box::new(f));
            }
            4 => {
                let mut f = ExclusivityBuilder::default();
                if r.p(0.5) {
                    excl.0 = r.us(0, 3) as u64;
                    f.min_active(excl.0);
                }
                if r.p(0.5) {
                    excl.1 = r.us(0, 3) as u64;
                    f.max_active(excl.1);
                }
                b.relationship(Box::new(f));
            }
            _ => {}
        }
        d.aggs.push(AggSaid { name, sets, lo: sl, hi: sh, rel, excl });
        nb.agg_node(b);
    }
    ok &= !dup(&used);
    used.clear();
    if !stores.is_empty() {
        for _ in 0..r.us(0, 2) {
            let name = names_for(r, &mut used);
            let mut b = if r.p(0.5) { AggregatedStorageNodeBuilder::new(un(&name)) } else { AggregatedStorageNodeBuilder::new(name.0.as_str()) };
            if let Some(s) = &name.1 {
                b.sub_name(s);
            }
            let n = r.us(1, 3);
            let ns = list(r, &stores, n, &mut ok);
            for n in &ns {
                b.node(un(n));
            }
            d.stores.push((name, ns));
            nb.agg_storage_node(b);
        }
    }
    ok &= !dup(&used);
    used.clear();
    for _ in 0..r.us(0, 2) {
        let name = names_for(r, &mut used);
        let n = r.us(1, 3);
        let ns = list(r, &flows, n, &mut ok);
        let mut b = VirtualStorageNodeBuilder::new(&name.0, &ns.iter().map(un).collect::<Vec<_>>());
        if let Some(s) = &name.1 {
            b.sub_name(s);
        }
        let factors = if r.p(0.5) { Some(r.vals(n, 0.0, 3.0)) } else { None };
        if let Some(f) = &factors {
            b.factors(f);
        }
        let (lo, sl) = attr(r, &all, 0.3, true, bad, &mut ok);
        let (hi, sh) = attr(r, &all, 0.3, true, bad, &mut ok);
        let (c, sc) = attr(r, &all, 0.3, false, bad, &mut ok);
        if let Some(u) = lo {
            b.min_volume(u);
        }
        if let Some(u) = hi {
            b.max_volume(u);
        }
        if let Some(u) = c {
            b.cost(u);
        }
        d.vss.push(VsSaid { name, nodes: ns, factors, lo: sl, hi: sh, cost: sc });
        nb.virtual_storage_node(b);
    }
    ok &= !dup(&used);
    add_params(&mut nb);
    if r.p(bad) {
        ok = false;
        nb.parameters().f64(Box::new(ConstantParameterBuilder::new("pc".into(), 4.0)));
    }
    let sets: Vec<String> = (0..r.us(0, 2)).map(|i| if r.p(bad) { "m0".to_string() } else { format!("m{i}") }).collect();
    ok &= !dup(&sets);
    for s in &sets {
        nb.metric_set(MetricSetBuilder::new(s));
    }
    log.note(format!("{d:?} sets {sets:?}"));
    let m = match ModelBuilder::new(domain(days_domain((2021, 1, 1), 2, 1), &[])?, nb).build() {
        Err(e) => {
            ensure!(!ok, "a description that is right is refused: {}", es(e));
            return Ok(true);
        }
        Ok(m) => m,
    };
    ensure!(ok, "a description that is wrong is built");
    // the volumes may be out of the bounds drawn: look at what was built without letting the run go on
    let d2 = d.clone();
    let s = Imposed::new(move |n, _, st| check(&d2, n, st).and(Err("SEEN".into())));
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.run::<FlowSolver>(&s).map(|_| ())));
    let e = s.err.lock().unwrap().take();
    match e {
        None => Ok(false),
        Some(e) if e == "SEEN" => Ok(d.nodes.len() > 2),
        Some(e) => Err(e),
    }
}
/// what a reference stands for, by its name
fn references(r: &mut Rng, log: &mut Log) -> Res {
    let mut nb = NetworkBuilder::default();
    let n = r.us(1, 4);
    let name = |i: usize| nm(["a", "b"][i / 2], if i % 2 == 0 { None } else { Some("1") });
    let kinds: Vec<usize> = (0..n).map(|_| r.pick(&[2, 3])).collect();
    let mut edges: Vec<(Name, Name)> = vec![];
    nb.node(NodeBuilder::input("vin"));
    nb.node(NodeBuilder::output("vout"));
    let caps: Vec<f64> = (0..n).map(|i| 100.0 + 10.0 * i as f64).collect();
    for i in 0..n {
        let mut b = if kinds[i] == 2 { NodeBuilder::link(un(&name(i))) } else { NodeBuilder::storage(un(&name(i))) };
        if kinds[i] == 3 {
            b.initial_volume(UnresolvedStorageInitialVolume::Absolute(20.0 + i as f64));
            b.max_volume(caps[i].into());
        } else {
            b.max_flow(caps[i].into());
        }
        nb.node(b);
        edges.push((nm("vin", None), name(i)));
        edges.push((name(i), nm("vout", None)));
        for j in 0..i {
            if r.p(0.3) {
                edges.push((name(j), name(i)));
            }
        }
    }
    for i in (1..edges.len()).rev() {
        edges.swap(i, r.us(0, i));
    }
    for (f, t) in &edges {
        nb.connect(un(f), un(t));
    }
    let flows: Vec<f64> = edges.iter().map(|_| r.us(0, 4) as f64).collect();
    let into = |x: &Name| edges.iter().zip(&flows).filter(|(e, _)| e.1 == *x).map(|(_, f)| f).sum::<f64>();
    let out = |x: &Name| edges.iter().zip(&flows).filter(|(e, _)| e.0 == *x).map(|(_, f)| f).sum::<f64>();
    let vol = |i: usize| (20.0 + i as f64 + into(&name(i)) - out(&name(i))).clamp(0.0, caps[i]);
    // volumes that would leave their bounds are refused by the state, which is not looked at here
    for i in 0..n {
        let v = 20.0 + i as f64 + into(&name(i)) - out(&name(i));
        if kinds[i] == 3 && (v < 0.0 || v > caps[i]) {
            return Ok(false);
        }
    }
    let every: Vec<Name> = (0..n).map(name).chain([nm("vin", None), nm("vout", None)]).collect();
    let links: Vec<usize> = (0..n).filter(|i| kinds[*i] == 2).collect();
    let storages: Vec<usize> = (0..n).filter(|i| kinds[*i] == 3).collect();
    // groups of nodes with the same names as nodes
    let mut aggs: Vec<(Name, Vec<Name>)> = vec![];
    for i in 0..r.us(0, 2) {
        let ns: Vec<Name> = (0..r.us(1, 3)).map(|_| r.pick(&every)).collect();
        let mut b = AggregatedNodeBuilder::new(un(&name(i)));
        for x in &ns {
            b.nodes(vec![un(x)]);
        }
        nb.agg_node(b);
        aggs.push((name(i), ns));
    }
    let mut stores: Vec<(Name, Vec<usize>)> = vec![];
    if !storages.is_empty() {
        for i in 0..r.us(0, 2) {
            let ns: Vec<usize> = (0..r.us(1, 2)).map(|_| r.pick(&storages)).collect();
            let mut b = AggregatedStorageNodeBuilder::new(un(&name(i)));
            for x in &ns {
                b.node(un(&name(*x)));
            }
            nb.agg_storage_node(b);
            stores.push((name(i), ns));
        }
    }
    nb.parameters().f64(Box::new(ConstantParameterBuilder::new("a".into(), 71.0)));
    nb.parameters().f64(Box::new(ConstantParameterBuilder::new(ParameterName::new("a", Some("p")), 72.0)));
    let node_in = |x: &Name| if x.0 == "vin" { 0.0 } else { into(x) };
    let node_out = |x: &Name| if x.0 == "vout" { 0.0 } else { out(x) };
    let mut ms: Vec<(UnresolvedMetricF64, f64)> = vec![];
    for _ in 0..r.us(3, 10) {
        let (x, y) = (r.pick(&every), r.pick(&every));
        match r.us(0, 12) {
            0 if x.0 != "vin" => ms.push((UnresolvedMetricF64::NodeInFlow(un(&x)), node_in(&x))),
            1 if x.0 != "vout" => ms.push((UnresolvedMetricF64::NodeOutFlow(un(&x)), node_out(&x))),
            2 if !storages.is_empty() => {
                let i = r.pick(&storages);
                ms.push((UnresolvedMetricF64::NodeVolume(un(&name(i))), vol(i)));
                ms.push((UnresolvedMetricF64::NodeProportionalVolume(un(&name(i))), vol(i) / caps[i]));
                ms.push((UnresolvedMetricF64::NodeMaxVolume(un(&name(i))), caps[i]));
            }
            3 if !links.is_empty() => {
                let i = r.pick(&links);
                ms.push((UnresolvedMetricF64::NodeMaxFlow(un(&name(i))), caps[i]));
            }
            4 | 5 => {
                let k = r.us(0, edges.len() - 1);
                ms.push((UnresolvedMetricF64::EdgeFlow(UnresolvedEdge::new(un(&edges[k].0), un(&edges[k].1))), flows[k]));
            }
            6 => {
                let ks: Vec<usize> = (0..r.us(1, 3)).map(|_| r.us(0, edges.len() - 1)).collect();
                let es = ks.iter().map(|k| UnresolvedEdge::new(un(&edges[*k].0), un(&edges[*k].1))).collect();
                ms.push((UnresolvedMetricF64::MultiEdgeFlow { edges: es, name: "x".into() }, ks.iter().map(|k| flows[*k]).sum()));
            }
            7 => {
                let ns: Vec<Name> = [&x, &y].into_iter().filter(|n| n.0 != "vin").cloned().collect();
                ms.push((UnresolvedMetricF64::MultiNodeInFlow { nodes: ns.iter().map(un).collect(), name: "x".into() }, ns.iter().map(node_in).sum()));
            }
            8 => {
                let ns: Vec<Name> = [&x, &y].into_iter().filter(|n| n.0 != "vout").cloned().collect();
                ms.push((UnresolvedMetricF64::MultiNodeOutFlow { nodes: ns.iter().map(un).collect(), name: "x".into() }, ns.iter().map(node_out).sum()));
            }
            9 if !aggs.is_empty() => {
                let (a, ns) = r.pick(&aggs);
                if r.p(0.5) && ns.iter().all(|n| n.0 != "vin") {
                    ms.push((UnresolvedMetricF64::AggregatedNodeInFlow(un(&a)), ns.iter().map(node_in).sum()));
                } else if ns.iter().all(|n| n.0 != "vout") {
                    ms.push((UnresolvedMetricF64::AggregatedNodeOutFlow(un(&a)), ns.iter().map(node_out).sum()));
                }
            }
            10 if !stores.is_empty() => {
                let (a, ns) = r.pick(&stores);
                ms.push((UnresolvedMetricF64::AggregatedStorageNodeVolume(un(&a)), ns.iter().map(|i| vol(*i)).sum()));
            }
            11 => {
                ms.push((param("a"), 71.0));
                ms.push((UnresolvedMetricF64::new_parameter_before(ParameterName::new("a", Some("p"))), 72.0));
            }
            _ => {
                let v = r.coarse(-5.0, 5.0);
                ms.push((v.into(), v));
            }
        }
    }
    // a reference that is to nothing
    let wrong = r.p(0.2);
    let mut us: Vec<UnresolvedMetricF64> = ms.iter().map(|m| m.0.clone()).collect();
    if wrong {
        let gone = UnresolvedNode::new("a", Some("zz"));
        let back = UnresolvedEdge::new(un(&edges[0].1), un(&edges[0].0));
        let w = match r.us(0, 9) {
            0 => UnresolvedMetricF64::NodeInFlow(gone),
            1 => UnresolvedMetricF64::NodeVolume(gone),
            2 => UnresolvedMetricF64::EdgeFlow(back),
            3 => UnresolvedMetricF64::MultiEdgeFlow { edges: vec![back], name: "x".into() },
            4 => UnresolvedMetricF64::MultiNodeOutFlow { nodes: vec![un(&every[0]), gone], name: "x".into() },
            5 => UnresolvedMetricF64::AggregatedNodeInFlow(un(&nm("vin", None))),
            6 => UnresolvedMetricF64::AggregatedStorageNodeVolume(un(&nm("vin", None))),
            7 => UnresolvedMetricF64::VirtualStorageVolume(un(&nm("vin", None))),
            8 => UnresolvedMetricF64::InterNetworkTransfer("x".into()),
            _ => UnresolvedMetricF64::new_parameter_before(ParameterName::new("a", Some("q"))),
        };
        let k = r.us(0, us.len());
        us.insert(k, w);
    }
    log.note(format!("nodes {every:?} kinds {kinds:?} edges {edges:?} flows {flows:?} aggregated {aggs:?} {stores:?} metrics {us:?}"));
    let f = flows.clone();
    let got = run_imposed(domain(days_domain((2021, 1, 1), 1, 1), &[])?, nb, us, Imposed::new(move |_, _, _| Ok(f.clone())));
    if wrong {
        ensure!(got.is_err(), "a reference to nothing is accepted");
        return Ok(true);
    }
    let got = got?;
    for (i, (m, w)) in ms.iter().enumerate() {
        expect_eq(&format!("{m:?}"), got[0][0][i], *w)?;
    }
    Ok(true)
}
