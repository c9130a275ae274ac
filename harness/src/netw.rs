//! C02, C03, C13, C24, C25: random networks of every kind of node, stepped with imposed flows.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::metric::UnresolvedMetricF64 as M;
use pywr_core::network::{NetworkBuilder, UnresolvedEdge};
use pywr_core::node::*;
use pywr_core::parameters::*;
use pywr_core::timestep::Timestep;
use pywr_core::virtual_storage::*;
use pywr_core::{AggregatedNodeBuilder, AggregatedStorageNodeBuilder, NodeBuilder};
use std::sync::{Arc, Mutex};

pub const VOLUMES: &[(&str, CaseFn)] = &[("volumes", volumes), ("extremes", extremes)];
pub const FLOWS: &[(&str, CaseFn)] = &[("flows", flows)];
pub const BOUNDS: &[(&str, CaseFn)] = &[("bounds and costs", bounds)];
pub const INITIAL: &[(&str, CaseFn)] = &[("initial volumes", initial), ("initial volumes of virtual storages", vs_initial)];
pub const METRICS: &[(&str, CaseFn)] = &[("metrics", metrics)];

fn volumes(r: &mut Rng, log: &mut Log) -> Res {
    run(r, log, 'v')
}
fn flows(r: &mut Rng, log: &mut Log) -> Res {
    run(r, log, 'f')
}
fn bounds(r: &mut Rng, log: &mut Log) -> Res {
    run(r, log, 'b')
}
fn initial(r: &mut Rng, log: &mut Log) -> Res {
    run(r, log, 'i')
}
fn metrics(r: &mut Rng, log: &mut Log) -> Res {
    run(r, log, 'm')
}
/// reservoirs driven along chosen volumes: to their limits, to limits of zero, and back
fn extremes(r: &mut Rng, log: &mut Log) -> Res {
    let (nt, ns, nr) = (r.us(1, 8), r.us(1, 3), r.us(1, 3));
    let step = r.us(1, 7) as u64;
    let d = domain(days_domain((2021, 2, 25), nt, step), &[("g", ns)])?;
    let mut nb = NetworkBuilder::default();
    let mut path: Vec<Series> = vec![];
    let mut maxs: Vec<Series> = vec![];
    let mut mins: Vec<Series> = vec![];
    let mut init: Vec<f64> = vec![];
    for i in 0..nr {
        let max = rand_series(r, nt, ns, |r| if r.p(0.3) { 0.0 } else { r.val(0.0, 30.0) });
        let share = if r.p(0.5) { 0.0 } else { r.unit() };
        let min: Series = max.iter().map(|row| row.iter().map(|m| m * share).collect()).collect();
        // where the volume goes: now and then a little beyond the limits, as a solver may leave it
        let tol = r.pick(&[0.0, 0.0, 4e-7]);
        let p: Series = (0..nt)
            .map(|k| (0..ns).map(|s| match r.us(0, 3) { 0 => min[k][s] - tol, 1 | 2 => max[k][s] + tol, _ => r.f(min[k][s], max[k][s]) }).collect())
            .collect();
        let v0 = r.val(0.0, 40.0);
        nb.node(NodeBuilder::input(format!("i{i}").as_str()));
        nb.node(NodeBuilder::output(format!("o{i}").as_str()));
        let mut b = NodeBuilder::storage(format!("s{i}").as_str());
        b.min_volume(series(r, &mut nb, &format!("min{i}"), &min, true));
        b.max_volume(series(r, &mut nb, &format!("max{i}"), &max, true));
        b.initial_volume(UnresolvedStorageInitialVolume::Absolute(v0));
        nb.node(b);
        nb.connect(format!("i{i}").as_str(), format!("s{i}").as_str());
        nb.connect(format!("s{i}").as_str(), format!("o{i}").as_str());
        log.note(format!("reservoir {i}: initial {v0} minimum {min:?} maximum {max:?} volumes {p:?} step {step}"));
        path.push(p);
        maxs.push(max);
        mins.push(min);
        init.push(v0);
    }
    let mut a = AggregatedStorageNodeBuilder::new("all");
    for i in 0..nr {
        a.node(format!("s{i}").as_str().into());
    }
    nb.agg_storage_node(a);
    let mut ms = vec![];
    for i in 0..nr {
        let n: UnresolvedNode = format!("s{i}").as_str().into();
        ms.extend([M::NodeVolume(n.clone()), M::NodeProportionalVolume(n.clone()), M::NodeMaxVolume(n)]);
    }
    ms.extend([M::AggregatedStorageNodeVolume("all".into()), M::AggregatedStorageNodeProportionalVolume("all".into())]);
    let held = |i: usize, k: usize, s: usize| path[i][k][s].max(mins[i][k][s]).min(maxs[i][k][s]);
    let want_now: Vec<Vec<Vec<f64>>> = (0..nt).map(|k| (0..ns).map(|s| (0..nr).map(|i| held(i, k, s)).collect()).collect()).collect();
    let cnt = std::sync::atomic::AtomicUsize::new(0);
    let (p2, w2, init2) = (path.clone(), want_now.clone(), init.clone());
    let s = Imposed::new(move |_, ts, _| {
        let c = cnt.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let (k, sc) = (c / ns, c % ns);
        let mut q = vec![];
        for i in 0..nr {
            let was = if k == 0 { init2[i] } else { w2[k - 1][sc][i] };
            let change = (p2[i][k][sc] - was) / ts.days();
            q.extend([change.max(0.0) + 1.0, (-change).max(0.0) + 1.0]);
        }
        Ok(q)
    });
    let out = run_imposed(d, nb, ms, s)?;
    ensure!(out.len() == nt, "{} rows of {nt}", out.len());
    for k in 0..nt {
        for sc in 0..ns {
            let row = &out[k][sc];
            let (mut tv, mut tm) = (0.0, 0.0);
            for i in 0..nr {
                let (v, m) = (want_now[k][sc][i], maxs[i][k][sc]);
                ensure!(close_tol(row[3 * i], v, 1e-8), "step {k} scenario {sc}: volume of {i} is {} expected {v}", row[3 * i]);
                ensure!(row[3 * i] >= mins[i][k][sc] && row[3 * i] <= m, "step {k} scenario {sc}: volume of {i} is {} outside {} to {m}", row[3 * i], mins[i][k][sc]);
                ensure!(close_tol(row[3 * i + 1], pv(row[3 * i], m), 1e-8), "step {k} scenario {sc}: proportional volume of {i} is {} with {} of {m}", row[3 * i + 1], row[3 * i]);
                ensure!(close_tol(row[3 * i + 2], m, 1e-9), "step {k} scenario {sc}: maximum volume of {i} is {} expected {m}", row[3 * i + 2]);
                tv += row[3 * i];
                tm += m;
            }
            ensure!(close_tol(row[3 * nr], tv, 1e-8), "step {k} scenario {sc}: total volume {} expected {tv}", row[3 * nr]);
            ensure!(close_tol(row[3 * nr + 1], pv(tv, tm), 1e-8), "step {k} scenario {sc}: total proportional volume {} with {tv} of {tm}", row[3 * nr + 1]);
        }
    }
    Ok(true)
}
/// the first volume of virtual storages whose maximum comes from parameters
fn vs_initial(r: &mut Rng, log: &mut Log) -> Res {
    let (nt, ns, nv) = (r.us(1, 4), r.us(1, 3), r.us(1, 3));
    let d = domain(days_domain((2021, 2, 25), nt, 1), &[("g", ns)])?;
    let mut nb = tiny_network();
    let mut want: Vec<Vec<f64>> = vec![];
    let mut ms = vec![];
    for v in 0..nv {
        // it never falls: a volume above the maximum is an error
        let mut row: Vec<f64> = { let m = r.val(1.0, 50.0); (0..ns).map(|_| if r.p(0.5) { m } else { r.val(1.0, 50.0) }).collect() };
        let mut max = vec![];
        let grows = r.p(0.6);
        for _ in 0..nt {
            max.push(row.clone());
            if grows {
                row.iter_mut().for_each(|m| *m += r.val(0.0, 20.0));
            }
        }
        let lowest = max[0].iter().cloned().fold(f64::MAX, f64::min);
        let (a, prior) = (r.val(0.0, 60.0), r.val(0.0, 40.0));
        let share = r.unit();
        let total: Vec<f64> = { let t = r.val(0.0, 80.0); (0..ns).map(|_| if r.p(0.5) { t } else { r.val(0.0, 80.0) }).collect() };
        let kind = r.us(0, 3);
        let (iv, w): (UnresolvedStorageInitialVolume, Vec<f64>) = match kind {
            0 => (UnresolvedStorageInitialVolume::Absolute(a.min(lowest)), vec![a.min(lowest); ns]),
            1 => (UnresolvedStorageInitialVolume::Proportional(share), max[0].iter().map(|m| share * m).collect()),
            2 => (
                UnresolvedStorageInitialVolume::DistributedAbsolute { absolute: a, prior_max_volume: prior.into() },
                max[0].iter().map(|m| (a - prior).max(0.0).min(*m)).collect(),
            ),
            _ => (
                UnresolvedStorageInitialVolume::DistributedProportional { proportion: share, total_volume: steady(&mut nb, &format!("total{v}"), &total), prior_max_volume: prior.into() },
                max[0].iter().zip(&total).map(|(m, t)| (share * t - prior).max(0.0).min(*m)).collect(),
            ),
        };
        log.note(format!("v{v}: kind {kind} absolute {a} prior {prior} share {share} total {total:?} maximum {max:?}"));
        let mut b = VirtualStorageNodeBuilder::new(&format!("v{v}"), &["vin".into()]);
        b.max_volume(series(r, &mut nb, &format!("max{v}"), &max, true)).initial_volume(iv);
        nb.virtual_storage_node(b);
        ms.push(M::VirtualStorageVolume(v_(v)));
        want.push(w);
    }
    let out = run_imposed(d, nb, ms, Imposed::zero())?;
    ensure!(out.len() == nt, "{} rows of {nt}", out.len());
    for k in 0..nt {
        for sc in 0..ns {
            for v in 0..nv {
                ensure!(close_tol(out[k][sc][v], want[v][sc], 1e-9), "step {k} scenario {sc}: v{v} holds {} expected {}", out[k][sc][v], want[v][sc]);
            }
        }
    }
    Ok(true)
}
#[derive(Clone, Debug)]
pub struct Sto {
    pub min: Series,
    pub max: Series,
    pub lo: f64,
    pub hi: f64,
    pub init: (u8, f64, Vec<f64>, Vec<f64>), // kind, number, total and prior per scenario
    pub has_min: bool,
}
impl Sto {
    pub fn start(&self, sc: usize) -> f64 {
        let m = self.max[0][sc];
        match self.init.0 {
            0 => self.init.1,
            1 => self.init.1 * m,
            2 => (self.init.1 - self.init.3[sc]).max(0.0).min(m),
            _ => (self.init.1 * self.init.2[sc] - self.init.3[sc]).max(0.0).min(m),
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct N {
    pub kind: char,
    pub min: Option<Series>,
    pub max: Option<Series>,
    pub cost: Option<Series>,
    pub agg: u8, // 0 none, sum, max, min
    pub sto: Option<Sto>,
}
#[derive(Clone, Debug)]
pub struct V {
    pub nodes: Vec<usize>,
    pub factors: Vec<f64>,
    pub cost: Option<Series>,
    pub max: f64,
    pub min: f64,
    pub init: f64,
}
#[derive(Clone, Debug)]
pub struct G {
    pub nt: usize,
    pub ns: usize,
    pub n: Vec<N>,
    pub e: Vec<(usize, usize)>,
    pub vs: Vec<V>,
    pub agg: Vec<Vec<Vec<usize>>>,
    pub sagg: Vec<Vec<usize>>,
}
pub fn nm(i: usize) -> UnresolvedNode {
    if i % 3 == 1 { UnresolvedNode::new("n", Some(&format!("s{i}"))) } else { format!("n{i}").as_str().into() }
}
fn v_(v: usize) -> UnresolvedNode {
    format!("v{v}").as_str().into()
}
pub fn gen_net(r: &mut Rng, nt: usize, ns: usize, what: char) -> G {
    let (ni, nl, no, nst) = (r.us(1, 3), r.us(0, 3), r.us(1, 3), if what == 'v' || what == 'i' { r.us(1, 3) } else { r.us(0, 2) });
    let mut kinds: Vec<char> = vec![];
    for (k, c) in [('i', ni), ('l', nl), ('o', no), ('s', nst)] {
        for _ in 0..c {
            kinds.push(k);
        }
    }
    for i in (1..kinds.len()).rev() {
        let j = r.us(0, i);
        kinds.swap(i, j);
    }
    let c = kinds.len();
    let from_ok = |k: char| k != 'o';
    let to_ok = |k: char| k != 'i';
    let mut e: Vec<(usize, usize)> = vec![];
    for a in 0..c {
        for b in 0..c {
            if a != b && from_ok(kinds[a]) && to_ok(kinds[b]) && r.p(0.3) {
                e.push((a, b));
            }
        }
    }
    for a in 0..c {
        if from_ok(kinds[a]) && !e.iter().any(|x| x.0 == a) {
            let bs: Vec<usize> = (0..c).filter(|&b| b != a && to_ok(kinds[b])).collect();
            e.push((a, r.pick(&bs)));
        }
        if to_ok(kinds[a]) && !e.iter().any(|x| x.1 == a) {
            let bs: Vec<usize> = (0..c).filter(|&b| b != a && from_ok(kinds[b])).collect();
            e.push((r.pick(&bs), a));
        }
    }
    for i in (1..e.len()).rev() {
        let j = r.us(0, i);
        e.swap(i, j);
    }
    let opt = |r: &mut Rng, lo: f64, hi: f64| if r.p(0.6) { Some(rand_series(r, nt, ns, |r| r.val(lo, hi))) } else { None };
    let mut n = vec![];
    for &k in &kinds {
        let mut x = N { kind: k, ..Default::default() };
        x.cost = opt(r, -10.0, 10.0);
        x.agg = r.us(0, 3) as u8;
        if k != 's' {
            x.min = opt(r, 0.0, 3.0);
            x.max = opt(r, 3.0, 20.0);
        } else {
            let dist = r.p(if what == 'i' { 0.5 } else { 0.2 });
            let has_min = r.p(0.6);
            let lo = if dist || !has_min { 0.0 } else { r.val(0.0, 10.0) };
            let hi = lo + r.val(5.0, 40.0);
            let min = rand_series(r, nt, ns, |r| if has_min { (lo - r.val(0.0, 3.0)).max(0.0) } else { 0.0 });
            let max = if dist {
                let row: Vec<f64> = (0..ns).map(|_| hi + r.val(0.0, 10.0)).collect();
                vec![row; nt]
            } else {
                rand_series(r, nt, ns, |r| hi + r.val(0.0, 10.0))
            };
            let m0 = max[0].clone();
            let lowest = m0.iter().cloned().fold(f64::MAX, f64::min);
            let highest = m0.iter().cloned().fold(0.0, f64::max);
            let init = if dist {
                let prior: Vec<f64> = { let p = r.val(0.0, 40.0); (0..ns).map(|_| if r.p(0.5) { p } else { r.val(0.0, 40.0) }).collect() };
                if r.p(0.5) {
                    (2, r.val(0.0, 80.0), vec![], prior)
                } else {
                    let total: Vec<f64> = { let p = r.val(10.0, 100.0); (0..ns).map(|_| if r.p(0.5) { p } else { r.val(10.0, 100.0) }).collect() };
                    (3, r.val(0.0, 1.0), total, prior)
                }
            } else if r.p(0.5) && lo / lowest <= hi / highest {
                (1, r.f(lo / lowest, hi / highest), vec![], vec![])
            } else {
                (0, r.f(lo, hi), vec![], vec![])
            };
            x.sto = Some(Sto { min, max, lo, hi, init, has_min });
        }
        n.push(x);
    }
    let members: Vec<usize> = (0..c).filter(|&i| kinds[i] != 's').collect();
    let subset = |r: &mut Rng, xs: &[usize]| {
        let mut v: Vec<usize> = xs.iter().cloned().filter(|_| r.p(0.5)).collect();
        if v.is_empty() {
            v.push(r.pick(xs));
        }
        for i in (1..v.len()).rev() {
            let j = r.us(0, i);
            v.swap(i, j);
        }
        v
    };
    let vs = (0..r.us(0, 3))
        .map(|_| {
            let nodes = subset(r, &members);
            let max = r.val(20.0, 200.0);
            let min = r.val(0.0, 5.0);
            V { factors: nodes.iter().map(|_| r.val(0.0, 2.0)).collect(), nodes, cost: opt(r, -10.0, 10.0), max, min, init: r.f(min, max) }
        })
        .collect();
    let all: Vec<usize> = (0..c).collect();
    let agg = (0..r.us(0, 2)).map(|_| (0..r.us(1, 2)).map(|_| subset(r, &all)).collect()).collect();
    let stores: Vec<usize> = (0..c).filter(|&i| kinds[i] == 's').collect();
    let sagg = if stores.is_empty() { vec![] } else { (0..r.us(0, 2)).map(|_| subset(r, &stores)).collect() };
    G { nt, ns, n, e, vs, agg, sagg }
}
fn steady(nb: &mut NetworkBuilder, name: &str, v: &[f64]) -> M {
    if v.iter().all(|x| *x == v[0]) {
        return v[0].into();
    }
    nb.parameters().f64(Box::new(ConstantScenarioParameterBuilder::new(name.into(), v.to_vec(), "g")));
    param(name)
}
pub fn build(r: &mut Rng, g: &G) -> NetworkBuilder {
    let mut nb = NetworkBuilder::default();
    for (i, x) in g.n.iter().enumerate() {
        let ty = match x.kind { 'i' => NodeType::Input, 'o' => NodeType::Output, 'l' => NodeType::Link, _ => NodeType::Storage };
        let mut b = NodeBuilder::new(nm(i), ty);
        if let Some(v) = &x.min {
            b.min_flow(series(r, &mut nb, &format!("min{i}"), v, false));
        }
        if let Some(v) = &x.max {
            b.max_flow(series(r, &mut nb, &format!("max{i}"), v, false));
        }
        if let Some(v) = &x.cost {
            b.cost(series(r, &mut nb, &format!("cost{i}"), v, false));
        }
        match x.agg { 1 => { b.cost_agg_func(CostAggFunc::Sum); } 2 => { b.cost_agg_func(CostAggFunc::Max); } 3 => { b.cost_agg_func(CostAggFunc::Min); } _ => {} }
        if let Some(s) = &x.sto {
            if s.has_min {
                b.min_volume(series(r, &mut nb, &format!("smin{i}"), &s.min, true));
            }
            b.max_volume(series(r, &mut nb, &format!("smax{i}"), &s.max, true));
            b.initial_volume(match s.init.0 {
                0 => UnresolvedStorageInitialVolume::Absolute(s.init.1),
                1 => UnresolvedStorageInitialVolume::Proportional(s.init.1),
                2 => UnresolvedStorageInitialVolume::DistributedAbsolute { absolute: s.init.1, prior_max_volume: steady(&mut nb, &format!("prior{i}"), &s.init.3) },
                _ => UnresolvedStorageInitialVolume::DistributedProportional { proportion: s.init.1, total_volume: steady(&mut nb, &format!("total{i}"), &s.init.2), prior_max_volume: steady(&mut nb, &format!("prior{i}"), &s.init.3) },
            });
        }
        nb.node(b);
    }
    for &(a, b) in &g.e {
        nb.connect(nm(a), nm(b));
    }
    for (v, x) in g.vs.iter().enumerate() {
        let un: Vec<UnresolvedNode> = x.nodes.iter().map(|&i| nm(i)).collect();
        let mut b = VirtualStorageNodeBuilder::new(&format!("v{v}"), &un);
        b.factors(&x.factors);
        b.max_volume(x.max.into());
        b.min_volume(x.min.into());
        b.initial_volume(UnresolvedStorageInitialVolume::Absolute(x.init));
        if let Some(c) = &x.cost {
            b.cost(series(r, &mut nb, &format!("vcost{v}"), c, false));
        }
        nb.virtual_storage_node(b);
    }
    for (a, gs) in g.agg.iter().enumerate() {
        let mut b = AggregatedNodeBuilder::new(format!("a{a}").as_str());
        for m in gs {
            b.nodes(m.iter().map(|&i| nm(i)).collect());
        }
        nb.agg_node(b);
    }
    for (a, m) in g.sagg.iter().enumerate() {
        let mut b = AggregatedStorageNodeBuilder::new(format!("sa{a}").as_str());
        for &i in m {
            b.node(nm(i));
        }
        nb.agg_storage_node(b);
    }
    nb
}
/// what the network should look like
#[derive(Clone, Debug, Default)]
struct St {
    i: Vec<f64>,
    o: Vec<f64>,
    e: Vec<f64>,
    vol: Vec<f64>,
    mx: Vec<f64>,
    vv: Vec<f64>,
}
impl St {
    fn new(g: &G) -> St {
        let c = g.n.len();
        St { i: vec![0.0; c], o: vec![0.0; c], e: vec![0.0; g.e.len()], vol: vec![0.0; c], mx: vec![0.0; c], vv: vec![0.0; g.vs.len()] }
    }
    fn before(&mut self, g: &G, k: usize, sc: usize) {
        if k == 0 {
            for (i, x) in g.n.iter().enumerate() {
                if let Some(s) = &x.sto {
                    self.vol[i] = s.start(sc);
                    self.mx[i] = s.max[0][sc];
                }
            }
            for (v, x) in g.vs.iter().enumerate() {
                self.vv[v] = x.init;
            }
        }
    }
    fn step(&mut self, g: &G, k: usize, sc: usize, q: &[f64], d: f64) {
        for (i, x) in g.n.iter().enumerate() {
            self.i[i] = g.e.iter().zip(q).filter(|((_, b), _)| *b == i).map(|(_, q)| *q).sum();
            self.o[i] = g.e.iter().zip(q).filter(|((a, _), _)| *a == i).map(|(_, q)| *q).sum();
            if let Some(s) = &x.sto {
                self.vol[i] = (self.vol[i] + d * (self.i[i] - self.o[i])).max(s.min[k][sc]).min(s.max[k][sc]);
                self.mx[i] = s.max[k][sc];
            }
        }
        self.e = q.to_vec();
        for (v, x) in g.vs.iter().enumerate() {
            let u: f64 = x.nodes.iter().zip(&x.factors).map(|(&i, f)| f * if g.n[i].kind == 'i' { self.o[i] } else { self.i[i] }).sum();
            self.vv[v] = (self.vv[v] - d * u).max(x.min).min(x.max);
        }
    }
}
/// a metric and how to compute it
type Ora = Box<dyn Fn(&G, &St, usize, usize) -> f64 + Send + Sync>;
fn pv(v: f64, m: f64) -> f64 {
    if m == 0.0 { 1.0 } else { v / m }
}
fn oracles(r: &mut Rng, g: &G, what: char) -> Vec<(String, M, Ora)> {
    let mut o: Vec<(String, M, Ora)> = vec![];
    let all = what == 'm';
    for i in 0..g.n.len() {
        if what != 'v' {
            o.push((format!("in{i}"), M::NodeInFlow(nm(i)), Box::new(move |_, s, _, _| s.i[i])));
            o.push((format!("out{i}"), M::NodeOutFlow(nm(i)), Box::new(move |_, s, _, _| s.o[i])));
        }
        if g.n[i].kind == 's' && what != 'f' {
            o.push((format!("vol{i}"), M::NodeVolume(nm(i)), Box::new(move |_, s, _, _| s.vol[i])));
            o.push((format!("pvol{i}"), M::NodeProportionalVolume(nm(i)), Box::new(move |_, s, _, _| pv(s.vol[i], s.mx[i]))));
            o.push((format!("mvol{i}"), M::NodeMaxVolume(nm(i)), Box::new(move |g, _, k, sc| g.n[i].sto.as_ref().unwrap().max[k][sc])));
        }
        if g.n[i].kind != 's' && (all || what == 'b') {
            o.push((format!("mflow{i}"), M::NodeMaxFlow(nm(i)), Box::new(move |g, _, k, sc| g.n[i].max.as_ref().map_or(f64::MAX, |m| m[k][sc]))));
        }
    }
    let ue = |e: usize| UnresolvedEdge::new(nm(g.e[e].0), nm(g.e[e].1));
    for e in 0..g.e.len() {
        if what != 'v' {
            o.push((format!("edge{e}"), M::EdgeFlow(ue(e)), Box::new(move |_, s, _, _| s.e[e])));
        }
    }
    for v in 0..g.vs.len() {
        if what == 'm' || what == 'v' {
            o.push((format!("vvol{v}"), M::VirtualStorageVolume(v_(v)), Box::new(move |_, s, _, _| s.vv[v])));
            o.push((format!("vpvol{v}"), M::VirtualStorageProportionalVolume(v_(v)), Box::new(move |g, s, _, _| pv(s.vv[v], g.vs[v].max))));
        }
    }
    if all || what == 'f' {
        for (a, gs) in g.agg.iter().enumerate() {
            let m: Vec<usize> = gs.concat();
            let m2 = m.clone();
            o.push((format!("ain{a}"), M::AggregatedNodeInFlow(format!("a{a}").as_str().into()), Box::new(move |_, s, _, _| m.iter().map(|&i| s.i[i]).sum())));
            o.push((format!("aout{a}"), M::AggregatedNodeOutFlow(format!("a{a}").as_str().into()), Box::new(move |_, s, _, _| m2.iter().map(|&i| s.o[i]).sum())));
        }
        for x in 0..2 {
            let m: Vec<usize> = (0..r.us(0, 4)).map(|_| r.us(0, g.n.len() - 1)).collect();
            let un: Vec<UnresolvedNode> = m.iter().map(|&i| nm(i)).collect();
            let m2 = m.clone();
            o.push((format!("min{x}"), M::MultiNodeInFlow { nodes: un.clone(), name: "x".into() }, Box::new(move |_, s, _, _| m.iter().map(|&i| s.i[i]).sum())));
            o.push((format!("mout{x}"), M::MultiNodeOutFlow { nodes: un, name: "x".into() }, Box::new(move |_, s, _, _| m2.iter().map(|&i| s.o[i]).sum())));
            let m: Vec<usize> = (0..r.us(0, 4)).map(|_| r.us(0, g.e.len() - 1)).collect();
            o.push((format!("medge{x}"), M::MultiEdgeFlow { edges: m.iter().map(|&e| ue(e)).collect(), name: "x".into() }, Box::new(move |_, s, _, _| m.iter().map(|&e| s.e[e]).sum())));
        }
    }
    if all || what == 'v' {
        for (a, m) in g.sagg.iter().enumerate() {
            let m = m.clone();
            let m2 = m.clone();
            o.push((format!("savol{a}"), M::AggregatedStorageNodeVolume(format!("sa{a}").as_str().into()), Box::new(move |_, s, _, _| m.iter().map(|&i| s.vol[i]).sum())));
            o.push((format!("sapvol{a}"), M::AggregatedStorageNodeProportionalVolume(format!("sa{a}").as_str().into()), Box::new(move |_, s, _, _| pv(m2.iter().map(|&i| s.vol[i]).sum(), m2.iter().map(|&i| s.mx[i]).sum()))));
        }
    }
    o
}
fn run(r: &mut Rng, log: &mut Log, what: char) -> Res {
    let (nt, ns) = (r.us(1, 8), r.us(1, 3));
    let step = if r.p(0.6) { 1 } else { r.us(2, 10) as u64 };
    let g = gen_net(r, nt, ns, what);
    log.note(format!("{g:?} step {step}"));
    let d = domain(days_domain((2021, 2, 25), nt, step), &[("g", ns)])?;
    let mut nb = build(r, &g);
    let ora = oracles(r, &g, what);
    let mut ms: Vec<M> = ora.iter().map(|o| o.1.clone()).collect();
    // the same metrics read by parameters before (and after) solving
    let early = what == 'm' || what == 'i';
    if early {
        for (n, m, _) in &ora {
            let mut b = AggregatedParameterBuilder::before(format!("b{n}").as_str().into(), pywr_core::agg_funcs::AggFuncF64::Sum);
            b.metric(m.clone());
            nb.parameters().f64(Box::new(b));
            ms.push(param(&format!("b{n}")));
        }
    }
    let g = Arc::new(g);
    let st: Arc<Mutex<Vec<St>>> = Arc::new(Mutex::new((0..ns).map(|_| St::new(&g)).collect()));
    // expected [step][scenario] before and after solving
    let exp: Arc<Mutex<Vec<Vec<(St, St)>>>> = Default::default();
    let cnt = std::sync::atomic::AtomicUsize::new(0);
    let seed = r.next();
    let (g2, st2, exp2) = (g.clone(), st.clone(), exp.clone());
    let s = Imposed::new(move |net, ts, state| {
        let c = cnt.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let (k, sc) = (c / ns, c % ns);
        let mut r = Rng(seed ^ (c as u64).wrapping_mul(0x1234_5677));
        let g = &*g2;
        if ts.index != k {
            return Err(format!("step {} solved out of order (expected {k})", ts.index));
        }
        let mut all = st2.lock().unwrap();
        all[sc].before(g, k, sc);
        let was = all[sc].clone();
        look(g, &was, net, ts, state, k, sc).map_err(|e| format!("step {k} scenario {sc}: {e}"))?;
        let d = ts.days();
        let mut q: Vec<f64> = g.e.iter().map(|_| if r.p(0.2) { 0.0 } else { r.val(0.0, 8.0) }).collect();
        if r.p(0.1) {
            q.iter_mut().for_each(|x| *x = 0.0);
        }
        let over = r.pick(&[0.0, 0.0, 4e-7]);
        let mut scale = 1.0f64;
        for (i, x) in g.n.iter().enumerate() {
            if let Some(s) = &x.sto {
                let net: f64 = g.e.iter().zip(&q).map(|((a, b), q)| if *b == i { *q } else if *a == i { -*q } else { 0.0 }).sum();
                let dv = net * d;
                let (lo, hi) = (if s.init.0 >= 2 { 0.0 } else { s.lo }, if s.init.0 >= 2 { s.max[k][sc] } else { s.hi });
                if dv > 0.0 && was.vol[i] + dv > hi {
                    scale = scale.min(((hi - was.vol[i] + over) / dv).max(0.0));
                }
                if dv < 0.0 && was.vol[i] + dv < lo {
                    scale = scale.min(((was.vol[i] - lo + over) / -dv).max(0.0));
                }
            }
        }
        for (v, x) in g.vs.iter().enumerate() {
            let u: f64 = x.nodes.iter().zip(&x.factors).map(|(&i, f)| f * g.e.iter().zip(&q).filter(|((a, b), _)| if g.n[i].kind == 'i' { *a == i } else { *b == i }).map(|(_, q)| *q).sum::<f64>()).sum::<f64>() * d;
            if u > 0.0 && was.vv[v] - u < x.min {
                scale = scale.min(((was.vv[v] - x.min) / u).max(0.0));
            }
        }
        q.iter_mut().for_each(|x| *x *= scale);
        all[sc].step(g, k, sc, &q, d);
        let now = all[sc].clone();
        let mut e = exp2.lock().unwrap();
        if sc == 0 {
            e.push(vec![]);
        }
        e[k].push((was, now));
        Ok(q)
    });
    let out = run_imposed(d, nb, ms, s)?;
    let exp = exp.lock().unwrap();
    ensure!(out.len() == nt && exp.len() == nt, "{} rows, {} steps of {nt}", out.len(), exp.len());
    let mut nt_ = false;
    for k in 0..nt {
        for sc in 0..ns {
            let (was, now) = &exp[k][sc];
            for (j, (n, _, f)) in ora.iter().enumerate() {
                let want = f(&g, now, k, sc);
                nt_ |= want != 0.0;
                ensure!(close_tol(out[k][sc][j], want, 1e-8), "step {k} scenario {sc}: {n} is {} expected {want}", out[k][sc][j]);
                if early {
                    let want = f(&g, was, k, sc);
                    let got = out[k][sc][ora.len() + j];
                    ensure!(close_tol(got, want, 1e-8), "step {k} scenario {sc}: {n} read before solving is {got} expected {want}");
                }
            }
        }
    }
    Ok(nt_)
}
/// what can be asked of the network just before solving
fn look(g: &G, was: &St, net: &pywr_core::network::Network, ts: &Timestep, state: &mut pywr_core::state::State, k: usize, sc: usize) -> Result<(), String> {
    let _ = ts;
    let mut oc = vec![];
    let mut ic = vec![];
    for (i, x) in g.n.iter().enumerate() {
        let node = &net.nodes()[i];
        ensure!(format!("{:?}", node.index()) == format!("NodeIndex({i})"), "node {i} has index {:?}", node.index());
        if let Some(s) = &x.sto {
            let ns = state.get_network_state();
            expect_eq(&format!("volume of {i} before solving"), ns.get_node_volume(&node.index()).map_err(es)?, was.vol[i])?;
            expect_eq(&format!("maximum volume of {i} before solving"), ns.get_node_max_volume(&node.index()).map_err(es)?, was.mx[i])?;
            let (lo, hi) = node.get_volume_bounds(state).map_err(es)?;
            expect_eq(&format!("minimum volume of {i}"), lo, s.min[k][sc])?;
            expect_eq(&format!("maximum volume of {i}"), hi, s.max[k][sc])?;
            match node.get_bounds(net, state).map_err(es)? {
                NodeBounds::Volume(b) => {
                    expect_eq(&format!("available volume of {i}"), b.available, was.vol[i] - s.min[k][sc])?;
                    expect_eq(&format!("missing volume of {i}"), b.missing, s.max[k][sc] - was.vol[i])?;
                }
                _ => return Err(format!("storage {i} has flow bounds")),
            }
            ensure!(node.get_min_flow(net, state).is_err() && node.get_max_flow(net, state).is_err(), "storage {i} has flow constraints");
        } else {
            let lo = x.min.as_ref().map_or(0.0, |m| m[k][sc]);
            let hi = x.max.as_ref().map_or(f64::MAX, |m| m[k][sc]);
            expect_eq(&format!("minimum flow of {i}"), node.get_min_flow(net, state).map_err(es)?, lo)?;
            expect_eq(&format!("maximum flow of {i}"), node.get_max_flow(net, state).map_err(es)?, hi)?;
            match node.get_bounds(net, state).map_err(es)? {
                NodeBounds::Flow(b) => {
                    expect_eq(&format!("lower flow bound of {i}"), b.min_flow, lo)?;
                    expect_eq(&format!("upper flow bound of {i}"), b.max_flow, hi)?;
                }
                _ => return Err(format!("node {i} has volume bounds")),
            }
            ensure!(node.is_max_flow_unconstrained().map_err(es)? == x.max.is_none(), "node {i} unconstrained");
            ensure!(node.get_min_volume(state).is_err() && node.get_max_volume(state).is_err(), "node {i} has volumes");
        }
        let mut c = x.cost.as_ref().map_or(0.0, |c| c[k][sc]);
        if x.agg > 0 {
            for v in g.vs.iter().filter(|v| v.nodes.contains(&i)) {
                let vc = v.cost.as_ref().map_or(0.0, |c| c[k][sc]);
                c = match x.agg { 1 => c + vc, 2 => c.max(vc), _ => c.min(vc) };
            }
        }
        let (a, b) = match x.kind { 'l' => (c / 2.0, c / 2.0), 's' => (-c, c), _ => (c, c) };
        expect_eq(&format!("outgoing cost of {i}"), node.get_outgoing_cost(net, state).map_err(es)?, a)?;
        expect_eq(&format!("incoming cost of {i}"), node.get_incoming_cost(net, state).map_err(es)?, b)?;
        oc.push(a);
        ic.push(b);
    }
    for (j, (a, b)) in g.e.iter().enumerate() {
        let e = &net.edges()[j];
        ensure!(format!("{:?} {:?} {:?}", e.index(), e.from_node_index(), e.to_node_index()) == format!("EdgeIndex({j}) NodeIndex({a}) NodeIndex({b})"), "edge {j} is {e:?}");
        // the cost of an edge is that of leaving one node and entering the other
        expect_eq(&format!("cost of edge {j}"), e.cost(net.nodes(), net, state).map_err(es)?, oc[*a] + ic[*b])?;
    }
    for (v, x) in g.vs.iter().enumerate() {
        let (a, b) = net.virtual_storage_nodes()[v].get_available_volume_bounds(state).map_err(es)?;
        expect_eq(&format!("available volume of v{v}"), a, (was.vv[v] - x.min).max(0.0))?;
        expect_eq(&format!("missing volume of v{v}"), b, (x.max - was.vv[v]).max(0.0))?;
    }
    Ok(())
}
