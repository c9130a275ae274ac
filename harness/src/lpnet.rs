//! C01, C14, C15: random networks solved by the real solvers, against an independently written linear programme.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use crate::netw::{G, build, gen_net, nm};
use microlp::{ComparisonOp, OptimizationDirection, Problem, SolveOutcome};
use pywr_core::aggregated_node::{CoefficientFactorsBuilder, ExclusivityBuilder, ProportionalFactorsBuilder, RatioFactorsBuilder};
use pywr_core::network::Network;
use pywr_core::solvers::*;
use pywr_core::state::{ConstParameterValues, State};
use pywr_core::timestep::Timestep;
use pywr_core::AggregatedNodeBuilder;
use pywr_core::models::ModelBuilder;
use std::sync::{Arc, Mutex};

pub const BALANCE: &[(&str, CaseFn)] = &[("solved networks", balance)];
pub const FACTORS: &[(&str, CaseFn)] = &[("factors", factors), ("refused factors", refused)];
pub const EXCLUSIVE: &[(&str, CaseFn)] = &[("mutual exclusivity", exclusive)];

fn balance(r: &mut Rng, log: &mut Log) -> Res {
    case(r, log, 'b')
}
fn factors(r: &mut Rng, log: &mut Log) -> Res {
    case(r, log, 'f')
}
fn exclusive(r: &mut Rng, log: &mut Log) -> Res {
    case(r, log, 'x')
}

type Hook = dyn Fn(&Network, &Timestep, &State, Option<bool>) -> bool + Send + Sync;
/// a real solver that is watched: the hook sees the state before and after each solve
pub struct Spied<S: Solver> {
    inner: S::Settings,
    hook: Arc<Hook>,
}
impl<S: Solver> SolverSettings for Spied<S> {
    fn parallel(&self) -> bool {
        false
    }
    fn threads(&self) -> usize {
        1
    }
    fn ignore_feature_requirements(&self) -> bool {
        false
    }
}
struct Spy<S: Solver> {
    inner: Box<S>,
    hook: Arc<Hook>,
}
impl<S: Solver> Solver for Spy<S> {
    type Settings = Spied<S>;
    fn name() -> &'static str {
        S::name()
    }
    fn features() -> &'static [SolverFeatures] {
        S::features()
    }
    fn setup(m: &Network, v: &ConstParameterValues, settings: &Spied<S>) -> Result<Box<Self>, SolverSetupError> {
        Ok(Box::new(Spy { inner: S::setup(m, v, &settings.inner)?, hook: settings.hook.clone() }))
    }
    fn solve(&mut self, model: &Network, ts: &Timestep, state: &mut State) -> Result<SolverTimings, SolverSolveError> {
        (self.hook)(model, ts, state, None);
        let t = self.inner.solve(model, ts, state);
        (self.hook)(model, ts, state, Some(t.is_ok()));
        t
    }
}

#[derive(Clone, Debug)]
enum Rel {
    No,
    Prop(Vec<Series>),
    Ratio(Vec<Series>),
    Coef(Vec<Series>, Option<Series>),
    Excl(u64, u64),
}
#[derive(Clone, Debug)]
struct A {
    sets: Vec<Vec<usize>>,
    min: Option<Series>,
    max: Option<Series>,
    rel: Rel,
}
#[derive(Clone, Debug)]
struct L {
    g: G,
    a: Vec<A>,
}
fn whole(r: &mut Rng, g: (usize, usize), lo: i64, hi: i64) -> Series {
    rand_series(r, g.0, g.1, |r| r.int(lo, hi) as f64)
}
fn gen_lp(r: &mut Rng, nt: usize, ns: usize, what: char) -> L {
    let mut g = gen_net(r, nt, ns, 'b');
    g.agg.clear();
    g.sagg.clear();
    let d = (nt, ns);
    for x in &mut g.n {
        match x.kind {
            'i' | 'o' => {
                x.max = Some(whole(r, d, 2, 20));
                x.min = if r.p(0.2) { Some(whole(r, d, 0, 2)) } else { None };
                x.cost = Some(whole(r, d, -20, if x.kind == 'i' { 10 } else { 0 }));
            }
            'l' => {
                x.max = if r.p(0.5) { Some(whole(r, d, 2, 15)) } else { None };
                x.min = if r.p(0.1) { Some(whole(r, d, 0, 2)) } else { None };
                x.cost = if r.p(0.5) { Some(whole(r, d, 0, 5)) } else { None };
            }
            _ => {
                x.cost = if r.p(0.7) { Some(whole(r, d, -10, 5)) } else { None };
                if let Some(s) = &mut x.sto {
                    let steadys = r.p(0.6);
                    if steadys {
                        s.min = vec![s.min[0].clone(); nt];
                        s.max = vec![s.max[0].clone(); nt];
                    }
                }
            }
        }
        if let Some(c) = &x.cost {
            assert!(c.len() == nt);
        }
    }
    for v in &mut g.vs {
        v.cost = if r.p(0.4) { Some(whole(r, d, 0, 6)) } else { None };
        v.factors = v.nodes.iter().map(|_| r.pick(&[0.0, 0.5, 1.0, 1.0, 2.0])).collect();
        v.max = r.int(10, 60) as f64;
        v.min = r.int(0, 5) as f64;
        v.init = r.int(v.min as i64, v.max as i64) as f64;
    }
    let members: Vec<usize> = (0..g.n.len()).filter(|&i| g.n[i].kind != 's').collect();
    let all: Vec<usize> = (0..g.n.len()).collect();
    let some = |r: &mut Rng, xs: &[usize], k: usize| {
        let mut v: Vec<usize> = vec![];
        for _ in 0..r.us(1, k) {
            let x = r.pick(xs);
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v
    };
    let na = match what { 'b' => r.us(0, 2), _ => r.us(1, 3) };
    let mut a: Vec<A> = vec![];
    for _ in 0..na {
        let kind = match what { 'b' => 0, 'f' => if r.p(0.9) { r.us(1, 3) } else { 0 }, _ => if r.p(0.9) { 4 } else { r.us(0, 3) } };
        let nsets = match kind { 0 => r.us(1, 2), 3 => 2, 4 => r.us(2, 3), _ => r.us(2, 4) };
        let mut sets: Vec<Vec<usize>> = vec![];
        let wide = kind < 4 && r.p(0.15);
        for _ in 0..nsets {
            let mut s = some(r, if wide { &all } else { &members }, 2);
            for _ in 0..4 {
                // prefer sets that do not overlap
                if r.p(0.9) && sets.iter().any(|t| t.iter().any(|x| s.contains(x))) {
                    s = some(r, if wide { &all } else { &members }, 2);
                }
            }
            sets.push(s);
        }
        if kind == 4 {
            sets.sort();
            sets.dedup();
            if sets.len() < 2 {
                continue;
            }
        }
        let fac = |r: &mut Rng| if r.p(0.4) { let v = r.pick(&[0.25, 0.5, 1.0, 2.0]); vec![vec![v; ns]; nt] } else { rand_series(r, nt, ns, |r| r.pick(&[0.25, 0.5, 1.0, 2.0, 3.0])) };
        let n = sets.len();
        let rel = match kind {
            0 => Rel::No,
            1 => {
                let k = (n - 1) as f64;
                Rel::Prop((1..n).map(|_| if r.p(0.4) { vec![vec![0.5 / k; ns]; nt] } else { rand_series(r, nt, ns, |r| r.pick(&[0.25, 0.5, 0.75]) / k) }).collect())
            }
            2 => Rel::Ratio((0..n).map(|_| fac(r)).collect()),
            3 => {
                let sg = r.pick(&[-1.0, -1.0, 1.0]);
                let f1 = fac(r).iter().map(|row| row.iter().map(|x| sg * x).collect()).collect();
                let rhs = if r.p(0.5) { None } else { Some(rand_series(r, nt, ns, |r| r.int(0, 4) as f64)) };
                Rel::Coef(vec![fac(r), f1], rhs)
            }
            _ => {
                let mx = r.us(1, n - 1) as u64;
                Rel::Excl(if r.p(0.7) { 0 } else { r.us(0, mx as usize) as u64 }, mx)
            }
        };
        let min = if r.p(0.2) { Some(whole(r, d, 0, 2)) } else { None };
        let max = if r.p(0.5) { Some(whole(r, d, 2, 25)) } else { None };
        a.push(A { sets, min, max, rel });
    }
    L { g, a }
}
fn build_lp(r: &mut Rng, l: &L) -> pywr_core::network::NetworkBuilder {
    let mut nb = build(r, &l.g);
    for (k, a) in l.a.iter().enumerate() {
        let mut b = AggregatedNodeBuilder::new(format!("a{k}").as_str());
        for m in &a.sets {
            b.nodes(m.iter().map(|&i| nm(i)).collect());
        }
        if let Some(v) = &a.min {
            b.min_flow(series(r, &mut nb, &format!("amin{k}"), v, false));
        }
        if let Some(v) = &a.max {
            b.max_flow(series(r, &mut nb, &format!("amax{k}"), v, false));
        }
        match &a.rel {
            Rel::No => {}
            Rel::Prop(f) => {
                let mut x = ProportionalFactorsBuilder::default();
                for (j, f) in f.iter().enumerate() {
                    x.factor(series(r, &mut nb, &format!("af{k}_{j}"), f, false));
                }
                b.relationship(Box::new(x));
            }
            Rel::Ratio(f) => {
                let mut x = RatioFactorsBuilder::default();
                for (j, f) in f.iter().enumerate() {
                    x.factor(series(r, &mut nb, &format!("af{k}_{j}"), f, false));
                }
                b.relationship(Box::new(x));
            }
            Rel::Coef(f, rhs) => {
                let mut x = CoefficientFactorsBuilder::default();
                for (j, f) in f.iter().enumerate() {
                    x.factor(series(r, &mut nb, &format!("af{k}_{j}"), f, false));
                }
                if let Some(v) = rhs {
                    x.rhs(series(r, &mut nb, &format!("arhs{k}"), v, false));
                }
                b.relationship(Box::new(x));
            }
            Rel::Excl(lo, hi) => {
                let mut x = ExclusivityBuilder::default();
                x.min_active(*lo).max_active(*hi);
                b.relationship(Box::new(x));
            }
        }
        nb.agg_node(b);
    }
    nb
}
/// a linear requirement on the edges' flows
struct Req {
    what: String,
    c: Vec<f64>,
    lo: f64,
    hi: f64,
}
const INF: f64 = f64::INFINITY;
/// the flow a node passes on, as coefficients of the edges' flows (a storage: what it gains)
fn through(g: &G, i: usize, f: f64, c: &mut [f64]) {
    for (j, (a, b)) in g.e.iter().enumerate() {
        match g.n[i].kind {
            'o' => if *b == i { c[j] += f },
            's' => {
                if *b == i { c[j] += f }
                if *a == i { c[j] -= f }
            }
            _ => if *a == i { c[j] += f },
        }
    }
}
fn at(s: &Option<Series>, k: usize, sc: usize, or: f64) -> f64 {
    s.as_ref().map_or(or, |s| s[k][sc])
}
/// everything the flows of a step must satisfy, given the volumes before it
fn reqs(l: &L, k: usize, sc: usize, vol: &[f64], vv: &[f64], dt: f64) -> Vec<Req> {
    let g = &l.g;
    let m = g.e.len();
    let mut q = vec![];
    let excl: Vec<usize> = l.a.iter().filter(|a| matches!(a.rel, Rel::Excl(..))).flat_map(|a| a.sets.concat()).collect();
    for (i, x) in g.n.iter().enumerate() {
        if x.kind == 'l' {
            let mut c = vec![0.0; m];
            for (j, (a, b)) in g.e.iter().enumerate() {
                if *b == i { c[j] += 1.0 }
                if *a == i { c[j] -= 1.0 }
            }
            q.push(Req { what: format!("balance of link {i}"), c, lo: 0.0, hi: 0.0 });
        }
        let mut c = vec![0.0; m];
        through(g, i, 1.0, &mut c);
        if let Some(s) = &x.sto {
            q.push(Req { what: format!("room of reservoir {i}"), c, lo: -(vol[i] - s.min[k][sc]) / dt, hi: (s.max[k][sc] - vol[i]) / dt });
        } else {
            let lo = if excl.contains(&i) { 0.0 } else { at(&x.min, k, sc, 0.0) };
            q.push(Req { what: format!("flow of node {i}"), c, lo, hi: at(&x.max, k, sc, INF) });
        }
    }
    for (v, x) in g.vs.iter().enumerate() {
        let mut c = vec![0.0; m];
        for (&i, f) in x.nodes.iter().zip(&x.factors) {
            through(g, i, *f, &mut c);
        }
        q.push(Req { what: format!("use of virtual storage {v}"), c, lo: -(x.max - vv[v]) / dt, hi: (vv[v] - x.min) / dt });
    }
    for (z, a) in l.a.iter().enumerate() {
        let mut c = vec![0.0; m];
        for &i in a.sets.iter().flatten() {
            through(g, i, 1.0, &mut c);
        }
        q.push(Req { what: format!("flow of aggregated node {z}"), c, lo: at(&a.min, k, sc, 0.0), hi: at(&a.max, k, sc, INF) });
        let set = |n: usize, f: f64, c: &mut [f64]| for &i in &a.sets[n] { through(g, i, f, c) };
        match &a.rel {
            Rel::No | Rel::Excl(..) => {}
            Rel::Prop(f) => {
                let first = 1.0 - f.iter().map(|f| f[k][sc]).sum::<f64>();
                for (j, f) in f.iter().enumerate() {
                    let mut c = vec![0.0; m];
                    // f * first set = share of the first * this set
                    set(0, f[k][sc], &mut c);
                    set(j + 1, -first, &mut c);
                    q.push(Req { what: format!("share {} of aggregated node {z}", j + 1), c, lo: 0.0, hi: 0.0 });
                }
            }
            Rel::Ratio(f) => {
                for j in 1..f.len() {
                    let mut c = vec![0.0; m];
                    set(0, f[j][k][sc], &mut c);
                    set(j, -f[0][k][sc], &mut c);
                    q.push(Req { what: format!("ratio {j} of aggregated node {z}"), c, lo: 0.0, hi: 0.0 });
                }
            }
            Rel::Coef(f, rhs) => {
                let mut c = vec![0.0; m];
                set(0, f[0][k][sc], &mut c);
                set(1, f[1][k][sc], &mut c);
                let b = at(rhs, k, sc, 0.0);
                q.push(Req { what: format!("coefficients of aggregated node {z}"), c, lo: b, hi: b });
            }
        }
    }
    q
}
fn costs(l: &L, k: usize, sc: usize) -> Vec<f64> {
    let g = &l.g;
    let (mut oc, mut ic) = (vec![], vec![]);
    for (i, x) in g.n.iter().enumerate() {
        let mut c = at(&x.cost, k, sc, 0.0);
        if x.agg > 0 {
            for v in g.vs.iter().filter(|v| v.nodes.contains(&i)) {
                let vc = at(&v.cost, k, sc, 0.0);
                c = match x.agg { 1 => c + vc, 2 => c.max(vc), _ => c.min(vc) };
            }
        }
        let (a, b) = match x.kind { 'l' => (c / 2.0, c / 2.0), 's' => (-c, c), _ => (c, c) };
        oc.push(a);
        ic.push(b);
    }
    g.e.iter().map(|(a, b)| oc[*a] + ic[*b]).collect()
}
/// the least cost of an independently written programme; None if it has no solution
fn least(l: &L, k: usize, sc: usize, q: &[Req], c: &[f64]) -> Result<Option<(f64, Vec<f64>)>, String> {
    let mut p = Problem::new(OptimizationDirection::Minimize);
    let x: Vec<_> = c.iter().map(|c| p.add_var(*c, (0.0, INF))).collect();
    let row = |c: &[f64]| -> Vec<(microlp::Variable, f64)> { c.iter().enumerate().filter(|(_, c)| **c != 0.0).map(|(j, c)| (x[j], *c)).collect() };
    for r in q {
        let e = row(&r.c);
        if e.is_empty() {
            if r.lo > 1e-9 || r.hi < -1e-9 {
                return Ok(None);
            }
            continue;
        }
        if r.lo == r.hi {
            p.add_constraint(e, ComparisonOp::Eq, r.lo);
        } else {
            if r.lo > r.hi + 1e-9 {
                return Ok(None);
            }
            if r.lo > -INF {
                p.add_constraint(e.clone(), ComparisonOp::Ge, r.lo);
            }
            if r.hi < INF {
                p.add_constraint(e, ComparisonOp::Le, r.hi);
            }
        }
    }
    let mut bin: Vec<(Vec<usize>, microlp::Variable)> = vec![];
    for a in &l.a {
        if let Rel::Excl(lo, hi) = &a.rel {
            let mut sum = vec![];
            for s in &a.sets {
                let b = match bin.iter().find(|(t, _)| t == s) {
                    Some((_, b)) => *b,
                    None => {
                        let b = p.add_binary_var(0.0);
                        for &i in s {
                            let mut c = vec![0.0; x.len()];
                            through(&l.g, i, 1.0, &mut c);
                            let n = &l.g.n[i];
                            let mut e = row(&c);
                            e.push((b, -at(&n.max, k, sc, 1e4).min(1e4)));
                            p.add_constraint(e, ComparisonOp::Le, 0.0);
                            let m = at(&n.min, k, sc, 0.0);
                            if m != 0.0 {
                                let mut e = row(&c);
                                e.push((b, -m));
                                p.add_constraint(e, ComparisonOp::Ge, 0.0);
                            }
                        }
                        bin.push((s.clone(), b));
                        b
                    }
                };
                sum.push((b, 1.0));
            }
            p.add_constraint(sum.clone(), ComparisonOp::Ge, *lo as f64);
            p.add_constraint(sum, ComparisonOp::Le, *hi as f64);
        }
    }
    match p.solve() {
        Ok(SolveOutcome::Solution(s)) => {
            let q: Vec<f64> = x.iter().map(|v| s[*v]).collect();
            Ok(Some((q.iter().zip(c).map(|(q, c)| q * c).sum(), q)))
        }
        Ok(_) => Err("SKIP interrupted".into()),
        Err(microlp::Error::Infeasible) => Ok(None),
        Err(e) => Err(format!("SKIP {e:?}")),
    }
}
#[derive(Default)]
struct Seen {
    count: usize,
    vol: Vec<f64>,
    vv: Vec<f64>,
    err: Option<String>,
    work: bool,
    infeasible: usize,
}
fn watch<S: Solver>(l: Arc<L>, inner: S::Settings, seen: Arc<Mutex<Seen>>) -> Spied<S> {
    let hook = move |net: &Network, ts: &Timestep, state: &State, done: Option<bool>| -> bool {
        let mut s = seen.lock().unwrap();
        let r = check(&l, net, ts, state, done, &mut s);
        if let Err(e) = r {
            if s.err.is_none() {
                s.err = Some(e);
            }
            return false;
        }
        true
    };
    Spied { inner, hook: Arc::new(hook) }
}
fn check(l: &L, net: &Network, ts: &Timestep, state: &State, done: Option<bool>, seen: &mut Seen) -> Result<(), String> {
    let ns = state.get_network_state();
    let g = &l.g;
    let Some(ok) = done else {
        seen.vol = (0..g.n.len()).map(|i| if g.n[i].sto.is_some() { ns.get_node_volume(&net.nodes()[i].index()).unwrap_or(f64::NAN) } else { 0.0 }).collect();
        seen.vv = net.virtual_storage_nodes().iter().map(|v| ns.get_virtual_storage_volume(&v.index()).unwrap_or(f64::NAN)).collect();
        return Ok(());
    };
    let (k, sc) = (seen.count / g.ns, seen.count % g.ns);
    seen.count += 1;
    ensure!(ts.index == k, "step {} solved as number {k}", ts.index);
    let dt = ts.days();
    let q = reqs(l, k, sc, &seen.vol, &seen.vv, dt);
    let c = costs(l, k, sc);
    let best = match least(l, k, sc, &q, &c) {
        Ok(b) => b,
        Err(_) => None.ok_or(()).or_else(|_: ()| -> Result<_, String> { Ok(Some((f64::NAN, vec![]))) })?,
    };
    if !ok {
        seen.infeasible += 1;
        if let Some((b, x)) = best {
            // a solution exists: it must satisfy everything with room to spare before this counts
            ensure!(b.is_nan() || !strictly(&q, &x), "step {k} scenario {sc}: the solver failed although flows {x:?} satisfy every requirement");
        }
        return Ok(());
    }
    let flows: Vec<f64> = net.edges().iter().map(|e| ns.get_edge_flow(&e.index()).unwrap_or(f64::NAN)).collect();
    let here = format!("step {k} scenario {sc} volumes {:?} {:?} flows {flows:?}", seen.vol, seen.vv);
    for (j, f) in flows.iter().enumerate() {
        ensure!(*f >= -1e-6, "{here}: edge {j} flows backwards");
    }
    for r in &q {
        let v: f64 = r.c.iter().zip(&flows).map(|(c, q)| c * q).sum();
        let tol = 2e-6 * (1.0 + r.c.iter().zip(&flows).map(|(c, q)| (c * q).abs()).sum::<f64>());
        ensure!(v >= r.lo - tol && v <= r.hi + tol, "{here}: {} is {v}, outside [{}, {}]", r.what, r.lo, r.hi);
    }
    for (z, a) in l.a.iter().enumerate() {
        if let Rel::Excl(lo, hi) = &a.rel {
            let fl = |i: usize| { let mut c = vec![0.0; flows.len()]; through(g, i, 1.0, &mut c); c.iter().zip(&flows).map(|(c, q)| c * q).sum::<f64>() };
            let on = a.sets.iter().filter(|s| s.iter().any(|&i| fl(i) > 1e-4)).count() as u64;
            ensure!(on <= *hi, "{here}: {on} sets of aggregated node {z} are active, at most {hi} may be");
            let can = a.sets.iter().filter(|s| s.iter().all(|&i| fl(i) >= at(&g.n[i].min, k, sc, 0.0) - 1e-4)).count() as u64;
            ensure!(can >= *lo, "{here}: only {can} sets of aggregated node {z} meet their minimum flows, at least {lo} must be active");
            for &i in a.sets.iter().filter(|s| s.iter().any(|&i| fl(i) > 1e-4)).flatten() {
                ensure!(fl(i) >= at(&g.n[i].min, k, sc, 0.0) - 1e-4, "{here}: node {i} of active set of aggregated node {z} is below its minimum flow");
            }
        }
    }
    let cost: f64 = flows.iter().zip(&c).map(|(q, c)| q * c).sum();
    match best {
        // borderline: the solver's tolerance let it through
        None => {}
        Some((b, x)) => {
            seen.work |= flows.iter().any(|q| *q > 1e-6);
            let tol = 3e-4 * (1.0 + flows.iter().zip(&c).map(|(q, c)| (q * c).abs()).sum::<f64>());
            ensure!(b.is_nan() || cost <= b + tol, "{here}: costs {cost}, but {x:?} would cost {b}");
        }
    }
    Ok(())
}
fn strictly(q: &[Req], x: &[f64]) -> bool {
    q.iter().all(|r| {
        let v: f64 = r.c.iter().zip(x).map(|(c, q)| c * q).sum();
        v >= r.lo - 1e-10 && v <= r.hi + 1e-10
    })
}
fn case(r: &mut Rng, log: &mut Log, what: char) -> Res {
    let (nt, ns) = (r.us(1, 4), r.us(1, 2));
    let step = if r.p(0.6) { 1 } else { r.us(2, 5) as u64 };
    let l = Arc::new(gen_lp(r, nt, ns, what));
    log.note(format!("{l:?} step {step}"));
    let d = domain(days_domain((2021, 2, 25), nt, step), &[("g", ns)])?;
    let nb = build_lp(r, &l);
    let m = ModelBuilder::new(d, nb).build().map_err(es)?;
    let seen: Arc<Mutex<Seen>> = Default::default();
    let mip = l.a.iter().any(|a| matches!(a.rel, Rel::Excl(..)));
    // HiGHS 1.14 has been seen to call a feasible mixed-integer programme infeasible and to return NaN
    let micro = mip || r.p(0.5);
    log.note(if micro { "microlp" } else { "highs" });
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if micro {
        m.run::<Spy<MicroLpSolver>>(&watch(l.clone(), MicroLpSolverSettings::default(), seen.clone())).map(|_| ()).map_err(es)
    } else {
        m.run::<Spy<HighsSolver>>(&watch(l.clone(), HighsSolverSettings::default(), seen.clone())).map(|_| ()).map_err(es)
    }));
    let res = match res {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            // the solver's tolerance on flows, times the length of the step, is more than that on volumes
            let nums: Vec<f64> = m.split(|c| c == '(' || c == ')').filter_map(|x| x.parse().ok()).collect();
            if m.contains("Mass-balance error") && nums.len() == 2 && (nums[0] - nums[1]).abs() < 5e-5 {
                return Ok(false);
            }
            // bounds of nodes that must carry the same flow contradict each other: microlp is never asked
            ensure!(m.contains("Row lower bound must be less"), "panicked: {m}");
            return Ok(false);
        }
    };
    let s = seen.lock().unwrap();
    if let Some(e) = &s.err {
        // the solver gave up for a reason of its own
        if e.contains("the solver failed although") && matches!(&res, Err(r) if r.contains("InternalError") || r.contains("HighsModelError") && !r.contains("Infeasible")) {
            return Ok(false);
        }
        return Err(format!("{e}{}", res.err().map_or(String::new(), |e| format!(" ({e})"))));
    }
    match res {
        Err(e) => ensure!(s.infeasible > 0, "the run failed although every step was solved: {e}"),
        Ok(()) => ensure!(s.count == nt * ns, "{} of {} steps solved", s.count, nt * ns),
    }
    Ok(s.work)
}
/// factors that make no sense are errors and never silently ignored
fn refused(r: &mut Rng, log: &mut Log) -> Res {
    let kind = r.us(0, 4);
    let (nt, ns) = (r.us(1, 3), 1);
    let sets = if kind == 2 || kind == 3 { 2 } else { r.us(2, 3) };
    let mut nb = pywr_core::network::NetworkBuilder::default();
    let mut b = AggregatedNodeBuilder::new("a");
    for i in 0..sets {
        nb.node(pywr_core::NodeBuilder::input(format!("i{i}").as_str()));
        let mut o = pywr_core::NodeBuilder::output(format!("o{i}").as_str());
        o.max_flow(10.0.into());
        o.cost((-1.0).into());
        nb.node(o);
        nb.connect(format!("i{i}").as_str(), format!("o{i}").as_str());
        b.nodes(vec![format!("i{i}").as_str().into()]);
    }
    // one value of one factor, at one time, is wrong
    let bad_t = r.us(0, nt - 1);
    let bad_f = r.us(0, 9);
    let steady = r.p(0.5);
    let mut mk = |r: &mut Rng, nb: &mut pywr_core::network::NetworkBuilder, j: usize, bad: bool, wrong: f64, right: f64| {
        let v: Series = (0..nt).map(|t| vec![if bad && (steady || t == bad_t) { wrong } else { right }]).collect();
        series(r, nb, &format!("f{j}"), &v, false)
    };
    let what: String;
    let rel: Box<dyn pywr_core::aggregated_node::RelationshipBuilder> = match kind {
        0 => {
            // a negative share, or shares that leave nothing for the first
            let mut x = ProportionalFactorsBuilder::default();
            let neg = r.p(0.5);
            let n = sets - 1;
            what = format!("proportions, {} at {bad_t}", if neg { "a negative one" } else { "a total of one or more" });
            let w = if neg { -0.25 } else { r.pick(&[1.0, 1.5]) };
            for j in 0..n {
                x.factor(mk(r, &mut nb, j, j == bad_f % n, w, 0.25));
            }
            Box::new(x)
        }
        1 => {
            let mut x = RatioFactorsBuilder::default();
            what = format!("ratios, number {} negative", bad_f % sets);
            for j in 0..sets {
                x.factor(mk(r, &mut nb, j, j == bad_f % sets, -0.5, 1.0));
            }
            Box::new(x)
        }
        2 => {
            let mut x = CoefficientFactorsBuilder::default();
            let n = r.pick(&[1, 3]);
            what = format!("{n} coefficients for two sets");
            for j in 0..n {
                x.factor(mk(r, &mut nb, j, false, 0.0, 1.0));
            }
            Box::new(x)
        }
        3 => {
            let mut x = ProportionalFactorsBuilder::default();
            let n = r.pick(&[0, 2, 3]);
            what = format!("{n} proportions for two sets");
            for j in 0..n {
                x.factor(mk(r, &mut nb, j, false, 0.0, 0.1));
            }
            Box::new(x)
        }
        _ => {
            let mut x = RatioFactorsBuilder::default();
            let n = if r.p(0.5) { sets - 1 } else { sets + 1 };
            what = format!("{n} ratios for {sets} sets");
            for j in 0..n {
                x.factor(mk(r, &mut nb, j, false, 0.0, 1.0));
            }
            Box::new(x)
        }
    };
    log.note(format!("{what} (steady {steady})"));
    b.relationship(rel);
    nb.agg_node(b);
    let d = domain(days_domain((2021, 2, 25), nt, 1), &[("g", ns)])?;
    let m = ModelBuilder::new(d, nb).build().map_err(es)?;
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.run::<HighsSolver>(&HighsSolverSettings::default()).map(|_| ())));
    match res {
        Ok(Err(_)) => Ok(true),
        Ok(Ok(())) => Err(format!("{what}: accepted")),
        Err(p) => Err(format!("{what}: panicked: {:?}", p.downcast_ref::<String>())),
    }
}
