//! C18: every parameter is evaluated once a step, after what it refers to.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::agg_funcs::{AggFuncF64, AggFuncU64};
use pywr_core::metric::*;
use pywr_core::models::ModelBuilder;
use pywr_core::network::ResolutionMaps;
use pywr_core::parameters::*;
use pywr_core::scenario::ScenarioIndex;
use pywr_core::state::MultiValue;
use pywr_core::timestep::Timestep;
use pywr_core::{resolve_metric_f64_vec, resolve_metric_u64_vec};
use std::collections::HashMap;

pub const CASES: &[(&str, CaseFn)] = &[("order", order), ("faulty", faulty)];

type Mem = Option<Box<dyn ParameterState>>;
const M: f64 = 4099.0;
/// a parameter that counts how often it is called: (base + 7 calls + 13 simulation + what it refers to) mod 4099
#[derive(Debug)]
struct Counter {
    meta: ParameterMeta,
    base: f64,
    f: Vec<MetricF64>,
    u: Vec<MetricU64>,
    /// taken up by the hook after the solve
    h: Vec<MetricF64>,
}
impl Counter {
    fn value(&self, ctx: GeneralParameterContext<'_>, mem: &mut Mem) -> Result<f64, GeneralCalculationError> {
        let (calls, kept) = *tick(mem);
        let mut v = self.base + kept + 7.0 * calls as f64 + 13.0 * ctx.scenario_index.simulation_id() as f64;
        for m in &self.f {
            v += m.get_value(ctx.network, ctx.state)?;
        }
        for m in &self.u {
            v += m.get_value(ctx.network, ctx.state)? as f64;
        }
        Ok(v % M)
    }
}
/// the number of calls and what the hook took up
type Kept = (u64, f64);
fn tick(mem: &mut Mem) -> &mut Kept {
    let b = mem.as_mut().expect("no internal state");
    let n: &mut Kept = (**b).as_any_mut().downcast_mut::<Kept>().expect("another parameter's internal state");
    n.0 += 1;
    n
}
trait Value: 'static {
    fn from(v: f64) -> Self;
}
impl Value for f64 {
    fn from(v: f64) -> f64 {
        v
    }
}
impl Value for u64 {
    fn from(v: f64) -> u64 {
        v as u64
    }
}
impl Value for MultiValue {
    fn from(v: f64) -> MultiValue {
        MultiValue::new(HashMap::from([("k".into(), v), ("other".into(), -1.0)]), HashMap::from([("i".into(), v as u64), ("other".into(), 77)]))
    }
}
impl Parameter for Counter {
    fn meta(&self) -> &ParameterMeta {
        &self.meta
    }
    fn setup(&self, _t: &[Timestep], _s: &ScenarioIndex) -> Result<Mem, ParameterSetupError> {
        Ok(Some(Box::new((0u64, 0.0f64))))
    }
}
impl GeneralParameter for Counter {
    fn as_parameter(&self) -> &dyn Parameter {
        self
    }
}
impl<T: Value> GeneralBeforeParameter<T> for Counter {
    fn before(&self, ctx: GeneralParameterContext<'_>, mem: &mut Mem) -> Result<T, GeneralCalculationError> {
        Ok(T::from(self.value(ctx, mem)?))
    }
}
impl<T: Value> GeneralAfterParameter<T> for Counter {
    fn after(&self, ctx: GeneralParameterContext<'_>, mem: &mut Mem) -> Result<T, GeneralCalculationError> {
        Ok(T::from(self.value(ctx, mem)?))
    }
}
impl<T: Value> GeneralAfterParameterHook<T> for Counter {
    fn after(&self, ctx: GeneralParameterContext<'_>, mem: &mut Mem) -> Result<(), GeneralCalculationError> {
        let k = tick(mem);
        k.1 = 0.0;
        for m in &self.h {
            k.1 += m.get_value(ctx.network, ctx.state)?;
        }
        Ok(())
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum When {
    Before,
    After,
    Both,
    Hook,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    F,
    U,
    Mv,
}
#[derive(Clone, Debug, PartialEq)]
enum What {
    Counter,
    Sum,
    Constant,
    Array(Vec<f64>),
}
#[derive(Debug)]
struct CounterBuilder {
    meta: ParameterMeta,
    base: f64,
    when: When,
    f: Vec<UnresolvedMetricF64>,
    u: Vec<UnresolvedMetricU64>,
    h: Vec<UnresolvedMetricF64>,
}
impl<T: Value> ParameterBuilder<T> for CounterBuilder {
    fn name(&self) -> &ParameterName {
        &self.meta.name
    }
    fn build(self: Box<Self>, maps: &ResolutionMaps) -> Result<MaybeBuiltParameter<T>, ParameterBuildError> {
        let phase = phase(self.when);
        let f = resolve_metric_f64_vec!(self, &self.f, maps, phase, "f");
        let u = resolve_metric_u64_vec!(self, &self.u, maps, phase, "u");
        let after = MetricConsumerPhase::After;
        let h = resolve_metric_f64_vec!(self, &self.h, maps, after, "h");
        let when = self.when;
        let c = Counter { meta: self.meta, base: self.base, f, u, h };
        let e: GeneralParameterEntry<T> = match when {
            When::Before => GeneralParameterEntry::before(c),
            When::After => GeneralParameterEntry::after(c),
            When::Both => GeneralParameterEntry::both(c),
            When::Hook => GeneralParameterEntry::before_with_after_hook(c),
        };
        Ok(BuiltParameter::General(e).into())
    }
}
fn phase(w: When) -> MetricConsumerPhase {
    match w {
        When::Before | When::Hook => MetricConsumerPhase::Before,
        When::After => MetricConsumerPhase::After,
        When::Both => MetricConsumerPhase::Both,
    }
}
#[derive(Clone, Debug)]
struct P {
    name: String,
    parent: Option<String>,
    kind: Kind,
    what: What,
    when: When,
    base: f64,
    /// (what is referred to, which value of it, through the f64 form)
    refs: Vec<(usize, ParameterReturnValue, bool)>,
    /// what a hook takes up after the solve
    kept: Vec<(usize, ParameterReturnValue)>,
}
fn early(w: When) -> bool {
    w != When::After
}
fn late(w: When) -> bool {
    matches!(w, When::After | When::Both)
}
fn pname(p: &P) -> ParameterName {
    ParameterName::new(&p.name, p.parent.as_deref())
}
fn f_ref(p: &P, rv: ParameterReturnValue) -> UnresolvedMetricF64 {
    match p.kind {
        Kind::Mv => UnresolvedMetricF64::MultiParameterValue { name: pname(p), key: "k".into(), return_value: rv },
        _ => UnresolvedMetricF64::ParameterValue { name: pname(p), return_value: rv },
    }
}
fn u_ref(p: &P, rv: ParameterReturnValue) -> UnresolvedMetricU64 {
    match p.kind {
        Kind::Mv => UnresolvedMetricU64::MultiParameterValue { name: pname(p), key: "i".into(), return_value: rv },
        _ => UnresolvedMetricU64::ParameterValue { name: pname(p), return_value: rv },
    }
}
/// parameters, each referring to earlier ones of the list only
fn describe(r: &mut Rng, n: usize, nt: usize) -> Vec<P> {
    use ParameterReturnValue::*;
    let mut v: Vec<P> = vec![];
    for i in 0..n {
        let what = match r.us(0, 9) {
            0 => What::Constant,
            1 => What::Array((0..nt).map(|_| r.int(0, 99) as f64).collect()),
            2..=4 => What::Sum,
            _ => What::Counter,
        };
        let kind = match what {
            What::Constant | What::Array(_) => Kind::F,
            What::Sum => r.pick(&[Kind::F, Kind::F, Kind::U]),
            What::Counter => r.pick(&[Kind::F, Kind::F, Kind::U, Kind::Mv]),
        };
        let when = match what {
            What::Constant | What::Array(_) => When::Before,
            What::Sum => r.pick(&[When::Before, When::Before, When::After, When::Both]),
            What::Counter => r.pick(&[When::Before, When::After, When::Both, When::Hook]),
        };
        let mut refs = vec![];
        let few = r.us(0, 3);
        if matches!(what, What::Counter | What::Sum) && i > 0 {
            for _ in 0..few {
                // mostly what was put in the list last: long chains
                let j = if r.p(0.5) { i - 1 - r.us(0, (i - 1).min(1)) } else { r.us(0, i - 1) };
                let q = &v[j];
                let fixed = matches!(q.what, What::Constant | What::Array(_));
                let rv = if fixed || q.kind == Kind::Mv && early(q.when) {
                    Before
                } else {
                    let mut c = vec![];
                    if early(q.when) {
                        c.push(Before);
                    }
                    if late(q.when) && when == When::After {
                        c.push(After);
                    }
                    // the maps of a multi-valued parameter are empty until it is first evaluated
                    if late(q.when) && (q.kind != Kind::Mv || when == When::After) && !simple(&v, j) {
                        c.push(AfterOrElseInitial);
                    }
                    if c.is_empty() {
                        continue;
                    }
                    r.pick(&c)
                };
                if rv == After && when != When::After {
                    continue;
                }
                let through_f = match (&what, kind) {
                    (What::Sum, Kind::F) => true,
                    (What::Sum, _) => false,
                    _ => q.kind == Kind::F || r.p(0.5),
                };
                if !through_f && q.kind == Kind::F {
                    continue;
                }
                refs.push((j, rv, through_f));
            }
        }
        let mut kept = vec![];
        if when == When::Hook && i > 0 {
            for _ in 0..r.us(0, 2) {
                let j = r.us(0, i - 1);
                let q = &v[j];
                if late(q.when) {
                    kept.push((j, After));
                } else {
                    kept.push((j, Before));
                }
            }
        }
        let name = if r.p(0.15) && i > 0 { v[r.us(0, i - 1)].name.clone() } else { format!("p{}", (i * 7919) % 101) };
        // the same name is another parameter under another parent
        let parent = if v.iter().any(|q| q.name == name) { Some(format!("node{i}")) } else { None };
        v.push(P { name, parent, kind, what, when, base: r.int(0, 500) as f64, refs, kept });
    }
    v
}
/// is the parameter known without looking at the network
fn simple(v: &[P], j: usize) -> bool {
    match v[j].what {
        What::Constant | What::Array(_) => true,
        What::Counter => false,
        What::Sum => v[j].when == When::Before && v[j].refs.iter().all(|(k, _, _)| simple(v, *k)),
    }
}
fn add(nb: &mut pywr_core::network::NetworkBuilder, v: &[P], p: &P, extra: Vec<UnresolvedMetricF64>, extra_u: Vec<UnresolvedMetricU64>) {
    let meta = ParameterMeta::new(pname(p));
    let f: Vec<UnresolvedMetricF64> = p.refs.iter().filter(|x| x.2).map(|x| f_ref(&v[x.0], x.1)).chain(extra).collect();
    let u: Vec<UnresolvedMetricU64> = p.refs.iter().filter(|x| !x.2).map(|x| u_ref(&v[x.0], x.1)).chain(extra_u).collect();
    match (&p.what, p.kind) {
        (What::Constant, _) => {
            nb.parameters().f64(Box::new(ConstantParameterBuilder::new(pname(p), p.base)));
        }
        (What::Array(a), _) => {
            nb.parameters().f64(Box::new(Array1ParameterBuilder::new(pname(p), ndarray::Array1::from(a.clone()))));
        }
        (What::Sum, Kind::U) => {
            let mut b = match p.when {
                When::After => AggregatedIndexParameterBuilder::after(pname(p), AggFuncU64::Sum),
                When::Both => AggregatedIndexParameterBuilder::both(pname(p), AggFuncU64::Sum),
                _ => AggregatedIndexParameterBuilder::before(pname(p), AggFuncU64::Sum),
            };
            b.metric((p.base as u64).into());
            for m in u {
                b.metric(m);
            }
            nb.parameters().u64(Box::new(b));
        }
        (What::Sum, _) => {
            let mut b = match p.when {
                When::After => AggregatedParameterBuilder::after(pname(p), AggFuncF64::Sum),
                When::Both => AggregatedParameterBuilder::both(pname(p), AggFuncF64::Sum),
                _ => AggregatedParameterBuilder::before(pname(p), AggFuncF64::Sum),
            };
            b.metric(p.base.into());
            for m in f {
                b.metric(m);
            }
            nb.parameters().f64(Box::new(b));
        }
        (What::Counter, k) => {
            let b = Box::new(CounterBuilder { meta, base: p.base, when: p.when, f, u, h: p.kept.iter().map(|x| f_ref(&v[x.0], x.1)).collect() });
            match k {
                Kind::F => nb.parameters().f64(b),
                Kind::U => nb.parameters().u64(b),
                Kind::Mv => nb.parameters().multi(b),
            };
        }
    }
}
fn shuffled(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut o: Vec<usize> = (0..n).collect();
    match r.us(0, 3) {
        0 => {}
        1 => o.reverse(),
        _ => {
            for i in (1..n).rev() {
                o.swap(i, r.us(0, i));
            }
        }
    }
    o
}
fn order(r: &mut Rng, log: &mut Log) -> Res {
    let (n, nt, ns) = (r.us(1, 14), r.us(1, 5), r.us(1, 3));
    let v = describe(r, n, nt);
    let o = shuffled(r, n);
    let mut nb = tiny_network();
    for i in &o {
        add(&mut nb, &v, &v[*i], vec![], vec![]);
    }
    for (i, p) in v.iter().enumerate() {
        log.note(format!("{i}: {p:?}"));
    }
    log.note(format!("described in the order {o:?}; {nt} time-steps, {ns} scenarios"));
    let mut metrics = vec![];
    for p in &v {
        if early(p.when) {
            metrics.push(f_ref(p, ParameterReturnValue::Before));
        }
        if late(p.when) {
            metrics.push(f_ref(p, ParameterReturnValue::After));
        }
    }
    let d = scen_domain(nt, ns)?;
    let got = run_imposed(d, nb, metrics, Imposed::zero())?;
    ensure!(got.len() == nt, "{} time-steps, expected {nt}", got.len());
    for s in 0..ns {
        let (mut calls, mut be, mut af, mut kept) = (vec![0u64; n], vec![0.0; n], vec![0.0; n], vec![0.0; n]);
        for t in 0..nt {
            for stage in 0..2 {
                for i in 0..n {
                    let p = &v[i];
                    if stage == 0 && !early(p.when) || stage == 1 && !late(p.when) && p.when != When::Hook {
                        continue;
                    }
                    if p.what == What::Counter {
                        calls[i] += 1;
                    }
                    if stage == 1 && p.when == When::Hook {
                        kept[i] = p.kept.iter().map(|(j, rv)| if *rv == ParameterReturnValue::Before { be[*j] } else { af[*j] }).sum();
                        continue;
                    }
                    let mut x = match &p.what {
                        What::Array(a) => a[t],
                        What::Counter => p.base + kept[i] + 7.0 * calls[i] as f64 + 13.0 * s as f64,
                        _ => p.base,
                    };
                    for (j, rv, _) in &p.refs {
                        x += match rv {
                            ParameterReturnValue::Before => be[*j],
                            _ => af[*j],
                        };
                    }
                    if p.what == What::Counter {
                        x %= M;
                    }
                    if stage == 0 {
                        be[i] = x;
                    } else {
                        af[i] = x;
                    }
                }
            }
            let mut k = 0;
            for (i, p) in v.iter().enumerate() {
                if early(p.when) {
                    expect_eq(&format!("time-step {t}, scenario {s}: parameter {i} before the network is solved"), got[t][s][k], be[i])?;
                    k += 1;
                }
                if late(p.when) {
                    expect_eq(&format!("time-step {t}, scenario {s}: parameter {i} after the network is solved"), got[t][s][k], af[i])?;
                    k += 1;
                }
            }
        }
    }
    Ok(n > 1 && v.iter().any(|p| !p.refs.is_empty()))
}
/// descriptions that cannot be: a parameter that is not there, two of one name, parameters that refer to one another
fn faulty(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(2, 10);
    let v = describe(r, n, 2);
    let movable: Vec<usize> = (0..n).filter(|i| matches!(v[*i].what, What::Counter | What::Sum)).collect();
    if movable.is_empty() {
        return Ok(false);
    }
    let case = r.us(0, 2);
    let i = r.pick(&movable);
    let mut extra: HashMap<usize, UnresolvedMetricF64> = HashMap::new();
    let mut extra_u: HashMap<usize, UnresolvedMetricU64> = HashMap::new();
    let mut twice = None;
    let rv = ParameterReturnValue::Before;
    let want = match case {
        0 => {
            let name: ParameterName = if r.p(0.5) { "nowhere".into() } else { ParameterName::new(&v[0].name, Some("nobody")) };
            if v[i].what == What::Sum && v[i].kind == Kind::U || v[i].what == What::Counter && r.p(0.5) {
                extra_u.insert(i, if r.p(0.5) { UnresolvedMetricU64::ParameterValue { name, return_value: rv } } else { UnresolvedMetricU64::MultiParameterValue { name, key: "i".into(), return_value: rv } });
            } else {
                extra.insert(i, if r.p(0.5) { UnresolvedMetricF64::ParameterValue { name, return_value: rv } } else { UnresolvedMetricF64::MultiParameterValue { name, key: "k".into(), return_value: rv } });
            }
            "ParameterNotFound"
        }
        1 => {
            twice = Some((i, r.pick(&[Kind::F, Kind::U, Kind::Mv])));
            "DuplicateParameterName"
        }
        _ => {
            // from `i` along references to some `j`, and from `j` back to `i`
            let mut j = i;
            while r.p(0.7) {
                let next: Vec<usize> = v[j].refs.iter().map(|x| x.0).filter(|k| matches!(v[*k].what, What::Counter | What::Sum)).collect();
                if next.is_empty() {
                    break;
                }
                j = r.pick(&next);
            }
            let rv = if early(v[i].when) { rv } else { ParameterReturnValue::AfterOrElseInitial };
            if v[j].what == What::Sum && v[j].kind == Kind::U {
                if v[i].kind == Kind::F {
                    return Ok(false);
                }
                extra_u.insert(j, u_ref(&v[i], rv));
            } else {
                extra.insert(j, f_ref(&v[i], rv));
            }
            "CircularParameterReference"
        }
    };
    let o = shuffled(r, n);
    for (i, p) in v.iter().enumerate() {
        log.note(format!("{i}: {p:?}"));
    }
    log.note(format!("described in the order {o:?}; also {extra:?} {extra_u:?} {twice:?}; expected {want}"));
    let mut nb = tiny_network();
    let at = r.us(0, n - 1);
    for (k, q) in o.iter().enumerate() {
        let e: Vec<UnresolvedMetricF64> = extra.remove(q).into_iter().collect();
        let eu: Vec<UnresolvedMetricU64> = extra_u.remove(q).into_iter().collect();
        add(&mut nb, &v, &v[*q], e, eu);
        if let (Some((i, kind)), true) = (twice, k == at) {
            let mut p = v[i].clone();
            p.kind = kind;
            p.what = What::Counter;
            p.refs.clear();
            add(&mut nb, &v, &p, vec![], vec![]);
        }
    }
    match ModelBuilder::new(scen_domain(2, 1)?, nb).build() {
        Ok(_) => Err(format!("built, although it is at fault: {want}")),
        Err(e) => {
            let s = format!("{e:?}");
            ensure!(s.contains(want), "refused as {s:.300}, expected {want}");
            Ok(true)
        }
    }
}
