//! Shared machinery: deterministic random cases, a probe recorder, and a solver that imposes given flows.
use pywr_core::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
use pywr_core::models::{Model, ModelBuilder, ModelDomain, ModelDomainBuilder};
use pywr_core::network::{Network, NetworkBuilder, ResolutionMaps};
use pywr_core::recorders::*;
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder, ScenarioIndex};
use pywr_core::solvers::*;
use pywr_core::state::{ConstParameterValues, State};
use pywr_core::timestep::{TimeDomainBuilder, Timestep, TimestepDuration};
use std::num::NonZeroU64;
use std::sync::{Arc, Mutex};

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform integer in lo..=hi
    pub fn int(&mut self, lo: i64, hi: i64) -> i64 {
        lo + (self.next() % ((hi - lo + 1) as u64)) as i64
    }
    pub fn us(&mut self, lo: usize, hi: usize) -> usize {
        self.int(lo as i64, hi as i64) as usize
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    /// a "coarse" real: likely to coincide with other coarse reals, so that ties and boundaries are hit
    pub fn coarse(&mut self, lo: f64, hi: f64) -> f64 {
        let n = ((hi - lo) * 4.0).floor() as i64;
        lo + self.int(0, n) as f64 / 4.0
    }
    pub fn val(&mut self, lo: f64, hi: f64) -> f64 {
        if self.p(0.5) { self.coarse(lo, hi) } else { self.f(lo, hi) }
    }
    pub fn vals(&mut self, n: usize, lo: f64, hi: f64) -> Vec<f64> {
        (0..n).map(|_| self.val(lo, hi)).collect()
    }
    pub fn p(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.us(0, xs.len() - 1)].clone()
    }
}

/// Result of one case: Ok(true) when the case was non-trivial.
pub type Res = Result<bool, String>;

pub struct Log(pub String);
impl Log {
    pub fn note(&mut self, s: impl AsRef<str>) {
        if self.0.len() < 6000 {
            self.0.push_str(s.as_ref());
            self.0.push('\n');
        }
    }
}

pub fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 + 1e-9 * a.abs().max(b.abs())
}
pub fn close_tol(a: f64, b: f64, t: f64) -> bool {
    (a - b).abs() <= t + 1e-9 * a.abs().max(b.abs())
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
pub fn expect_eq(what: &str, got: f64, want: f64) -> Result<(), String> {
    if close(got, want) { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}

// ------------------------------------------------------------------------------------------------
pub type Captured = Arc<Mutex<Vec<Vec<Vec<f64>>>>>; // [timestep][scenario][metric]
pub struct Probe {
    metrics: Vec<UnresolvedMetricF64>,
    out: Captured,
}
impl std::fmt::Debug for Probe {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Probe")
    }
}
impl RecorderBuilder for Probe {
    fn name(&self) -> &str {
        "vprobe"
    }
    fn build(self: Box<Self>, maps: &ResolutionMaps) -> Result<Box<dyn Recorder>, RecorderBuilderError> {
        let mut ms = vec![];
        for m in &self.metrics {
            ms.push(m.resolve(maps, MetricConsumerPhase::After).map_err(|source| {
                RecorderBuilderError::ResolveMetricF64Error { attr: "metric".into(), source }
            })?);
        }
        Ok(Box::new(ProbeR {
            meta: RecorderMeta { name: "vprobe".into(), comment: String::new() },
            metrics: ms,
            out: self.out.clone(),
        }))
    }
}
struct ProbeR {
    meta: RecorderMeta,
    metrics: Vec<MetricF64>,
    out: Captured,
}
impl std::fmt::Debug for ProbeR {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "ProbeR")
    }
}
impl Recorder for ProbeR {
    fn meta(&self) -> &RecorderMeta {
        &self.meta
    }
    fn save(
        &self,
        _t: &Timestep,
        sc: &[ScenarioIndex],
        model: &Network,
        state: &[State],
        _m: &[Vec<MetricSetState>],
        _i: &mut Option<Box<dyn RecorderInternalState>>,
    ) -> Result<(), RecorderSaveError> {
        let mut row = vec![];
        for s in sc {
            let mut v = vec![];
            for m in &self.metrics {
                v.push(m.get_value(model, &state[s.simulation_id()])?);
            }
            row.push(v);
        }
        self.out.lock().unwrap().push(row);
        Ok(())
    }
}
pub fn probe(metrics: Vec<UnresolvedMetricF64>) -> (Box<dyn RecorderBuilder>, Captured) {
    let out: Captured = Default::default();
    (Box::new(Probe { metrics, out: out.clone() }), out)
}

// ------------------------------------------------------------------------------------------------
type FlowFn = dyn Fn(&Network, &Timestep, &mut State) -> Result<Vec<f64>, String> + Send + Sync;
/// a solver that imposes the flows its settings compute
#[derive(Clone)]
pub struct Imposed {
    pub f: Arc<FlowFn>,
    pub err: Arc<Mutex<Option<String>>>,
}
impl SolverSettings for Imposed {
    fn parallel(&self) -> bool {
        false
    }
    fn threads(&self) -> usize {
        1
    }
    fn ignore_feature_requirements(&self) -> bool {
        true
    }
}
impl Imposed {
    pub fn new<F: Fn(&Network, &Timestep, &mut State) -> Result<Vec<f64>, String> + Send + Sync + 'static>(f: F) -> Self {
        Self { f: Arc::new(f), err: Default::default() }
    }
    pub fn zero() -> Self {
        Self::new(|n, _, _| Ok(vec![0.0; n.edges().len()]))
    }
}
pub struct FlowSolver {
    s: Imposed,
}
impl Solver for FlowSolver {
    type Settings = Imposed;
    fn name() -> &'static str {
        "imposed"
    }
    fn features() -> &'static [SolverFeatures] {
        &[]
    }
    fn setup(_m: &Network, _v: &ConstParameterValues, settings: &Imposed) -> Result<Box<Self>, SolverSetupError> {
        Ok(Box::new(FlowSolver { s: settings.clone() }))
    }
    fn solve(&mut self, model: &Network, ts: &Timestep, state: &mut State) -> Result<SolverTimings, SolverSolveError> {
        let flows = match (self.s.f)(model, ts, state) {
            Ok(f) => f,
            Err(e) => {
                let mut g = self.s.err.lock().unwrap();
                if g.is_none() {
                    *g = Some(e);
                }
                vec![0.0; model.edges().len()]
            }
        };
        let ns = state.get_mut_network_state();
        ns.reset();
        for (i, e) in model.edges().iter().enumerate() {
            ns.add_flow(e, ts, flows[i])?;
        }
        state.complete(model, ts)?;
        Ok(SolverTimings::default())
    }
}

pub fn days_domain(start: (i16, i8, i8), n: usize, step: u64) -> TimeDomainBuilder {
    let s = jiff::civil::date(start.0, start.1, start.2).at(0, 0, 0, 0);
    let e = s + jiff::Span::new().days(((n.max(1) - 1) as i64) * step as i64);
    TimeDomainBuilder::new(s, e, TimestepDuration::Days(NonZeroU64::new(step).unwrap()))
}
pub fn domain(t: TimeDomainBuilder, groups: &[(&str, usize)]) -> Result<ModelDomain, String> {
    let mut b = ModelDomainBuilder::new(t);
    if !groups.is_empty() {
        let mut s = ScenarioDomainBuilder::default();
        for (n, k) in groups {
            s = s.with_group(ScenarioGroupBuilder::new(n, *k).build().map_err(es)?).map_err(es)?;
        }
        b.scenario(s);
    }
    b.build().map_err(es)
}
pub fn es<E: std::fmt::Debug>(e: E) -> String {
    let mut s = format!("{e:?}");
    s.truncate(600);
    s
}
/// an input connected to an output: the smallest network that can be stepped
pub fn tiny_network() -> NetworkBuilder {
    let mut b = NetworkBuilder::default();
    b.node(pywr_core::NodeBuilder::input("vin"));
    b.node(pywr_core::NodeBuilder::output("vout"));
    b.connect("vin", "vout");
    b
}
/// run with imposed flows; data is [timestep][scenario][metric]
pub fn run_imposed(
    d: ModelDomain,
    mut nb: NetworkBuilder,
    metrics: Vec<UnresolvedMetricF64>,
    s: Imposed,
) -> Result<Vec<Vec<Vec<f64>>>, String> {
    let (r, out) = probe(metrics);
    nb.recorder(r);
    let m: Model = ModelBuilder::new(d, nb).build().map_err(es)?;
    m.run::<FlowSolver>(&s).map_err(es)?;
    if let Some(e) = s.err.lock().unwrap().take() {
        return Err(format!("CONTRACT {e}"));
    }
    let v = out.lock().unwrap().clone();
    Ok(v)
}
pub fn param(n: &str) -> UnresolvedMetricF64 {
    UnresolvedMetricF64::new_parameter_before(n)
}
/// a value per timestep and scenario (group "g")
pub type Series = Vec<Vec<f64>>;
pub fn rand_series(r: &mut Rng, n: usize, ns: usize, mut f: impl FnMut(&mut Rng) -> f64) -> Series {
    match r.us(0, 3) {
        0 => {
            let v = f(r);
            vec![vec![v; ns]; n]
        }
        1 => (0..n).map(|_| vec![f(r); ns]).collect(),
        2 => {
            let row: Vec<f64> = (0..ns).map(|_| f(r)).collect();
            vec![row; n]
        }
        _ => (0..n).map(|_| (0..ns).map(|_| f(r)).collect()).collect(),
    }
}
/// add a parameter that produces the series, in one of the forms that can express it, and return the metric that reads it
pub fn series(r: &mut Rng, nb: &mut NetworkBuilder, name: &str, v: &Series, simple_only: bool) -> UnresolvedMetricF64 {
    use pywr_core::parameters::*;
    let (n, ns) = (v.len(), v[0].len());
    let flat = v.iter().all(|row| row.iter().all(|x| *x == row[0]));
    let steady = v.iter().all(|row| *row == v[0]);
    if flat && steady && r.p(0.7) {
        if r.p(0.5) {
            return v[0][0].into();
        }
        nb.parameters().f64(Box::new(ConstantParameterBuilder::new(name.into(), v[0][0])));
    } else if steady && ns > 1 && r.p(0.6) {
        nb.parameters().f64(Box::new(ConstantScenarioParameterBuilder::new(name.into(), v[0].clone(), "g")));
    } else if flat && r.p(0.7) {
        let xs: Vec<f64> = v.iter().map(|row| row[0]).collect();
        if r.p(0.5) || simple_only {
            nb.parameters().f64(Box::new(Array1ParameterBuilder::new(name.into(), ndarray::Array1::from(xs))));
        } else {
            nb.parameters().f64(Box::new(VectorParameterBuilder::new(name.into(), &xs)));
        }
    } else {
        let a = ndarray::Array2::from_shape_fn((n, ns), |(i, j)| v[i][j]);
        nb.parameters().f64(Box::new(Array2ParameterBuilder::new(name.into(), a, "g")));
    }
    param(name)
}
pub fn scen_domain(n: usize, ns: usize) -> Result<ModelDomain, String> {
    domain(days_domain((2021, 1, 1), n, 1), &[("g", ns)])
}
