//! C19: values recorded for output, aggregated over periods, metrics, time and scenarios.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use jiff::civil::DateTime;
use pywr_core::agg_funcs::AggFuncF64;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::models::{Model, ModelBuilder, ModelDomain};
use pywr_core::recorders::*;
use pywr_core::timestep::PywrDuration;
use std::num::NonZeroI64;

pub const CASES: &[(&str, CaseFn)] = &[("nested", nested), ("model", model)];

const H: i64 = 3600;
/// a value over a period: start and length in seconds since 1970
#[derive(Clone, Copy, Debug, PartialEq)]
struct V {
    s: i64,
    d: i64,
    x: f64,
}
fn secs(d: DateTime) -> i64 {
    d.duration_since(jiff::civil::date(1970, 1, 1).at(0, 0, 0, 0)).as_secs()
}
fn date(s: i64) -> DateTime {
    jiff::civil::date(1970, 1, 1).at(0, 0, 0, 0) + jiff::SignedDuration::from_secs(s)
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum F {
    None,
    Month,
    Year,
    Days(i64),
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum A {
    Sum,
    Mean,
    Product,
    Min,
    Max,
    Count,
    Any(f64),
    Big,
}
fn big(x: f64) -> bool {
    x > 1.0
}
impl F {
    fn real(self) -> Option<AggregationFrequency> {
        match self {
            F::None => None,
            F::Month => Some(AggregationFrequency::Monthly),
            F::Year => Some(AggregationFrequency::Annual),
            F::Days(n) => Some(AggregationFrequency::Days(NonZeroI64::new(n).unwrap())),
        }
    }
}
impl A {
    fn rand(r: &mut Rng) -> A {
        match r.us(0, 7) {
            0 => A::Sum,
            1 | 2 => A::Mean,
            3 => A::Product,
            4 => A::Min,
            5 => A::Max,
            6 => A::Count,
            _ => if r.p(0.5) { A::Any(r.val(0.0, 2.0)) } else { A::Big },
        }
    }
    fn real(self) -> AggFuncF64 {
        match self {
            A::Sum => AggFuncF64::Sum,
            A::Mean => AggFuncF64::Mean,
            A::Product => AggFuncF64::Product,
            A::Min => AggFuncF64::Min,
            A::Max => AggFuncF64::Max,
            A::Count => AggFuncF64::CountNonZero,
            A::Any(t) => AggFuncF64::AnyNonZero { tolerance: t },
            A::Big => AggFuncF64::CountFunc { func: big },
        }
    }
    /// over periods
    fn of(self, v: &[V]) -> Option<f64> {
        let x: Vec<f64> = v.iter().map(|v| v.x).collect();
        match self {
            A::Mean => {
                let d: f64 = v.iter().map(|v| v.d as f64).sum();
                (d != 0.0).then(|| v.iter().map(|v| v.x * v.d as f64).sum::<f64>() / d)
            }
            A::Min | A::Max if v.is_empty() => None,
            A::Min => Some(x.iter().copied().fold(f64::INFINITY, f64::min)),
            A::Max => Some(x.iter().copied().fold(f64::NEG_INFINITY, f64::max)),
            _ => Some(self.plain(&x)),
        }
    }
    /// without periods
    fn plain(self, x: &[f64]) -> f64 {
        match self {
            A::Sum => x.iter().sum(),
            A::Mean => if x.is_empty() { 0.0 } else { x.iter().sum::<f64>() / x.len() as f64 },
            A::Product => x.iter().product(),
            A::Min => x.iter().copied().fold(f64::MAX, f64::min),
            A::Max => x.iter().copied().fold(f64::MIN, f64::max),
            A::Count => x.iter().filter(|x| **x != 0.0).count() as f64,
            A::Any(t) => x.iter().any(|x| x.abs() > t) as u8 as f64,
            A::Big => x.iter().filter(|x| **x > 1.0).count() as f64,
        }
    }
}
fn same(f: F, a: i64, b: i64) -> bool {
    let (x, y) = (date(a), date(b));
    match f {
        F::None => true,
        F::Year => x.year() == y.year(),
        F::Month => x.year() == y.year() && x.month() == y.month(),
        F::Days(n) => a <= b && b < a + n * 86400,
    }
}
/// the pieces of a value within the periods, found hour by hour from its start
fn pieces(f: F, v: V) -> Vec<V> {
    if f == F::None {
        return vec![v];
    }
    let mut out: Vec<V> = vec![];
    let mut t = v.s;
    while t < v.s + v.d {
        let l = H.min(v.s + v.d - t);
        match out.last_mut() {
            Some(p) if same(f, p.s, t) => p.d += l,
            _ => out.push(V { s: t, d: l, x: v.x }),
        }
        t += l;
    }
    out
}
/// what is known to differ
#[derive(Clone, Copy)]
struct Known {
    /// the last period ends at the start of its last value
    duration: bool,
    /// a period completed while finalising is dropped
    drop: bool,
}
/// the values every period yields, in order, and whether the last is a final (partial) one.
/// `inputs` are (value, final?) pairs
fn level(f: F, a: A, inputs: &[(V, bool)], k: Known) -> Vec<(V, bool)> {
    let mut out = vec![];
    let mut cur: Vec<V> = vec![];
    for (v, fin) in inputs {
        for p in pieces(f, *v) {
            if let Some(c) = cur.first().copied() {
                if !same(f, c.s, p.s) {
                    if let Some(x) = a.of(&cur) {
                        if !(k.drop && *fin) {
                            out.push((V { s: c.s, d: p.s - c.s, x }, false));
                        }
                    }
                    cur.clear();
                }
            }
            cur.push(p);
        }
    }
    if let (Some(c), Some(l), Some(x)) = (cur.first(), cur.last(), a.of(&cur)) {
        let e = if k.duration { l.s } else { l.s + l.d };
        out.push((V { s: c.s, d: e - c.s, x }, true));
    }
    out
}
/// levels from the innermost outwards
fn oracle(levels: &[(F, A)], vs: &[V], k: Known) -> Vec<V> {
    let mut cur: Vec<(V, bool)> = vs.iter().map(|v| (*v, false)).collect();
    for (f, a) in levels {
        cur = level(*f, *a, &cur, k);
    }
    cur.into_iter().map(|x| x.0).collect()
}
fn aggregator(levels: &[(F, A)]) -> Aggregator {
    let mut g: Option<Aggregator> = None;
    for (f, a) in levels {
        g = Some(Aggregator::new(f.real(), a.real(), g));
    }
    g.unwrap()
}
/// one to three levels such that no value completes two periods
fn rand_levels(r: &mut Rng, days: i64) -> Vec<(F, A)> {
    let mut out = vec![];
    let mut len = days; // longest input of the level
    for _ in 0..r.us(1, 3) {
        let f = match r.us(0, 3) {
            0 => F::Days(len + r.int(0, 12)),
            1 if len <= 28 => F::Month,
            _ if len <= 300 => F::Year,
            _ => F::None,
        };
        out.push((f, A::rand(r)));
        len = match f {
            F::Days(n) => n + len,
            F::Month => 31,
            F::Year => 366,
            F::None => break,
        };
    }
    if r.p(0.3) && out.last().unwrap().0 != F::None {
        out.push((F::None, A::rand(r)));
    }
    out
}
fn eq(a: &[V], b: &[V]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| a.s == b.s && a.d == b.d && close(a.x, b.x))
}
const VARIANTS: [(Known, &str); 4] = [
    (Known { duration: false, drop: false }, ""),
    (Known { duration: true, drop: false }, "final-period-duration"),
    (Known { duration: false, drop: true }, "completed-while-finalising"),
    (Known { duration: true, drop: true }, "completed-while-finalising"),
];
fn rand_value(r: &mut Rng) -> f64 {
    if r.p(0.2) { 0.0 } else { r.val(-3.0, 3.0) }
}
fn nested(r: &mut Rng, log: &mut Log) -> Res {
    let days = r.int(1, 20);
    let levels = rand_levels(r, days);
    let n = if r.p(0.1) { r.us(0, 1) } else { r.us(2, 90) };
    let mut t = secs(jiff::civil::date(r.int(1995, 2024) as i16, r.int(1, 12) as i8, r.int(1, 28) as i8).at(if r.p(0.7) { 0 } else { r.int(0, 23) as i8 }, 0, 0, 0));
    let steady = r.p(0.5);
    let d0 = r.int(1, days * 24) * H;
    let mut vs = vec![];
    for _ in 0..n {
        let d = if steady { d0 } else { r.int(1, days * 24) * H };
        vs.push(V { s: t, d, x: rand_value(r) });
        t += d;
    }
    log.note(format!("levels (innermost first) {levels:?} values {:?}", vs.iter().map(|v| (date(v.s).to_string(), v.d as f64 / 86400.0, v.x)).collect::<Vec<_>>()));
    let a = aggregator(&levels);
    let mut st = a.setup();
    let mut got = vec![];
    let conv = |p: PeriodValue<f64>| V { s: secs(p.start), d: (p.duration.fractional_days() * 86400.0).round() as i64, x: p.value };
    for v in &vs {
        let o = a.append_value(&mut st, PeriodValue::new(date(v.s), PywrDuration::from_days(0).checked(v.d), v.x));
        got.extend(o.map(conv));
    }
    got.extend(a.finalise(&mut st).map(conv));
    for (k, key) in VARIANTS {
        let w = oracle(&levels, &vs, k);
        if eq(&got, &w) {
            ensure!(key.is_empty(), "KNOWN[{key}] aggregated values {got:?} expected {:?}", oracle(&levels, &vs, VARIANTS[0].0));
            return Ok(got.len() > 1);
        }
    }
    Err(format!("aggregated values {got:?} expected {:?}", oracle(&levels, &vs, VARIANTS[0].0)))
}
trait Checked {
    fn checked(self, secs: i64) -> PywrDuration;
}
impl Checked for PywrDuration {
    fn checked(self, secs: i64) -> PywrDuration {
        jiff::SignedDuration::from_secs(secs).into()
    }
}
fn run_recorders(d: ModelDomain, nb: pywr_core::network::NetworkBuilder) -> Result<pywr_core::network::NetworkResult, String> {
    let m: Model = ModelBuilder::new(d, nb).build().map_err(es)?;
    Ok(m.run::<FlowSolver>(&Imposed::zero()).map_err(es)?.network_result)
}
fn model(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, nm) = (r.us(1, 40), r.us(1, 3), r.us(1, 3));
    let step = r.int(1, 12);
    let levels = if r.p(0.3) { vec![] } else { rand_levels(r, step) };
    let start = (r.int(1995, 2024) as i16, r.int(1, 12) as i8, r.int(1, 28) as i8);
    let vs: Vec<Series> = (0..nm).map(|_| rand_series(r, n, ns, rand_value)).collect();
    let mut nb = tiny_network();
    let ms: Vec<UnresolvedMetricF64> = vs.iter().enumerate().map(|(j, v)| series(r, &mut nb, &format!("m{j}"), v, false)).collect();
    let mut b = MetricSetBuilder::new("set");
    if !levels.is_empty() {
        b.aggregator(aggregator(&levels));
    }
    for (j, m) in ms.into_iter().enumerate() {
        b.metric(UnresolvedOutputMetric::new(&format!("m{j}"), "value", "parameter", None, m));
    }
    nb.metric_set(b);
    // every combination of functions is asked for through its own recorder
    let opt = |r: &mut Rng| if r.p(0.8) { Some(A::rand(r)) } else { None };
    let recs: Vec<(Option<A>, Option<A>, Option<A>, bool)> = (0..4).map(|_| (opt(r), opt(r), opt(r), r.p(0.5))).collect();
    for (i, (s, t, m, mt)) in recs.iter().enumerate() {
        let g = Aggregation::new(s.map(A::real), t.map(A::real), m.map(A::real));
        let o = if *mt { AggregationOrder::MetricTimeScenario } else { AggregationOrder::TimeMetricScenario };
        nb.recorder(Box::new(MemoryRecorderBuilder::new(&format!("r{i}"), "set", g, o)));
    }
    log.note(format!("start {start:?} step {step} days, {n} steps, levels (innermost first) {levels:?}, aggregations (scenario, time, metric, metric first) {recs:?}, values [metric][time][scenario] {vs:?}"));
    let d = domain(days_domain(start, n, step as u64), &[("g", ns)])?;
    let res = run_recorders(d, nb)?;
    let t0 = secs(jiff::civil::date(start.0, start.1, start.2).at(0, 0, 0, 0));
    let mut first = None;
    for (k, key) in VARIANTS {
        // [scenario][metric][period]
        let want: Vec<Vec<Vec<V>>> = (0..ns)
            .map(|s| {
                vs.iter()
                    .map(|v| {
                        let x: Vec<V> = (0..n).map(|t| V { s: t0 + t as i64 * step * 86400, d: step * 86400, x: v[t][s] }).collect();
                        if levels.is_empty() { x } else { oracle(&levels, &x, k) }
                    })
                    .collect()
            })
            .collect();
        match compare(&res, &recs, &want) {
            Ok(()) => {
                ensure!(key.is_empty(), "KNOWN[{key}] {}", first.unwrap_or_default());
                return Ok(want[0][0].len() > 1);
            }
            Err(e) => {
                first.get_or_insert(e);
            }
        }
    }
    Err(first.unwrap())
}
fn compare(res: &pywr_core::network::NetworkResult, recs: &[(Option<A>, Option<A>, Option<A>, bool)], want: &[Vec<Vec<V>>]) -> Result<(), String> {
    let nm = want[0].len();
    for i in 0..recs.len() {
        let f = res.get(&format!("r{i}")).ok_or("no result")?;
        let df = f.to_dataframe().map_err(es)?;
        let vals: Vec<f64> = df.column("value").map_err(es)?.f64().map_err(es)?.into_no_null_iter().collect();
        let sims: Vec<u32> = df.column("simulation_id").map_err(es)?.u32().map_err(es)?.into_no_null_iter().collect();
        let st = |c: &str| -> Result<Vec<String>, String> {
            let s = df.column(c).map_err(es)?.str().map_err(es)?;
            Ok((0..s.len()).map(|i| s.get(i).unwrap_or("").to_string()).collect())
        };
        let (starts, ends, names) = (st("time_start")?, st("time_end")?, st("name")?);
        let mut row = 0;
        for (s, w) in want.iter().enumerate() {
            for p in 0..w[0].len() {
                for (m, wm) in w.iter().enumerate() {
                    let v = wm[p];
                    ensure!(row < vals.len(), "recorder {i} has {} rows, more expected", vals.len());
                    ensure!(
                        sims[row] as usize == s && names[row] == format!("m{m}") && starts[row] == date(v.s).to_string() && ends[row] == date(v.s + v.d).to_string() && close(vals[row], v.x),
                        "recorder {i} row {row}: scenario {} {} from {} to {} value {}, expected scenario {s} m{m} from {} to {} value {}",
                        sims[row], names[row], starts[row], ends[row], vals[row], date(v.s), date(v.s + v.d), v.x
                    );
                    row += 1;
                }
            }
        }
        ensure!(row == vals.len(), "recorder {i} has {} rows, expected {row}", vals.len());
    }
    for (i, (sa, ta, ma, mt)) in recs.iter().enumerate() {
        if want[0][0].is_empty() && !*mt {
            continue; // nothing was recorded: there is no metric to aggregate over time
        }
        let got = res.get(&format!("r{i}")).unwrap().aggregated_value();
        let l = |a: &Option<A>, x: &[f64]| if x.len() == 1 { Some(x[0]) } else { a.map(|a| a.plain(x)) };
        let t = |a: &Option<A>, v: &[V]| if v.len() == 1 { Some(v[0].x) } else { a.and_then(|a| a.of(v)) };
        let w = (|| {
            let mut per = vec![];
            for w in want {
                if *mt {
                    let mut ts = vec![];
                    for p in 0..w[0].len() {
                        let xs: Vec<f64> = w.iter().map(|m| m[p].x).collect();
                        ts.push(V { x: l(ma, &xs)?, ..w[0][p] });
                    }
                    per.push(t(ta, &ts)?);
                } else {
                    let mut xs = vec![];
                    for m in 0..nm {
                        xs.push(t(ta, &w[m])?);
                    }
                    per.push(l(ma, &xs)?);
                }
            }
            l(sa, &per)
        })();
        match (&got, w) {
            (Ok(g), Some(w)) => expect_eq(&format!("aggregated value of recorder {i}"), *g, w)?,
            (Err(_), None) => {}
            _ => return Err(format!("aggregated value of recorder {i}: {got:?}, expected {w:?}")),
        }
    }
    Ok(())
}
