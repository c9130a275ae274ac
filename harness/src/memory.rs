//! C07: delay and rolling parameters.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::agg_funcs::{AggFuncF64, AggFuncU64};
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::network::NetworkBuilder;
use pywr_core::parameters::*;
use std::sync::atomic::{AtomicUsize, Ordering};

pub const CASES: &[(&str, CaseFn)] = &[("delay", delay), ("rolling", rolling), ("index delay", delay_u64), ("index rolling", rolling_u64)];

/// the flow of each time-step and scenario; scenarios are stepped in order
pub fn impose(v: &Series) -> Imposed {
    let (v, ns, cnt) = (v.clone(), v[0].len(), AtomicUsize::new(0));
    Imposed::new(move |n, ts, _| {
        let c = cnt.fetch_add(1, Ordering::Relaxed);
        let (k, s) = (c / ns, c % ns);
        if ts.index != k {
            return Err(format!("step {} solved out of order (expected {k})", ts.index));
        }
        Ok(vec![v[k][s]; n.edges().len()])
    })
}
/// a metric that has these values, in one of the ways there are
fn source(r: &mut Rng, nb: &mut NetworkBuilder, v: &Series, simple: bool) -> (UnresolvedMetricF64, Imposed) {
    if simple {
        return (series(r, nb, "x", v, true), Imposed::zero());
    }
    match r.us(0, 3) {
        0 => (UnresolvedMetricF64::NodeOutFlow("vin".into()), impose(v)),
        1 => (UnresolvedMetricF64::NodeInFlow("vout".into()), impose(v)),
        2 => {
            let m = series(r, nb, "y", v, false);
            let mut b = AggregatedParameterBuilder::after("x".into(), AggFuncF64::Sum);
            b.metric(m);
            nb.parameters().f64(Box::new(b));
            (UnresolvedMetricF64::new_parameter_after("x"), Imposed::zero())
        }
        _ => (series(r, nb, "x", v, false), Imposed::zero()),
    }
}
fn source_u64(r: &mut Rng, nb: &mut NetworkBuilder, v: &Series, simple: bool) -> UnresolvedMetricU64 {
    let (n, ns) = (v.len(), v[0].len());
    if v.iter().all(|x| x.iter().all(|y| *y == v[0][0])) && r.p(0.5) {
        return (v[0][0] as u64).into();
    }
    if simple || r.p(0.3) {
        nb.parameters().u64(Box::new(Array2ParameterBuilder::<u64>::new("x".into(), ndarray::Array2::from_shape_fn((n, ns), |(i, j)| v[i][j] as u64), "g")));
        return UnresolvedMetricU64::new_parameter_before("x");
    }
    let flat = v.iter().all(|row| row.iter().all(|x| *x == row[0]));
    let m = if flat {
        let xs: Vec<f64> = v.iter().map(|row| row[0]).collect();
        nb.parameters().f64(Box::new(VectorParameterBuilder::new("s".into(), &xs)));
        param("s")
    } else {
        series(r, nb, "s", v, false)
    };
    let mut b = MultiThresholdParameterBuilder::new("x".into(), m, Predicate::LessThan);
    for t in 1..=9 {
        b.threshold((t as f64).into());
    }
    nb.parameters().u64(Box::new(b));
    if r.p(0.5) {
        let mut b = AggregatedIndexParameterBuilder::after("xa".into(), AggFuncU64::Sum);
        b.metric(UnresolvedMetricU64::new_parameter_before("x"));
        nb.parameters().u64(Box::new(b));
        return UnresolvedMetricU64::ParameterValue { name: "xa".into(), return_value: ParameterReturnValue::After };
    }
    UnresolvedMetricU64::new_parameter_before("x")
}
fn delay(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, simple) = (r.us(1, 12), r.us(1, 3), r.p(0.4));
    // (asked of a value that is only there after the step, a delay of nothing is an error)
    let (d, ini) = (r.us(if simple { 0 } else { 1 }, 5), r.val(-3.0, 3.0));
    let chained = r.p(0.3);
    let d2 = r.us(1, 3);
    let v = rand_series(r, n, ns, |r| r.val(0.0, 4.0));
    log.note(format!("delay {d} initial {ini} simple={simple} chained={chained} by {d2} values={v:?}"));
    let mut nb = tiny_network();
    let (m, imp) = source(r, &mut nb, &v, simple);
    nb.parameters().f64(Box::new(DelayParameterBuilder::new("p".into(), m, d as u64, ini)));
    let mut pr = vec![param("p")];
    if chained {
        nb.parameters().f64(Box::new(DelayParameterBuilder::new("q".into(), param("p"), d2 as u64, ini)));
        pr.push(param("q"));
    }
    let g = run_imposed(scen_domain(n, ns)?, nb, pr, imp)?;
    for s in 0..ns {
        for i in 0..n {
            expect_eq(&format!("value delayed by {d} at step {i}, scenario {s}"), g[i][s][0], if i < d { ini } else { v[i - d][s] })?;
            if chained {
                expect_eq(&format!("value delayed by {d} and {d2} at step {i}, scenario {s}"), g[i][s][1], if i < d + d2 { ini } else { v[i - d - d2][s] })?;
            }
        }
    }
    Ok(n > d)
}
fn delay_u64(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, simple) = (r.us(1, 12), r.us(1, 3), r.p(0.4));
    let (d, ini) = (r.us(if simple { 0 } else { 1 }, 5), r.us(0, 9) as u64);
    let v = rand_series(r, n, ns, |r| r.int(0, 9) as f64);
    log.note(format!("index delay {d} initial {ini} simple={simple} values={v:?}"));
    let mut nb = tiny_network();
    let m = source_u64(r, &mut nb, &v, simple);
    nb.parameters().u64(Box::new(DelayParameterBuilder::new("p".into(), m, d as u64, ini)));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero())?;
    for s in 0..ns {
        for i in 0..n {
            expect_eq(&format!("index delayed by {d} at step {i}, scenario {s}"), g[i][s][0], if i < d { ini as f64 } else { v[i - d][s] })?;
        }
    }
    Ok(n > d)
}
fn rolling(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, simple) = (r.us(1, 12), r.us(1, 3), r.p(0.4));
    let w = r.us(0, 5);
    let (least, ini, f) = (r.us(0, w + 1), r.val(-3.0, 3.0), r.us(0, 4));
    let v = rand_series(r, n, ns, |r| if r.p(0.2) { 0.0 } else { r.val(0.0, 4.0) });
    let func = || match f {
        0 => AggFuncF64::Sum,
        1 => AggFuncF64::Mean,
        2 => AggFuncF64::Product,
        3 => AggFuncF64::Min,
        _ => AggFuncF64::Max,
    };
    log.note(format!("rolling {:?} window {w} at least {least} initial {ini} simple={simple} values={v:?}", func()));
    let mut nb = tiny_network();
    let (m, imp) = source(r, &mut nb, &v, simple);
    nb.parameters().f64(Box::new(RollingParameterBuilder::new("p".into(), m, w, ini, least, func())));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], imp)?;
    for s in 0..ns {
        for i in 0..n {
            let seen: Vec<f64> = (i.saturating_sub(w)..i).map(|j| v[j][s]).collect();
            let want = if seen.len() < least {
                ini
            } else {
                match f {
                    0 => seen.iter().sum(),
                    1 => if seen.is_empty() { 0.0 } else { seen.iter().sum::<f64>() / seen.len() as f64 },
                    2 => seen.iter().product(),
                    3 => seen.iter().fold(f64::MAX, |a, b| if *b < a { *b } else { a }),
                    _ => seen.iter().fold(f64::MIN, |a, b| if *b > a { *b } else { a }),
                }
            };
            expect_eq(&format!("{:?} of the last {w} at step {i}, scenario {s}", func()), g[i][s][0], want)?;
        }
    }
    Ok(n > least)
}
fn rolling_u64(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, simple) = (r.us(1, 12), r.us(1, 3), r.p(0.4));
    let w = r.us(0, 5);
    let (least, ini, f) = (r.us(0, w + 1), r.us(0, 9) as u64, r.us(0, 5));
    let v = rand_series(r, n, ns, |r| r.int(0, 9) as f64);
    let func = || match f {
        0 => AggFuncU64::Sum,
        1 => AggFuncU64::Product,
        2 => AggFuncU64::Min,
        3 => AggFuncU64::Max,
        4 => AggFuncU64::Any,
        _ => AggFuncU64::All,
    };
    log.note(format!("index rolling {:?} window {w} at least {least} initial {ini} simple={simple} values={v:?}", func()));
    let mut nb = tiny_network();
    let m = source_u64(r, &mut nb, &v, simple);
    nb.parameters().u64(Box::new(RollingParameterBuilder::new("p".into(), m, w, ini, least, func())));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero())?;
    for s in 0..ns {
        for i in 0..n {
            let seen: Vec<u64> = (i.saturating_sub(w)..i).map(|j| v[j][s] as u64).collect();
            let want = if seen.len() < least {
                ini
            } else {
                match f {
                    0 => seen.iter().sum(),
                    1 => seen.iter().product(),
                    2 => seen.iter().copied().min().unwrap_or(u64::MAX),
                    3 => seen.iter().copied().max().unwrap_or(0),
                    4 => seen.iter().any(|x| *x != 0) as u64,
                    _ => seen.iter().all(|x| *x != 0) as u64,
                }
            };
            ensure!(g[i][s][0] == want as f64, "{:?} of the last {w} at step {i}, scenario {s}: {}, expected {want}", func(), g[i][s][0]);
        }
    }
    Ok(n > least)
}
