//! C08: aggregated parameters.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::agg_funcs::{AggFuncF64, AggFuncU64};
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::parameters::*;

pub const CASES: &[(&str, CaseFn)] = &[("float", float), ("index", index)];

fn gt1(x: f64) -> bool {
    x > 1.0
}
fn float(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, k, ph) = (r.us(1, 4), r.us(1, 3), r.us(0, 5), r.us(0, 2));
    let f = r.us(0, 7);
    let simple = r.p(0.4);
    let tol = r.val(0.0, 1.0);
    let all_const = r.p(0.25);
    let vs: Vec<Series> = (0..k)
        .map(|_| {
            if all_const { vec![vec![r.val(-3.0, 3.0); ns]; n] } else { rand_series(r, n, ns, |r| if r.p(0.15) { 0.0 } else { r.val(-3.0, 3.0) }) }
        })
        .collect();
    let func = || match f {
        0 => AggFuncF64::Sum,
        1 => AggFuncF64::Mean,
        2 => AggFuncF64::Product,
        3 => AggFuncF64::Min,
        4 => AggFuncF64::Max,
        5 => AggFuncF64::CountNonZero,
        6 => AggFuncF64::CountFunc { func: gt1 },
        _ => AggFuncF64::AnyNonZero { tolerance: tol },
    };
    log.note(format!("{:?} phase={ph} values={vs:?}", func()));
    let mut nb = tiny_network();
    let ms: Vec<UnresolvedMetricF64> = vs.iter().enumerate().map(|(j, v)| series(r, &mut nb, &format!("m{j}"), v, simple)).collect();
    let mut b = match ph {
        0 => AggregatedParameterBuilder::before("p".into(), func()),
        1 => AggregatedParameterBuilder::after("p".into(), func()),
        _ => AggregatedParameterBuilder::both("p".into(), func()),
    };
    for m in ms {
        b.metric(m);
    }
    nb.parameters().f64(Box::new(b));
    let mut pr = vec![];
    if ph != 1 {
        pr.push(param("p"));
    }
    if ph != 0 {
        pr.push(UnresolvedMetricF64::new_parameter_after("p"));
    }
    let g = run_imposed(scen_domain(n, ns)?, nb, pr, Imposed::zero())?;
    for t in 0..n {
        for s in 0..ns {
            let v: Vec<f64> = vs.iter().map(|x| x[t][s]).collect();
            let w = match f {
                0 => v.iter().sum(),
                1 => if k == 0 { 0.0 } else { v.iter().sum::<f64>() / k as f64 },
                2 => v.iter().product(),
                3 => v.iter().fold(f64::MAX, |a, b| if *b < a { *b } else { a }),
                4 => v.iter().fold(f64::MIN, |a, b| if *b > a { *b } else { a }),
                5 => v.iter().filter(|x| **x != 0.0).count() as f64,
                6 => v.iter().filter(|x| **x > 1.0).count() as f64,
                _ => if v.iter().any(|x| x.abs() > tol) { 1.0 } else { 0.0 },
            };
            for got in &g[t][s] {
                expect_eq(&format!("{:?} of {v:?} at step {t} scenario {s}", func()), *got, w)?;
            }
        }
    }
    Ok(k > 0)
}
fn index(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, k, ph) = (r.us(1, 4), r.us(1, 3), r.us(0, 4), r.us(0, 2));
    let f = r.us(0, 5);
    let vs: Vec<Series> = (0..k).map(|_| rand_series(r, n, ns, |r| if r.p(0.3) { 0.0 } else { r.int(0, 9) as f64 })).collect();
    let func = || match f {
        0 => AggFuncU64::Sum,
        1 => AggFuncU64::Product,
        2 => AggFuncU64::Min,
        3 => AggFuncU64::Max,
        4 => AggFuncU64::Any,
        _ => AggFuncU64::All,
    };
    log.note(format!("{:?} phase={ph} values={vs:?}", func()));
    let mut nb = tiny_network();
    let mut ms: Vec<UnresolvedMetricU64> = vec![];
    for (j, v) in vs.iter().enumerate() {
        let nm = format!("m{j}");
        if v.iter().all(|x| x.iter().all(|y| *y == v[0][0])) && r.p(0.7) {
            ms.push((v[0][0] as u64).into());
        } else if r.p(0.4) {
            let m = series(r, &mut nb, &format!("s{j}"), v, false);
            let mut b = MultiThresholdParameterBuilder::new(nm.as_str().into(), m, Predicate::LessThan);
            for t in 1..=9 {
                b.threshold((t as f64).into());
            }
            nb.parameters().u64(Box::new(b));
            ms.push(UnresolvedMetricU64::new_parameter_before(nm.as_str()));
        } else {
            nb.parameters().u64(Box::new(Array2ParameterBuilder::<u64>::new(nm.as_str().into(), ndarray::Array2::from_shape_fn((n, ns), |(i, j)| v[i][j] as u64), "g")));
            ms.push(UnresolvedMetricU64::new_parameter_before(nm.as_str()));
        }
    }
    let mut b = match ph {
        0 => AggregatedIndexParameterBuilder::before("p".into(), func()),
        1 => AggregatedIndexParameterBuilder::after("p".into(), func()),
        _ => AggregatedIndexParameterBuilder::both("p".into(), func()),
    };
    for m in ms {
        b.metric(m);
    }
    nb.parameters().u64(Box::new(b));
    let mut pr = vec![];
    if ph != 1 {
        pr.push(param("p"));
    }
    if ph != 0 {
        pr.push(UnresolvedMetricF64::new_parameter_after("p"));
    }
    let g = run_imposed(scen_domain(n, ns)?, nb, pr, Imposed::zero())?;
    for t in 0..n {
        for s in 0..ns {
            let v: Vec<u64> = vs.iter().map(|x| x[t][s] as u64).collect();
            let w = match f {
                0 => v.iter().sum(),
                1 => v.iter().product(),
                2 => v.iter().copied().min().unwrap_or(u64::MAX),
                3 => v.iter().copied().max().unwrap_or(0),
                4 => v.iter().any(|x| *x != 0) as u64,
                _ => v.iter().all(|x| *x != 0) as u64,
            };
            for got in &g[t][s] {
                ensure!(*got == w as f64, "{:?} of {v:?} at step {t} scenario {s}: {got}, expected {w}", func());
            }
        }
    }
    Ok(k > 0)
}
