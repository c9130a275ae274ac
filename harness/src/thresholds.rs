//! C11: threshold and switch parameters.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::parameters::*;

pub const CASES: &[(&str, CaseFn)] = &[("threshold", threshold), ("multi", multi), ("switch", switch)];

fn pred(k: usize) -> Predicate {
    match k {
        0 => Predicate::LessThan,
        1 => Predicate::GreaterThan,
        2 => Predicate::EqualTo,
        3 => Predicate::LessThanOrEqualTo,
        _ => Predicate::GreaterThanOrEqualTo,
    }
}
fn holds(k: usize, v: f64, t: f64) -> bool {
    match k {
        0 => v < t,
        1 => v > t,
        2 => v == t,
        3 => v <= t,
        _ => v >= t,
    }
}
fn threshold(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, k, rat) = (r.us(1, 8), r.us(1, 3), r.us(0, 4), r.p(0.5));
    let v = rand_series(r, n, ns, |r| r.coarse(-1.0, 1.0));
    let t = rand_series(r, n, ns, |r| r.coarse(-0.5, 0.5));
    log.note(format!("predicate={:?} ratchet={rat} value={v:?} threshold={t:?}", pred(k)));
    let mut nb = tiny_network();
    let (mv, mt) = (series(r, &mut nb, "v", &v, false), series(r, &mut nb, "t", &t, false));
    let mut b = ThresholdParameterBuilder::new("p".into(), mv, mt, pred(k));
    if rat {
        b.ratchet();
    }
    nb.parameters().u64(Box::new(b));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero())?;
    for s in 0..ns {
        let mut was = false;
        for i in 0..n {
            let h = holds(k, v[i][s], t[i][s]);
            let w = h || (rat && was);
            was = w;
            expect_eq(&format!("threshold at step {i}, scenario {s}"), g[i][s][0], if w { 1.0 } else { 0.0 })?;
        }
    }
    Ok(true)
}
fn multi(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, k, rat, nt) = (r.us(1, 8), r.us(1, 3), r.us(0, 4), r.p(0.5), r.us(0, 4));
    let v = rand_series(r, n, ns, |r| r.coarse(-1.0, 1.0));
    let ts: Vec<Series> = (0..nt).map(|_| rand_series(r, n, ns, |r| r.coarse(-1.0, 1.0))).collect();
    log.note(format!("multi predicate={:?} ratchet={rat} value={v:?} thresholds={ts:?}", pred(k)));
    let mut nb = tiny_network();
    let mv = series(r, &mut nb, "v", &v, false);
    let mut b = MultiThresholdParameterBuilder::new("p".into(), mv, pred(k));
    for (j, t) in ts.iter().enumerate() {
        let m = series(r, &mut nb, &format!("t{j}"), t, false);
        b.threshold(m);
    }
    if rat {
        b.ratchet();
    }
    nb.parameters().u64(Box::new(b));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero())?;
    for s in 0..ns {
        let mut max = 0;
        for i in 0..n {
            let mut w = (0..nt).find(|j| holds(k, v[i][s], ts[*j][i][s])).unwrap_or(nt);
            if rat {
                w = w.max(max);
                max = w;
            }
            expect_eq(&format!("multi-threshold index at step {i}, scenario {s}"), g[i][s][0], w as f64)?;
        }
    }
    Ok(nt > 0)
}
fn switch(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns) = (r.us(1, 10), r.us(1, 3));
    let on = rand_series(r, n, ns, |r| r.int(0, 2) as f64);
    let off = rand_series(r, n, ns, |r| r.int(0, 2) as f64);
    log.note(format!("asymmetric switch on={on:?} off={off:?}"));
    let mut nb = tiny_network();
    // index inputs: the number of leading thresholds not met equals the series value
    let mut idx = |r: &mut Rng, name: &str, v: &Series| -> UnresolvedMetricU64 {
        let flat = v.iter().all(|row| row.iter().all(|x| *x == v[0][0]));
        if flat && r.p(0.5) {
            return (v[0][0] as u64).into();
        }
        let m = series(r, &mut nb, &format!("{name}_v"), v, false);
        let mut b = MultiThresholdParameterBuilder::new(name.into(), m, Predicate::LessThan);
        b.threshold(1.0.into()).threshold(2.0.into());
        nb.parameters().u64(Box::new(b));
        UnresolvedMetricU64::new_parameter_before(name)
    };
    let (a, b) = (idx(r, "on", &on), idx(r, "off", &off));
    nb.parameters().u64(Box::new(AsymmetricSwitchIndexParameterBuilder::before("p".into(), a, b)));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero())?;
    for s in 0..ns {
        let mut st = false;
        for i in 0..n {
            st = on[i][s] > 0.0 || (st && off[i][s] != 0.0);
            expect_eq(&format!("switch at step {i}, scenario {s}"), g[i][s][0], if st { 1.0 } else { 0.0 })?;
        }
    }
    Ok(true)
}
