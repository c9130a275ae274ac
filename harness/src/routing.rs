//! C20: routing and hydropower.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use crate::memory::impose;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::parameters::*;

pub const CASES: &[(&str, CaseFn)] = &[("muskingum", muskingum), ("hydropower target", target), ("hydropower output", output)];

fn coefficient(key: &str) -> UnresolvedMetricF64 {
    UnresolvedMetricF64::MultiParameterValue { name: "p".into(), key: key.to_string(), return_value: ParameterReturnValue::Before }
}
fn muskingum(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, steady) = (r.us(1, 6), r.us(1, 3), r.p(0.5));
    let k = rand_series(r, n, ns, |r| r.val(0.1, 3.0));
    let x = rand_series(r, n, ns, |r| r.val(0.0, 0.5));
    let fl = rand_series(r, n, ns, |r| r.val(0.0, 9.0));
    let other = rand_series(r, n, ns, |r| r.val(0.0, 9.0));
    let (i0, o0) = (r.val(0.0, 9.0), r.val(0.0, 9.0));
    log.note(format!("steady={steady} initial=({i0},{o0}) travel={k:?} weight={x:?} inflow={fl:?} outflow={other:?}"));
    // a network of two separate rivers: one carries the inflow, the other the outflow
    let mut nb = tiny_network();
    nb.node(pywr_core::NodeBuilder::input("win"));
    nb.node(pywr_core::NodeBuilder::output("wout"));
    nb.connect("win", "wout");
    let (mk, mx) = (series(r, &mut nb, "k", &k, false), series(r, &mut nb, "w", &x, false));
    let swap = r.p(0.5);
    let (a, b) = if swap { ("win", "vout") } else { ("vin", "wout") };
    let ic = if steady { MuskingumInitialCondition::SteadyState } else { MuskingumInitialCondition::Specified { inflow: i0, outflow: o0 } };
    nb.parameters().multi(Box::new(MuskingumParameterBuilder::new("p".into(), UnresolvedMetricF64::NodeOutFlow(a.into()), UnresolvedMetricF64::NodeInFlow(b.into()), mk, mx, ic)));
    let (v, w, cnt) = (fl.clone(), other.clone(), std::sync::atomic::AtomicUsize::new(0));
    let imp = Imposed::new(move |_, _, _| {
        let c = cnt.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let (i, s) = (c / ns, c % ns);
        Ok(if swap { vec![w[i][s], v[i][s]] } else { vec![v[i][s], w[i][s]] })
    });
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![coefficient("inflow_factor"), coefficient("rhs")], imp)?;
    for s in 0..ns {
        for t in 0..n {
            let (f, b) = (g[t][s][0], g[t][s][1]);
            let i1 = r.val(0.0, 9.0);
            let o1 = b - f * i1;
            if t == 0 && steady {
                expect_eq(&format!("outflow for the inflow {i1} at the first step, scenario {s}"), o1, i1)?;
                continue;
            }
            let (i, o) = if t == 0 { (i0, o0) } else { (fl[t - 1][s], other[t - 1][s]) };
            let (k, x) = (k[t][s], x[t][s]);
            let held = |i: f64, o: f64| k * (x * i + (1.0 - x) * o);
            let (change, net) = (held(i1, o1) - held(i, o), (i + i1) / 2.0 - (o + o1) / 2.0);
            ensure!((change - net).abs() < 1e-8 * (1.0 + change.abs() + net.abs() + i1 + i + o), "step {t}, scenario {s}: {i} in and {o} out, then {i1} in and {o1} out: {net} more water came in than went out, but the reach holds {change} more");
        }
    }
    Ok(true)
}
struct Turbine {
    head: f64,
    min_head: f64,
    per_flow: f64,
    data: HydropowerTargetData,
}
fn turbine(r: &mut Rng) -> (f64, f64, f64, HydropowerTargetData) {
    let elevation = r.p(0.7).then(|| r.coarse(0.0, 20.0));
    let min_head = r.p(0.6).then(|| r.coarse(0.0, 10.0));
    let efficiency = r.p(0.6).then(|| r.val(0.3, 1.0));
    let water_density = r.p(0.5).then(|| r.val(900.0, 1100.0));
    let flow_unit_conversion = r.p(0.5).then(|| r.val(0.1, 3.0));
    let energy_unit_conversion = r.p(0.5).then(|| r.val(1e-6, 1e-3));
    let per_flow_at_head_1 = energy_unit_conversion.unwrap_or(1e-6) * water_density.unwrap_or(1000.0) * 9.81 * efficiency.unwrap_or(1.0) * flow_unit_conversion.unwrap_or(1.0);
    (
        elevation.unwrap_or(0.0),
        min_head.unwrap_or(0.0),
        per_flow_at_head_1,
        HydropowerTargetData { actual_flow: None, target: None, elevation, min_head, max_flow: None, min_flow: None, efficiency, water_elevation: None, water_density, flow_unit_conversion, energy_unit_conversion },
    )
}
fn head(level: Option<f64>, elevation: f64) -> f64 {
    let h = match level {
        Some(l) => l - elevation,
        None => elevation,
    };
    if h > 0.0 { h } else { 0.0 }
}
fn target(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns) = (r.us(1, 4), r.us(1, 3));
    let (elev, min_head, per, mut data) = turbine(r);
    let level = r.p(0.7).then(|| rand_series(r, n, ns, |r| r.coarse(0.0, 40.0)));
    let power = rand_series(r, n, ns, |r| r.val(0.0, 60.0));
    let (lo, hi) = (r.p(0.5).then(|| rand_series(r, n, ns, |r| r.coarse(0.0, 40.0))), r.p(0.5).then(|| rand_series(r, n, ns, |r| r.coarse(0.0, 40.0))));
    log.note(format!("target turbine at {elev} min head {min_head} power per flow per head {per} level={level:?} power={power:?} min={lo:?} max={hi:?}"));
    let mut nb = tiny_network();
    data.target = Some(series(r, &mut nb, "t", &power, false));
    data.water_elevation = level.as_ref().map(|l| series(r, &mut nb, "l", l, false));
    data.min_flow = lo.as_ref().map(|l| series(r, &mut nb, "lo", l, false));
    data.max_flow = hi.as_ref().map(|l| series(r, &mut nb, "hi", l, false));
    nb.parameters().f64(Box::new(HydropowerTargetParameterBuilder::new("p".into(), data)));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero())?;
    for s in 0..ns {
        for t in 0..n {
            let h = head(level.as_ref().map(|l| l[t][s]), elev);
            let mut w = 0.0;
            if h > min_head {
                w = power[t][s] / (per * h);
                if let Some(x) = &hi && w > x[t][s] {
                    w = x[t][s];
                }
                if let Some(x) = &lo && w < x[t][s] {
                    w = x[t][s];
                }
            }
            expect_eq(&format!("flow for the target power at step {t}, scenario {s} (head {h})"), g[t][s][0], w)?;
        }
    }
    Ok(true)
}
fn output(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns) = (r.us(1, 4), r.us(1, 3));
    let (elev, min_head, per, mut data) = turbine(r);
    let level = r.p(0.7).then(|| rand_series(r, n, ns, |r| r.coarse(0.0, 40.0)));
    let fl = rand_series(r, n, ns, |r| r.val(0.0, 60.0));
    let both = r.p(0.3);
    log.note(format!("output turbine at {elev} min head {min_head} power per flow per head {per} level={level:?} flow={fl:?} both={both}"));
    let mut nb = tiny_network();
    data.actual_flow = Some(UnresolvedMetricF64::NodeOutFlow("vin".into()));
    data.water_elevation = level.as_ref().map(|l| series(r, &mut nb, "l", l, false));
    if both {
        data.target = Some(1.0.into());
    }
    nb.parameters().f64(Box::new(HydropowerTargetParameterBuilder::new("p".into(), data)));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![UnresolvedMetricF64::new_parameter_after("p")], impose(&fl))?;
    for s in 0..ns {
        for t in 0..n {
            let h = head(level.as_ref().map(|l| l[t][s]), elev);
            expect_eq(&format!("power at step {t}, scenario {s} (head {h})"), g[t][s][0], if h > min_head { fl[t][s] * per * h } else { 0.0 })?;
        }
    }
    Ok(true)
}
