//! C21: variable API and activation functions; RBF profile.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::models::*;
use pywr_core::parameters::*;

pub const CASES: &[(&str, CaseFn)] =
    &[("activation", activation), ("offset", offset), ("constant", constant), ("rbf", rbf), ("rbf_functions", rbf_functions)];

fn act(r: &mut Rng) -> (ActivationFunction, String) {
    let (a, b) = (r.val(-5.0, 5.0), r.val(0.0, 10.0));
    let n = r.val(-5.0, 5.0);
    match r.us(0, 3) {
        0 => (ActivationFunction::Unit { min: a, max: a + b }, format!("Unit({a},{})", a + b)),
        1 => (ActivationFunction::Rectifier { min: a, max: a + b, neg_value: n }, format!("Rectifier({a},{},{n})", a + b)),
        2 => (ActivationFunction::BinaryStep { pos_value: a, neg_value: n }, format!("BinaryStep({a},{n})")),
        _ => (ActivationFunction::Logistic { growth_rate: b / 4.0, max: a }, format!("Logistic({},{a})", b / 4.0)),
    }
}
fn bounds(f: &ActivationFunction) -> (f64, f64) {
    match f {
        ActivationFunction::Unit { min, max } => (*min, *max),
        ActivationFunction::Logistic { .. } => (-6.0, 6.0),
        _ => (-1.0, 1.0),
    }
}
fn apply(f: &ActivationFunction, v: f64) -> f64 {
    let (l, u) = bounds(f);
    let x = if v < l { l } else if v > u { u } else { v };
    match f {
        ActivationFunction::Unit { .. } => x,
        ActivationFunction::Rectifier { min, max, neg_value } => if x > 0.0 { min + (max - min) * x } else { *neg_value },
        ActivationFunction::BinaryStep { pos_value, neg_value } => if x > 0.0 { *pos_value } else { *neg_value },
        ActivationFunction::Logistic { growth_rate, max } => max / (1.0 + (-growth_rate * x).exp()),
    }
}
fn activation(r: &mut Rng, log: &mut Log) -> Res {
    let (f, d) = act(r);
    let v = if r.p(0.2) { r.pick(&[0.0, -1.0, 1.0, -6.0, 6.0]) } else { r.val(-8.0, 8.0) };
    log.note(format!("{d}.apply({v})"));
    expect_eq("lower bound", f.lower_bound(), bounds(&f).0)?;
    expect_eq("upper bound", f.upper_bound(), bounds(&f).1)?;
    expect_eq("activation", f.apply(v), apply(&f, v))?;
    Ok(true)
}
enum Which {
    Offset(f64, f64),
    Constant(f64),
}
fn exercise(r: &mut Rng, log: &mut Log, w: Which) -> Res {
    let ns = r.us(1, 3);
    let nt = r.us(1, 3);
    let mut nb = tiny_network();
    let base = match &w {
        Which::Offset(x, o) => {
            nb.parameters().f64(Box::new(VectorParameterBuilder::new("x".into(), &vec![*x; nt])));
            nb.parameters().f64(Box::new(OffsetParameterBuilder::new("p".into(), param("x"), *o)));
            *o
        }
        Which::Constant(c) => {
            nb.parameters().f64(Box::new(ConstantParameterBuilder::new("p".into(), *c)));
            *c
        }
    };
    let x = if let Which::Offset(x, _) = &w { *x } else { 0.0 };
    let (rec, out) = probe(vec![param("p")]);
    nb.recorder(rec);
    let m = ModelBuilder::new(domain(days_domain((2021, 1, 1), nt, 1), &[("s", ns)])?, nb).build().map_err(es)?;
    let st = Imposed::zero();
    let mut state = m.setup::<FlowSolver>(&st).map_err(es)?;
    let idx = m.network().get_parameter_index_by_name(&"p".into()).ok_or("parameter not found")?;
    let mut cur: Vec<Option<f64>> = vec![None; ns];
    for _ in 0..r.us(0, 4) {
        let (f, d) = act(r);
        let k = if r.p(0.7) { 1 } else { r.pick(&[0usize, 2, 3]) };
        let vs = r.vals(k, -8.0, 8.0);
        let sc = if r.p(0.5) { Some(r.us(0, ns - 1)) } else { None };
        log.note(format!("set {vs:?} with {d} on scenario {sc:?}"));
        let res = match sc {
            None => m.network().set_f64_parameter_variable_values(idx, &vs, &f, state.network_state_mut()),
            Some(s) => {
                let si = m.domain().scenarios().indices()[s].clone();
                m.network().set_f64_parameter_variable_values_for_scenario(idx, si, &vs, &f, state.network_state_mut())
            }
        };
        ensure!(res.is_ok() == (k == 1), "setting {k} values gave {res:?}");
        if k == 1 {
            for s in 0..ns {
                if sc.is_none() || sc == Some(s) {
                    cur[s] = Some(apply(&f, vs[0]));
                }
            }
        }
        let got = m.network().get_f64_parameter_variable_values(idx, state.network_state()).map_err(es)?;
        ensure!(got.len() == ns, "{} scenarios of values", got.len());
        for s in 0..ns {
            match (&got[s], cur[s]) {
                (None, None) => {}
                (Some(v), Some(c)) if v.len() == 1 && close(v[0], c) => {}
                (g, c) => return Err(format!("scenario {s}: variable values {g:?}, expected {c:?}")),
            }
            let si = m.domain().scenarios().indices()[s].clone();
            let one = m.network().get_f64_parameter_variable_values_for_scenario(idx, si, state.network_state()).map_err(es)?;
            ensure!(one == got[s], "per-scenario read {one:?} differs from {:?}", got[s]);
        }
    }
    m.run_with_state::<FlowSolver>(&mut state, &st, &mut ModelTimings::new_with_component_timings(m.network())).map_err(es)?;
    let g = out.lock().unwrap().clone();
    ensure!(g.len() == nt, "{} timesteps saved", g.len());
    for t in 0..nt {
        for s in 0..ns {
            let want = x + cur[s].unwrap_or(base);
            if !close(g[t][s][0], want) {
                let known = matches!(w, Which::Constant(_)) && cur[s].is_some() && close(g[t][s][0], base);
                return Err(format!("{}timestep {t} scenario {s}: value {} after setting the variable, expected {want}", if known { "KNOWN[constant-variable-ignored] " } else { "" }, g[t][s][0]));
            }
        }
    }
    Ok(cur.iter().any(|c| c.is_some()))
}
fn offset(r: &mut Rng, log: &mut Log) -> Res {
    let w = Which::Offset(r.val(-5.0, 5.0), r.val(-5.0, 5.0));
    exercise(r, log, w)
}
fn constant(r: &mut Rng, log: &mut Log) -> Res {
    let w = Which::Constant(r.val(-5.0, 5.0));
    exercise(r, log, w)
}
fn days(r: &mut Rng, n: usize) -> Vec<u32> {
    let mut v: Vec<u32> = vec![];
    let mut d = r.int(0, 60);
    for _ in 0..n {
        v.push(d as u32);
        d += r.int(20, 70);
    }
    v.retain(|d| *d < 345);
    v
}
fn pick_fn(r: &mut Rng) -> (RadialBasisFunction, &'static str) {
    match r.us(0, 5) {
        0 => (RadialBasisFunction::Linear, "linear"),
        1 => (RadialBasisFunction::Cubic, "cubic"),
        2 => (RadialBasisFunction::Gaussian { epsilon: 1.0 / 25.0 }, "gaussian"),
        3 => (RadialBasisFunction::MultiQuadric { epsilon: 1.0 / 20.0 }, "multiquadric"),
        4 => (RadialBasisFunction::InverseMultiQuadric { epsilon: 1.0 / 20.0 }, "inversemultiquadric"),
        _ => (RadialBasisFunction::ThinPlateSpline, "thinplatespline"),
    }
}
/// the profile takes the value of each point on the day of the point, before and after updates
fn rbf(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(2, 5);
    let mut xs = days(r, n);
    let n = xs.len();
    let mut ys = r.vals(n, 0.0, 10.0);
    let (f, fname) = pick_fn(r);
    log.note(format!("rbf {fname} x={xs:?} y={ys:?}"));
    let mut nb = tiny_network();
    nb.parameters().f64(Box::new(RbfProfileParameterBuilder::new("p".into(), xs.iter().cloned().zip(ys.iter().cloned()).collect::<Vec<_>>(), f)));
    let (rec, out) = probe(vec![param("p")]);
    nb.recorder(rec);
    let m = ModelBuilder::new(domain(days_domain((2020, 1, 1), 366, 1), &[])?, nb).build().map_err(es)?;
    let st = Imposed::zero();
    let mut state = m.setup::<FlowSolver>(&st).map_err(es)?;
    let idx = m.network().get_parameter_index_by_name(&"p".into()).ok_or("parameter not found")?;
    let cfg = RbfProfileVariableConfig::new(if r.p(0.7) { Some(r.int(0, 40) as u32) } else { None }, 10.0, 0.5);
    // bounds and sizes
    {
        let p = m.network().get_parameter(idx).ok_or("no parameter")?;
        let v = p.as_f64_variable().ok_or("not an f64 variable")?;
        ensure!(v.size(&cfg) == n && v.get_lower_bounds(&cfg) == Some(vec![0.5; n]) && v.get_upper_bounds(&cfg) == Some(vec![10.0; n]), "f64 size or bounds");
        let v = p.as_u32_variable().ok_or("not a u32 variable")?;
        match cfg.days_of_year_range() {
            None => ensure!(v.size(&cfg) == 0 && v.get_lower_bounds(&cfg).is_none() && v.get_upper_bounds(&cfg).is_none(), "u32 size or bounds without a range"),
            Some(d) => {
                let lo: Vec<u32> = xs.iter().map(|x| if *x > d { x - d } else { 1 }).collect();
                let hi: Vec<u32> = xs.iter().map(|x| if x + d < 365 { x + d } else { 365 }).collect();
                ensure!(v.size(&cfg) == n && v.get_lower_bounds(&cfg) == Some(lo) && v.get_upper_bounds(&cfg) == Some(hi), "u32 size or bounds: {:?} {:?}", v.get_lower_bounds(&cfg), v.get_upper_bounds(&cfg));
            }
        }
    }
    for _ in 0..r.us(0, 3) {
        if r.p(0.5) {
            let k = if r.p(0.8) { n } else { n + 1 };
            let v = r.vals(k, 0.0, 10.0);
            log.note(format!("set y {v:?}"));
            let e = m.network().set_f64_parameter_variable_values(idx, &v, &cfg, state.network_state_mut());
            ensure!(e.is_ok() == (k == n), "set y: {e:?}");
            if k == n {
                ys = v;
                let g = m.network().get_f64_parameter_variable_values(idx, state.network_state()).map_err(es)?;
                ensure!(g == vec![Some(ys.clone())], "y read back as {g:?}");
            }
        } else {
            let mut v = xs.clone();
            if r.p(0.2) {
                v.pop();
            } else {
                for d in v.iter_mut() {
                    *d += r.int(0, 9) as u32;
                }
            }
            log.note(format!("set x {v:?}"));
            let e = m.network().set_u32_parameter_variable_values(idx, &v, &cfg, state.network_state_mut());
            ensure!(e.is_ok() == (v.len() == n), "set x: {e:?}");
            if v.len() == n {
                xs = v;
                let si = m.domain().scenarios().indices()[0].clone();
                let g = m.network().get_u32_parameter_variable_values_for_scenario(idx, si, state.network_state()).map_err(es)?;
                ensure!(g == Some(xs.clone()), "x read back as {g:?}");
            }
        }
    }
    m.run_with_state::<FlowSolver>(&mut state, &st, &mut ModelTimings::new_with_component_timings(m.network())).map_err(|e| format!("run: {}", es(e)))?;
    let g = out.lock().unwrap().clone();
    let prof: Vec<f64> = g.iter().map(|t| t[0][0]).collect();
    let at = |d: u32| prof[if d <= 58 { d as usize } else { d as usize + 1 }];
    for i in 0..n {
        ensure!((at(xs[i]) - ys[i]).abs() < 1e-3, "profile on day {} is {}, the point's value is {}", xs[i], at(xs[i]), ys[i]);
    }
    ensure!(close(prof[59], prof[58]), "29 February {} differs from 28 February {}", prof[59], prof[58]);
    Ok(true)
}
/// linear basis functions: the profile is piecewise linear between points (a known closed form)
fn rbf_functions(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(2, 5);
    let xs = days(r, n);
    let n = xs.len();
    let ys = r.vals(n, 0.0, 10.0);
    log.note(format!("rbf linear x={xs:?} y={ys:?}"));
    let mut nb = tiny_network();
    nb.parameters().f64(Box::new(RbfProfileParameterBuilder::new("p".into(), xs.iter().cloned().zip(ys.iter().cloned()).collect::<Vec<_>>(), RadialBasisFunction::Linear)));
    let g = run_imposed(domain(days_domain((2020, 1, 1), 366, 1), &[])?, nb, vec![param("p")], Imposed::zero())?;
    let prof: Vec<f64> = g.iter().map(|t| t[0][0]).collect();
    for i in 0..n {
        let (x0, y0) = (xs[i] as f64, ys[i]);
        let (x1, y1) = if i + 1 < n { (xs[i + 1] as f64, ys[i + 1]) } else { (xs[0] as f64 + 365.0, ys[0]) };
        let mut d = x0;
        while d <= x1 {
            let k = (d as usize) % 365;
            let v = prof[if k <= 58 { k } else { k + 1 }];
            let w = y0 + (y1 - y0) * (d - x0) / (x1 - x0);
            ensure!((v - w).abs() < 1e-6, "linear basis on day {k}: {v}, expected {w}");
            d += 1.0;
        }
    }
    Ok(true)
}
