//! C09: piecewise linear interpolation.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::parameters::*;

pub const CASES: &[(&str, CaseFn)] = &[("interpolate", segment), ("linear", linear), ("parameter", parameter)];

fn seg(v: f64, lb: f64, ub: f64, lv: f64, uv: f64) -> f64 {
    if v <= lb {
        lv
    } else if v >= ub {
        uv
    } else {
        lv + (uv - lv) * (v - lb) / (ub - lb)
    }
}
fn segment(r: &mut Rng, log: &mut Log) -> Res {
    let (v, lb, lv, uv) = (r.val(-10.0, 10.0), r.val(-10.0, 10.0), r.val(-50.0, 50.0), r.val(-50.0, 50.0));
    let ub = lb + r.pick(&[0.001, 0.25, 1.0, 7.5, 20.0]);
    log.note(format!("interpolate({v},{lb},{ub},{lv},{uv})"));
    let g = interpolate(v, lb, ub, lv, uv);
    expect_eq("interpolate", g, seg(v, lb, ub, lv, uv))?;
    ensure!(g >= lv.min(uv) - 1e-9 && g <= lv.max(uv) + 1e-9, "result {g} outside the end values");
    Ok(v > lb && v < ub)
}
enum Want {
    Val(f64),
    Err,
}
fn points(r: &mut Rng) -> Vec<(f64, f64)> {
    let n = r.us(0, 6);
    let mut x = r.coarse(-10.0, 0.0);
    (0..n)
        .map(|_| {
            let p = (x, r.val(-50.0, 50.0));
            x += r.pick(&[0.25, 0.5, 1.0, 3.25]);
            p
        })
        .collect()
}
fn pick_x(r: &mut Rng, p: &[(f64, f64)]) -> f64 {
    if !p.is_empty() && r.p(0.3) {
        let i = r.us(0, p.len() - 1);
        p[i].0
    } else {
        r.val(-13.0, 15.0)
    }
}
fn want(v: f64, p: &[(f64, f64)], eob: bool) -> Want {
    if p.len() < 2 {
        return Want::Err;
    }
    let l = p[p.len() - 1];
    if v < p[0].0 {
        return if eob { Want::Err } else { Want::Val(p[0].1) };
    }
    if v > l.0 {
        return if eob { Want::Err } else { Want::Val(l.1) };
    }
    for w in p.windows(2) {
        if v <= w[1].0 {
            return Want::Val(seg(v, w[0].0, w[1].0, w[0].1, w[1].1));
        }
    }
    Want::Err
}
fn linear(r: &mut Rng, log: &mut Log) -> Res {
    let p = points(r);
    let v = pick_x(r, &p);
    let eob = r.p(0.5);
    log.note(format!("linear_interpolation({v}, {p:?}, error_on_bounds={eob})"));
    match (linear_interpolation(v, &p, eob), want(v, &p, eob)) {
        (Ok(g), Want::Val(w)) => expect_eq("interpolated value", g, w)?,
        (Err(_), Want::Err) => {}
        (Ok(g), Want::Err) => return Err(format!("returned {g}, expected an error")),
        (Err(e), Want::Val(w)) => return Err(format!("failed with {e:?}, expected {w}")),
    }
    Ok(p.len() > 2)
}
fn parameter(r: &mut Rng, log: &mut Log) -> Res {
    let p = points(r);
    let n = r.us(1, 6);
    let eob = r.p(0.3);
    let xs: Vec<f64> = (0..n).map(|_| pick_x(r, &p)).collect();
    log.note(format!("InterpolatedParameter x={xs:?} points={p:?} error_on_bounds={eob}"));
    let mut nb = tiny_network();
    nb.parameters().f64(Box::new(VectorParameterBuilder::new("x".into(), &xs)));
    let pts: Vec<(UnresolvedMetricF64, UnresolvedMetricF64)> = p.iter().map(|(a, b)| ((*a).into(), (*b).into())).collect();
    let mut ib = InterpolatedParameterBuilder::new("p".into(), param("x"), pts);
    if !eob || r.p(0.5) {
        ib.error_on_bounds(eob);
    }
    nb.parameters().f64(Box::new(ib));
    let d = domain(days_domain((2021, 1, 1), n, 1), &[])?;
    let got = run_imposed(d, nb, vec![param("p")], Imposed::zero());
    let ws: Vec<Want> = xs.iter().map(|x| want(*x, &p, eob)).collect();
    let any_err = ws.iter().any(|w| matches!(w, Want::Err));
    match got {
        Err(e) => ensure!(any_err, "run failed: {e}"),
        Ok(g) => {
            ensure!(!any_err, "run succeeded but an error was expected");
            for t in 0..n {
                if let Want::Val(w) = ws[t] {
                    expect_eq(&format!("timestep {t}"), g[t][0][0], w)?;
                }
            }
        }
    }
    Ok(p.len() > 1)
}
