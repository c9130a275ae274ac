//! C10: control curve parameters.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::parameters::*;

pub const CASES: &[(&str, CaseFn)] = &[("bands", bands), ("apportion", apportion), ("between", between), ("storage_bands", storage_bands)];

fn first(x: f64, cc: &[f64]) -> usize {
    cc.iter().position(|c| x >= *c).unwrap_or(cc.len())
}
fn check(what: &str, got: f64, x: f64, lb: f64, ub: f64, lv: f64, uv: f64) -> Result<(), String> {
    if x <= lb {
        return expect_eq(what, got, lv);
    }
    if x >= ub {
        return expect_eq(what, got, uv);
    }
    if ub - lb > 1e-6 {
        return expect_eq(what, got, lv + (uv - lv) * (x - lb) / (ub - lb));
    }
    ensure!(got >= lv.min(uv) - 1e-9 && got <= lv.max(uv) + 1e-9, "{what}: {got} outside {lv}..{uv}");
    Ok(())
}
fn curves(r: &mut Rng, n: usize, ns: usize) -> Vec<Series> {
    let k = r.us(0, 4);
    let mut cc: Vec<Series> = (0..k).map(|_| rand_series(r, n, ns, |r| if r.p(0.5) { r.int(0, 10) as f64 / 10.0 } else { r.f(0.0, 1.0) })).collect();
    if r.p(0.7) {
        for i in 0..n {
            for s in 0..ns {
                let mut v: Vec<f64> = cc.iter().map(|c| c[i][s]).collect();
                v.sort_by(|a, b| b.total_cmp(a));
                for (c, x) in cc.iter_mut().zip(v) {
                    c[i][s] = x;
                }
            }
        }
    }
    cc
}
fn bands(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, kind) = (r.us(1, 5), r.us(1, 3), r.us(0, 3));
    let cc = curves(r, n, ns);
    let k = cc.len();
    let mut x = rand_series(r, n, ns, |r| if r.p(0.3) { r.int(0, 10) as f64 / 10.0 } else { r.f(-0.1, 1.1) });
    if k > 0 && r.p(0.5) {
        let (i, s, j) = (r.us(0, n - 1), r.us(0, ns - 1), r.us(0, k - 1));
        x[i][s] = cc[j][i][s];
    }
    let nv = match kind { 1 => k + 1, 2 => k + 2, _ => 0 };
    let vals: Vec<Series> = (0..nv).map(|_| rand_series(r, n, ns, |r| r.val(-5.0, 5.0))).collect();
    let pw: Vec<[f64; 2]> = (0..=k).map(|_| [r.val(-5.0, 5.0), r.val(-5.0, 5.0)]).collect();
    let (mx, mn) = if r.p(0.5) { (1.0, 0.0) } else { (r.f(1.0, 2.0), r.f(-1.0, 0.0)) };
    let mut nb = tiny_network();
    let mut ms = |r: &mut Rng, p: &str, v: &[Series]| -> Vec<UnresolvedMetricF64> { v.iter().enumerate().map(|(j, s)| series(r, &mut nb, &format!("{p}{j}"), s, false)).collect() };
    let mc = ms(r, "c", &cc);
    let mv = ms(r, "v", &vals);
    let mx_ = ms(r, "x", &[x.clone()]).remove(0);
    log.note(format!("kind={} x={x:?} curves={cc:?} values={vals:?} pairs={pw:?} max={mx} min={mn}", ["index", "simple", "interpolated", "piecewise"][kind]));
    macro_rules! b {
        ($b:expr) => {{
            let mut b = $b;
            for c in mc { b.control_curve(c); }
            b
        }};
    }
    match kind {
        0 => { nb.parameters().u64(Box::new(b!(ControlCurveIndexParameterBuilder::before("p".into(), mx_)))); }
        1 => {
            let mut b = b!(ControlCurveParameterBuilder::before("p".into(), mx_));
            for v in mv { b.value(v); }
            nb.parameters().f64(Box::new(b));
        }
        2 => {
            let mut b = b!(ControlCurveInterpolatedParameterBuilder::before("p".into(), mx_));
            for v in mv { b.value(v); }
            nb.parameters().f64(Box::new(b));
        }
        _ => {
            let mut b = b!(PiecewiseInterpolatedParameterBuilder::before("p".into(), mx_, mx, mn));
            for v in &pw { b.value(*v); }
            nb.parameters().f64(Box::new(b));
        }
    }
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero())?;
    for i in 0..n {
        for s in 0..ns {
            let c: Vec<f64> = cc.iter().map(|c| c[i][s]).collect();
            let xx = x[i][s];
            let f = first(xx, &c);
            let got = g[i][s][0];
            let what = format!("step {i} scenario {s}: x={xx} band={f}");
            let lo = |b: f64| if f < k { c[f] } else { b };
            let hi = |t: f64| if f == 0 { t } else { c[f - 1] };
            match kind {
                0 => expect_eq(&what, got, f as f64)?,
                1 => expect_eq(&what, got, vals[f][i][s])?,
                2 => check(&what, got, xx, lo(0.0), hi(1.0), vals[f + 1][i][s], vals[f][i][s])?,
                _ => check(&what, got, xx, lo(mn), hi(mx), pw[f][1], pw[f][0])?,
            }
        }
    }
    Ok(true)
}
fn apportion(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns) = (r.us(1, 5), r.us(1, 3));
    let x = rand_series(r, n, ns, |r| r.val(0.0, 10.0));
    let c = rand_series(r, n, ns, |r| if r.p(0.2) { r.pick(&[0.0, 1.0, -0.5, 1.5]) } else { r.f(0.0, 1.0) });
    log.note(format!("apportion x={x:?} curve={c:?}"));
    let mut nb = tiny_network();
    let (mx, mc) = (series(r, &mut nb, "x", &x, false), series(r, &mut nb, "c", &c, false));
    nb.parameters().multi(Box::new(ApportionParameterBuilder::before("p".into(), mx, mc)));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![UnresolvedMetricF64::new_parameter_before_key("p", "upper"), UnresolvedMetricF64::new_parameter_before_key("p", "lower")], Imposed::zero())?;
    for i in 0..n {
        for s in 0..ns {
            let cl = c[i][s].max(0.0).min(1.0);
            expect_eq(&format!("lower at {i},{s}"), g[i][s][1], cl * x[i][s])?;
            expect_eq(&format!("upper at {i},{s}"), g[i][s][0], (1.0 - cl) * x[i][s])?;
        }
    }
    Ok(true)
}
fn between(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns) = (r.us(1, 5), r.us(1, 3));
    let t = rand_series(r, n, ns, |r| r.val(0.0, 10.0));
    let l = if r.p(0.6) { Some(rand_series(r, n, ns, |r| r.val(0.0, 1.0))) } else { None };
    let u = if r.p(0.6) { Some(rand_series(r, n, ns, |r| r.val(0.0, 1.0))) } else { None };
    log.note(format!("volume between total={t:?} lower={l:?} upper={u:?}"));
    let mut nb = tiny_network();
    let mt = series(r, &mut nb, "t", &t, true);
    let mut b = VolumeBetweenControlCurvesParameterBuilder::new("p".into(), mt);
    if let Some(l) = &l {
        let m = series(r, &mut nb, "l", l, true);
        b.lower(m);
    }
    if let Some(u) = &u {
        let m = series(r, &mut nb, "u", u, true);
        b.upper(m);
    }
    nb.parameters().f64(Box::new(b));
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero())?;
    for i in 0..n {
        for s in 0..ns {
            let w = t[i][s] * (u.as_ref().map_or(1.0, |u| u[i][s]) - l.as_ref().map_or(0.0, |l| l[i][s]));
            expect_eq(&format!("volume between at {i},{s}"), g[i][s][0], w)?;
        }
    }
    Ok(true)
}
/// control curves driven by the real proportional volume of a reservoir
fn storage_bands(r: &mut Rng, log: &mut Log) -> Res {
    use pywr_core::NodeBuilder;
    let n = r.us(2, 8);
    let cap = r.val(10.0, 100.0);
    let init = r.f(0.0, 1.0);
    let f: Vec<f64> = r.vals(n, -5.0, 5.0);
    let cc: f64 = r.f(0.1, 0.9);
    log.note(format!("reservoir capacity={cap} initial={init} net flow={f:?} curve={cc}"));
    let mut nb = pywr_core::network::NetworkBuilder::default();
    nb.node(NodeBuilder::input("in"));
    nb.node(NodeBuilder::output("out"));
    let mut s = NodeBuilder::storage("res");
    s.initial_volume(pywr_core::node::UnresolvedStorageInitialVolume::Proportional(init)).max_volume(cap.into());
    nb.node(s);
    nb.connect("in", "res");
    nb.connect("res", "out");
    let mut b = ControlCurveIndexParameterBuilder::before("p".into(), UnresolvedMetricF64::NodeProportionalVolume("res".into()));
    b.control_curve(cc.into());
    nb.parameters().u64(Box::new(b));
    // impose flows that keep the volume within bounds
    let mut vol = vec![init * cap];
    let mut q = vec![];
    for x in &f {
        let nv = (vol[vol.len() - 1] + x).clamp(0.0, cap);
        q.push(nv - vol[vol.len() - 1]);
        vol.push(nv);
    }
    let qq = q.clone();
    let g = run_imposed(domain(days_domain((2021, 1, 1), n, 1), &[])?, nb, vec![param("p"), UnresolvedMetricF64::NodeVolume("res".into())],
        Imposed::new(move |_, t, _| Ok(vec![qq[t.index].max(0.0), (-qq[t.index]).max(0.0)])))?;
    for i in 0..n {
        let p = vol[i] / cap;
        if (p - cc).abs() > 1e-6 {
            expect_eq(&format!("index at step {i} (proportional volume {p})"), g[i][0][0], if p >= cc { 0.0 } else { 1.0 })?;
        }
        ensure!(close_tol(g[i][0][1], vol[i + 1], 1e-5), "volume after step {i}: {} expected {}", g[i][0][1], vol[i + 1]);
    }
    Ok(true)
}
