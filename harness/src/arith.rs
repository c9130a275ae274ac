//! C16: arithmetic parameters.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::metric::UnresolvedMetricF64;
use pywr_core::network::NetworkBuilder;
use pywr_core::parameters::*;

pub const CASES: &[(&str, CaseFn)] = &[
    ("unary", unary),
    ("division", division),
    ("deficit", deficit),
    ("difference", difference),
    ("polynomial", polynomial),
    ("discount", discount),
];

fn unary(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(1, 6);
    let xs = r.vals(n, -10.0, 10.0);
    let t = r.val(-10.0, 10.0);
    let k = r.us(0, 5);
    let mut nb = tiny_network();
    let x = operand(r, &mut nb, "x", &xs);
    let p = || -> ParameterName { "p".into() };
    let name = ["min", "max", "negative", "negativemax", "negativemin", "offset"][k];
    log.note(format!("{name} x={xs:?} threshold={t}"));
    nb.parameters().f64(match k {
        0 => Box::new(MinParameterBuilder::new(p(), x, t)) as Box<dyn ParameterBuilder<f64>>,
        1 => Box::new(MaxParameterBuilder::new(p(), x, t)),
        2 => Box::new(NegativeParameterBuilder::new(p(), x)),
        3 => Box::new(NegativeMaxParameterBuilder::new(p(), x, t)),
        4 => Box::new(NegativeMinParameterBuilder::new(p(), x, t)),
        _ => Box::new(OffsetParameterBuilder::new(p(), x, t)),
    });
    let xs = eff(&xs, r);
    let g = run_imposed(domain(days_domain((2021, 1, 1), n, 1), &[])?, nb, vec![param("p")], Imposed::zero())?;
    for i in 0..n {
        let x = xs[i];
        let w = match k {
            0 => if x < t { x } else { t },
            1 => if x > t { x } else { t },
            2 => -x,
            3 => if -x > t { -x } else { t },
            4 => if -x < t { -x } else { t },
            _ => x + t,
        };
        expect_eq(&format!("{name}({x}, {t})"), g[i][0][0], w)?;
    }
    Ok(true)
}
/// the series itself; kept as a function so that the callers read uniformly
fn eff(xs: &[f64], _r: &mut Rng) -> Vec<f64> {
    xs.to_vec()
}
fn operand(r: &mut Rng, nb: &mut NetworkBuilder, name: &str, xs: &[f64]) -> UnresolvedMetricF64 {
    if xs.windows(2).all(|w| w[0] == w[1]) && r.p(0.7) {
        if r.p(0.5) {
            return xs[0].into();
        }
        nb.parameters().f64(Box::new(ConstantParameterBuilder::new(name.into(), xs[0])));
    } else {
        nb.parameters().f64(Box::new(VectorParameterBuilder::new(name.into(), xs)));
    }
    param(name)
}
fn maybe_const(r: &mut Rng, n: usize, lo: f64, hi: f64) -> Vec<f64> {
    if r.p(0.4) { vec![r.val(lo, hi); n] } else { r.vals(n, lo, hi) }
}
fn division(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(1, 5);
    let a = maybe_const(r, n, -10.0, 10.0);
    let b: Vec<f64> = (0..n).map(|_| if r.p(0.07) { 0.0 } else { let v = r.val(-4.0, 4.0); if v.abs() < 1e-3 { 0.5 } else { v } }).collect();
    let k = r.us(0, 2);
    log.note(format!("division phase={k} numerator={a:?} denominator={b:?}"));
    let mut nb = tiny_network();
    let (ma, mb) = (operand(r, &mut nb, "a", &a), operand(r, &mut nb, "b", &b));
    let nm: ParameterName = "p".into();
    nb.parameters().f64(Box::new(match k {
        0 => DivisionParameterBuilder::before(nm, ma, mb),
        1 => DivisionParameterBuilder::after(nm, ma, mb),
        _ => DivisionParameterBuilder::both(nm, ma, mb),
    }));
    let mut ms = vec![];
    if k != 1 {
        ms.push(param("p"));
    }
    if k != 0 {
        ms.push(UnresolvedMetricF64::new_parameter_after("p"));
    }
    let g = run_imposed(domain(days_domain((2021, 1, 1), n, 1), &[])?, nb, ms, Imposed::zero());
    let z = b.iter().any(|x| *x == 0.0);
    match g {
        Err(e) => ensure!(z, "run failed: {e}"),
        Ok(g) => {
            ensure!(!z, "division by zero gave {g:?} and no error");
            for i in 0..n {
                for v in &g[i][0] {
                    expect_eq("quotient", *v, a[i] / b[i])?;
                }
            }
        }
    }
    Ok(true)
}
fn deficit(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(1, 6);
    let f = r.vals(n, 0.0, 10.0);
    let m = maybe_const(r, n, 0.0, 10.0);
    log.note(format!("deficit flow={f:?} max={m:?}"));
    let mut nb = tiny_network();
    let mm = operand(r, &mut nb, "m", &m);
    let (fl, ofs) = if r.p(0.5) { (UnresolvedMetricF64::NodeOutFlow("vin".into()), 0) } else { (UnresolvedMetricF64::NodeInFlow("vout".into()), 0) };
    nb.parameters().f64(Box::new(DeficitParameterBuilder::new("p".into(), fl, mm)));
    let ff = f.clone();
    let g = run_imposed(
        domain(days_domain((2021, 1, 1), n, 1), &[])?,
        nb,
        vec![UnresolvedMetricF64::new_parameter_after("p")],
        Imposed::new(move |_, t, _| Ok(vec![ff[t.index]])),
    )?;
    for i in 0..n {
        expect_eq("deficit", g[i][0][0], if m[i] > f[i] { m[i] - f[i] } else { 0.0 })?;
    }
    Ok(true)
}
fn difference(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(1, 5);
    let (a, b) = (maybe_const(r, n, -5.0, 5.0), maybe_const(r, n, -5.0, 5.0));
    let lo = if r.p(0.5) { Some(maybe_const(r, n, -4.0, 0.0)) } else { None };
    let hi = if r.p(0.5) { Some(maybe_const(r, n, 0.0, 4.0)) } else { None };
    log.note(format!("difference a={a:?} b={b:?} min={lo:?} max={hi:?}"));
    let mut nb = tiny_network();
    let (ma, mb) = (operand(r, &mut nb, "a", &a), operand(r, &mut nb, "b", &b));
    let mut d = DifferenceParameterBuilder::new("p".into(), ma, mb);
    if let Some(l) = &lo {
        d.min(operand(r, &mut nb, "l", l));
    }
    if let Some(h) = &hi {
        d.max(operand(r, &mut nb, "h", h));
    }
    nb.parameters().f64(Box::new(d));
    let g = run_imposed(domain(days_domain((2021, 1, 1), n, 1), &[])?, nb, vec![param("p")], Imposed::zero())?;
    for i in 0..n {
        let mut w = a[i] - b[i];
        if let Some(l) = &lo {
            w = w.max(l[i]);
        }
        if let Some(h) = &hi {
            w = w.min(h[i]);
        }
        expect_eq("difference", g[i][0][0], w)?;
    }
    Ok(true)
}
fn polynomial(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(1, 4);
    let x = maybe_const(r, n, -3.0, 3.0);
    let k = r.us(0, 5);
    let c = r.vals(k, -3.0, 3.0);
    let (s, o) = (if r.p(0.5) { 1.0 } else { r.val(-2.0, 2.0) }, if r.p(0.5) { 0.0 } else { r.val(-2.0, 2.0) });
    log.note(format!("polynomial x={x:?} coefficients={c:?} scale={s} offset={o}"));
    let mut nb = tiny_network();
    let mx = operand(r, &mut nb, "x", &x);
    let mut b = Polynomial1DParameterBuilder::new("p".into(), mx, c.clone());
    if s != 1.0 || r.p(0.3) {
        b.scale(s);
    }
    if o != 0.0 || r.p(0.3) {
        b.offset(o);
    }
    nb.parameters().f64(Box::new(b));
    let g = run_imposed(domain(days_domain((2021, 1, 1), n, 1), &[])?, nb, vec![param("p")], Imposed::zero())?;
    for i in 0..n {
        let y = x[i] * s + o;
        let mut w = 0.0;
        for j in (0..k).rev() {
            w = w * y + c[j];
        }
        ensure!(close_tol(g[i][0][0], w, 1e-7), "polynomial at {y}: got {}, expected {w}", g[i][0][0]);
    }
    Ok(k > 0)
}
fn discount(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(1, 5);
    let d = maybe_const(r, n, 0.0, 0.25);
    let (y0, base) = (r.int(1990, 2040), r.int(1980, 2050));
    let start = (y0 as i16, r.pick(&[1i8, 12, 6]), r.pick(&[1i8, 30, 31, 15]).min(30));
    let step = r.pick(&[1u64, 1, 100, 365]);
    log.note(format!("discount rate={d:?} base={base} start={start:?} step={step}"));
    let mut nb = tiny_network();
    let m = operand(r, &mut nb, "d", &d);
    nb.parameters().f64(Box::new(DiscountFactorParameterBuilder::new("p".into(), m, base as i16)));
    let s = jiff::civil::date(start.0, start.1, start.2);
    let g = run_imposed(domain(days_domain(start, n, step), &[])?, nb, vec![param("p")], Imposed::zero())?;
    for i in 0..n {
        let y = (s + jiff::Span::new().days((i as u64 * step) as i64)).year() as i64;
        let mut w = 1.0;
        for _ in 0..(y - base).abs() {
            w = if y > base { w / (1.0 + d[i]) } else { w * (1.0 + d[i]) };
        }
        ensure!(close_tol(g[i][0][0], w, 1e-7), "discount factor: got {}, expected {w}", g[i][0][0]);
    }
    Ok(true)
}
