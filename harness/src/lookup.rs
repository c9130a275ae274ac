//! C17: look-up parameters.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::metric::{UnresolvedMetricF64, UnresolvedMetricU64};
use pywr_core::models::ModelDomainBuilder;
use pywr_core::parameters::*;
use pywr_core::scenario::{ScenarioDomainBuilder, ScenarioGroupBuilder};

pub const CASES: &[(&str, CaseFn)] = &[("arrays", arrays), ("scenarios", scenarios), ("indexed", indexed)];

fn row(t: usize, off: Option<i32>, n: usize) -> usize {
    match off {
        None => t,
        Some(o) => (t as i64 + o as i64).max(0).min(n as i64 - 1) as usize,
    }
}
fn arrays(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(1, 7);
    let len = if r.p(0.7) { r.us(n, n + 3) } else { r.us(1, n + 1) };
    let ns = r.us(1, 4);
    let off = if r.p(0.6) { Some(r.int(-5, 5) as i32) } else { None };
    let kind = r.us(0, 4);
    let cols = if kind >= 3 { ns } else { 1 };
    let a: Vec<Vec<f64>> = (0..len).map(|_| (0..cols).map(|_| r.int(0, 20) as f64).collect()).collect();
    log.note(format!("kind={kind} steps={n} data={a:?} offset={off:?}"));
    let mut nb = tiny_network();
    let nm: ParameterName = "p".into();
    let a1: Vec<f64> = a.iter().map(|x| x[0]).collect();
    match kind {
        0 => { nb.parameters().f64(Box::new(VectorParameterBuilder::new(nm, &a1))); }
        1 => {
            let mut b = Array1ParameterBuilder::<f64>::new(nm, ndarray::Array1::from(a1));
            if let Some(o) = off { b.timestep_offset(o); }
            nb.parameters().f64(Box::new(b));
        }
        2 => {
            let mut b = Array1ParameterBuilder::<u64>::new(nm, a1.iter().map(|x| *x as u64).collect());
            if let Some(o) = off { b.timestep_offset(o); }
            nb.parameters().u64(Box::new(b));
        }
        3 => {
            let mut b = Array2ParameterBuilder::<f64>::new(nm, ndarray::Array2::from_shape_fn((len, cols), |(i, j)| a[i][j]), "g");
            if let Some(o) = off { b.timestep_offset(o); }
            nb.parameters().f64(Box::new(b));
        }
        _ => {
            let mut b = Array2ParameterBuilder::<u64>::new(nm, ndarray::Array2::from_shape_fn((len, cols), |(i, j)| a[i][j] as u64), "g");
            if let Some(o) = off { b.timestep_offset(o); }
            nb.parameters().u64(Box::new(b));
        }
    }
    let off = if kind == 0 { None } else { off };
    let bad = (0..n).any(|t| row(t, off, len) >= len);
    let g = run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero());
    match g {
        Err(e) => ensure!(bad, "run failed: {e}"),
        Ok(g) => {
            ensure!(!bad, "reading past the end gave a value");
            for t in 0..n {
                for s in 0..ns {
                    expect_eq(&format!("step {t} scenario {s}"), g[t][s][0], a[row(t, off, len)][if cols == 1 { 0 } else { s }])?;
                }
            }
        }
    }
    Ok(!bad)
}
/// several groups, with subsets: the value belongs to the scenario as named in the full ensemble
fn scenarios(r: &mut Rng, log: &mut Log) -> Res {
    let ng = r.us(1, 3);
    let sizes: Vec<usize> = (0..ng).map(|_| r.us(1, 4)).collect();
    let mut sb = ScenarioDomainBuilder::default();
    let mut subs: Vec<Vec<usize>> = vec![];
    let mut desc = vec![];
    for i in 0..ng {
        let mut gb = ScenarioGroupBuilder::new(&format!("g{i}"), sizes[i]);
        let mut all: Vec<usize> = (0..sizes[i]).collect();
        match r.us(0, 3) {
            0 => {
                let a = r.us(0, sizes[i] - 1);
                let b = r.us(a + 1, sizes[i]);
                gb = gb.with_subset_slice(a, b);
                all = (a..b).collect();
                desc.push(format!("{}[{a}..{b}]", sizes[i]));
            }
            1 => {
                let k = r.us(1, sizes[i]);
                for j in 0..all.len() {
                    let m = r.us(0, all.len() - 1);
                    all.swap(j, m);
                }
                all.truncate(k);
                gb = gb.with_subset_indices(all.clone());
                desc.push(format!("{}{all:?}", sizes[i]));
            }
            _ => desc.push(format!("{}", sizes[i])),
        }
        subs.push(all);
        sb = sb.with_group(gb.build().map_err(es)?).map_err(es)?;
    }
    let gi = r.us(0, ng - 1);
    let n = r.us(1, 3);
    let vals: Vec<f64> = (0..sizes[gi]).map(|_| r.int(0, 100) as f64).collect();
    let data: Vec<Vec<f64>> = (0..n).map(|_| (0..sizes[gi]).map(|_| r.int(0, 100) as f64).collect()).collect();
    log.note(format!("groups={desc:?} parameter group={gi} values={vals:?} array={data:?}"));
    let mut nb = tiny_network();
    nb.parameters().f64(Box::new(ConstantScenarioParameterBuilder::new("p".into(), vals.clone(), &format!("g{gi}"))));
    nb.parameters().f64(Box::new(Array2ParameterBuilder::<f64>::new("q".into(), ndarray::Array2::from_shape_fn((n, sizes[gi]), |(i, j)| data[i][j]), &format!("g{gi}"))));
    nb.parameters().u64(Box::new(Array2ParameterBuilder::<u64>::new("i".into(), ndarray::Array2::from_shape_fn((n, sizes[gi]), |(i, j)| data[i][j] as u64), &format!("g{gi}"))));
    let mut b = ModelDomainBuilder::new(days_domain((2021, 1, 1), n, 1));
    b.scenario(sb);
    let d = b.build().map_err(es)?;
    let g = run_imposed(d, nb, vec![param("p"), param("q"), param("i")], Imposed::zero())?;
    // scenarios in order, last group fastest
    let mut combos: Vec<Vec<usize>> = vec![vec![]];
    for i in 0..ng {
        combos = combos.into_iter().flat_map(|c| (0..sizes[i]).filter(|j| subs[i].contains(j)).map(move |j| { let mut c = c.clone(); c.push(j); c })).collect();
    }
    for t in 0..n {
        ensure!(g[t].len() == combos.len(), "{} scenarios, expected {}", g[t].len(), combos.len());
        for (s, c) in combos.iter().enumerate() {
            expect_eq(&format!("constant scenario value, scenario {c:?}"), g[t][s][0], vals[c[gi]])?;
            expect_eq(&format!("array value at step {t}, scenario {c:?}"), g[t][s][1], data[t][c[gi]])?;
            expect_eq(&format!("index array value at step {t}, scenario {c:?}"), g[t][s][2], data[t][c[gi]])?;
        }
    }
    Ok(true)
}
fn indexed(r: &mut Rng, log: &mut Log) -> Res {
    let (n, ns, k) = (r.us(1, 6), r.us(1, 3), r.us(1, 4));
    let bad = r.p(0.1);
    let idx = rand_series(r, n, ns, |r| r.us(0, if bad { k } else { k - 1 }) as f64);
    let vals: Vec<Series> = (0..k).map(|_| rand_series(r, n, ns, |r| r.val(-5.0, 5.0))).collect();
    log.note(format!("indexed array index={idx:?} values={vals:?}"));
    let mut nb = tiny_network();
    nb.parameters().u64(Box::new(Array2ParameterBuilder::<u64>::new("i".into(), ndarray::Array2::from_shape_fn((n, ns), |(i, j)| idx[i][j] as u64), "g")));
    let mut b = IndexedArrayParameterBuilder::new("p".into(), UnresolvedMetricU64::new_parameter_before("i"));
    for (j, v) in vals.iter().enumerate() {
        let m = series(r, &mut nb, &format!("v{j}"), v, false);
        b.metric(m);
    }
    nb.parameters().f64(Box::new(b));
    let oob = idx.iter().any(|x| x.iter().any(|y| *y >= k as f64));
    match run_imposed(scen_domain(n, ns)?, nb, vec![param("p")], Imposed::zero()) {
        Err(e) => ensure!(oob, "run failed: {e}"),
        Ok(g) => {
            ensure!(!oob, "an index past the end gave a value");
            for t in 0..n {
                for s in 0..ns {
                    expect_eq(&format!("step {t} scenario {s}"), g[t][s][0], vals[idx[t][s] as usize][t][s])?;
                }
            }
        }
    }
    Ok(!oob)
}
