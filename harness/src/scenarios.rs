//! C06: the scenarios a domain simulates.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::scenario::*;

pub const CASES: &[(&str, CaseFn)] = &[("subsets", subsets), ("combinations", combinations), ("errors", errors)];

struct G {
    name: String,
    size: usize,
    labels: Option<Vec<String>>,
    /// simulated scenarios in the order of the simulation indices
    keep: Option<Vec<usize>>,
    group: ScenarioGroup,
}
fn group(r: &mut Rng, k: usize, subset: bool, log: &mut Log) -> Result<G, String> {
    let size = r.us(1, 4);
    // labels that look like numbers are still labels, not indices
    let numeric = r.p(0.3);
    let labels = r.p(0.5).then(|| (0..size).map(|i| if numeric { ((i + 1) % size + size - 1).to_string() } else { format!("{}{}", ["a", "x", "m"][k % 3], (i * 7 + 3) % 11) }).collect::<Vec<_>>());
    let name = format!("g{k}");
    let mut b = ScenarioGroupBuilder::new(&name, size);
    if let Some(l) = &labels {
        b = b.with_labels(l);
    }
    let mut keep = None;
    if subset && r.p(0.7) {
        match r.us(0, 2) {
            0 => {
                let s = r.us(0, size - 1);
                let e = r.us(s + 1, size);
                b = b.with_subset_slice(s, e);
                keep = Some((s..e).collect());
            }
            q => {
                let mut all: Vec<usize> = (0..size).collect();
                for i in (1..size).rev() {
                    let j = r.us(0, i);
                    all.swap(i, j);
                }
                all.truncate(r.us(1, size));
                if q == 1 || labels.is_none() {
                    b = b.with_subset_indices(all.clone());
                } else {
                    let l = labels.as_ref().unwrap();
                    b = b.with_subset_labels(&all.iter().map(|i| l[*i].clone()).collect::<Vec<_>>());
                }
                keep = Some(all);
            }
        }
    }
    log.note(format!("{name} size={size} labels={labels:?} subset={keep:?}"));
    Ok(G { name, size, labels, keep, group: b.build().map_err(es)? })
}
fn check(d: &ScenarioDomain, gs: &[G], want: &[Vec<usize>], maps: &[Option<Vec<usize>>]) -> Result<(), String> {
    ensure!(d.len() == want.len(), "{} scenarios, expected {}", d.len(), want.len());
    for (g, m) in gs.iter().zip(maps) {
        let got = d.group_scenario_subset(&g.name).map_err(es)?.map(|x| x.to_vec());
        ensure!(got == *m, "subset of {} is {got:?}, expected {m:?}", g.name);
        ensure!(d.group_size(&g.name).map_err(es)? == g.size, "size of {}", g.name);
    }
    for (k, (s, w)) in d.indices().iter().zip(want).enumerate() {
        ensure!(s.simulation_id() == k, "scenario {k} has simulation id {}", s.simulation_id());
        for (i, g) in gs.iter().enumerate() {
            let (sim, sch) = (s.simulation_index_for_group(i), s.schema_index_for_group(i));
            ensure!(sch == w[i], "scenario {k} has scenario {sch} of {}, expected {}", g.name, w[i]);
            let via = maps[i].as_ref().map_or(Some(sim), |m| m.get(sim).copied());
            ensure!(via == Some(sch), "scenario {k}: simulation index {sim} of {} stands for {via:?}, expected {sch}", g.name);
            let l = g.labels.as_ref().map_or(sch.to_string(), |l| l[sch].clone());
            ensure!(s.labels()[i] == l, "scenario {k}: label {} expected {l}", s.labels()[i]);
        }
        ensure!(s.label() == s.labels().join("-"), "label");
    }
    Ok(())
}
fn subsets(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(0, 4);
    let gs: Vec<G> = (0..n).map(|k| group(r, k, true, log)).collect::<Result<_, _>>()?;
    let mut b = ScenarioDomainBuilder::default();
    for g in &gs {
        b = b.with_group(g.group.clone()).map_err(es)?;
    }
    let d = b.build().map_err(es)?;
    if n == 0 {
        ensure!(d.len() == 1 && d.groups().len() == 1 && d.indices()[0].simulation_id() == 0, "default domain");
        return Ok(true);
    }
    let mut want: Vec<Vec<usize>> = vec![vec![]];
    for g in &gs {
        let mut next = vec![];
        for w in &want {
            for i in 0..g.size {
                if g.keep.as_ref().is_none_or(|k| k.contains(&i)) {
                    let mut v = w.clone();
                    v.push(i);
                    next.push(v);
                }
            }
        }
        want = next;
    }
    let maps: Vec<_> = gs.iter().map(|g| g.keep.clone()).collect();
    check(&d, &gs, &want, &maps)?;
    Ok(true)
}
fn combinations(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.us(1, 4);
    let gs: Vec<G> = (0..n).map(|k| group(r, k, false, log)).collect::<Result<_, _>>()?;
    let mut b = ScenarioDomainBuilder::default();
    for g in &gs {
        b = b.with_group(g.group.clone()).map_err(es)?;
    }
    let want: Vec<Vec<usize>> = (0..r.us(1, 5)).map(|_| gs.iter().map(|g| r.us(0, g.size - 1)).collect()).collect();
    log.note(format!("combinations={want:?}"));
    let cs: Vec<Vec<ScenarioLabelOrIndex>> = want
        .iter()
        .map(|w| {
            w.iter()
                .zip(&gs)
                .map(|(i, g)| match &g.labels {
                    Some(l) if r.p(0.6) => l[*i].clone().into(),
                    _ => (*i).into(),
                })
                .collect()
        })
        .collect();
    let d = b.with_combinations(cs).build().map_err(es)?;
    let maps: Vec<_> = (0..n)
        .map(|g| {
            let mut v: Vec<usize> = want.iter().map(|w| w[g]).collect();
            v.sort();
            v.dedup();
            Some(v)
        })
        .collect();
    check(&d, &gs, &want, &maps)?;
    Ok(true)
}
fn errors(r: &mut Rng, log: &mut Log) -> Res {
    let size = r.us(1, 4);
    let labels: Vec<String> = (0..size).map(|i| format!("l{i}")).collect();
    let q = r.us(0, 9);
    log.note(format!("size={size} error={q}"));
    let base = || ScenarioGroupBuilder::new("g", size);
    let bad = match q {
        0 => {
            let s = r.us(0, size);
            base().with_subset_slice(s, r.us(0, s)).build().is_err()
        }
        1 => base().with_subset_slice(r.us(0, size - 1), size + r.us(1, 3)).build().is_err(),
        2 => base().with_labels(&labels[1..]).build().is_err(),
        3 => base().with_labels(&labels).with_subset_labels(&["l0", "zzz"]).build().is_err(),
        4 => base().with_subset_labels(&[r.pick(&["l0", "0", "7", ""])]).build().is_err(),
        5 => {
            let b = ScenarioDomainBuilder::default().with_group(base().build().map_err(es)?).map_err(es)?;
            b.with_group(base().build().map_err(es)?).is_err()
        }
        6 | 7 | 8 => {
            let d = ScenarioDomainBuilder::default().with_group(base().with_labels(&labels).build().map_err(es)?).map_err(es)?;
            let d = d.with_group(ScenarioGroupBuilder::new("h", 3).build().map_err(es)?).map_err(es)?;
            let c: Vec<ScenarioLabelOrIndex> = match q {
                6 => match r.us(0, 1) {
                    0 => vec![0usize.into(), (3 + r.us(0, 2)).into()],
                    _ => vec![(size + r.us(0, 2)).into(), 0usize.into()],
                },
                7 => match r.us(0, 1) {
                    0 => vec![0usize.into()],
                    _ => vec![0usize.into(), 1usize.into(), 0usize.into()],
                },
                _ => match r.us(0, 1) {
                    0 => vec![r.pick(&["zzz", "0", "", "l"]).into(), 0usize.into()],
                    _ => vec!["l0".into(), r.pick(&["l0", "0", "9", ""]).into()],
                },
            };
            d.with_combinations(vec![vec![0usize.into(), 1usize.into()], c]).build().is_err()
        }
        _ => {
            let g = base().with_subset_slice(0, 1).build().map_err(es)?;
            ScenarioDomainBuilder::default().with_group(g).map_err(es)?.with_combinations(vec![vec![0usize]]).build().is_err()
        }
    };
    ensure!(bad, "accepted");
    Ok(true)
}
