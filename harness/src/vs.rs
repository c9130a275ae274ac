//! C12: virtual storages.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use pywr_core::NodeBuilder;
use pywr_core::metric::UnresolvedMetricF64 as M;
use pywr_core::network::NetworkBuilder;
use pywr_core::node::{UnresolvedNode, UnresolvedStorageInitialVolume as Iv};
use pywr_core::timestep::*;
use pywr_core::virtual_storage::*;
use std::collections::VecDeque;
use std::num::{NonZeroU64, NonZeroUsize};

pub const CASES: &[(&str, CaseFn)] = &[("rolling", rolling), ("resets", resets), ("mixed", mixed)];

fn n(s: &str) -> UnresolvedNode {
    s.into()
}
#[derive(Clone, Debug)]
struct Vs {
    nodes: Vec<(char, usize)>, // i / l / o and the chain
    factors: Option<Vec<f64>>,
    min: f64,
    max: Series, // never falls, so that the volume stays within it
    init: (u8, f64, f64),
    reset: (u8, i8, i8, i32),
    to_max: bool,
    window: Option<usize>,
    period: Option<(i8, i8, i8, i8)>,
}
fn rolling(r: &mut Rng, log: &mut Log) -> Res {
    run(r, log, 0)
}
fn resets(r: &mut Rng, log: &mut Log) -> Res {
    run(r, log, 1)
}
fn mixed(r: &mut Rng, log: &mut Log) -> Res {
    run(r, log, 2)
}
fn run(r: &mut Rng, log: &mut Log, mode: u8) -> Res {
    let ns = r.us(1, 2);
    let nch = r.us(1, 3);
    let start = jiff::civil::date(r.int(1995, 2030) as i16, r.int(1, 12) as i8, r.int(1, 28) as i8).at(0, 0, 0, 0);
    let nz = |k: u64| NonZeroU64::new(k).unwrap();
    let (dur, len) = match r.us(0, 3) {
        0 => (TimestepDuration::Days(nz(1)), r.int(3, 60)),
        1 => { let k = r.int(2, 30); (TimestepDuration::Days(nz(k as u64)), k * r.int(3, 40)) }
        2 => { let h = r.int(1, 72); (TimestepDuration::Hours(nz(h as u64)), h * r.int(3, 40) / 24) }
        _ => (TimestepDuration::Frequency("1mo".into()), 30 * r.int(3, 30)),
    };
    log.note(format!("start {start} step {dur:?} days {len}"));
    let t = TimeDomainBuilder::new(start, start + jiff::Span::new().days(len), dur);
    let d = domain(t, &[("g", ns)])?;
    let nsteps = d.time().timesteps().len();
    let mut nb = NetworkBuilder::default();
    for i in 0..nch {
        nb.node(NodeBuilder::input(format!("i{i}").as_str()));
        nb.node(NodeBuilder::link(format!("l{i}").as_str()));
        nb.node(NodeBuilder::output(format!("o{i}").as_str()));
    }
    let mut names = vec![];
    for i in 0..nch {
        nb.connect(format!("i{i}").as_str(), format!("l{i}").as_str());
        names.push((i, 0, 0));
        for j in 0..nch {
            nb.connect(format!("l{i}").as_str(), format!("o{j}").as_str());
            names.push((i, 1, j));
        }
    }
    let nv = r.us(1, 2);
    let mut vss = vec![];
    for v in 0..nv {
        let k = r.us(1, 3);
        let nodes: Vec<(char, usize)> = (0..k).map(|_| (r.pick(&['i', 'l', 'o']), r.us(0, nch - 1))).collect();
        let factors = if r.p(0.7) { Some((0..k).map(|_| r.val(0.0, 2.0)).collect::<Vec<f64>>()) } else { None };
        let min = if r.p(0.5) { 0.0 } else { r.val(0.0, 5.0) };
        let m0 = r.val(10.0, 100.0);
        let mut row: Vec<f64> = (0..ns).map(|_| if r.p(0.5) { m0 } else { r.val(10.0, 100.0) }).collect();
        let lowest = row.iter().cloned().fold(f64::MAX, f64::min);
        let grows = r.p(0.4);
        let mut max = vec![];
        for _ in 0..nsteps {
            max.push(row.clone());
            if grows {
                row.iter_mut().for_each(|m| if r.p(0.3) { *m += r.val(0.0, 20.0) });
            }
        }
        let init = match r.us(0, 3) {
            0 => (0, r.f(min, lowest), 0.0),
            1 => (1, r.f(min / lowest, 1.0), 0.0),
            2 => (0, lowest, 0.0),
            _ => (2, r.f(min, lowest * 1.5), 0.0),
        };
        let reset = match r.us(0, 2) {
            0 => (0, 0, 0, 0),
            1 => { let x = start + jiff::Span::new().days(r.int(0, len.max(1))); (1, x.day(), x.month(), 0) }
            _ => (2, 0, 0, r.int(1, 14) as i32),
        };
        let reset = if mode == 0 { (0, 0, 0, 0) } else { reset };
        let window = if mode == 1 { None } else if mode == 0 || r.p(0.5) { Some(r.us(1, 12)) } else { None };
        let period = if mode == 0 || r.p(0.5) {
            None
        } else {
            let x = start + jiff::Span::new().days(r.int(0, len.max(1)));
            let y = start + jiff::Span::new().days(r.int(0, len.max(1)));
            Some((x.day(), x.month(), y.day(), y.month()))
        };
        let vs = Vs { nodes, factors, min, max, init, reset, to_max: r.p(0.4), window, period };
        log.note(format!("{vs:?}"));
        let un: Vec<UnresolvedNode> = vs.nodes.iter().map(|(c, i)| n(&format!("{c}{i}"))).collect();
        let mut b = VirtualStorageNodeBuilder::new(&format!("v{v}"), &un);
        if let Some(f) = &vs.factors {
            b.factors(f);
        }
        if vs.min != 0.0 {
            b.min_volume(vs.min.into());
        }
        b.max_volume(series(r, &mut nb, &format!("mx{v}"), &vs.max, true));
        b.initial_volume(match vs.init.0 {
            0 => Iv::Absolute(vs.init.1),
            1 => Iv::Proportional(vs.init.1),
            _ => Iv::DistributedAbsolute { absolute: vs.init.1, prior_max_volume: 0.0.into() },
        });
        b.reset(match vs.reset.0 {
            0 => VirtualStorageReset::Never,
            1 => VirtualStorageReset::DayOfYear { day: vs.reset.1, month: vs.reset.2 },
            _ => VirtualStorageReset::NumberOfMonths { months: vs.reset.3 },
        });
        b.reset_volume(if vs.to_max { VirtualStorageResetVolume::Max } else { VirtualStorageResetVolume::Initial });
        if let Some(w) = vs.window {
            b.rolling_window(NonZeroUsize::new(w).unwrap());
        }
        if let Some((a, bb, c, dd)) = vs.period {
            b.active_period(VirtualStorageActivePeriod::Period { start_day: a, start_month: bb, end_day: c, end_month: dd });
        }
        nb.virtual_storage_node(b);
        vss.push(vs);
    }
    let mut ms = vec![];
    for v in 0..nv {
        ms.push(M::VirtualStorageVolume(n(&format!("v{v}"))));
        ms.push(M::VirtualStorageProportionalVolume(n(&format!("v{v}"))));
    }
    for i in 0..nch {
        ms.push(M::NodeOutFlow(n(&format!("i{i}"))));
        ms.push(M::NodeInFlow(n(&format!("l{i}"))));
        ms.push(M::NodeInFlow(n(&format!("o{i}"))));
    }
    let steps: Vec<Timestep> = d.time().timesteps().to_vec();
    let big = r.p(0.5);
    let seed = r.next();
    let cnt = std::sync::atomic::AtomicU64::new(0);
    let vss2 = vss.clone();
    let names2 = names.clone();
    let s = Imposed::new(move |net, ts, st| {
        let mut r = Rng(seed ^ cnt.fetch_add(1, std::sync::atomic::Ordering::Relaxed));
        let mut q = vec![0.0; names2.len()];
        for (e, (_, k, _)) in names2.iter().enumerate() {
            if *k == 1 {
                q[e] = if r.p(0.15) { 0.0 } else { r.val(0.0, if big { 20.0 } else { 1.0 }) };
            }
        }
        let mut scale = 1.0f64;
        let fix = |q: &mut Vec<f64>| {
            for (e, (i, k, _)) in names2.iter().enumerate() {
                if *k == 0 {
                    q[e] = names2.iter().enumerate().filter(|(_, (a, b, _))| a == i && *b == 1).map(|(f, _)| q[f]).sum();
                }
            }
        };
        fix(&mut q);
        for (v, vs) in net.virtual_storage_nodes().iter().enumerate() {
            let (avail, _) = vs.get_available_volume_bounds(st).map_err(es)?;
            if !active(&vss2[v], ts) {
                continue;
            }
            let mut use_ = 0.0;
            for (x, (c, i)) in vss2[v].nodes.iter().enumerate() {
                let f: f64 = names2.iter().enumerate().filter(|(_, (a, k, b))| match c { 'o' => *k == 1 && b == i, _ => *k == 0 && a == i }).map(|(e, _)| q[e]).sum();
                use_ += f * vss2[v].factors.as_ref().map_or(1.0, |fs| fs[x]);
            }
            use_ *= ts.days();
            if use_ > avail {
                scale = scale.min(avail / use_);
            }
        }
        for x in q.iter_mut() {
            *x *= scale;
        }
        Ok(q)
    });
    let out = run_imposed(d, nb, ms, s)?;
    ensure!(out.len() == steps.len(), "{} rows for {} steps", out.len(), steps.len());
    let mut nt = false;
    for sc in 0..ns {
        for (v, vs) in vss.iter().enumerate() {
            let mut vol = 0.0;
            let mut hist: VecDeque<f64> = VecDeque::new();
            let mut last: Option<(i32, i32)> = None;
            for (k, ts) in steps.iter().enumerate() {
                let ym = (ts.date.year() as i32, ts.date.month() as i32);
                let act = active(vs, ts);
                let max = vs.max[k][sc];
                let init = match vs.init.0 { 0 => vs.init.1, 1 => vs.init.1 * max, _ => vs.init.1.min(max) };
                let reset = k == 0
                    || !act
                    || match vs.reset.0 {
                        0 => false,
                        1 => ts.date.day() == vs.reset.1 && ts.date.month() == vs.reset.2,
                        _ => last.map_or(true, |l| ym.0 * 12 + ym.1 - l.0 * 12 - l.1 >= vs.reset.3),
                    };
                if reset {
                    vol = if vs.to_max && k > 0 { max } else { init };
                    last = Some(ym);
                    if let Some(w) = vs.window {
                        hist = std::iter::repeat_n((max - vol) / w as f64, w).collect();
                    }
                    nt |= k > 0;
                }
                if let Some(w) = vs.window {
                    if hist.len() >= w {
                        vol += hist.pop_front().unwrap();
                        nt = true;
                    }
                }
                let row = &out[k][sc];
                if act {
                    let base = 2 * nv;
                    let mut u = 0.0;
                    for (x, (c, i)) in vs.nodes.iter().enumerate() {
                        let q = row[base + 3 * i + match c { 'i' => 0, 'l' => 1, _ => 2 }];
                        u += q * vs.factors.as_ref().map_or(1.0, |f| f[x]);
                    }
                    u *= ts.days();
                    vol -= u;
                    hist.push_back(u);
                }
                vol = vol.max(vs.min).min(max);
                ensure!(close_tol(row[2 * v], vol, 1e-6), "v{v} scenario {sc} step {k} ({}): volume {} expected {vol}", ts.date, row[2 * v]);
                ensure!(close_tol(row[2 * v + 1], vol / max, 1e-6), "v{v} scenario {sc} step {k}: proportional {} expected {}", row[2 * v + 1], vol / max);
            }
        }
    }
    Ok(nt)
}
fn active(vs: &Vs, ts: &Timestep) -> bool {
    match vs.period {
        None => true,
        Some((sd, sm, ed, em)) => {
            let k = |m: i8, d: i8| m as i32 * 100 + d as i32;
            let (x, a, b) = (k(ts.date.month(), ts.date.day()), k(sm, sd), k(em, ed));
            if a <= b { a <= x && x <= b } else { x >= a || x <= b }
        }
    }
}
