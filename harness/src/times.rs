//! C04: the schedule of timesteps.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use jiff::SignedDuration;
use jiff::civil::DateTime;
use pywr_core::models::{Model, ModelBuilder, ModelDomainBuilder};
use pywr_core::timestep::*;
use std::num::NonZeroU64;
use std::sync::{Arc, Mutex};

pub const CASES: &[(&str, CaseFn)] = &[("schedule", schedule), ("visits", visits), ("durations", durations)];

fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn dim(y: i64, m: i64) -> i64 {
    [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize]
}
/// days since 1600-01-01, counted year by year and month by month
fn daynum(y: i64, m: i64, d: i64) -> i64 {
    let mut n = 0;
    for yy in 1600..y {
        n += if leap(yy) { 366 } else { 365 };
    }
    for mm in 1..m {
        n += dim(y, mm);
    }
    n + d - 1
}
const NSD: i128 = 86_400_000_000_000;
/// nanoseconds since 1600-01-01
fn abs(d: DateTime) -> i128 {
    daynum(d.year() as i64, d.month() as i64, d.day() as i64) as i128 * NSD
        + ((d.hour() as i128 * 60 + d.minute() as i128) * 60 + d.second() as i128) * 1_000_000_000
        + d.subsec_nanosecond() as i128
}
/// the instant `mo` calendar months and `ns` nanoseconds after d (the day held within the month)
fn plus(d: DateTime, mo: i64, ns: i128) -> i128 {
    let k = d.year() as i64 * 12 + d.month() as i64 - 1 + mo;
    let (y, m) = (k.div_euclid(12), k.rem_euclid(12) + 1);
    let day = (d.day() as i64).min(dim(y, m));
    abs(d) - daynum(d.year() as i64, d.month() as i64, d.day() as i64) as i128 * NSD + daynum(y, m, day) as i128 * NSD + ns
}
fn rand_start(r: &mut Rng) -> DateTime {
    let y = r.int(1890, 2110);
    let m = r.int(1, 12);
    let d = if r.p(0.3) { dim(y, m) } else { r.int(1, dim(y, m)) };
    let b = jiff::civil::date(y as i16, m as i8, d as i8);
    match r.us(0, 2) {
        0 => b.at(0, 0, 0, 0),
        1 => b.at(r.int(0, 23) as i8, 0, 0, 0),
        _ => b.at(r.int(0, 23) as i8, r.int(0, 59) as i8, r.int(0, 59) as i8, 0),
    }
}
/// a step: how to configure it, and its (months, nanoseconds)
fn rand_step(r: &mut Rng, log: &mut Log) -> (TimestepDuration, i64, i128) {
    let h = 3_600_000_000_000i128;
    match r.us(0, 3) {
        0 => { let n = r.us(1, 60); log.note(format!("hours {n}")); (TimestepDuration::Hours(NonZeroU64::new(n as u64).unwrap()), 0, n as i128 * h) }
        1 => { let n = r.us(1, 40); log.note(format!("days {n}")); (TimestepDuration::Days(NonZeroU64::new(n as u64).unwrap()), 0, n as i128 * NSD) }
        _ => {
            let mut s = String::new();
            let (mut mo, mut ns) = (0i64, 0i128);
            let single = r.p(0.5);
            while s.is_empty() {
                let only = r.us(0, 6);
                for u in 0..7 {
                    if (single && u != only) || (!single && r.p(0.7)) { continue; }
                    let k = r.int(1, if u == 0 { 2 } else { 5 });
                    let (t, a, b) = [("y", 12, 0), ("q", 3, 0), ("mo", 1, 0), ("w", 0, 7 * NSD), ("d", 0, NSD), ("h", 0, h), ("m", 0, h / 60)][u];
                    s.push_str(&format!("{k}{t}"));
                    mo += a * k; ns += b * k as i128;
                }
            }
            log.note(format!("frequency {s}"));
            (TimestepDuration::Frequency(s), mo, ns)
        }
    }
}
fn end_for(r: &mut Rng, start: DateTime, mo: i64, ns: i128) -> DateTime {
    let k = r.us(0, 40) as i64;
    let per = mo as i128 * 30 * NSD + ns;
    let e = match r.us(0, 3) {
        0 => k as i128 * per,
        1 => k as i128 * per + 1_000_000_000,
        2 => k as i128 * per - 1_000_000_000,
        _ => (k as i128 * per) + r.int(0, 1_000_000) as i128 * 1_000_000,
    };
    start + SignedDuration::from_nanos_i128(e)
}
fn schedule(r: &mut Rng, log: &mut Log) -> Res {
    let start = rand_start(r);
    log.note(format!("start {start}"));
    let (step, mo, ns) = rand_step(r, log);
    let fixed = !matches!(step, TimestepDuration::Frequency(_));
    let end = end_for(r, start, mo, ns);
    log.note(format!("end {end}"));
    let b = TimeDomainBuilder::new(start, end, step);
    let td = match b.build() {
        Err(e) => {
            ensure!(end < start, "no schedule although the end is not before the start: {}", es(e));
            return Ok(true);
        }
        Ok(t) => t,
    };
    ensure!(end >= start, "a schedule although the end is before the start");
    let ts = td.timesteps();
    ensure!(ts.len() == td.len() && !ts.is_empty() && !td.is_empty(), "len");
    let e = abs(end);
    for (i, t) in ts.iter().enumerate() {
        let at = plus(start, mo * i as i64, ns * i as i128);
        let nx = plus(start, mo * (i as i64 + 1), ns * (i as i128 + 1));
        ensure!(t.index == i, "step {i} has index {}", t.index);
        ensure!(t.is_first() == (i == 0), "is_first");
        ensure!(abs(t.date) == at, "step {i} starts {} instead of {} ns later", t.date, at - abs(start));
        ensure!(abs(t.date) <= e, "step {i} starts after the end");
        let d = (nx - at) as f64 / NSD as f64;
        ensure!(close_tol(t.days(), d, 1e-12), "step {i} lasts {} instead of {d} days", t.days());
        ensure!(close_tol(t.duration.fractional_days(), d, 1e-12), "duration of step {i}");
    }
    let n = ts.len() as i64;
    ensure!(plus(start, mo * n, ns * n as i128) > e, "the last step ends before the end of the period");
    ensure!(td.first_timestep().index == 0 && td.last_timestep().index == ts.len() - 1, "first/last timestep");
    let same = (0..ts.len()).all(|i| ts[i].days() == ts[0].days());
    match td.fixed_step_duration() {
        Some(d) => ensure!(same && d.fractional_days() == ts[0].days(), "fixed duration {d:?} of unequal steps"),
        None => ensure!(!same, "equal steps reported as unequal"),
    }
    ensure!(!fixed || same, "fixed steps differ");
    Ok(true)
}
/// a run visits every step of every scenario once, in order
fn visits(r: &mut Rng, log: &mut Log) -> Res {
    let start = rand_start(r);
    let (step, mo, ns) = rand_step(r, log);
    let end = end_for(r, start, mo, ns);
    if end < start { return Ok(true); }
    let seen: Arc<Mutex<Vec<(usize, i128, f64)>>> = Default::default();
    let k = r.us(1, 4);
    log.note(format!("start {start} end {end} scenarios {k}"));
    let d = domain(TimeDomainBuilder::new(start, end, step), &[("g", k)])?;
    let want: Vec<(usize, i128, f64)> = d.time().timesteps().iter().flat_map(|t| vec![(t.index, abs(t.date), t.days()); k]).collect();
    let s2 = seen.clone();
    let imp = Imposed::new(move |n, t, _| {
        s2.lock().unwrap().push((t.index, abs(t.date), t.days()));
        Ok(vec![0.0; n.edges().len()])
    });
    let nb = tiny_network();
    let m: Model = ModelBuilder::new(d, nb).build().map_err(es)?;
    m.run::<FlowSolver>(&imp).map_err(es)?;
    let got = seen.lock().unwrap().clone();
    ensure!(got == want, "the run visited {} of {} steps or in another order", got.len(), want.len());
    Ok(true)
}
fn durations(r: &mut Rng, log: &mut Log) -> Res {
    let n = r.int(-5000, 5000);
    log.note(format!("n={n}"));
    let cases = [(PywrDuration::from_days(n), 86400), (PywrDuration::from_hours(n), 3600), (PywrDuration::from_minutes(n), 60), (PywrDuration::from_seconds(n), 1)];
    for (d, k) in cases {
        ensure!(close_tol(d.fractional_days(), (n * k) as f64 / 86400.0, 1e-12), "{d:?} is {} days", d.fractional_days());
        let w = if (n * k) % 86400 == 0 { Some(n * k / 86400) } else { None };
        ensure!(d.whole_days() == w, "{d:?} is {:?} whole days", d.whole_days());
    }
    Ok(true)
}
