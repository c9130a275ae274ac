//! C05: profile parameters follow the calendar.
use crate::CaseFn;
use crate::core::*;
use crate::ensure;
use jiff::civil::DateTime;
use pywr_core::parameters::*;
use pywr_core::timestep::*;
use std::num::NonZeroU64;

pub const CASES: &[(&str, CaseFn)] = &[("profiles", profiles), ("drawdown", drawdown)];

fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn dim(y: i64, m: i64) -> i64 {
    [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][(m - 1) as usize]
}
fn doy(y: i64, m: i64, d: i64) -> i64 {
    (1..m).map(|k| dim(y, k)).sum::<i64>() + d
}
struct When { y: i64, m: i64, d: i64, h: i64, tod: f64 }
fn when(t: &DateTime) -> When {
    When { y: t.year() as i64, m: t.month() as i64, d: t.day() as i64, h: t.hour() as i64,
        tod: ((t.hour() as f64 * 60.0 + t.minute() as f64) * 60.0 + t.second() as f64) / 86400.0 }
}
/// steps around interesting dates
fn steps(r: &mut Rng, log: &mut Log) -> Result<(pywr_core::models::ModelDomain, Vec<DateTime>), String> {
    let y = r.pick(&[2019i64, 2020, 2021, 2023, 2024, 1900, 2000, 2100, 1999]);
    let (m, d) = match r.us(0, 4) {
        0 => (12, r.int(27, 31)),
        1 => (2, r.int(26, 28)),
        2 => (1, r.int(1, 9)),
        _ => { let m = r.int(1, 12); (m, r.int(dim(y, m) - 2, dim(y, m))) }
    };
    let d = d.max(1);
    let start = jiff::civil::date(y as i16, m as i8, d as i8).at(if r.p(0.4) { r.int(0, 23) as i8 } else { 0 }, 0, 0, 0);
    let n = r.us(1, 40);
    let step = match r.us(0, 3) {
        0 => TimestepDuration::Hours(NonZeroU64::new(r.us(1, 36) as u64).unwrap()),
        1 => TimestepDuration::Frequency(r.pick(&["1mo", "17h", "90m", "3d", "1w"]).into()),
        _ => TimestepDuration::Days(NonZeroU64::new(r.pick(&[1u64, 1, 1, 2, 7, 13, 29])).unwrap()),
    };
    let end = start + jiff::Span::new().days(n as i64);
    log.note(format!("start {start} end {end} step {step:?}"));
    let dm = domain(TimeDomainBuilder::new(start, end, step), &[])?;
    let ts = dm.time().timesteps().iter().map(|t| t.date).collect();
    Ok((dm, ts))
}
fn profiles(r: &mut Rng, log: &mut Log) -> Res {
    let (dm, ts) = steps(r, log)?;
    let kind = r.us(0, 7);
    let v: Vec<f64> = (0..366).map(|_| r.int(0, 1000) as f64).collect();
    let nm: ParameterName = "p".into();
    let mut nb = tiny_network();
    let w53 = r.p(0.5);
    let nw = if w53 { 53 } else { 52 };
    log.note(format!("kind {kind} weeks {nw}"));
    match kind {
        0 => { nb.parameters().f64(Box::new(DailyProfileParameterBuilder::new(nm, v.clone().try_into().unwrap()))); }
        1 => { nb.parameters().f64(Box::new(DiurnalProfileParameterBuilder::new(nm, v[..24].try_into().unwrap()))); }
        2..=4 => {
            let mut b = MonthlyProfileParameterBuilder::new(nm, v[..12].try_into().unwrap());
            if kind == 3 { b.interp_day(MonthlyInterpDay::First); }
            if kind == 4 { b.interp_day(MonthlyInterpDay::Last); }
            nb.parameters().f64(Box::new(b));
        }
        _ => {
            let vals = WeeklyProfileValues::try_from(&v[..nw]).map_err(es)?;
            let mut b = WeeklyProfileParameterBuilder::new(nm, vals);
            if kind == 6 { b.interp_day(WeeklyInterpDay::First); }
            if kind == 7 { b.interp_day(WeeklyInterpDay::Last); }
            nb.parameters().f64(Box::new(b));
        }
    }
    let g = run_imposed(dm, nb, vec![param("p")], Imposed::zero())?;
    ensure!(g.len() == ts.len(), "{} steps", g.len());
    for (i, t) in ts.iter().enumerate() {
        let w = when(t);
        let slot = (doy(2000, w.m, w.d) - 1) as usize;
        let wk = (slot / 7).min(nw - 1);
        let wf = ((slot % 7) as f64 + w.tod) / 7.0;
        let mi = (w.m - 1) as usize;
        let (ny, nmo) = if w.m == 12 { (w.y + 1, 1) } else { (w.y, w.m + 1) };
        let mix = |a: f64, b: f64, f: f64| a + (b - a) * f;
        let want = match kind {
            0 => v[slot],
            1 => v[w.h as usize],
            2 => v[mi],
            3 => mix(v[mi], v[(mi + 1) % 12], ((w.d - 1) as f64 + w.tod) / dim(w.y, w.m) as f64),
            4 => if w.d == dim(w.y, w.m) {
                mix(v[mi], v[(mi + 1) % 12], w.tod / dim(ny, nmo) as f64)
            } else {
                mix(v[(mi + 11) % 12], v[mi], (w.d as f64 + w.tod) / dim(w.y, w.m) as f64)
            },
            5 => v[wk],
            6 => mix(v[wk], v[(wk + 1) % nw], wf),
            _ => mix(v[(wk + nw - 1) % nw], v[wk], wf),
        };
        expect_eq(&format!("value at {t}"), g[i][0][0], want)?;
    }
    Ok(true)
}
fn drawdown(r: &mut Rng, log: &mut Log) -> Res {
    let (dm, ts) = steps(r, log)?;
    let rm = r.int(1, 12);
    let rd = if r.p(0.3) { dim(2020, rm) } else { r.int(1, dim(2020, rm)) };
    let res = r.us(0, 250) as u8;
    log.note(format!("reset {rd}/{rm} residual {res}"));
    let mut nb = tiny_network();
    let mut b = UniformDrawdownProfileParameterBuilder::new("p".into(), rd as i8, rm as i8);
    b.residual_days(res);
    nb.parameters().f64(Box::new(b));
    let g = run_imposed(dm, nb, vec![param("p")], Imposed::zero())?;
    let reset = doy(2020, rm, rd); // numbered in a leap year
    for (i, t) in ts.iter().enumerate() {
        let w = when(t);
        let slot = doy(2020, w.m, w.d);
        let y0 = if slot >= reset { w.y } else { w.y - 1 };
        // days from the last reset, counted day by day in the calendar
        let (r_m, r_d) = (rm, if rm == 2 && rd == 29 && !leap(y0) { 28 } else { rd });
        let mut n = if y0 == w.y { doy(w.y, w.m, w.d) - doy(y0, r_m, r_d) } else { doy(y0, 12, 31) - doy(y0, r_m, r_d) + doy(w.y, w.m, w.d) };
        if rm == 2 && rd == 29 && !leap(y0) { n -= 1; }
        if reset <= 60 && !leap(y0) && (y0 != w.y || slot > 60) { n += 1; }
        let len = if leap(if reset > 60 { y0 + 1 } else { y0 }) { 366.0 } else { 365.0 };
        let want = 1.0 + (res as f64 / len - 1.0) * n as f64 / len;
        expect_eq(&format!("drawdown at {t}"), g[i][0][0], want)?;
        if slot == reset { expect_eq("drawdown on the reset day", g[i][0][0], 1.0)?; }
        ensure!(g[i][0][0] <= 1.0 + 1e-12 && g[i][0][0] >= res as f64 / len - 1e-12, "drawdown {} out of range", g[i][0][0]);
    }
    Ok(true)
}
