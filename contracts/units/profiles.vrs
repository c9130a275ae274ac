//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
verus! {
//@ include ../calendar.rs
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index
//@ extract pywr-core/src/timestep.rs impl Timestep::is_leap_year
//@| ensures
//@|     r == leap(self.date.y())
//@ extract pywr-core/src/timestep.rs impl Timestep::day_of_year
//@| ensures
//@|     r == self.date.doy()
/// position of the day in a leap year's calendar: 29 February is position 59 and is skipped in other years
spec fn slot(d: DateTime) -> int { before_month(2000, d.m()) + d.dd() - 1 }
//@ extract pywr-core/src/timestep.rs impl Timestep::day_of_year_index
//@| ensures
//@|     r == slot(self.date), 0 <= r < 366
//@ extract pywr-core/src/timestep.rs impl Timestep::fractional_day_of_year
//@| ensures
//@|     r@ == slot(self.date) as real + self.date.tod(), 0real <= self.date.tod() < 1real
//@| at fn.top
//@|     proof { DateTime::axiom_nano(self.date); DateTime::axiom_wf(self.date); lemma_tod(self.date); }

//@ extract pywr-core/src/parameters/profiles/daily.rs struct DailyProfileParameter
//@| drop meta
//@ include ../simple_metric.rs
//@ include ../scenario.rs
//@ extract pywr-core/src/parameters/profiles/daily.rs impl SimpleParameter<f64> for DailyProfileParameter::compute
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok, r->Ok_0 == self.values@[slot(ctx.timestep.date)]
//@ extract pywr-core/src/parameters/profiles/diurnal.rs struct DiurnalProfileParameter
//@| drop meta
//@ extract pywr-core/src/parameters/profiles/diurnal.rs impl SimpleParameter<f64> for DiurnalProfileParameter::compute
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok, r->Ok_0 == self.values@[ctx.timestep.date.hh()]

//@ extract pywr-core/src/parameters/profiles/monthly.rs enum MonthlyInterpDay
//@| derive Clone Copy
//@ extract pywr-core/src/parameters/profiles/monthly.rs struct MonthlyProfileParameter
//@| drop meta
spec fn between(a: real, b: real, f: real) -> real { a + (b - a) * f }
/// how far the month has passed
spec fn month_frac(d: DateTime) -> real { ((d.dd() - 1) as real + d.tod()) / (dim(d.y(), d.m()) as real) }
/// how far the instant is from the last day of the previous to the last day of this month
spec fn month_frac_last(d: DateTime) -> real { (d.dd() as real + d.tod()) / (dim(d.y(), d.m()) as real) }
proof fn lemma_month(d: DateTime)
    ensures forall|a: DateTime, b: DateTime| a.y() == d.y() && a.m() == d.m() && a.dd() == 1 && a.since_midnight() == 0 && b.y() == (if d.m() == 12 { d.y() + 1 } else { d.y() }) && b.m() == nm(d.m()) && b.dd() == 1 && b.since_midnight() == 0
        ==> (((#[trigger] b.ns()) - (#[trigger] a.ns())) as real) / (SEC() as real) > 0real && (((d.ns() - a.ns()) as real) / (SEC() as real)) / (((b.ns() - a.ns()) as real) / (SEC() as real)) == month_frac(d)
{
    assert forall|a: DateTime, b: DateTime| a.y() == d.y() && a.m() == d.m() && a.dd() == 1 && a.since_midnight() == 0 && b.y() == (if d.m() == 12 { d.y() + 1 } else { d.y() }) && b.m() == nm(d.m()) && b.dd() == 1 && b.since_midnight() == 0
        implies (((#[trigger] b.ns()) - (#[trigger] a.ns())) as real) / (SEC() as real) > 0real && (((d.ns() - a.ns()) as real) / (SEC() as real)) / (((b.ns() - a.ns()) as real) / (SEC() as real)) == month_frac(d) by {
        DateTime::axiom_nano(d); DateTime::axiom_wf(d); DateTime::axiom_ns(a); DateTime::axiom_ns(b); DateTime::axiom_ns(d); axiom_year0(d.y() + 1);
        lemma_ratio(d, a, b, daynum(a.y(), a.m(), a.dd()), d.dd() - 1, dim(d.y(), d.m()));
    }
}
proof fn lemma_month_last(d: DateTime)
    ensures forall|a: DateTime, b: DateTime| a.y() == (if d.m() == 1 { d.y() - 1 } else { d.y() }) && a.m() == pm(d.m()) && a.dd() == dim(a.y(), a.m()) && a.since_midnight() == 0 && b.y() == d.y() && b.m() == d.m() && b.dd() == dim(d.y(), d.m()) && b.since_midnight() == 0
        ==> (((#[trigger] b.ns()) - (#[trigger] a.ns())) as real) / (SEC() as real) > 0real && (((d.ns() - a.ns()) as real) / (SEC() as real)) / (((b.ns() - a.ns()) as real) / (SEC() as real)) == month_frac_last(d)
{
    assert forall|a: DateTime, b: DateTime| a.y() == (if d.m() == 1 { d.y() - 1 } else { d.y() }) && a.m() == pm(d.m()) && a.dd() == dim(a.y(), a.m()) && a.since_midnight() == 0 && b.y() == d.y() && b.m() == d.m() && b.dd() == dim(d.y(), d.m()) && b.since_midnight() == 0
        implies (((#[trigger] b.ns()) - (#[trigger] a.ns())) as real) / (SEC() as real) > 0real && (((d.ns() - a.ns()) as real) / (SEC() as real)) / (((b.ns() - a.ns()) as real) / (SEC() as real)) == month_frac_last(d) by {
        DateTime::axiom_nano(d); DateTime::axiom_wf(d); DateTime::axiom_ns(a); DateTime::axiom_ns(b); DateTime::axiom_ns(d); axiom_year0(d.y());
        lemma_ratio(d, a, b, daynum(a.y(), a.m(), a.dd()), d.dd(), dim(d.y(), d.m()));
    }
}
spec fn nm(m: int) -> int { if m == 12 { 1 } else { m + 1 } }
spec fn pm(m: int) -> int { if m == 1 { 12 } else { m - 1 } }
spec fn monthly(v: Seq<R>, k: Option<MonthlyInterpDay>, d: DateTime) -> real {
    let here = v[d.m() - 1]@; let next = v[nm(d.m()) - 1]@; let prev = v[pm(d.m()) - 1]@;
    match k {
        None => here,
        Some(MonthlyInterpDay::First) => between(here, next, month_frac(d)),
        Some(MonthlyInterpDay::Last) => if d.dd() == dim(d.y(), d.m()) && d.since_midnight() > 0 { between(here, next, d.tod() / (dim(if d.m() == 12 { d.y() + 1 } else { d.y() }, nm(d.m())) as real)) } else { between(prev, here, month_frac_last(d)) },
    }
}
//@ extract pywr-core/src/parameters/profiles/monthly.rs fn interpolate_first
//@| requires
//@|     -9998 <= date.y() <= 9998
//@| ensures
//@|     r@ == between(first_value@, last_value@, month_frac(*date))
//@| at fn.top
//@|     proof { lemma_month(*date); }
//@ extract pywr-core/src/parameters/profiles/monthly.rs fn interpolate_last
//@| requires
//@|     -9998 <= date.y() <= 9998
//@| ensures
//@|     r@ == between(first_value@, last_value@, month_frac_last(*date))
//@| at fn.top
//@|     proof { lemma_month_last(*date); }
//@ extract pywr-core/src/parameters/profiles/monthly.rs impl SimpleParameter<f64> for MonthlyProfileParameter::compute
//@| dropparam _internal_state
//@| requires
//@|     ctx.timestep.date.has_room()
//@| ensures
//@|     r is Ok, r->Ok_0@ == monthly(self.values@, self.interp_day, ctx.timestep.date)
//@| at fn.top
//@|     proof { lemma_after_midnight(ctx.timestep.date); }
proof fn lemma_after_midnight(d: DateTime)
    ensures forall|e: DateTime| e.y() == d.y() && e.m() == d.m() && e.dd() == dim(d.y(), d.m()) && e.since_midnight() == 0 ==> ((#[trigger] e.ns()) < d.ns()) == (d.dd() == dim(d.y(), d.m()) && d.since_midnight() > 0), d.wf()
{
    assert forall|e: DateTime| e.y() == d.y() && e.m() == d.m() && e.dd() == dim(d.y(), d.m()) && e.since_midnight() == 0 implies ((#[trigger] e.ns()) < d.ns()) == (d.dd() == dim(d.y(), d.m()) && d.since_midnight() > 0) by {
        DateTime::axiom_nano(d); DateTime::axiom_wf(d); lemma_tod(d); DateTime::axiom_ns(e); DateTime::axiom_ns(d); 
        let x = daynum(d.y(), d.m(), d.dd()); let y = daynum(e.y(), e.m(), e.dd()); let k = DAYNS();
        assert(x <= y && (x == y) == (d.dd() == dim(d.y(), d.m())));
        assert(x == y ==> x * k == y * k); assert(x < y ==> x * k + k <= y * k) by (nonlinear_arith) requires k > 0;
    }
    DateTime::axiom_wf(d);
}

//@ extract pywr-core/src/parameters/profiles/weekly.rs enum WeeklyInterpDay
//@ extract pywr-core/src/parameters/profiles/weekly.rs enum WeeklyProfileValues
impl WeeklyProfileValues {
    spec fn n(&self) -> int { match self { Self::FiftyTwo(_) => 52, Self::FiftyThree(_) => 53 } }
    spec fn at(&self, i: int) -> real { match self { Self::FiftyTwo(v) => v@[i]@, Self::FiftyThree(v) => v@[i]@ } }
    /// the week of a date: weeks start on 1 January, the last one is held to the end of the year
    spec fn week(&self, d: DateTime) -> int { if slot(d) / 7 >= self.n() { self.n() - 1 } else { slot(d) / 7 } }
    spec fn up(&self, i: int) -> int { if i + 1 >= self.n() { 0 } else { i + 1 } }
    spec fn down(&self, i: int) -> int { if i == 0 { self.n() - 1 } else { i - 1 } }
}
/// fraction of the seven-day block that has passed
spec fn week_frac(d: DateTime) -> real { ((slot(d) % 7) as real + d.tod()) / 7real }
proof fn lemma_week(s: int, t: real)
    requires 0 <= s, 0real <= t < 1real
    ensures ((s as real) / 7real).floor() == s / 7, ((s as real + t) / 7real).floor() == s / 7, (s as real + t) / 7real - (s / 7) as real == ((s % 7) as real + t) / 7real
{
    let q = s / 7; let m = s % 7; assert(s == 7 * q + m);
    let x = (s as real + t) / 7real; assert(x == q as real + (m as real + t) / 7real) by (nonlinear_arith) requires x == (s as real + t) / 7real, s == 7 * q + m;
    assert(x.floor() == q); let y = (s as real) / 7real; assert(y == q as real + (m as real) / 7real) by (nonlinear_arith) requires y == (s as real) / 7real, s == 7 * q + m; assert(y.floor() == q);
}
//@ extract pywr-core/src/parameters/profiles/weekly.rs impl WeeklyProfileValues::current_week_index
//@| ensures
//@|     r@ == (slot(timestep.date) as real + (if with_seconds { timestep.date.tod() } else { 0real })) / 7real, 0real <= timestep.date.tod() < 1real, 0 <= slot(timestep.date) < 366
//@| at fn.top
//@|     proof { DateTime::axiom_wf(timestep.date); DateTime::axiom_nano(timestep.date); lemma_tod(timestep.date); }
//@ extract pywr-core/src/parameters/profiles/weekly.rs impl WeeklyProfileValues::current_index
//@| floatcast
//@| ensures
//@|     r == self.week(timestep.date), 0 <= r < self.n()
//@| at fn.top
//@|     proof { DateTime::axiom_wf(timestep.date); lemma_week(slot(timestep.date), 0real); }
//@ extract pywr-core/src/parameters/profiles/weekly.rs impl WeeklyProfileValues::current
//@| ensures
//@|     r@ == self.at(self.week(timestep.date))
//@ extract pywr-core/src/parameters/profiles/weekly.rs impl WeeklyProfileValues::next
//@| ensures
//@|     r@ == self.at(self.up(self.week(timestep.date)))
//@ extract pywr-core/src/parameters/profiles/weekly.rs impl WeeklyProfileValues::prev
//@| ensures
//@|     r@ == self.at(self.down(self.week(timestep.date)))
//@ extract pywr-core/src/parameters/profiles/weekly.rs impl WeeklyProfileValues::interpolate
//@| ensures
//@|     r@ == between(first_value@, last_value@, week_frac(timestep.date))
//@| at fn.top
//@|     proof { DateTime::axiom_wf(timestep.date); DateTime::axiom_nano(timestep.date); lemma_tod(timestep.date); lemma_week(slot(timestep.date), timestep.date.tod()); }
spec fn weekly(v: &WeeklyProfileValues, k: Option<WeeklyInterpDay>, d: DateTime) -> real {
    let w = v.week(d);
    match k {
        None => v.at(w),
        Some(WeeklyInterpDay::First) => between(v.at(w), v.at(v.up(w)), week_frac(d)),
        Some(WeeklyInterpDay::Last) => between(v.at(v.down(w)), v.at(w), week_frac(d)),
    }
}
//@ extract pywr-core/src/parameters/profiles/weekly.rs impl WeeklyProfileValues::value
//@| ensures
//@|     r@ == weekly(self, *interp_day, timestep.date)
//@ extract pywr-core/src/parameters/profiles/weekly.rs struct WeeklyProfileParameter
//@| drop meta
//@ extract pywr-core/src/parameters/profiles/weekly.rs impl SimpleParameter<f64> for WeeklyProfileParameter::compute
//@| as weekly_compute
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok, r->Ok_0@ == weekly(&self.values, self.interp_day, ctx.timestep.date)

//@ extract pywr-core/src/parameters/profiles/uniform_drawdown.rs fn is_leap_year
//@| ensures
//@|     r == leap(year as int)
//@ extract pywr-core/src/parameters/profiles/uniform_drawdown.rs struct UniformDrawdownProfileParameter
//@| drop meta
/// day of the year of a slot (1..=366) in year y; 29 February stands for the same day number in other years
spec fn rdoy(y: int, s: int) -> int { if leap(y) || s <= 60 { s } else { s - 1 } }
/// year of the last reset
spec fn reset_year(reset: int, d: DateTime) -> int { if slot(d) + 1 >= reset { d.y() } else { d.y() - 1 } }
/// days since the last reset; as in Pywr v1 a reset up to 29 February also counts a 29 February in other years
spec fn since_reset(reset: int, d: DateTime) -> int {
    let y0 = reset_year(reset, d);
    let days = if y0 == d.y() { d.doy() - rdoy(y0, reset) } else { ylen(y0) - rdoy(y0, reset) + d.doy() };
    days + (if reset <= 60 && !leap(y0) && (y0 != d.y() || slot(d) + 1 > 60) { 1int } else { 0 })
}
/// length of the period from the last reset to the next one
spec fn period(reset: int, d: DateTime) -> int { ylen(if reset > 60 { reset_year(reset, d) + 1 } else { reset_year(reset, d) }) }
//@ extract pywr-core/src/parameters/profiles/uniform_drawdown.rs impl SimpleParameter<f64> for UniformDrawdownProfileParameter::compute
//@| as drawdown_compute
//@| dropparam _internal_state
//@| requires
//@|     1 <= self.reset_doy <= 366
//@| ensures
//@|     r is Ok, r->Ok_0@ == between(1real, (self.residual_days as real) / (period(self.reset_doy as int, ctx.timestep.date) as real), (since_reset(self.reset_doy as int, ctx.timestep.date) as real) / (period(self.reset_doy as int, ctx.timestep.date) as real)),
//@|     0 <= since_reset(self.reset_doy as int, ctx.timestep.date) <= period(self.reset_doy as int, ctx.timestep.date)
//@| at fn.top
//@|     proof { DateTime::axiom_wf(ctx.timestep.date); let t = period(self.reset_doy as int, ctx.timestep.date) as real; let d = since_reset(self.reset_doy as int, ctx.timestep.date) as real; let p = (self.residual_days as real) / t - 1real; assert((p / t) * d == p * (d / t)) by (nonlinear_arith) requires t >= 365real; }
} // verus!
fn main() {}
