//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
verus! {
//@ include ../calendar.rs
//@ include ../duration.rs
//@ include ../agg.rs
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NonZeroI64 { x: i64 }
impl NonZeroI64 { pub uninterp spec fn v(&self) -> int; #[verifier::external_body] pub fn get(&self) -> (r: i64) ensures r == self.v(), r != 0 { unimplemented!() } }
//@ extract pywr-core/src/timestep.rs impl From<SignedDuration> for PywrDuration::from
//@| as from_sd
//@| ensures
//@|     r.ns() == duration.ns()
impl SignedDuration {
    /// `.into()` is only used towards PywrDuration here
    fn into(self) -> (r: PywrDuration) ensures r.ns() == self.ns() { PywrDuration::from_sd(self) }
}
//@ extract pywr-core/src/timestep.rs impl Add<DateTime> for PywrDuration::add
//@| as advance
//@| requires
//@|     datetime.ns() + self.ns() <= dt_max()
//@| ensures
//@|     r.ns() == datetime.ns() + self.ns()
impl AddSpecImpl<DateTime> for PywrDuration { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: DateTime) -> bool { o.ns() + self.ns() <= dt_max() } open spec fn add_spec(self, o: DateTime) -> DateTime { arbitrary() } }
impl core::ops::Add<DateTime> for PywrDuration { type Output = DateTime; fn add(self, o: DateTime) -> (r: DateTime) ensures r.ns() == o.ns() + self.ns() { self.advance(o) } }
//@ extract pywr-core/src/recorders/aggregator/mod.rs struct PeriodValue
//@| derive Clone Copy
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl PeriodValue<T>::new
//@| implgen <T>
//@| selfty PeriodValue<T>
//@| ensures
//@|     r.start == start, r.duration == duration, r.value == value
//@ extract pywr-core/src/recorders/aggregator/mod.rs enum AggregationFrequency
//@| derive Clone Copy
// ---- aggregation periods
spec fn mstart(k: int) -> int { year0(k / 12) + before_month(k / 12, k % 12 + 1) }
spec fn mlen(k: int) -> int { dim(k / 12, k % 12 + 1) }
proof fn lemma_mnext(k: int) ensures mstart(k + 1) == mstart(k) + mlen(k), mlen(k) > 0
{ broadcast use axiom_year0; let y = k / 12; assert(year0(y + 1) == year0(y + 1 - 1) + ylen(y + 1 - 1)); if k % 12 == 11 { assert((k + 1) / 12 == y + 1 && (k + 1) % 12 == 0); } else { assert((k + 1) / 12 == y && (k + 1) % 12 == k % 12 + 1); } }
proof fn lemma_mmono(a: int, b: int) requires a <= b ensures mstart(a) <= mstart(b), a < b ==> mstart(a + 1) <= mstart(b) decreases b - a { if a < b { lemma_mnext(a); lemma_mmono(a + 1, b); } }
spec fn mkey(d: DateTime) -> int { 12 * d.y() + d.m() - 1 }
proof fn lemma_month_of(d: DateTime) ensures mstart(mkey(d)) * DAYNS() <= d.ns() < mstart(mkey(d) + 1) * DAYNS(), mkey(d) / 12 == d.y(), mkey(d) % 12 == d.m() - 1
{ broadcast use DateTime::axiom_wf, DateTime::axiom_nano, DateTime::axiom_ns; assert(d.wf()); lemma_tod(d); lemma_mnext(mkey(d)); assert(mkey(d) / 12 == d.y() && mkey(d) % 12 == d.m() - 1);
  let a = mstart(mkey(d)); let b = mstart(mkey(d) + 1); let x = daynum(d.y(), d.m(), d.dd()); let k = DAYNS(); assert(a <= x < b); let sm = d.since_midnight();
  assert(a * k <= x * k + sm < b * k) by (nonlinear_arith) requires a <= x, x + 1 <= b, 0 <= sm < k, k > 0; }
/// `d` lies in the aggregation period that contains `s` (or, for periods of days, starts at `s`)
spec fn same_period(f: AggregationFrequency, s: DateTime, d: DateTime) -> bool {
    match f {
        AggregationFrequency::Monthly => s.y() == d.y() && s.m() == d.m(),
        AggregationFrequency::Annual => s.y() == d.y(),
        AggregationFrequency::Days(n) => s.ns() <= d.ns() < s.ns() + n.v() * DAYNS(),
    }
}
/// the periods that start before `e` all end within the supported calendar
spec fn room(f: AggregationFrequency, e: int) -> bool {
    match f {
        AggregationFrequency::Days(n) => n.v() > 0 && e + n.v() * DAYNS() <= dt_max(),
        _ => e <= dt_max() && (forall|d: DateTime| d.ns() < e ==> #[trigger] d.y() <= 9997),
    }
}
/// `r` is the first instant of the period after the one that `c` is in
spec fn next_start(f: AggregationFrequency, c: DateTime, r: DateTime) -> bool {
    r.ns() > c.ns() && (forall|d: DateTime| c.ns() <= d.ns() < r.ns() ==> #[trigger] same_period(f, c, d)) && (forall|d: DateTime| d.ns() >= r.ns() ==> !#[trigger] same_period(f, c, d))
}
proof fn lemma_next_month(c: DateTime, r: DateTime)
    requires mkey(r) == mkey(c) + 1, r.dd() == 1, r.since_midnight() == 0
    ensures next_start(AggregationFrequency::Monthly, c, r)
{ broadcast use DateTime::axiom_wf, DateTime::axiom_ns; assert(c.wf() && r.wf()); lemma_month_of(c); lemma_month_of(r); let k = DAYNS();
  assert(r.ns() == mstart(mkey(c) + 1) * k);
  assert forall|d: DateTime| (c.ns() <= d.ns() < r.ns() ==> #[trigger] same_period(AggregationFrequency::Monthly, c, d)) && (d.ns() >= r.ns() ==> !same_period(AggregationFrequency::Monthly, c, d)) by {
    lemma_month_of(d);
    if mkey(d) < mkey(c) { lemma_mmono(mkey(d), mkey(c)); let a = mstart(mkey(d) + 1); let b = mstart(mkey(c)); assert(a * k <= b * k) by (nonlinear_arith) requires a <= b, k > 0; }
    if mkey(d) > mkey(c) { lemma_mmono(mkey(c) + 1, mkey(d)); let a = mstart(mkey(c) + 1); let b = mstart(mkey(d)); assert(a * k <= b * k) by (nonlinear_arith) requires a <= b, k > 0; }
  } }
proof fn lemma_next_year(c: DateTime, r: DateTime)
    requires r.y() == c.y() + 1, r.m() == 1, r.dd() == 1, r.since_midnight() == 0
    ensures next_start(AggregationFrequency::Annual, c, r)
{ broadcast use DateTime::axiom_wf, DateTime::axiom_ns; assert(c.wf() && r.wf()); lemma_month_of(c); lemma_month_of(r); let k = DAYNS(); let z = 12 * c.y() + 12;
  assert(mkey(r) == z);
  assert(r.ns() == mstart(z) * k);
  lemma_mmono(mkey(c) + 1, z); { let a = mstart(mkey(c) + 1); let b = mstart(z); assert(a * k <= b * k) by (nonlinear_arith) requires a <= b, k > 0; }
  assert forall|d: DateTime| (c.ns() <= d.ns() < r.ns() ==> #[trigger] same_period(AggregationFrequency::Annual, c, d)) && (d.ns() >= r.ns() ==> !same_period(AggregationFrequency::Annual, c, d)) by {
    lemma_month_of(d);
    if d.y() < c.y() { lemma_mmono(mkey(d), mkey(c)); let a = mstart(mkey(d) + 1); let b = mstart(mkey(c)); assert(a * k <= b * k) by (nonlinear_arith) requires a <= b, k > 0; }
    if d.y() > c.y() { lemma_mmono(z, mkey(d)); let a = mstart(z); let b = mstart(mkey(d)); assert(a * k <= b * k) by (nonlinear_arith) requires a <= b, k > 0; }
    if d.y() == c.y() { lemma_mmono(mkey(d) + 1, z); let a = mstart(mkey(d) + 1); let b = mstart(z); assert(a * k <= b * k) by (nonlinear_arith) requires a <= b, k > 0; }
  } }
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl AggregationFrequency::is_date_in_period
//@| requires
//@|     match *self { AggregationFrequency::Days(n) => n.v() > 0 && period_start.ns() + n.v() * DAYNS() <= dt_max(), _ => true }
//@| ensures
//@|     r == same_period(*self, *period_start, *date)
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl AggregationFrequency::start_of_next_period
//@| requires
//@|     match *self { AggregationFrequency::Days(n) => n.v() > 0 && current_date.ns() + n.v() * DAYNS() <= dt_max(), _ => current_date.y() <= 9997 }
//@| ensures
//@|     next_start(*self, *current_date, r)
//@| at fn.top
//@|     proof { broadcast use DateTime::axiom_wf, DateTime::axiom_nano; let c = *current_date; assert(c.wf()); if let AggregationFrequency::Days(n) = *self { let x = n.v(); let k = DAYNS(); assert(x * k > 0) by (nonlinear_arith) requires x > 0, k > 0; }
//@|         assert forall|r: DateTime| mkey(r) == mkey(c) + 1 && #[trigger] r.dd() == 1 && r.since_midnight() == 0 implies next_start(AggregationFrequency::Monthly, c, r) by { lemma_next_month(c, r); }
//@|         assert forall|r: DateTime| r.y() == c.y() + 1 && r.m() == 1 && #[trigger] r.dd() == 1 && r.since_midnight() == 0 implies next_start(AggregationFrequency::Annual, c, r) by { lemma_next_year(c, r); } }
/// the value cut at the boundaries of the periods: the pieces follow each other from the start to the end
/// of the value, each lies within one period, no two neighbours in the same one, and all carry its value
spec fn is_split(f: AggregationFrequency, v: PeriodValue<R>, ps: Seq<PeriodValue<R>>) -> bool {
    (ps.len() == 0 <==> v.duration.ns() <= 0)
    && (ps.len() > 0 ==> ps.last().start.ns() + ps.last().duration.ns() == v.start.ns() + v.duration.ns())
    && is_tiled(f, v, ps)
}
spec fn is_tiled(f: AggregationFrequency, v: PeriodValue<R>, ps: Seq<PeriodValue<R>>) -> bool {
    (ps.len() > 0 ==> ps[0].start == v.start)
    && (forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).value == v.value && ps[i].duration.ns() > 0 && v.start.ns() <= ps[i].start.ns() && ps[i].start.ns() + ps[i].duration.ns() <= v.start.ns() + v.duration.ns())
    && (forall|i: int, d: DateTime| 0 <= i < ps.len() && ps[i].start.ns() <= d.ns() < ps[i].start.ns() + ps[i].duration.ns() ==> #[trigger] same_period(f, ps[i].start, d))
    && (forall|i: int, j: int| 0 <= i && j == i + 1 && j < ps.len() ==> (#[trigger] ps[j]).start.ns() == (#[trigger] ps[i]).start.ns() + ps[i].duration.ns() && !same_period(f, ps[i].start, ps[j].start))
}
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl AggregationFrequency::split_value_into_periods
//@| noinline start_of_next_period
//@| requires
//@|     room(*self, value.start.ns() + value.duration.ns())
//@| ensures
//@|     is_split(*self, value, r@)
//@| loop 0 invariant
//@|     end_date.ns() == value.start.ns() + value.duration.ns(), is_tiled(*self, value, sub_values@),
//@|     sub_values@.len() == 0 ==> current_date == value.start,
//@|     sub_values@.len() > 0 ==> value.duration.ns() > 0 && !same_period(*self, sub_values@.last().start, current_date) && sub_values@.last().start.ns() + sub_values@.last().duration.ns() == (if current_date.ns() < end_date.ns() { current_date.ns() } else { end_date.ns() })
//@| loop 0 decreases
//@|     if current_date.ns() < end_date.ns() { end_date.ns() - current_date.ns() } else { 0 }
// ---- values of the aggregation functions
spec fn pvals(s: Seq<PeriodValue<R>>) -> Seq<real> { s.map_values(|p: PeriodValue<R>| p.value@) }
spec fn pdays(s: Seq<PeriodValue<R>>) -> Seq<real> { s.map_values(|p: PeriodValue<R>| p.duration.days()) }
spec fn pwts(v: Seq<real>, d: Seq<real>) -> Seq<real> { Seq::new(v.len(), |i: int| v[i] * d[i]) }
spec fn vmin(v: Seq<real>, n: int) -> real decreases n { if n <= 1 { v[0] } else { rmin(vmin(v, n - 1), v[n - 1]) } }
spec fn vmax(v: Seq<real>, n: int) -> real decreases n { if n <= 1 { v[0] } else { rmax(vmax(v, n - 1), v[n - 1]) } }
spec fn vagg(a: AggFuncF64, v: Seq<real>, d: Seq<real>) -> Option<real> {
    let n = v.len() as int;
    match a {
        AggFuncF64::Sum => Some(psum(v, n)),
        AggFuncF64::Mean => if psum(d, n) == 0real { None } else { Some(psum(pwts(v, d), n) / psum(d, n)) },
        AggFuncF64::Product => Some(pprod(v, n)),
        AggFuncF64::Min => if n == 0 { None } else { Some(vmin(v, n)) },
        AggFuncF64::Max => if n == 0 { None } else { Some(vmax(v, n)) },
        AggFuncF64::CountNonZero => Some(pnz(v, n) as real),
        AggFuncF64::AnyNonZero { tolerance } => Some(if anybig(v, tolerance@) { 1real } else { 0real }),
    }
}
/// the aggregate of values over periods; the mean is weighted by the length of the periods
spec fn pagg(a: AggFuncF64, s: Seq<PeriodValue<R>>) -> Option<real> { vagg(a, pvals(s), pdays(s)) }
spec fn oview(o: Option<R>) -> Option<real> { match o { Some(x) => Some(x@), None => None } }
//@ extract pywr-core/src/agg_funcs/mod.rs impl AggFuncF64::calc_period_values
//@| dropvariant CountFunc Python
//@| noinline fractional_days
//@| ensures
//@|     oview(r) == pagg(*self, values@)
//@| loop 0 invariant
//@|     _acc0@ == psum(pvals(values@), _i0 as int)
//@| loop 1 invariant
//@|     _acc1@ == psum(pdays(values@), _i1 as int)
//@| loop 2 invariant
//@|     _acc2@ == psum(pwts(pvals(values@), pdays(values@)), _i2 as int)
//@| loop 3 invariant
//@|     _acc3@ == pprod(pvals(values@), _i3 as int)
//@| loop 4 invariant
//@|     _i4 == 0 ==> _acc4 is None, _i4 > 0 ==> oview(_acc4) == Some(vmin(pvals(values@), _i4 as int))
//@| loop 5 invariant
//@|     _i5 == 0 ==> _acc5 is None, _i5 > 0 ==> oview(_acc5) == Some(vmax(pvals(values@), _i5 as int))
//@| loop 6 invariant
//@|     _acc6 <= _i6, _acc6 == pnz(pvals(values@), _i6 as int)
//@| loop 7 invariant
//@|     _n7 == values@.len(), _acc7 ==> anybig(pvals(values@), tolerance@), !_acc7 ==> (forall|i: int| 0 <= i < _i7 ==> rabs(#[trigger] pvals(values@)[i]) <= tolerance@)
//@| at loop7.end proof { assert(pvals(values@)[_i7 - 1] == values@[_i7 - 1].value@); }
// ---- state of an aggregator: the values of the current period
//@ extract pywr-core/src/recorders/aggregator/mod.rs struct PeriodicAggregatorState
//@ extract pywr-core/src/recorders/aggregator/mod.rs struct PeriodicAggregator
type St = Option<Seq<PeriodValue<R>>>;
impl PeriodicAggregatorState {
    spec fn cv(&self) -> St { match self.current_values { Some(v) => Some(v@), None => None } }
    spec fn ok(&self) -> bool { self.current_values is Some ==> self.current_values->Some_0@.len() > 0 }
}
spec fn closes(f: AggregationFrequency, st: St, v: PeriodValue<R>) -> bool { st is Some && !same_period(f, st->Some_0[0].start, v.start) }
spec fn fst(f: AggregationFrequency, st: St, ps: Seq<PeriodValue<R>>, n: int) -> St decreases n { if n <= 0 { st } else { step(f, fst(f, st, ps, n - 1), ps[n - 1]) } }
/// pieces that complete a period that has an aggregate
spec fn yields(f: AggregationFrequency, a: AggFuncF64, st: St, ps: Seq<PeriodValue<R>>, i: int) -> bool { 0 <= i < ps.len() && closes(f, fst(f, st, ps, i), ps[i]) && pagg(a, fst(f, st, ps, i)->Some_0) is Some }
spec fn at_most_one(f: AggregationFrequency, a: AggFuncF64, st: St, ps: Seq<PeriodValue<R>>) -> bool { forall|i: int, j: int| #[trigger] yields(f, a, st, ps, i) && #[trigger] yields(f, a, st, ps, j) ==> i == j }
spec fn step(f: AggregationFrequency, st: St, v: PeriodValue<R>) -> St { if st is None || closes(f, st, v) { Some(seq![v]) } else { Some(st->Some_0.push(v)) } }
/// the aggregate of the period that `v` closes
spec fn is_out(f: AggregationFrequency, a: AggFuncF64, st: St, v: PeriodValue<R>, r: Option<PeriodValue<R>>) -> bool {
    if closes(f, st, v) && pagg(a, st->Some_0) is Some {
        let s = st->Some_0; r is Some && r->Some_0.start == s[0].start && r->Some_0.duration.ns() == v.start.ns() - s[0].start.ns() && r->Some_0.value@ == pagg(a, s)->Some_0
    } else { r is None }
}
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl PeriodicAggregatorState::process_value
//@| noinline calc_period_values is_date_in_period
//@| requires
//@|     old(self).ok(), match *agg_freq { AggregationFrequency::Days(n) => n.v() > 0 && (old(self).cv() is Some ==> old(self).cv()->Some_0[0].start.ns() + n.v() * DAYNS() <= dt_max()), _ => true }
//@| ensures
//@|     final(self).ok(), final(self).cv() == step(*agg_freq, old(self).cv(), value), is_out(*agg_freq, *agg_func, old(self).cv(), value, r)
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl PeriodicAggregatorState::process_value_no_period
//@| requires
//@|     old(self).ok()
//@| ensures
//@|     final(self).ok(), final(self).cv() == (match old(self).cv() { Some(s) => Some(s.push(value)), None => Some(seq![value]) })
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl PeriodicAggregatorState::calc_aggregation
//@| noinline calc_period_values
//@| requires
//@|     self.ok()
//@| ensures
//@|     r is Some <==> self.cv() is Some && pagg(*agg_func, self.cv()->Some_0) is Some,
//@|     r is Some ==> r->Some_0.start == self.cv()->Some_0[0].start && r->Some_0.value@ == pagg(*agg_func, self.cv()->Some_0)->Some_0 && is_end(self.cv()->Some_0, r->Some_0.duration.ns())
/// the pieces of the value go to their periods in order; the aggregate of the period that they complete is returned
spec fn processed(g: PeriodicAggregator, st: St, v: PeriodValue<R>, st2: St, r: Option<PeriodValue<R>>) -> bool {
    match g.frequency {
        None => r is None && st2 == Some(match st { Some(s) => s.push(v), None => seq![v] }),
        Some(f) => exists|ps: Seq<PeriodValue<R>>| #[trigger] is_split(f, v, ps) && st2 == fst(f, st, ps, ps.len() as int)
            && (r is None ==> forall|i: int| !#[trigger] yields(f, g.function, st, ps, i))
            && (r is Some ==> exists|i: int| #[trigger] yields(f, g.function, st, ps, i) && is_out(f, g.function, fst(f, st, ps, i), ps[i], r)),
    }
}
/// the value completes at most one period, and the dates stay within the supported calendar
spec fn agg_pre(g: PeriodicAggregator, st: PeriodicAggregatorState, value: PeriodValue<R>) -> bool {
    st.ok() && (g.frequency is Some ==> room(g.frequency->Some_0, value.start.ns() + value.duration.ns())
        && (match g.frequency { Some(AggregationFrequency::Days(n)) => st.cv() is Some ==> st.cv()->Some_0[0].start.ns() + n.v() * DAYNS() <= dt_max(), _ => true })
        && (forall|ps: Seq<PeriodValue<R>>| #[trigger] is_split(g.frequency->Some_0, value, ps) ==> at_most_one(g.frequency->Some_0, g.function, st.cv(), ps)))
}
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl PeriodicAggregator::process_value
//@| noinline split_value_into_periods process_value_no_period process_value
//@| requires
//@|     agg_pre(*self, *old(current_state), value)
//@| ensures
//@|     final(current_state).ok(), processed(*self, old(current_state).cv(), value, final(current_state).cv(), r)
//@| loop 0 invariant
//@|     *period == self.frequency->Some_0, self.frequency is Some, match *period { AggregationFrequency::Days(n) => n.v() > 0 && (current_state.cv() is Some ==> current_state.cv()->Some_0[0].start.ns() + n.v() * DAYNS() <= dt_max()), _ => true },
//@|     _n0 == _s0_0@.len(), is_split(*period, value, _s0_0@), current_state.ok(), current_state.cv() == fst(*period, old(current_state).cv(), _s0_0@, _i0 as int),
//@|     agg_value is None ==> (forall|i: int| 0 <= i < _i0 ==> !#[trigger] yields(*period, self.function, old(current_state).cv(), _s0_0@, i)),
//@|     agg_value is Some ==> (exists|i: int| 0 <= i < _i0 && #[trigger] yields(*period, self.function, old(current_state).cv(), _s0_0@, i) && is_out(*period, self.function, fst(*period, old(current_state).cv(), _s0_0@, i), _s0_0@[i], agg_value))
//@| at loop0.top proof { let j = _i0 - 1; let f0 = fst(*period, old(current_state).cv(), _s0_0@, j); assert(v == _s0_0@[j]); assert(yields(*period, self.function, old(current_state).cv(), _s0_0@, j) == (closes(*period, f0, v) && pagg(self.function, f0->Some_0) is Some)); assert(fst(*period, old(current_state).cv(), _s0_0@, _i0 as int) == step(*period, f0, v)); }
// ---- nested aggregators
//@ extract pywr-core/src/recorders/aggregator/mod.rs struct AggregatorState
//@ extract pywr-core/src/recorders/aggregator/mod.rs struct Aggregator
/// it should last to the end of its last value; it lasts to the start of it (known finding final-period-duration)
spec fn is_end(s: Seq<PeriodValue<R>>, d: int) -> bool { let l = s.last(); d == l.start.ns() - s[0].start.ns() || d == l.start.ns() + l.duration.ns() - s[0].start.ns() }
/// the value of the (partial) period that has not been completed yet
spec fn is_last(g: PeriodicAggregator, st: St, r: Option<PeriodValue<R>>) -> bool {
    if st is Some && pagg(g.function, st->Some_0) is Some { r is Some && r->Some_0.start == st->Some_0[0].start && r->Some_0.value@ == pagg(g.function, st->Some_0)->Some_0 && is_end(st->Some_0, r->Some_0.duration.ns()) } else { r is None }
}
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl PeriodicAggregator::calc_aggregation
//@| noinline calc_aggregation
//@| requires
//@|     state.ok()
//@| ensures
//@|     is_last(*self, state.cv(), r)
/// the state has one level per aggregator
spec fn shaped(a: Aggregator, st: AggregatorState) -> bool decreases a {
    st.state.ok() && match (a.child, st.child) { (Some(c), Some(s)) => shaped(*c, *s), (None, None) => true, _ => false }
}
/// a value enters the innermost aggregator; what one level completes is passed on to the level above it
spec fn appended(a: Aggregator, st: AggregatorState, v: PeriodValue<R>, st2: AggregatorState, r: Option<PeriodValue<R>>) -> bool decreases a {
    match (a.child, st.child, st2.child) {
        (None, None, None) => processed(a.agg, st.state.cv(), v, st2.state.cv(), r),
        (Some(c), Some(s), Some(s2)) => (appended(*c, *s, v, *s2, None) && r is None && st2.state.cv() == st.state.cv())
            || (exists|x: PeriodValue<R>| appended(*c, *s, v, *s2, Some(x)) && #[trigger] processed(a.agg, st.state.cv(), x, st2.state.cv(), r)),
        _ => false,
    }
}
spec fn append_pre(a: Aggregator, st: AggregatorState, v: PeriodValue<R>) -> bool decreases a {
    match (a.child, st.child) {
        (None, None) => agg_pre(a.agg, st.state, v),
        (Some(c), Some(s)) => append_pre(*c, *s, v) && (forall|s2: AggregatorState, x: PeriodValue<R>| #[trigger] appended(*c, *s, v, s2, Some(x)) ==> agg_pre(a.agg, st.state, x)),
        _ => false,
    }
}
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl Aggregator::append_value
//@| decreases
//@|     self
//@| requires
//@|     shaped(*self, *old(state)), append_pre(*self, *old(state), value)
//@| ensures
//@|     shaped(*self, *final(state)), appended(*self, *old(state), value, *final(state), r)
/// the innermost level first: the value of its partial period enters the level above before that one is closed
spec fn finalised(a: Aggregator, st: AggregatorState, st2: AggregatorState, r: Option<PeriodValue<R>>) -> bool decreases a {
    is_last(a.agg, st2.state.cv(), r) && match (a.child, st.child, st2.child) {
        (None, None, None) => st2.state.cv() == st.state.cv(),
        (Some(c), Some(s), Some(s2)) => (finalised(*c, *s, *s2, None) && st2.state.cv() == st.state.cv())
            || (exists|x: PeriodValue<R>, q: Option<PeriodValue<R>>| finalised(*c, *s, *s2, Some(x)) && #[trigger] processed(a.agg, st.state.cv(), x, st2.state.cv(), q)),
        _ => false,
    }
}
spec fn final_pre(a: Aggregator, st: AggregatorState) -> bool decreases a {
    match (a.child, st.child) {
        (None, None) => true,
        (Some(c), Some(s)) => final_pre(*c, *s) && (forall|s2: AggregatorState, x: PeriodValue<R>| #[trigger] finalised(*c, *s, s2, Some(x)) ==> agg_pre(a.agg, st.state, x)),
        _ => false,
    }
}
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl Aggregator::finalise
//@| decreases
//@|     self
//@| requires
//@|     shaped(*self, *old(state)), final_pre(*self, *old(state))
//@| ensures
//@|     shaped(*self, *final(state)), finalised(*self, *old(state), *final(state), r)
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl PeriodValue<Vec<T>>::len
//@| selfty PeriodValue<Vec<R>>
//@| ensures
//@|     r == self.value@.len()
//@ extract pywr-core/src/recorders/aggregator/mod.rs impl PeriodValue<Vec<T>>::index
//@| selfty PeriodValue<Vec<R>>
//@| rettype PeriodValue<R>
//@| requires
//@|     index < self.value@.len()
//@| ensures
//@|     r.start == self.start, r.duration == self.duration, r.value == self.value@[index as int]
//@ extract pywr-core/src/recorders/memory.rs struct Aggregation
// ---- aggregation of the recorded values over metrics, time and scenarios
spec fn rview(o: Result<R, E_>) -> Option<real> { match o { Ok(x) => Some(x@), Err(_) => None } }
/// a single value needs no function, several need one
spec fn lagg(a: Option<AggFuncF64>, v: Seq<real>) -> Option<real> { if v.len() == 1 { Some(v[0]) } else { match a { Some(f) => Some(f.of(v)), None => None } } }
spec fn tagg(a: Option<AggFuncF64>, v: Seq<real>, d: Seq<real>) -> Option<real> { if v.len() == 1 { Some(v[0]) } else { match a { Some(f) => vagg(f, v, d), None => None } } }
//@ extract pywr-core/src/recorders/memory.rs impl Aggregation::apply_metric_func_period_value
//@| noinline calc_iter_f64
//@| ensures
//@|     r is Ok <==> lagg(self.metric, rviews(values.value@)) is Some,
//@|     r is Ok ==> r->Ok_0.start == values.start && r->Ok_0.duration == values.duration && r->Ok_0.value@ == lagg(self.metric, rviews(values.value@))->Some_0
//@ extract pywr-core/src/recorders/memory.rs impl Aggregation::apply_metric_func_f64
//@| noinline calc_iter_f64
//@| ensures
//@|     rview(r) == lagg(self.metric, rviews(values@))
//@ extract pywr-core/src/recorders/memory.rs impl Aggregation::apply_scenario_func
//@| noinline calc_iter_f64
//@| ensures
//@|     rview(r) == lagg(self.scenario, rviews(values@))
//@ extract pywr-core/src/recorders/memory.rs impl Aggregation::apply_time_func
//@| noinline calc_period_values
//@| ensures
//@|     rview(r) == tagg(self.time, pvals(values@), pdays(values@))
//@ extract pywr-core/src/recorders/memory.rs struct MemoryRecorderResult
//@| keep data aggregation
type Series = Seq<PeriodValue<Vec<R>>>;
spec fn sdays(t: Series) -> Seq<real> { t.map_values(|p: PeriodValue<Vec<R>>| p.duration.days()) }
spec fn all_some(s: Seq<Option<real>>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Some }
spec fn unwrap(s: Seq<Option<real>>) -> Seq<real> { s.map_values(|x: Option<real>| x->Some_0) }
/// over the metrics at every time, then over time
spec fn mvals_of(g: Aggregation, t: Series) -> Seq<Option<real>> { t.map_values(|p: PeriodValue<Vec<R>>| lagg(g.metric, rviews(p.value@))) }
spec fn mt(g: Aggregation, t: Series) -> Option<real> { if all_some(mvals_of(g, t)) { tagg(g.time, unwrap(mvals_of(g, t)), sdays(t)) } else { None } }
/// over time for every metric, then over the metrics
spec fn column(t: Series, m: int) -> Seq<real> { t.map_values(|p: PeriodValue<Vec<R>>| p.value@[m]@) }
spec fn tvals_of(g: Aggregation, t: Series) -> Seq<Option<real>> { Seq::new(t[0].value@.len(), |m: int| tagg(g.time, column(t, m), sdays(t))) }
spec fn tm(g: Aggregation, t: Series) -> Option<real> { if all_some(tvals_of(g, t)) { lagg(g.metric, unwrap(tvals_of(g, t))) } else { None } }
spec fn mts(g: Aggregation, d: Seq<Vec<PeriodValue<Vec<R>>>>) -> Seq<Option<real>> { d.map_values(|t: Vec<PeriodValue<Vec<R>>>| mt(g, t@)) }
spec fn tms(g: Aggregation, d: Seq<Vec<PeriodValue<Vec<R>>>>) -> Seq<Option<real>> { d.map_values(|t: Vec<PeriodValue<Vec<R>>>| tm(g, t@)) }
spec fn over_scenarios(g: Aggregation, s: Seq<Option<real>>) -> Option<real> { if all_some(s) { lagg(g.scenario, unwrap(s)) } else { None } }
//@ extract pywr-core/src/recorders/memory.rs impl MemoryRecorderResult::aggregate_metric_time_scenario
//@| noinline apply_metric_func_period_value apply_time_func apply_scenario_func
//@| ensures
//@|     rview(r) == over_scenarios(self.aggregation, mts(self.aggregation, self.data@))
//@| acctype 0 R
//@| acctype 1 PeriodValue<R>
//@| loop 0 invariant
//@|     _n0 == self.data@.len(), _acc0@.len() == _i0, forall|k: int| 0 <= k < _i0 ==> mts(self.aggregation, self.data@)[k] == Some(#[trigger] _acc0@[k]@)
//@| at loop0.top proof { assert(mts(self.aggregation, self.data@)[_i0 - 1] == mt(self.aggregation, self.data@[_i0 - 1]@)); }
//@| at loop1.top proof { let t = self.data@[_i0 as int]@; assert(mts(self.aggregation, self.data@)[_i0 as int] == mt(self.aggregation, t)); let x = mvals_of(self.aggregation, t)[_i1 - 1]; assert(x is Some == (_item is Ok)); }
//@| loop 1 invariant
//@|     _n1 == time_data@.len(), _acc1@.len() == _i1, forall|k: int| 0 <= k < _i1 ==> mvals_of(self.aggregation, time_data@)[k] == Some((#[trigger] _acc1@[k]).value@) && _acc1@[k].duration == time_data@[k].duration
//@| at loop1.after proof { { let q = mvals_of(self.aggregation, time_data@); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is Some && unwrap(q)[i] == pvals(_acc1@)[i] by { let x = _acc1@[i]; } assert(pvals(_acc1@) =~= unwrap(q)); } assert(pdays(_acc1@) =~= sdays(time_data@)); }
//@| at loop0.after proof { { let q = mts(self.aggregation, self.data@); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is Some && unwrap(q)[i] == rviews(_acc0@)[i] by { let x = _acc0@[i]@; } assert(rviews(_acc0@) =~= unwrap(q)); } }
//@ extract pywr-core/src/recorders/memory.rs impl MemoryRecorderResult::aggregate_time_metric_scenario
//@| noinline apply_metric_func_f64 apply_time_func apply_scenario_func index len
//@| requires
//@|     forall|k: int| 0 <= k < self.data@.len() ==> (#[trigger] self.data@[k])@.len() > 0, forall|k: int, j: int| 0 <= k < self.data@.len() && 0 <= j < self.data@[k]@.len() ==> (#[trigger] self.data@[k]@[j]).value@.len() == self.data@[k]@[0].value@.len()
//@| ensures
//@|     rview(r) == over_scenarios(self.aggregation, tms(self.aggregation, self.data@))
//@| acctype 0 R
//@| acctype 1 R
//@| acctype 2 PeriodValue<R>
//@| loop 0 invariant
//@|     _n0 == self.data@.len(), _acc0@.len() == _i0, forall|k: int| 0 <= k < _i0 ==> tms(self.aggregation, self.data@)[k] == Some(#[trigger] _acc0@[k]@)
//@| at loop0.top proof { assert(tms(self.aggregation, self.data@)[_i0 - 1] == tm(self.aggregation, self.data@[_i0 - 1]@)); }
//@| at loop1.top proof { let t = self.data@[_i0 as int]@; assert(tms(self.aggregation, self.data@)[_i0 as int] == tm(self.aggregation, t)); let x = tvals_of(self.aggregation, t)[_i1 - 1]; assert(x is Some == (_item is Ok)); }
//@| loop 1 invariant
//@|     _n1 == time_data@[0].value@.len(), _acc1@.len() == _i1, forall|k: int| 0 <= k < _i1 ==> tvals_of(self.aggregation, time_data@)[k] == Some(#[trigger] _acc1@[k]@)
//@| loop 2 invariant
//@|     _n2 == time_data@.len(), _acc2@.len() == _i2, forall|k: int| 0 <= k < _i2 ==> (#[trigger] _acc2@[k]).value == time_data@[k].value@[metric_idx as int] && _acc2@[k].duration == time_data@[k].duration
//@| at loop2.after proof { assert(pvals(_acc2@) =~= column(time_data@, metric_idx as int)); assert(pdays(_acc2@) =~= sdays(time_data@)); }
//@| at loop1.after proof { { let q = tvals_of(self.aggregation, time_data@); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is Some && unwrap(q)[i] == rviews(_acc1@)[i] by { let x = _acc1@[i]@; } assert(rviews(_acc1@) =~= unwrap(q)); } }
//@| at loop0.after proof { { let q = tms(self.aggregation, self.data@); assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is Some && unwrap(q)[i] == rviews(_acc0@)[i] by { let x = _acc0@[i]@; } assert(rviews(_acc0@) =~= unwrap(q)); } }
} // verus!
fn main() {}
