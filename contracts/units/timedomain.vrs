//@ include ../prelude.rs
//@ include ../time.rs
//@ include ../jiff.rs
//@ map TimestepIndex usize
//@ mappath PywrDuration::from => PywrDuration::from_sd
//@ mappath polars::time::Duration::parse => parse_duration
verus! {
//@ include ../duration.rs
//@ extract pywr-core/src/timestep.rs impl From<SignedDuration> for PywrDuration::from
//@| as from_sd
//@| selfty PywrDuration
//@| ensures
//@|     r.ns() == duration.ns()
impl SignedDuration {
    /// `.into()` is only used towards PywrDuration here
    fn into(self) -> (r: PywrDuration) ensures r.ns() == self.ns() { PywrDuration::from_sd(self) }
}
//@ extract pywr-core/src/timestep.rs impl PywrDuration::from_minutes
//@| requires
//@|     -153722867280912930 <= hours <= 153722867280912930
//@| ensures
//@|     r.ns() == hours * 60 * SEC()
//@ extract pywr-core/src/timestep.rs impl PywrDuration::from_seconds
//@| ensures
//@|     r.ns() == seconds * SEC()
//@ extract pywr-core/src/timestep.rs impl PywrDuration::from_days
//@| requires
//@|     -106751991167300 <= days <= 106751991167300
//@| ensures
//@|     r.ns() == days * 86400 * SEC()
//@ extract pywr-core/src/timestep.rs impl PywrDuration::from_hours
//@| requires
//@|     -2562047788015215 <= hours <= 2562047788015215
//@| ensures
//@|     r.ns() == hours * 3600 * SEC()
//@ extract pywr-core/src/timestep.rs impl PywrDuration::whole_days
//@| floatcast
//@| requires
//@|     -106751991167300 * 86400 * SEC() <= self.ns() <= 106751991167300 * 86400 * SEC()
//@| ensures
//@|     (r is Some) == (self.ns() % (86400 * SEC()) == 0), r is Some ==> r->Some_0 * 86400 * SEC() == self.ns()
//@| at fn.top
//@|     proof { lemma_whole(self.ns()); }

//@ extract pywr-core/src/timestep.rs struct Timestep
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/timestep.rs impl Timestep::new
//@| ensures
//@|     r.date == date, r.index == index, r.duration == duration
//@ extract pywr-core/src/timestep.rs impl Timestep::is_first
//@| ensures
//@|     r == (self.index == 0)
//@ extract pywr-core/src/timestep.rs impl Timestep::days
//@| ensures
//@|     r@ == self.duration.days()
//@ extract pywr-core/src/timestep.rs impl Add<PywrDuration> for Timestep::add
//@| as advance
//@| selfty Timestep
//@| rettype Timestep
//@| requires
//@|     self.date.ns() + other.ns() <= dt_max(), self.index < usize::MAX
//@| ensures
//@|     r.date.ns() == self.date.ns() + other.ns(), r.index == self.index + 1, r.duration == other
impl AddSpecImpl<PywrDuration> for Timestep { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: PywrDuration) -> bool { self.date.ns() + o.ns() <= dt_max() && self.index < usize::MAX } open spec fn add_spec(self, o: PywrDuration) -> Timestep { arbitrary() } }
impl core::ops::Add<PywrDuration> for Timestep { type Output = Timestep; fn add(self, o: PywrDuration) -> (r: Timestep) ensures r.date.ns() == self.date.ns() + o.ns(), r.index == self.index + 1, r.duration == o { self.advance(o) } }

#[verifier::external_body] #[derive(Clone, Copy)] pub struct NonZeroU64 { x: u8 }
impl NonZeroU64 {
    pub uninterp spec fn v(&self) -> int;
    #[verifier::external_body] pub fn get(self) -> (r: u64) ensures r == self.v(), r > 0 { unimplemented!() }
    #[verifier::external_body] pub broadcast proof fn axiom_pos(x: NonZeroU64) ensures #[trigger] x.v() > 0 {}
}
//@ extract pywr-core/src/timestep.rs enum TimestepDuration
//@ extract pywr-core/src/timestep.rs struct TimeDomainBuilder
//@ extract pywr-core/src/timestep.rs struct TimeDomain

spec fn uniform(ts: Seq<Timestep>, d: PywrDuration) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).duration == d }
/// step i starts i calendar periods after the start
spec fn calendar(ts: Seq<Timestep>, start: DateTime, d: PDur) -> bool { forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).date.ns() == dt_plus(start, d.span(i)).ns() }
/// the steps made so far end at `next`
spec fn partial(ts: Seq<Timestep>, start: DateTime, end: DateTime, next: DateTime) -> bool {
    &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).index == i && ts[i].duration.ns() > 0 && ts[i].date.ns() <= end.ns()
    &&& forall|i: int| 0 <= i < ts.len() - 1 ==> (#[trigger] ts[i]).date.ns() + ts[i].duration.ns() == ts[i + 1].date.ns()
    &&& ts.len() > 0 ==> ts[0].date.ns() == start.ns() && ts[ts.len() - 1].date.ns() + ts[ts.len() - 1].duration.ns() == next.ns()
    &&& ts.len() == 0 ==> next.ns() == start.ns()
}
/// consecutive indices, contiguous steps, strictly increasing dates that cover start..=end
spec fn contiguous(ts: Seq<Timestep>, start: DateTime, end: DateTime) -> bool {
    &&& forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).index == i && ts[i].duration.ns() > 0 && ts[i].date.ns() <= end.ns()
    &&& forall|i: int| 0 <= i < ts.len() - 1 ==> (#[trigger] ts[i]).date.ns() + ts[i].duration.ns() == ts[i + 1].date.ns()
    &&& ts.len() > 0 ==> ts[0].date.ns() == start.ns() && ts[ts.len() - 1].date.ns() + ts[ts.len() - 1].duration.ns() > end.ns()
    &&& (ts.len() == 0) == (start.ns() > end.ns())
}
//@ extract pywr-core/src/timestep.rs impl TimeDomainBuilder::new
//@| ensures
//@|     r.start == start, r.end == end, r.timestep == timestep
//@ extract pywr-core/src/timestep.rs impl TimeDomainBuilder::generate_timesteps_from_fixed_duration
//@| requires
//@|     duration.ns() > 0, self.end.ns() + duration.ns() <= dt_max(), self.end.ns() - self.start.ns() < u64::MAX * duration.ns()
//@| ensures
//@|     contiguous(r@, self.start, self.end), uniform(r@, duration)
//@| loop 0 invariant
//@|     duration.ns() > 0, self.end.ns() + duration.ns() <= dt_max(), self.end.ns() - self.start.ns() < u64::MAX * duration.ns(),
//@|     current.index == timesteps@.len(), current.duration == duration, current.date.ns() == self.start.ns() + timesteps@.len() * duration.ns(),
//@|     partial(timesteps@, self.start, self.end, current.date), uniform(timesteps@, duration)
//@| loop 0 decreases
//@|     if self.end.ns() >= current.date.ns() { self.end.ns() - current.date.ns() + 1 } else { 0 }
//@| at loop0.top
//@|     proof { let n = timesteps@.len() as int; let d = duration.ns(); let c = self.end.ns() - self.start.ns(); assert(n < u64::MAX) by (nonlinear_arith) requires n * d <= c, c < u64::MAX * d, d > 0; assert((n + 1) * d == n * d + d) by (nonlinear_arith); }

// ---- frequencies: assumed contracts of polars' duration strings and of jiff's calendar spans ----
#[verifier::external_body] #[derive(Clone, Copy)] pub struct PDur { x: u8 }
pub uninterp spec fn parsed(s: Seq<char>) -> PDur;
impl PDur {
    pub uninterp spec fn mo(&self) -> int;
    pub uninterp spec fn wk(&self) -> int;
    pub uninterp spec fn dy(&self) -> int;
    pub uninterp spec fn nsec(&self) -> int;
    pub uninterp spec fn neg(&self) -> bool;
    pub open spec fn wf(&self) -> bool { 0 <= self.mo() && 0 <= self.wk() && 0 <= self.dy() && 0 <= self.nsec() }
    pub open spec fn nil(&self) -> bool { self.mo() == 0 && self.wk() == 0 && self.dy() == 0 && self.nsec() == 0 }
    /// the calendar span of `n` periods
    pub open spec fn span(&self, n: int) -> SpanV { SpanV { mo: self.mo() * n, wk: self.wk() * n, dy: self.dy() * n, nsec: self.nsec() * n } }
    #[verifier::external_body] pub fn negative(&self) -> (r: bool) ensures r == self.neg(), self.wf() { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == self.nil() { unimplemented!() }
    #[verifier::external_body] pub fn days_only(&self) -> (r: bool) ensures r == (self.dy() != 0 && self.mo() == 0 && self.wk() == 0 && self.nsec() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn weeks_only(&self) -> (r: bool) ensures r == (self.wk() != 0 && self.mo() == 0 && self.dy() == 0 && self.nsec() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn months_only(&self) -> (r: bool) ensures r == (self.mo() != 0 && self.wk() == 0 && self.dy() == 0 && self.nsec() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn days(&self) -> (r: i64) ensures r == self.dy() { unimplemented!() }
    #[verifier::external_body] pub fn weeks(&self) -> (r: i64) ensures r == self.wk() { unimplemented!() }
    #[verifier::external_body] pub fn months(&self) -> (r: i64) ensures r == self.mo() { unimplemented!() }
    #[verifier::external_body] pub fn nanoseconds(&self) -> (r: i64) ensures r == self.nsec() { unimplemented!() }
}
#[verifier::external_body] pub fn parse_duration(s: &str) -> (r: PDur) ensures r == parsed(s@) { unimplemented!() }
pub ghost struct SpanV { pub mo: int, pub wk: int, pub dy: int, pub nsec: int }
impl SpanV {
    pub open spec fn le(&self, o: SpanV) -> bool { self.mo <= o.mo && self.wk <= o.wk && self.dy <= o.dy && self.nsec <= o.nsec }
    /// within the limits jiff documents for spans
    pub uninterp spec fn ok(&self) -> bool;
}
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Span { x: u8 }
impl View for Span { type V = SpanV; uninterp spec fn view(&self) -> SpanV; }
pub trait ToSpan: Sized { fn days(self) -> Span; fn weeks(self) -> Span; fn months(self) -> Span; }
pub open spec fn comp_ok(n: int) -> bool { SpanV { mo: n, wk: 0, dy: 0, nsec: 0 }.ok() && SpanV { mo: 0, wk: n, dy: 0, nsec: 0 }.ok() && SpanV { mo: 0, wk: 0, dy: n, nsec: 0 }.ok() }
impl ToSpan for i64 {
    #[verifier::external_body] fn days(self) -> (r: Span) ensures r@ == (SpanV { mo: 0, wk: 0, dy: self as int, nsec: 0 }) { unimplemented!() }
    #[verifier::external_body] fn weeks(self) -> (r: Span) ensures r@ == (SpanV { mo: 0, wk: self as int, dy: 0, nsec: 0 }) { unimplemented!() }
    #[verifier::external_body] fn months(self) -> (r: Span) ensures r@ == (SpanV { mo: self as int, wk: 0, dy: 0, nsec: 0 }) { unimplemented!() }
}
impl Span {
    #[verifier::external_body] pub fn new() -> (r: Span) ensures r@ == (SpanV { mo: 0, wk: 0, dy: 0, nsec: 0 }) { unimplemented!() }
    #[verifier::external_body] pub fn months(self, n: i64) -> (r: Span) ensures r@ == (SpanV { mo: n as int, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn weeks(self, n: i64) -> (r: Span) ensures r@ == (SpanV { wk: n as int, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn days(self, n: i64) -> (r: Span) ensures r@ == (SpanV { dy: n as int, ..self@ }) { unimplemented!() }
    #[verifier::external_body] pub fn nanoseconds(self, n: i64) -> (r: Span) ensures r@ == (SpanV { nsec: n as int, ..self@ }) { unimplemented!() }
}
pub open spec fn times(s: SpanV, n: int) -> SpanV { SpanV { mo: s.mo * n, wk: s.wk * n, dy: s.dy * n, nsec: s.nsec * n } }
impl MulSpecImpl<i64> for Span { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, n: i64) -> bool { times(self@, n as int).ok() } open spec fn mul_spec(self, n: i64) -> Span { arbitrary() } }
impl core::ops::Mul<i64> for Span { type Output = Span; #[verifier::external_body] fn mul(self, n: i64) -> (r: Span) ensures r@ == times(self@, n as int) { unimplemented!() } }
/// the calendar instant `s` after `t`
pub uninterp spec fn dt_plus(t: DateTime, s: SpanV) -> DateTime;
/// the addition stays within the supported calendar
pub uninterp spec fn plus_ok(t: DateTime, s: SpanV) -> bool;
impl AddSpecImpl<Span> for DateTime { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, s: Span) -> bool { plus_ok(self, s@) } open spec fn add_spec(self, s: Span) -> DateTime { arbitrary() } }
impl core::ops::Add<Span> for DateTime { type Output = DateTime; #[verifier::external_body] fn add(self, s: Span) -> (r: DateTime) ensures r == dt_plus(self, s@) { unimplemented!() } }
/// calendar addition is strictly monotone in the span and the empty span adds nothing
#[verifier::external_body] proof fn axiom_plus(t: DateTime, a: SpanV, b: SpanV)
    requires a.mo >= 0, a.wk >= 0, a.dy >= 0, a.nsec >= 0, a.le(b)
    ensures a != b ==> dt_plus(t, a).ns() < dt_plus(t, b).ns(), a == (SpanV { mo: 0, wk: 0, dy: 0, nsec: 0 }) ==> dt_plus(t, a).ns() == t.ns() {}

/// every step date and the end of the last step lie within the supported calendar
spec fn fits(start: DateTime, end: DateTime, d: PDur) -> bool {
    forall|k: int| 0 <= k && (#[trigger] dt_plus(start, d.span(k))).ns() <= end.ns() ==> k < i64::MAX && d.span(k + 1).ok() && plus_ok(start, d.span(k + 1))
}
//@ extract pywr-core/src/timestep.rs impl TimeDomainBuilder::generate_timesteps_from_frequency
//@| requires
//@|     fits(self.start, self.end, parsed(frequency@))
//@| ensures
//@|     (r is Err) == (parsed(frequency@).neg() || parsed(frequency@).nil()),
//@|     r is Ok ==> contiguous(r->Ok_0@, self.start, self.end) && calendar(r->Ok_0@, self.start, parsed(frequency@))
//@| loop 0 invariant
//@|     fits(self.start, self.end, parsed(frequency@)), parsed(frequency@).wf(), !parsed(frequency@).nil(), span@ == parsed(frequency@).span(1),
//@|     partial(timesteps@, self.start, self.end, current), calendar(timesteps@, self.start, parsed(frequency@)),
//@|     current.ns() == dt_plus(self.start, parsed(frequency@).span(timesteps@.len() as int)).ns()
//@| loop 0 decreases
//@|     if self.end.ns() >= current.ns() { self.end.ns() - current.ns() + 1 } else { 0 }
//@| at loop0.before
//@|     proof { let z = parsed(frequency@).span(0); axiom_plus(self.start, z, z); }
//@| at loop0.top
//@|     proof { let d = parsed(frequency@); let n = timesteps@.len() as int; lemma_span(d, n); axiom_plus(self.start, d.span(n), d.span(n + 1)); assert(times(span@, n + 1) == d.span(n + 1)); }
proof fn lemma_span(d: PDur, n: int)
    requires d.wf(), !d.nil(), n >= 0
    ensures d.span(n).mo >= 0, d.span(n).wk >= 0, d.span(n).dy >= 0, d.span(n).nsec >= 0, d.span(n).le(d.span(n + 1)), d.span(n) != d.span(n + 1)
{
    let (a, b, c, e) = (d.mo(), d.wk(), d.dy(), d.nsec());
    assert(a * n >= 0 && b * n >= 0 && c * n >= 0 && e * n >= 0 && a * (n + 1) == a * n + a && b * (n + 1) == b * n + b && c * (n + 1) == c * n + c && e * (n + 1) == e * n + e) by (nonlinear_arith) requires a >= 0, b >= 0, c >= 0, e >= 0, n >= 0;
}
spec fn hours_ok(h: int, t: TimeDomainBuilder) -> bool { h <= 2562047788015215 && t.end.ns() + h * 3600 * SEC() <= dt_max() && t.end.ns() - t.start.ns() < u64::MAX * SEC() }
spec fn step_fits(t: TimeDomainBuilder) -> bool { match t.timestep {
    TimestepDuration::Hours(h) => hours_ok(h.v(), t), TimestepDuration::Days(d) => hours_ok(d.v() * 24, t), TimestepDuration::Frequency(f) => fits(t.start, t.end, parsed(f@)) } }
/// what a schedule of this step kind looks like
spec fn schedule(ts: Seq<Timestep>, t: TimeDomainBuilder) -> bool { contiguous(ts, t.start, t.end) && match t.timestep {
    TimestepDuration::Hours(h) => forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).duration.ns() == h.v() * 3600 * SEC(),
    TimestepDuration::Days(d) => forall|i: int| 0 <= i < ts.len() ==> (#[trigger] ts[i]).duration.ns() == d.v() * 86400 * SEC(),
    TimestepDuration::Frequency(f) => calendar(ts, t.start, parsed(f@)) } }
//@ extract pywr-core/src/timestep.rs impl TimeDomainBuilder::timesteps
//@| requires
//@|     step_fits(*self)
//@| ensures
//@|     r is Err == (self.timestep matches TimestepDuration::Frequency(f) && (parsed(f@).neg() || parsed(f@).nil())), r is Ok ==> schedule(r->Ok_0@, *self)
//@| at fn.top
//@|     proof { match self.timestep { TimestepDuration::Hours(h) => { NonZeroU64::axiom_pos(h); lemma_step(self.end.ns() - self.start.ns(), h.v() * 3600 * SEC()) }, TimestepDuration::Days(d) => { NonZeroU64::axiom_pos(d); lemma_step(self.end.ns() - self.start.ns(), d.v() * 86400 * SEC()) }, _ => {} } }
proof fn lemma_step(c: int, d: int) requires d >= SEC(), c < u64::MAX * SEC() ensures c < u64::MAX * d { assert(u64::MAX * SEC() <= u64::MAX * d) by (nonlinear_arith) requires d >= SEC(); }
//@ extract pywr-core/src/timestep.rs impl TimeDomainBuilder::build
//@| requires
//@|     step_fits(*self)
//@| ensures
//@|     r is Ok ==> r->Ok_0.timesteps@.len() > 0 && schedule(r->Ok_0.timesteps@, *self),
//@|     r is Ok == (self.start.ns() <= self.end.ns() && !(self.timestep matches TimestepDuration::Frequency(f) && (parsed(f@).neg() || parsed(f@).nil())))
//@ extract pywr-core/src/timestep.rs impl TimeDomain::fixed_step_duration
//@| ensures
//@|     r is Some ==> self.timesteps@.len() > 0 && (forall|i: int| 0 <= i < self.timesteps@.len() ==> (#[trigger] self.timesteps@[i]).duration.ns() == r->Some_0.ns()),
//@|     r is None ==> self.timesteps@.len() == 0 || exists|i: int| 0 <= i < self.timesteps@.len() && (#[trigger] self.timesteps@[i]).duration.ns() != self.timesteps@[0].duration.ns()
//@| loop 0 invariant
//@|     _n0 == self.timesteps@.len(), _n0 > 0, _x == self.timesteps@[0].duration, first_duration == _x,
//@|     _acc0 == (forall|i: int| 0 <= i < _i0 ==> (#[trigger] self.timesteps@[i]).duration.ns() == self.timesteps@[0].duration.ns())
//@ extract pywr-core/src/timestep.rs impl TimeDomain::timesteps
//@| ensures
//@|     r@ == self.timesteps@
//@ extract pywr-core/src/timestep.rs impl TimeDomain::len
//@| ensures
//@|     r == self.timesteps@.len()
//@ extract pywr-core/src/timestep.rs impl TimeDomain::is_empty
//@| ensures
//@|     r == (self.timesteps@.len() == 0)
//@ extract pywr-core/src/timestep.rs impl TimeDomain::first_timestep
//@| requires
//@|     self.timesteps@.len() > 0
//@| ensures
//@|     *r == self.timesteps@[0]
//@ extract pywr-core/src/timestep.rs impl TimeDomain::last_timestep
//@| requires
//@|     self.timesteps@.len() > 0
//@| ensures
//@|     *r == self.timesteps@[self.timesteps@.len() - 1]
} // verus!
fn main() {}
