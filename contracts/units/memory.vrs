//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ map TimestepIndex usize
//@ mappath downcast_internal_state_ref => identity
//@ mappath downcast_internal_state_mut => identity
//@ mappath Box::new => identity
//@ mappath .deref => fn itself
//@ mappath .calc_iter_f64 => & fn agg_memory
//@ mappath .calc_iter_u64 => & fn agg_umemory
//@ mappath VecDeque::with_capacity => empty_memory
verus! {
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index
//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep timestep network state
#[verifier::external_body] pub struct ScenarioIndex { x: u8 }
//@ include ../simple_metric.rs
//@ include ../agg.rs
//@ include ../aggu.rs
fn itself<T>(x: T) -> (r: T) ensures r == x { x }
#[verifier::external_body] fn vec_to_deque<T>(v: Vec<T>) -> (r: VecDeque<T>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] fn deque_values<T>(v: &VecDeque<T>) -> (r: &[T]) ensures r@ == v@ { unimplemented!() }
fn empty_memory<T>(n: usize) -> (r: VecDeque<T>) ensures r@.len() == 0 { VecDeque::new() }
fn agg_memory(f: &AggFuncF64, m: &VecDeque<R>) -> (r: Result<R, E_>) ensures r is Ok && r->Ok_0@ == f.of(rviews(m@)) { f.calc_iter_f64(deque_values(m)) }
fn agg_umemory(f: &AggFuncU64, m: &VecDeque<u64>) -> (r: Result<u64, E_>) requires f.fits(m@) ensures r is Ok && r->Ok_0 == f.of(m@) { f.calc_iter_u64(deque_values(m)) }

// ---- delay
//@ extract pywr-core/src/parameters/delay.rs struct DelayParameter
//@| drop meta
//@ extract pywr-core/src/parameters/delay.rs impl Parameter for DelayParameter::setup
//@| implgen <M, T: Copy>
//@| selfty DelayParameter<M, T>
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<VecDeque<T>>, E_>
//@| idxtype 0 u64
//@| acctype 0 T
//@| ensures
//@|     r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0@ =~= Seq::new(self.delay as nat, |i: int| self.initial_value)
//@| loop 0 invariant
//@|     _acc0@ =~= Seq::new(_i0 as nat, |i: int| self.initial_value)
//@ extract pywr-core/src/parameters/delay.rs impl GeneralBeforeParameter<f64> for DelayParameter<MetricF64, f64>::before
//@| as delay_f64_before
//@| selfty DelayParameter<MetricF64, R>
//@| dropparam _ctx
//@| param internal_state: &mut VecDeque<R>
//@| ensures
//@|     old(internal_state)@.len() > 0 ==> r is Ok && r->Ok_0 == old(internal_state)@[0] && final(internal_state)@ == old(internal_state)@.drop_first(),
//@|     old(internal_state)@.len() == 0 ==> r is Err && final(internal_state)@ == old(internal_state)@
//@ extract pywr-core/src/parameters/delay.rs impl GeneralAfterParameterHook<f64> for DelayParameter<MetricF64, f64>::after
//@| as delay_f64_after
//@| selfty DelayParameter<MetricF64, R>
//@| param internal_state: &mut VecDeque<R>
//@| ensures
//@|     r is Ok == self.metric.has(ctx.network, ctx.state),
//@|     r is Ok ==> final(internal_state)@.len() == old(internal_state)@.len() + 1 && final(internal_state)@.drop_last() =~= old(internal_state)@ && final(internal_state)@.last()@ == self.metric.val(ctx.network, ctx.state)
//@ extract pywr-core/src/parameters/delay.rs impl SimpleParameter<f64> for DelayParameter<SimpleMetricF64, f64>::compute
//@| as delay_f64_compute
//@| selfty DelayParameter<SimpleMetricF64, R>
//@| param internal_state: &mut VecDeque<R>
//@| ensures
//@|     r is Ok == self.metric.has(ctx.values),
//@|     r is Ok && old(internal_state)@.len() > 0 ==> r->Ok_0 == old(internal_state)@[0] && final(internal_state)@.len() == old(internal_state)@.len() && final(internal_state)@.drop_last() =~= old(internal_state)@.drop_first() && final(internal_state)@.last()@ == self.metric.val(ctx.values),
//@|     r is Ok && old(internal_state)@.len() == 0 ==> r->Ok_0@ == self.metric.val(ctx.values) && final(internal_state)@.len() == 0
//@ extract pywr-core/src/parameters/delay.rs impl GeneralBeforeParameter<u64> for DelayParameter<MetricU64, u64>::before
//@| as delay_u64_before
//@| selfty DelayParameter<MetricU64, u64>
//@| dropparam _ctx
//@| param internal_state: &mut VecDeque<u64>
//@| ensures
//@|     old(internal_state)@.len() > 0 ==> r is Ok && r->Ok_0 == old(internal_state)@[0] && final(internal_state)@ == old(internal_state)@.drop_first(),
//@|     old(internal_state)@.len() == 0 ==> r is Err && final(internal_state)@ == old(internal_state)@
//@ extract pywr-core/src/parameters/delay.rs impl GeneralAfterParameterHook<u64> for DelayParameter<MetricU64, u64>::after
//@| as delay_u64_after
//@| selfty DelayParameter<MetricU64, u64>
//@| param internal_state: &mut VecDeque<u64>
//@| ensures
//@|     r is Ok == self.metric.has(ctx.network, ctx.state),
//@|     r is Ok ==> final(internal_state)@.len() == old(internal_state)@.len() + 1 && final(internal_state)@.drop_last() =~= old(internal_state)@ && final(internal_state)@.last() == self.metric.val(ctx.network, ctx.state)
//@ extract pywr-core/src/parameters/delay.rs impl SimpleParameter<u64> for DelayParameter<SimpleMetricU64, u64>::compute
//@| as delay_u64_compute
//@| selfty DelayParameter<SimpleMetricU64, u64>
//@| param internal_state: &mut VecDeque<u64>
//@| ensures
//@|     r is Ok == self.metric.has(ctx.values),
//@|     r is Ok && old(internal_state)@.len() > 0 ==> r->Ok_0 == old(internal_state)@[0] && final(internal_state)@.len() == old(internal_state)@.len() && final(internal_state)@.drop_last() =~= old(internal_state)@.drop_first() && final(internal_state)@.last() == self.metric.val(ctx.values),
//@|     r is Ok && old(internal_state)@.len() == 0 ==> r->Ok_0 == self.metric.val(ctx.values) && final(internal_state)@.len() == 0
// ---- rolling
//@ extract pywr-core/src/parameters/rolling.rs struct RollingParameter
//@| drop meta
/// the values kept of a list that has just grown by one
spec fn windowed<T>(m: Seq<T>, w: usize) -> Seq<T> { if m.len() > w { m.drop_first() } else { m } }
//@ extract pywr-core/src/parameters/rolling.rs impl Parameter for RollingParameter<M, f64, AF>::setup
//@| as rolling_f64_setup
//@| implgen <M, AF>
//@| selfty RollingParameter<M, R, AF>
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<VecDeque<R>>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0@.len() == 0
//@ extract pywr-core/src/parameters/rolling.rs impl GeneralBeforeParameter<f64> for RollingParameter<MetricF64, f64, AggFuncF64>::before
//@| as rolling_f64_before
//@| selfty RollingParameter<MetricF64, R, AggFuncF64>
//@| dropparam _ctx
//@| param internal_state: &VecDeque<R>
//@| ensures
//@|     r is Ok,
//@|     internal_state@.len() < self.min_values ==> r->Ok_0 == self.initial_value,
//@|     internal_state@.len() >= self.min_values ==> r->Ok_0@ == self.agg_func.of(rviews(internal_state@))
//@ extract pywr-core/src/parameters/rolling.rs impl GeneralAfterParameterHook<f64> for RollingParameter<MetricF64, f64, AggFuncF64>::after
//@| as rolling_f64_after
//@| selfty RollingParameter<MetricF64, R, AggFuncF64>
//@| param internal_state: &mut VecDeque<R>
//@| ensures
//@|     r is Ok == self.metric.has(ctx.network, ctx.state),
//@|     r is Ok ==> exists|x: R| x@ == self.metric.val(ctx.network, ctx.state) && final(internal_state)@ =~= windowed(#[trigger] old(internal_state)@.push(x), self.window_size)
//@ extract pywr-core/src/parameters/rolling.rs impl SimpleParameter<f64> for RollingParameter<SimpleMetricF64, f64, AggFuncF64>::compute
//@| as rolling_f64_compute
//@| selfty RollingParameter<SimpleMetricF64, R, AggFuncF64>
//@| param internal_state: &mut VecDeque<R>
//@| ensures
//@|     r is Ok == self.metric.has(ctx.values),
//@|     r is Ok && old(internal_state)@.len() < self.min_values ==> r->Ok_0 == self.initial_value,
//@|     r is Ok && old(internal_state)@.len() >= self.min_values ==> r->Ok_0@ == self.agg_func.of(rviews(old(internal_state)@)),
//@|     r is Ok ==> exists|x: R| x@ == self.metric.val(ctx.values) && final(internal_state)@ =~= windowed(#[trigger] old(internal_state)@.push(x), self.window_size)
//@ extract pywr-core/src/parameters/rolling.rs impl Parameter for RollingParameter<M, u64, AF>::setup
//@| as rolling_u64_setup
//@| implgen <M, AF>
//@| selfty RollingParameter<M, u64, AF>
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<VecDeque<u64>>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0@.len() == 0
//@ extract pywr-core/src/parameters/rolling.rs impl GeneralBeforeParameter<u64> for RollingParameter<MetricU64, u64, AggFuncU64>::before
//@| as rolling_u64_before
//@| sub `memory.iter()` => `memory`
//@| selfty RollingParameter<MetricU64, u64, AggFuncU64>
//@| dropparam _ctx
//@| param internal_state: &VecDeque<u64>
//@| requires
//@|     internal_state@.len() >= self.min_values ==> self.agg_func.fits(internal_state@)
//@| ensures
//@|     r is Ok,
//@|     internal_state@.len() < self.min_values ==> r->Ok_0 == self.initial_value,
//@|     internal_state@.len() >= self.min_values ==> r->Ok_0 == self.agg_func.of(internal_state@)
//@ extract pywr-core/src/parameters/rolling.rs impl GeneralAfterParameterHook<u64> for RollingParameter<MetricU64, u64, AggFuncU64>::after
//@| as rolling_u64_after
//@| selfty RollingParameter<MetricU64, u64, AggFuncU64>
//@| param internal_state: &mut VecDeque<u64>
//@| ensures
//@|     r is Ok == self.metric.has(ctx.network, ctx.state),
//@|     r is Ok ==> exists|x: u64| x == self.metric.val(ctx.network, ctx.state) && final(internal_state)@ =~= windowed(#[trigger] old(internal_state)@.push(x), self.window_size)
//@ extract pywr-core/src/parameters/rolling.rs impl SimpleParameter<u64> for RollingParameter<SimpleMetricU64, u64, AggFuncU64>::compute
//@| as rolling_u64_compute
//@| sub `memory.iter()` => `memory`
//@| selfty RollingParameter<SimpleMetricU64, u64, AggFuncU64>
//@| param internal_state: &mut VecDeque<u64>
//@| requires
//@|     old(internal_state)@.len() >= self.min_values ==> self.agg_func.fits(old(internal_state)@)
//@| ensures
//@|     r is Ok == self.metric.has(ctx.values),
//@|     r is Ok && old(internal_state)@.len() < self.min_values ==> r->Ok_0 == self.initial_value,
//@|     r is Ok && old(internal_state)@.len() >= self.min_values ==> r->Ok_0 == self.agg_func.of(old(internal_state)@),
//@|     r is Ok ==> exists|x: u64| x == self.metric.val(ctx.values) && final(internal_state)@ =~= windowed(#[trigger] old(internal_state)@.push(x), self.window_size)
// ---- what the steps add up to
/// the value k steps after the start of a history, with the initial value before it
spec fn at_step<T>(init: T, hist: Seq<T>, k: int) -> T { if k < 0 { init } else { hist[k] } }
/// the memory of a delay after the history
spec fn delayed<T>(init: T, hist: Seq<T>, d: nat) -> Seq<T> { Seq::new(d, |i: int| at_step(init, hist, hist.len() - d + i)) }
/// the last values of the history, no more than the window
spec fn last_of<T>(hist: Seq<T>, w: nat) -> Seq<T> { if hist.len() <= w { hist } else { hist.subrange(hist.len() - w, hist.len() as int) } }
/// one step of a delay: the value returned is the one of `d` steps before, the initial value before there is one
proof fn delay_step<T>(m: Seq<T>, init: T, hist: Seq<T>, d: nat, x: T)
    requires d > 0, m == delayed(init, hist, d)
    ensures m[0] == at_step(init, hist, hist.len() - d), m.drop_first().push(x) =~= delayed(init, hist.push(x), d)
{}
proof fn delay_start<T>(init: T, d: nat) ensures Seq::new(d, |i: int| init) =~= delayed(init, Seq::<T>::empty(), d) {}
proof fn rolling_step<T>(m: Seq<T>, hist: Seq<T>, w: usize, x: T)
    requires m == last_of(hist, w as nat)
    ensures windowed(m.push(x), w) =~= last_of(hist.push(x), w as nat), m.len() == (if hist.len() < w { hist.len() } else { w as nat })
{}
fn ctx_of<'a>(v: &Vec<GeneralParameterContext<'a>>, k: usize) -> (r: GeneralParameterContext<'a>) requires k < v@.len() ensures r == v@[k as int] { let c = &v[k]; GeneralParameterContext { timestep: c.timestep, network: c.network, state: c.state } }
/// the steps of a run, as the network takes them: what the parameter returns is the metric's value `delay` steps before
fn delay_run(p: &DelayParameter<MetricF64, R>, steps: usize, after: Vec<GeneralParameterContext>) -> (r: Result<Vec<R>, E_>)
    requires p.delay > 0, after@.len() >= steps
    ensures r is Ok ==> r->Ok_0@.len() == steps && forall|k: int| 0 <= k < steps ==> (#[trigger] r->Ok_0@[k])@ == (if k < p.delay { p.initial_value@ } else { p.metric.val(after@[k - p.delay].network, after@[k - p.delay].state) })
{
    let mut mem = p.setup()?.unwrap();
    let mut out: Vec<R> = Vec::new();
    let ghost mut hist: Seq<R> = Seq::empty();
    proof { delay_start(p.initial_value, p.delay as nat); }
    let mut k: usize = 0;
    while k < steps
        invariant p.delay > 0, k <= steps, after@.len() >= steps, hist.len() == k, out@.len() == k, mem@ == delayed(p.initial_value, hist, p.delay as nat),
            forall|j: int| 0 <= j < k ==> (#[trigger] hist[j])@ == p.metric.val(after@[j].network, after@[j].state),
            forall|j: int| 0 <= j < k ==> #[trigger] out@[j] == at_step(p.initial_value, hist, j - p.delay)
        decreases steps - k
    {
        let ghost m0 = mem@;
        let v = p.delay_f64_before(&mut mem)?;
        let ghost m1 = mem@;
        p.delay_f64_after(ctx_of(&after, k), &mut mem)?;
        proof { let x = mem@.last(); assert(mem@ =~= m1.push(x)); delay_step(m0, p.initial_value, hist, p.delay as nat, x); hist = hist.push(x); }
        out.push(v);
        k = k + 1;
    }
    Ok(out)
}
/// the same for a rolling window
fn rolling_run(p: &RollingParameter<MetricF64, R, AggFuncF64>, steps: usize, after: Vec<GeneralParameterContext>) -> (r: Result<Vec<R>, E_>)
    requires after@.len() >= steps
    ensures r is Ok ==> r->Ok_0@.len() == steps && forall|k: int| 0 <= k < steps ==> (#[trigger] r->Ok_0@[k])@ == (if rmin2(k, p.window_size as int) < p.min_values { p.initial_value@ } else { p.agg_func.of(last_of(avals(p.metric, after@, k), p.window_size as nat)) })
{
    let mut mem = p.rolling_f64_setup()?.unwrap();
    let mut out: Vec<R> = Vec::new();
    let ghost mut hist: Seq<R> = Seq::empty();
    let mut k: usize = 0;
    while k < steps
        invariant k <= steps, after@.len() >= steps, hist.len() == k, out@.len() == k, mem@ =~= last_of(hist, p.window_size as nat), rviews(hist) =~= avals(p.metric, after@, k as int),
            forall|j: int| 0 <= j < k ==> (#[trigger] out@[j])@ == (if rmin2(j, p.window_size as int) < p.min_values { p.initial_value@ } else { p.agg_func.of(last_of(avals(p.metric, after@, j), p.window_size as nat)) })
        decreases steps - k
    {
        let ghost m0 = mem@;
        let v = p.rolling_f64_before(&mem)?;
        proof { assert(rviews(m0) =~= last_of(avals(p.metric, after@, k as int), p.window_size as nat)); }
        p.rolling_f64_after(ctx_of(&after, k), &mut mem)?;
        proof {
            let x = choose|x: R| x@ == p.metric.val(after@[k as int].network, after@[k as int].state) && mem@ =~= windowed(#[trigger] m0.push(x), p.window_size);
            rolling_step(m0, hist, p.window_size, x);
            hist = hist.push(x);
            assert(avals(p.metric, after@, k + 1) =~= avals(p.metric, after@, k as int).push(x@));
        }
        out.push(v);
        k = k + 1;
    }
    Ok(out)
}
spec fn rmin2(a: int, b: int) -> int { if a <= b { a } else { b } }
/// the metric after each of the first k steps
spec fn avals(m: MetricF64, after: Seq<GeneralParameterContext>, k: int) -> Seq<real> { Seq::new(k as nat, |j: int| m.val(after[j].network, after[j].state)) }
} // verus!
fn main() {}
