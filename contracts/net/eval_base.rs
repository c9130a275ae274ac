// Parameters, their internal states and the collection that evaluates them. The traits are restated with the relation
// their methods stand for: `before_step(ctx, i0, i1, v)` means "called with `ctx` and the internal state `i0`, it may
// return the value `v` and leave the internal state `i1`". Nothing is assumed of that relation (it may be non-deterministic).
#[verifier::external_body] pub struct ScenarioIndex { x: u8 }
pub trait ParameterState { }
pub type IS = Option<Box<dyn ParameterState>>;
//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/parameters/mod.rs struct SimpleParameterContext
//@| pub
pub trait Parameter {
    spec fn nm(&self) -> ParameterName;
    /// the internal states `setup` may give
    spec fn initial(&self, timesteps: Seq<Timestep>, scenario_index: ScenarioIndex, i: IS) -> bool;
    fn name(&self) -> (r: &ParameterName) ensures *r == self.nm();
    fn setup(&self, timesteps: &[Timestep], scenario_index: &ScenarioIndex) -> (r: Result<IS, E_>) ensures r is Ok ==> self.initial(timesteps@, *scenario_index, r->Ok_0);
}
pub trait GeneralParameter: Parameter { }
pub trait GeneralBeforeParameter<T>: GeneralParameter {
    spec fn before_step(&self, ctx: GeneralParameterContext<'_>, i0: IS, i1: IS, v: T) -> bool;
    fn before(&self, context: GeneralParameterContext<'_>, internal_state: &mut IS) -> (r: Result<T, E_>)
        ensures r is Ok ==> self.before_step(context, *old(internal_state), *final(internal_state), r->Ok_0);
}
pub trait GeneralAfterParameter<T>: GeneralParameter {
    spec fn after_step(&self, ctx: GeneralParameterContext<'_>, i0: IS, i1: IS, v: T) -> bool;
    fn after(&self, context: GeneralParameterContext<'_>, internal_state: &mut IS) -> (r: Result<T, E_>)
        ensures r is Ok ==> self.after_step(context, *old(internal_state), *final(internal_state), r->Ok_0);
}
pub trait GeneralAfterParameterHook<T>: GeneralParameter {
    spec fn hook_step(&self, ctx: GeneralParameterContext<'_>, i0: IS, i1: IS) -> bool;
    fn after(&self, context: GeneralParameterContext<'_>, internal_state: &mut IS) -> (r: Result<(), E_>)
        ensures r is Ok ==> self.hook_step(context, *old(internal_state), *final(internal_state));
}
pub trait SimpleParameter<T>: Parameter {
    spec fn simple_step(&self, timestep: Timestep, scenario_index: ScenarioIndex, c: PV, s: PV, i0: IS, i1: IS, v: T) -> bool;
    fn compute(&self, context: SimpleParameterContext<'_>, internal_state: &mut IS) -> (r: Result<T, E_>)
        ensures r is Ok ==> self.simple_step(*context.timestep, *context.scenario_index, context.values.constant.constant.pv(), context.values.simple.pv(), *old(internal_state), *final(internal_state), r->Ok_0);
}
pub trait ConstParameter<T>: Parameter {
    spec fn const_step(&self, scenario_index: ScenarioIndex, c: PV, i0: IS, i1: IS, v: T) -> bool;
    fn compute(&self, scenario_index: &ScenarioIndex, values: &ConstParameterValues<'_>, internal_state: &mut IS) -> (r: Result<T, E_>)
        ensures r is Ok ==> self.const_step(*scenario_index, values.constant.pv(), *old(internal_state), *final(internal_state), r->Ok_0);
}
//@ extract pywr-core/src/parameters/mod.rs struct ParameterStatesByType
//@| pub
//@ extract pywr-core/src/parameters/mod.rs struct ParameterStates
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum GeneralAfterOperation
//@| attr #[verifier::reject_recursive_types(T)]
//@| pub
//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterEntry
//@| mapfield parameter: Arc<dyn Parameter>
//@| attr #[verifier::reject_recursive_types(T)]
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum GeneralBeforeScheduleEntry
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum GeneralAfterScheduleOperation
//@| attr #[verifier::reject_recursive_types(T)]
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum GeneralAfterScheduleEntry
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum SimpleParameterType
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum ConstParameterType
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/parameters/mod.rs struct ParameterCollection
//@| pub
// ---- run-time statistics
#[verifier::external_body] pub struct Instant { x: u64 }
impl Instant {
    #[verifier::external_body] pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body] pub fn elapsed(&self) -> R { unimplemented!() }
}
#[verifier::external_body] pub struct TimingVec { x: u8 }
pub struct Timing { pub before: R, pub after: R }
impl TimingVec {
    pub uninterp spec fn n(&self) -> nat;
    #[verifier::external_body] pub fn get_unchecked_mut(&mut self, i: usize) -> (r: &mut Timing) requires i < old(self).n() ensures final(self).n() == old(self).n() { unimplemented!() }
}
pub struct ParameterTimings { pub id: u64, pub general_f64: TimingVec, pub general_u64: TimingVec, pub general_multi: TimingVec }
pub fn opt_ref<'a, 'b, T>(o: &'b Option<&'a mut T>) -> (r: Option<&'b T>) ensures r is Some == *o is Some, r is Some ==> *r->Some_0 == *(*o)->Some_0
{ match o { Some(x) => Some(&**x), None => None } }
pub fn opt_mut<'a, 'b, T>(o: &'b mut Option<&'a mut T>) -> (r: Option<&'b mut T>) ensures r is Some == *old(o) is Some, r is Some ==> *r->Some_0 == *(*old(o))->Some_0 && *final(o) is Some && *(*final(o))->Some_0 == *final(r->Some_0), r is None ==> *final(o) is None
{ match o { Some(x) => Some(&mut **x), None => None } }
impl ParameterCollection {
    /// timings of this very collection have a place for each entry of the schedules
    pub open spec fn timings_fit(&self, t: Option<&mut ParameterTimings>) -> bool {
        t is Some && t->Some_0.id == self.id ==> {
            (forall|k: int| 0 <= k < self.general_before_order@.len() ==> match #[trigger] self.general_before_order@[k] { GeneralBeforeScheduleEntry::F64 { index, .. } => index.0 < t->Some_0.general_f64.n(), GeneralBeforeScheduleEntry::U64 { index, .. } => index.0 < t->Some_0.general_u64.n(), GeneralBeforeScheduleEntry::Multi { index, .. } => index.0 < t->Some_0.general_multi.n() })
            && (forall|k: int| 0 <= k < self.general_after_order@.len() ==> match #[trigger] self.general_after_order@[k] { GeneralAfterScheduleEntry::F64 { index, .. } => index.0 < t->Some_0.general_f64.n(), GeneralAfterScheduleEntry::U64 { index, .. } => index.0 < t->Some_0.general_u64.n(), GeneralAfterScheduleEntry::Multi { index, .. } => index.0 < t->Some_0.general_multi.n() })
        }
    }
}
