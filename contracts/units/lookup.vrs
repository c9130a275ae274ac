//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ map TimestepIndex usize
verus! {
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index
//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep timestep network state
//@ include ../scenario.rs
//@ include ../simple_metric.rs

// Assumed contracts for the `ndarray` crate: one- and two-dimensional arrays with bounds-checked `get`.
pub struct Axis(pub usize);
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Array1<T> { x: core::marker::PhantomData<T> }
impl<T> View for Array1<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Array1<T> {
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<&T>) ensures (i < self@.len()) == (r is Some), r is Some ==> *r->Some_0 == self@[i as int] { unimplemented!() }
    #[verifier::external_body] pub fn len_of(&self, a: Axis) -> (r: usize) requires a.0 == 0 ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body] #[verifier::accept_recursive_types(T)] pub struct Array2<T> { x: core::marker::PhantomData<T> }
impl<T> Array2<T> {
    pub uninterp spec fn rows(&self) -> nat;
    pub uninterp spec fn cols(&self) -> nat;
    pub uninterp spec fn at(&self, i: int, j: int) -> T;
    #[verifier::external_body] pub fn get(&self, ix: [usize; 2]) -> (r: Option<&T>) ensures (ix@[0] < self.rows() && ix@[1] < self.cols()) == (r is Some), r is Some ==> *r->Some_0 == self.at(ix@[0] as int, ix@[1] as int) { unimplemented!() }
    #[verifier::external_body] pub fn len_of(&self, a: Axis) -> (r: usize) requires a.0 <= 1 ensures r == (if a.0 == 0 { self.rows() } else { self.cols() }) { unimplemented!() }
}
/// row read at timestep t: t itself, or t + offset held at the first and last row
spec fn row(t: usize, offset: Option<i32>, n: int) -> int {
    match offset { None => t as int, Some(o) => { let i = t + o; let j = if i < 0 { 0int } else { i }; if j > n - 1 { n - 1 } else { j } } }
}
spec fn small(t: usize, offset: Option<i32>, n: int) -> bool { offset is Some ==> 0 < n <= i32::MAX && t <= i32::MAX && i32::MIN <= t + offset->Some_0 <= i32::MAX }

//@ extract pywr-core/src/parameters/array.rs struct Array1Parameter
//@| drop meta
//@ extract pywr-core/src/parameters/array.rs impl Array1Parameter<T>::timestep_index
//@| implgen <T>
//@| selfty Array1Parameter<T>
//@| requires
//@|     small(timestep.index, self.timestep_offset, self.array@.len() as int)
//@| ensures
//@|     r == row(timestep.index, self.timestep_offset, self.array@.len() as int)
//@ extract pywr-core/src/parameters/array.rs impl SimpleParameter<f64> for Array1Parameter<f64>::compute
//@| selfty Array1Parameter<R>
//@| dropparam _internal_state
//@| requires
//@|     small(ctx.timestep.index, self.timestep_offset, self.array@.len() as int)
//@| ensures
//@|     r is Ok == (row(ctx.timestep.index, self.timestep_offset, self.array@.len() as int) < self.array@.len()),
//@|     r is Ok ==> r->Ok_0@ == self.array@[row(ctx.timestep.index, self.timestep_offset, self.array@.len() as int)]@
//@ extract pywr-core/src/parameters/array.rs impl SimpleParameter<u64> for Array1Parameter<u64>::compute
//@| as compute_u64
//@| selfty Array1Parameter<u64>
//@| dropparam _internal_state
//@| requires
//@|     small(ctx.timestep.index, self.timestep_offset, self.array@.len() as int)
//@| ensures
//@|     r is Ok == (row(ctx.timestep.index, self.timestep_offset, self.array@.len() as int) < self.array@.len()),
//@|     r is Ok ==> r->Ok_0 == self.array@[row(ctx.timestep.index, self.timestep_offset, self.array@.len() as int)]

//@ extract pywr-core/src/parameters/array.rs struct Array2Parameter
//@| drop meta
//@ extract pywr-core/src/parameters/array.rs impl Array2Parameter<T>::timestep_index
//@| implgen <T>
//@| selfty Array2Parameter<T>
//@| requires
//@|     small(timestep.index, self.timestep_offset, self.array.rows() as int)
//@| ensures
//@|     r == row(timestep.index, self.timestep_offset, self.array.rows() as int)
impl<T> Array2Parameter<T> {
    spec fn pre(&self, t: usize, s: &ScenarioIndex) -> bool { small(t, self.timestep_offset, self.array.rows() as int) && self.scenario_group_index < s.core.indices@.len() }
    spec fn t(&self, t: usize) -> int { row(t, self.timestep_offset, self.array.rows() as int) }
    spec fn s(&self, s: &ScenarioIndex) -> int { s.core.indices@[self.scenario_group_index as int] as int }
}
//@ extract pywr-core/src/parameters/array.rs impl SimpleParameter<f64> for Array2Parameter<f64>::compute
//@| selfty Array2Parameter<R>
//@| dropparam _internal_state
//@| requires
//@|     self.pre(ctx.timestep.index, ctx.scenario_index)
//@| ensures
//@|     r is Ok == (self.t(ctx.timestep.index) < self.array.rows() && self.s(ctx.scenario_index) < self.array.cols()),
//@|     r is Ok ==> r->Ok_0@ == self.array.at(self.t(ctx.timestep.index), self.s(ctx.scenario_index))@
//@ extract pywr-core/src/parameters/array.rs impl SimpleParameter<u64> for Array2Parameter<u64>::compute
//@| as compute_u64
//@| selfty Array2Parameter<u64>
//@| dropparam _internal_state
//@| requires
//@|     self.pre(ctx.timestep.index, ctx.scenario_index)
//@| ensures
//@|     r is Ok == (self.t(ctx.timestep.index) < self.array.rows() && self.s(ctx.scenario_index) < self.array.cols()),
//@|     r is Ok ==> r->Ok_0 == self.array.at(self.t(ctx.timestep.index), self.s(ctx.scenario_index))

//@ extract pywr-core/src/parameters/vector.rs struct VectorParameter
//@| drop meta
//@ extract pywr-core/src/parameters/vector.rs impl GeneralBeforeParameter for VectorParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok == (ctx.timestep.index < self.values@.len()),
//@|     r is Ok ==> r->Ok_0@ == self.values@[ctx.timestep.index as int]@

//@ extract pywr-core/src/parameters/constant_scenario.rs struct ConstantScenarioParameter
//@| drop meta
//@ extract pywr-core/src/parameters/constant_scenario.rs impl ConstParameter for ConstantScenarioParameter::compute
//@| dropparam _values _internal_state
//@| requires
//@|     self.scenario_group_index < scenario_index.core.indices@.len(), self.scenario_group_index < scenario_index.schema_indices().len(),
//@|     scenario_index.schema_indices()[self.scenario_group_index as int] < self.values@.len()
//@| ensures
//@|     r is Ok && r->Ok_0@ == self.values@[scenario_index.schema_indices()[self.scenario_group_index as int] as int]@

//@ extract pywr-core/src/parameters/indexed_array.rs struct IndexedArrayParameter
//@| drop meta
//@ extract pywr-core/src/parameters/indexed_array.rs impl GeneralBeforeParameter for IndexedArrayParameter::before
//@| dropparam _internal_state
//@| ensures
//@|     r is Ok ==> ({ let i = self.index_parameter.val(ctx.network, ctx.state); i < self.metrics@.len() && r->Ok_0@ == self.metrics@[i as int].val(ctx.network, ctx.state) }),
//@|     self.index_parameter.has(ctx.network, ctx.state) && self.index_parameter.val(ctx.network, ctx.state) < self.metrics@.len() && self.metrics@[self.index_parameter.val(ctx.network, ctx.state) as int].has(ctx.network, ctx.state) ==> r is Ok
} // verus!
fn main() {}
