//@ include ../prelude.rs
//@ include ../metric.rs
//@ include ../time.rs
//@ map TimestepIndex usize
//@ mappath downcast_internal_state_ref => identity
//@ mappath downcast_internal_state_mut => identity
//@ mappath downcast_variable_config_ref => identity
//@ mappath Box::new => identity
//@ map InternalValue Option<R>
verus! {
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| keep date index

//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterContext
//@| keep timestep network state

//@ extract pywr-core/src/parameters/activation_function.rs enum ActivationFunction
spec fn clampr(x: real, lo: real, hi: real) -> real { rmin(rmax(x, lo), hi) }
impl ActivationFunction {
    spec fn lo(&self) -> real { match self { Self::Unit { min, .. } => min@, Self::Logistic { .. } => -6real, _ => -1real } }
    spec fn hi(&self) -> real { match self { Self::Unit { max, .. } => max@, Self::Logistic { .. } => 6real, _ => 1real } }
    spec fn ap(&self, v: real) -> real {
        let x = clampr(v, self.lo(), self.hi());
        match self {
            Self::Unit { .. } => x,
            Self::Rectifier { min, max, neg_value } => if x <= 0real { neg_value@ } else { min@ + x * (max@ - min@) },
            Self::BinaryStep { pos_value, neg_value } => if x <= 0real { neg_value@ } else { pos_value@ },
            Self::Logistic { growth_rate, max } => max@ / (1real + rexp(-growth_rate@ * x)),
        }
    }
}
//@ extract pywr-core/src/parameters/activation_function.rs impl ActivationFunction::lower_bound
//@| ensures
//@|     r@ == self.lo()
//@ extract pywr-core/src/parameters/activation_function.rs impl ActivationFunction::upper_bound
//@| ensures
//@|     r@ == self.hi()
//@ extract pywr-core/src/parameters/activation_function.rs impl ActivationFunction::apply
//@| requires
//@|     self.lo() <= self.hi()
//@| ensures
//@|     r@ == self.ap(value@)

//@ extract pywr-core/src/parameters/constant.rs struct ConstantParameter
//@| drop meta
//@ extract pywr-core/src/parameters/constant.rs impl ConstantParameter::value
//@| param internal_state: &Option<f64>
//@| ensures
//@|     r@ == (match *internal_state { Some(v) => v@, None => self.value@ })
//@ extract pywr-core/src/parameters/constant.rs impl VariableParameter for ConstantParameter::set_variables
//@| param variable_config: &ActivationFunction
//@|     internal_state: &mut Option<f64>
//@| requires
//@|     variable_config.lo() <= variable_config.hi()
//@| ensures
//@|     values@.len() == 1 ==> r is Ok && *final(internal_state) is Some && (*final(internal_state))->Some_0@ == variable_config.ap(values@[0]@),
//@|     values@.len() != 1 ==> r is Err && *final(internal_state) == *old(internal_state)

//@ extract pywr-core/src/parameters/offset.rs struct OffsetParameter
//@| drop meta
//@ extract pywr-core/src/parameters/offset.rs impl OffsetParameter::offset
//@| param internal_state: &Option<f64>
//@| ensures
//@|     r@ == (match *internal_state { Some(v) => v@, None => self.offset@ })
//@ extract pywr-core/src/parameters/offset.rs impl VariableParameter for OffsetParameter::set_variables
//@| param variable_config: &ActivationFunction
//@|     internal_state: &mut Option<f64>
//@| requires
//@|     variable_config.lo() <= variable_config.hi()
//@| ensures
//@|     values@.len() == 1 ==> r is Ok && *final(internal_state) is Some && (*final(internal_state))->Some_0@ == variable_config.ap(values@[0]@),
//@|     values@.len() != 1 ==> r is Err && *final(internal_state) == *old(internal_state)
//@ extract pywr-core/src/parameters/constant.rs impl Parameter for ConstantParameter::setup
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<Option<R>>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0 is None
//@ extract pywr-core/src/parameters/constant.rs impl VariableParameter for ConstantParameter::size
//@| dropparam _variable_config
//@| ensures
//@|     r == 1
//@ extract pywr-core/src/parameters/constant.rs impl VariableParameter for ConstantParameter::get_variables
//@| param internal_state: &Option<R>
//@| ensures
//@|     *internal_state is None ==> r is None,
//@|     *internal_state is Some ==> r is Some && r->Some_0@.len() == 1 && r->Some_0@[0]@ == (*internal_state)->Some_0@
//@ extract pywr-core/src/parameters/constant.rs impl VariableParameter for ConstantParameter::get_lower_bounds
//@| param variable_config: &ActivationFunction
//@| ensures
//@|     r is Some && r->Some_0@.len() == 1 && r->Some_0@[0]@ == variable_config.lo()
//@ extract pywr-core/src/parameters/constant.rs impl VariableParameter for ConstantParameter::get_upper_bounds
//@| param variable_config: &ActivationFunction
//@| ensures
//@|     r is Some && r->Some_0@.len() == 1 && r->Some_0@[0]@ == variable_config.hi()
//@ extract pywr-core/src/parameters/offset.rs impl Parameter for OffsetParameter::setup
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<Option<R>>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0 is None
//@ extract pywr-core/src/parameters/offset.rs impl VariableParameter for OffsetParameter::size
//@| dropparam _variable_config
//@| ensures
//@|     r == 1
//@ extract pywr-core/src/parameters/offset.rs impl VariableParameter for OffsetParameter::get_variables
//@| param internal_state: &Option<R>
//@| ensures
//@|     *internal_state is None ==> r is None,
//@|     *internal_state is Some ==> r is Some && r->Some_0@.len() == 1 && r->Some_0@[0]@ == (*internal_state)->Some_0@
//@ extract pywr-core/src/parameters/offset.rs impl VariableParameter for OffsetParameter::get_lower_bounds
//@| param variable_config: &ActivationFunction
//@| ensures
//@|     r is Some && r->Some_0@.len() == 1 && r->Some_0@[0]@ == variable_config.lo()
//@ extract pywr-core/src/parameters/offset.rs impl VariableParameter for OffsetParameter::get_upper_bounds
//@| param variable_config: &ActivationFunction
//@| ensures
//@|     r is Some && r->Some_0@.len() == 1 && r->Some_0@[0]@ == variable_config.hi()

/// the radial basis function solve (nalgebra LU) is outside the verifier's reach: the profile it gives is
/// an uninterpreted function of the points and the basis function
uninterp spec fn rbf_spec(p: Seq<(u32, real)>, f: RadialBasisFunction) -> Seq<real>;
spec fn vpts(p: Seq<(u32, R)>) -> Seq<(u32, real)> { p.map_values(|q: (u32, R)| (q.0, q.1@)) }
#[verifier::external_body]
fn interpolate_rbf_profile(points: &Vec<(u32, R)>, function: &RadialBasisFunction) -> (r: [R; 366])
    ensures rviews(r@) == rbf_spec(vpts(points@), *function) { unimplemented!() }
/// the points in force: own points, with the x and y values replaced where they have been set
spec fn eff_pts(own: Seq<(u32, R)>, x: Option<Seq<u32>>, y: Option<Seq<real>>) -> Seq<(u32, real)> {
    Seq::new(own.len(), |i: int| (if x is Some { x->Some_0[i] } else { own[i].0 }, if y is Some { y->Some_0[i] } else { own[i].1@ }))
}
//@ extract pywr-core/src/parameters/profiles/rbf.rs enum RadialBasisFunction
//@ extract pywr-core/src/parameters/profiles/rbf.rs struct RbfProfileVariableConfig
//@ extract pywr-core/src/parameters/profiles/rbf.rs struct RbfProfileInternalState
//@ extract pywr-core/src/parameters/profiles/rbf.rs struct RbfProfileParameter
//@| drop meta
impl RbfProfileInternalState {
    spec fn xs(&self) -> Option<Seq<u32>> { match self.points_x { Some(v) => Some(v@), None => None } }
    spec fn ys(&self) -> Option<Seq<real>> { match self.points_y { Some(v) => Some(rviews(v@)), None => None } }
    spec fn sized(&self, n: int) -> bool { (self.points_x is Some ==> self.points_x->Some_0@.len() == n) && (self.points_y is Some ==> self.points_y->Some_0@.len() == n) }
    spec fn current(&self, own: Seq<(u32, R)>, f: RadialBasisFunction) -> bool { rviews(self.profile@) == rbf_spec(eff_pts(own, self.xs(), self.ys()), f) }
}
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl RbfProfileInternalState::new
//@| param points: &Vec<(u32, R)>
//@| ensures
//@|     r.points_x is None && r.points_y is None, r.current(points@, *function)
//@| at fn.top proof { assert(vpts(points@) =~= eff_pts(points@, None, None)); }
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl RbfProfileInternalState::update_x
//@| ensures
//@|     final(self).points_x == Some(x), final(self).points_y == old(self).points_y
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl RbfProfileInternalState::update_y
//@| ensures
//@|     final(self).points_y == Some(y), final(self).points_x == old(self).points_x
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl RbfProfileInternalState::update_profile
//@| param points: &Vec<(u32, R)>
//@| requires
//@|     old(self).sized(points@.len() as int)
//@| ensures
//@|     final(self).points_x == old(self).points_x, final(self).points_y == old(self).points_y, final(self).current(points@, *function)
//@| acctype 0 (u32, R)
//@| acctype 1 (u32, R)
//@| acctype 2 (u32, R)
//@| at fn.top assert(vpts(points@) =~= eff_pts(points@, None, None));
//@| loop 0 invariant
//@|     _acc0@.len() == _i0, forall|i: int| 0 <= i < _i0 ==> (#[trigger] _acc0@[i]).0 == x@[i] && _acc0@[i].1 == y@[i]
//@| at loop0.after assert(vpts(_acc0@) =~= eff_pts(points@, self.xs(), self.ys()));
//@| loop 1 invariant
//@|     _acc1@.len() == _i1, forall|i: int| 0 <= i < _i1 ==> (#[trigger] _acc1@[i]).0 == x@[i] && _acc1@[i].1 == points@[i].1
//@| at loop1.after assert(vpts(_acc1@) =~= eff_pts(points@, self.xs(), self.ys()));
//@| loop 2 invariant
//@|     _acc2@.len() == _i2, forall|i: int| 0 <= i < _i2 ==> (#[trigger] _acc2@[i]).0 == points@[i].0 && _acc2@[i].1 == y@[i]
//@| at loop2.after assert(vpts(_acc2@) =~= eff_pts(points@, self.xs(), self.ys()));
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl Parameter for RbfProfileParameter::setup
//@| dropparam _timesteps _scenario_index
//@| rettype Result<Option<RbfProfileInternalState>, E_>
//@| ensures
//@|     r is Ok && r->Ok_0 is Some && r->Ok_0->Some_0.points_x is None && r->Ok_0->Some_0.points_y is None && r->Ok_0->Some_0.current(self.points@, self.function)
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl VariableParameter<f64> for RbfProfileParameter::set_variables
//@| as set_f64
//@| dropparam _variable_config
//@| param internal_state: &mut RbfProfileInternalState
//@| requires
//@|     old(internal_state).sized(self.points@.len() as int)
//@| ensures
//@|     final(internal_state).sized(self.points@.len() as int),
//@|     values@.len() == self.points@.len() ==> r is Ok && final(internal_state).ys() == Some(rviews(values@)) && final(internal_state).xs() == old(internal_state).xs() && final(internal_state).current(self.points@, self.function),
//@|     values@.len() != self.points@.len() ==> r is Err && *final(internal_state) == *old(internal_state)
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl VariableParameter<u32> for RbfProfileParameter::set_variables
//@| as set_u32
//@| dropparam _variable_config
//@| param internal_state: &mut RbfProfileInternalState
//@| requires
//@|     old(internal_state).sized(self.points@.len() as int)
//@| ensures
//@|     final(internal_state).sized(self.points@.len() as int),
//@|     values@.len() == self.points@.len() ==> r is Ok && final(internal_state).xs() == Some(values@) && final(internal_state).ys() == old(internal_state).ys() && final(internal_state).current(self.points@, self.function),
//@|     values@.len() != self.points@.len() ==> r is Err && *final(internal_state) == *old(internal_state)
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl VariableParameter<u32> for RbfProfileParameter::get_lower_bounds
//@| as lower_u32
//@| acctype 0 u32
//@| param variable_config: &RbfProfileVariableConfig
//@| ensures
//@|     variable_config.days_of_year_range is None ==> r is None,
//@|     variable_config.days_of_year_range is Some ==> r is Some && r->Some_0@.len() == self.points@.len() && forall|i: int| 0 <= i < self.points@.len() ==> #[trigger] r->Some_0@[i] == (if self.points@[i].0 >= variable_config.days_of_year_range->Some_0 + 1 { self.points@[i].0 - variable_config.days_of_year_range->Some_0 } else { 1 })
//@| loop 0 invariant
//@|     _acc0@.len() == _i0, forall|i: int| 0 <= i < _i0 ==> #[trigger] _acc0@[i] == (if self.points@[i].0 >= variable_config.days_of_year_range->Some_0 + 1 { self.points@[i].0 - variable_config.days_of_year_range->Some_0 } else { 1 })
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl VariableParameter<u32> for RbfProfileParameter::get_upper_bounds
//@| as upper_u32
//@| acctype 0 u32
//@| param variable_config: &RbfProfileVariableConfig
//@| ensures
//@|     variable_config.days_of_year_range is None ==> r is None,
//@|     variable_config.days_of_year_range is Some ==> r is Some && r->Some_0@.len() == self.points@.len() && forall|i: int| 0 <= i < self.points@.len() ==> #[trigger] r->Some_0@[i] == (if self.points@[i].0 + variable_config.days_of_year_range->Some_0 <= 365 { self.points@[i].0 + variable_config.days_of_year_range->Some_0 } else { 365 })
//@| loop 0 invariant
//@|     _acc0@.len() == _i0, forall|i: int| 0 <= i < _i0 ==> #[trigger] _acc0@[i] == (if self.points@[i].0 + variable_config.days_of_year_range->Some_0 <= 365 { self.points@[i].0 + variable_config.days_of_year_range->Some_0 } else { 365 })
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl VariableParameter<f64> for RbfProfileParameter::get_lower_bounds
//@| as lower_f64
//@| acctype 0 R
//@| param variable_config: &RbfProfileVariableConfig
//@| ensures
//@|     r is Some && r->Some_0@.len() == self.points@.len() && forall|i: int| 0 <= i < self.points@.len() ==> (#[trigger] r->Some_0@[i])@ == variable_config.value_lower_bounds@
//@| loop 0 invariant
//@|     _acc0@.len() == _i0, forall|i: int| 0 <= i < _i0 ==> (#[trigger] _acc0@[i])@ == variable_config.value_lower_bounds@
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl VariableParameter<f64> for RbfProfileParameter::get_upper_bounds
//@| as upper_f64
//@| acctype 0 R
//@| param variable_config: &RbfProfileVariableConfig
//@| ensures
//@|     r is Some && r->Some_0@.len() == self.points@.len() && forall|i: int| 0 <= i < self.points@.len() ==> (#[trigger] r->Some_0@[i])@ == variable_config.value_upper_bounds@
//@| loop 0 invariant
//@|     _acc0@.len() == _i0, forall|i: int| 0 <= i < _i0 ==> (#[trigger] _acc0@[i])@ == variable_config.value_upper_bounds@
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl VariableParameter<u32> for RbfProfileParameter::size
//@| as size_u32
//@| param variable_config: &RbfProfileVariableConfig
//@| ensures
//@|     r == (if variable_config.days_of_year_range is Some { self.points@.len() } else { 0 })
//@ extract pywr-core/src/parameters/profiles/rbf.rs impl VariableParameter<f64> for RbfProfileParameter::size
//@| as size_f64
//@| dropparam _variable_config
//@| ensures
//@|     r == self.points@.len()
} // verus!
fn main() {}
