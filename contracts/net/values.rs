// Parameter values in the state, and the metrics that read only them. Proved in unit `metrics`.
//@ extract pywr-core/src/state/mod.rs impl MultiValue::get_value
//@| ensures
//@|     r is Some == self.values.has(key.id()), r is Some ==> *r->Some_0 == self.values.at(key.id())
//@ extract pywr-core/src/state/mod.rs impl MultiValue::get_index
//@| ensures
//@|     r is Some == self.indices.has(key.id()), r is Some ==> *r->Some_0 == self.indices.at(key.id())
//@ extract pywr-core/src/state/mod.rs impl ParameterValues::get_value
//@| ensures
//@|     r == (if idx < self.values@.len() { Some(self.values@[idx as int]) } else { None })
//@ extract pywr-core/src/state/mod.rs impl ParameterValues::get_index
//@| ensures
//@|     r == (if idx < self.indices@.len() { Some(self.indices@[idx as int]) } else { None })
//@ extract pywr-core/src/state/mod.rs impl ParameterValues::get_multi_value
//@| ensures
//@|     r is Some == (idx < self.multi_values@.len()), r is Some ==> *r->Some_0 == self.multi_values@[idx as int]
//@ extract pywr-core/src/state/mod.rs impl ParameterValuesRef<'_>::get_value
//@| selfty ParameterValuesRef<'_>
//@| ensures
//@|     r == (if idx < self.values@.len() { Some(self.values@[idx as int]) } else { None })
//@ extract pywr-core/src/state/mod.rs impl ParameterValuesRef<'_>::get_index
//@| selfty ParameterValuesRef<'_>
//@| ensures
//@|     r == (if idx < self.indices@.len() { Some(self.indices@[idx as int]) } else { None })
//@ extract pywr-core/src/state/mod.rs impl ParameterValuesRef<'_>::get_multi_value
//@| selfty ParameterValuesRef<'_>
//@| ensures
//@|     r is Some == (idx < self.multi_values@.len()), r is Some ==> *r->Some_0 == self.multi_values@[idx as int]
//@ extract pywr-core/src/state/mod.rs impl ConstParameterValues<'_>::get_f64
//@| selfty ConstParameterValues<'_>
//@| ensures
//@|     r is Ok == self.constant.pv().hv(idx), r is Ok ==> r->Ok_0@ == self.constant.pv().gv(idx)
//@ extract pywr-core/src/state/mod.rs impl ConstParameterValues<'_>::get_u64
//@| selfty ConstParameterValues<'_>
//@| ensures
//@|     r is Ok == self.constant.pv().hi(idx), r is Ok ==> r->Ok_0 == self.constant.pv().gi(idx)
//@ extract pywr-core/src/state/mod.rs impl ConstParameterValues<'_>::get_multi_f64
//@| selfty ConstParameterValues<'_>
//@| ensures
//@|     r is Ok == self.constant.pv().hm(idx, *key), r is Ok ==> r->Ok_0@ == self.constant.pv().gm(idx, *key)
//@ extract pywr-core/src/state/mod.rs impl ConstParameterValues<'_>::get_multi_u64
//@| selfty ConstParameterValues<'_>
//@| ensures
//@|     r is Ok == self.constant.pv().hn(idx, *key), r is Ok ==> r->Ok_0 == self.constant.pv().gn(idx, *key)
//@ extract pywr-core/src/state/mod.rs impl SimpleParameterValues<'_>::get_f64
//@| selfty SimpleParameterValues<'_>
//@| ensures
//@|     r is Ok == self.simple.pv().hv(idx), r is Ok ==> r->Ok_0@ == self.simple.pv().gv(idx)
//@ extract pywr-core/src/state/mod.rs impl SimpleParameterValues<'_>::get_u64
//@| selfty SimpleParameterValues<'_>
//@| ensures
//@|     r is Ok == self.simple.pv().hi(idx), r is Ok ==> r->Ok_0 == self.simple.pv().gi(idx)
//@ extract pywr-core/src/state/mod.rs impl SimpleParameterValues<'_>::get_multi_f64
//@| selfty SimpleParameterValues<'_>
//@| ensures
//@|     r is Ok == self.simple.pv().hm(idx, *key), r is Ok ==> r->Ok_0@ == self.simple.pv().gm(idx, *key)
//@ extract pywr-core/src/state/mod.rs impl SimpleParameterValues<'_>::get_multi_u64
//@| selfty SimpleParameterValues<'_>
//@| ensures
//@|     r is Ok == self.simple.pv().hn(idx, *key), r is Ok ==> r->Ok_0 == self.simple.pv().gn(idx, *key)
//@ extract pywr-core/src/state/mod.rs impl SimpleParameterValues<'_>::get_constant_values
//@| selfty SimpleParameterValues<'_>
//@| ensures
//@|     r.constant.pv() == self.constant.constant.pv()
//@ extract pywr-core/src/state/mod.rs impl State::get_const_parameter_values
//@| ensures
//@|     r.constant.pv() == self.cpv()
//@ extract pywr-core/src/state/mod.rs impl State::get_simple_parameter_values
//@| ensures
//@|     r.constant.constant.pv() == self.cpv(), r.simple.pv() == self.spv()
//@ extract pywr-core/src/metric.rs impl ConstantMetricF64::get_value
//@| ensures
//@|     r is Ok == self.has(values.constant.pv()), r is Ok ==> r->Ok_0@ == self.val(values.constant.pv())
//@ extract pywr-core/src/metric.rs impl SimpleMetricF64::get_value
//@| ensures
//@|     r is Ok == self.has(values.constant.constant.pv(), values.simple.pv()), r is Ok ==> r->Ok_0@ == self.val(values.constant.constant.pv(), values.simple.pv())
