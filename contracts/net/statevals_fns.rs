// The values of parameters and of other networks in the state. Proved in unit `state`.
//@ extract pywr-core/src/state/mod.rs impl ParameterValues::get_value_mut
//@| ensures
//@|     r is Some == (idx < old(self).values@.len()),
//@|     r is Some ==> *r->Some_0 == old(self).values@[idx as int] && final(self).values@ == old(self).values@.update(idx as int, *final(r->Some_0)),
//@|     r is None ==> final(self).pv() == old(self).pv(),
//@|     final(self).indices@ == old(self).indices@, final(self).multi_values@ == old(self).multi_values@
//@ extract pywr-core/src/state/mod.rs impl ParameterValues::get_index_mut
//@| ensures
//@|     r is Some == (idx < old(self).indices@.len()),
//@|     r is Some ==> *r->Some_0 == old(self).indices@[idx as int] && final(self).indices@ == old(self).indices@.update(idx as int, *final(r->Some_0)),
//@|     r is None ==> final(self).pv() == old(self).pv(),
//@|     final(self).values@ == old(self).values@, final(self).multi_values@ == old(self).multi_values@
//@ extract pywr-core/src/state/mod.rs impl ParameterValues::get_multi_value_mut
//@| ensures
//@|     r is Some == (idx < old(self).multi_values@.len()),
//@|     r is Some ==> *r->Some_0 == old(self).multi_values@[idx as int] && final(self).multi_values@ == old(self).multi_values@.update(idx as int, *final(r->Some_0)),
//@|     r is None ==> final(self).pv() == old(self).pv(),
//@|     final(self).values@ == old(self).values@, final(self).indices@ == old(self).indices@
//@ extract pywr-core/src/state/mod.rs impl MultiValue::has_nan
//@| ensures
//@|     r == (exists|k: int| self.values.has(k) && nanq(#[trigger] self.values.at(k)))
//@| loop 0 invariant
//@|     _acc0 == (exists|j: int| 0 <= j < _i0 && nanq(#[trigger] _s0_0@[j]))
//@ extract pywr-core/src/state/mod.rs impl ParameterValues::new
//@| ensures
//@|     r.pv().v.len() == num_values, r.pv().i.len() == num_indices, r.pv().m.len() == num_multi_values, forall|k: int| 0 <= k < num_values ==> (#[trigger] r.pv().v[k])@ == 0real, forall|k: int| 0 <= k < num_indices ==> #[trigger] r.pv().i[k] == 0
//@ extract pywr-core/src/state/mod.rs impl State::get_network_state
//@| ensures
//@|     *r == self.network
//@ extract pywr-core/src/state/mod.rs impl State::get_mut_network_state
//@| ensures
//@|     *r == old(self).network, final(self).network == *final(r), final(self).same_values(old(self))
//@ extract pywr-core/src/state/mod.rs impl State::get_general_parameter_f64_before
//@| ensures
//@|     r is Ok == self.bpv().hv(idx), r is Ok ==> r->Ok_0@ == self.bpv().gv(idx)
//@ extract pywr-core/src/state/mod.rs impl State::get_general_parameter_f64_after
//@| ensures
//@|     r is Ok == self.apv().hv(idx), r is Ok ==> r->Ok_0@ == self.apv().gv(idx)
//@ extract pywr-core/src/state/mod.rs impl State::get_general_parameter_u64_before
//@| ensures
//@|     r is Ok == self.bpv().hi(idx), r is Ok ==> r->Ok_0 == self.bpv().gi(idx)
//@ extract pywr-core/src/state/mod.rs impl State::get_general_parameter_u64_after
//@| ensures
//@|     r is Ok == self.apv().hi(idx), r is Ok ==> r->Ok_0 == self.apv().gi(idx)
//@ extract pywr-core/src/state/mod.rs impl State::get_general_parameter_multi_before
//@| ensures
//@|     r is Ok == (idx.0 < self.bpv().m.len()), r is Ok ==> *r->Ok_0 == self.bpv().m[idx.0 as int]
//@ extract pywr-core/src/state/mod.rs impl State::get_general_parameter_multi_after
//@| ensures
//@|     r is Ok == (idx.0 < self.apv().m.len()), r is Ok ==> *r->Ok_0 == self.apv().m[idx.0 as int]
//@ extract pywr-core/src/state/mod.rs impl State::set_general_parameter_f64_before
//@| ensures
//@|     r is Ok == (idx.0 < old(self).bpv().v.len() && !nanq(value)),
//@|     r is Ok ==> final(self).bpv() == (PV { v: old(self).bpv().v.update(idx.0 as int, value), ..old(self).bpv() }),
//@|     r is Err ==> final(self).bpv() =~~= old(self).bpv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).spv() == old(self).spv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_general_parameter_f64_after
//@| ensures
//@|     r is Ok == (idx.0 < old(self).apv().v.len() && !nanq(value)),
//@|     r is Ok ==> final(self).apv() == (PV { v: old(self).apv().v.update(idx.0 as int, value), ..old(self).apv() }),
//@|     r is Err ==> final(self).apv() =~~= old(self).apv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).spv() == old(self).spv() && final(self).bpv() == old(self).bpv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_simple_parameter_f64
//@| ensures
//@|     r is Ok == (idx.0 < old(self).spv().v.len() && !nanq(value)),
//@|     r is Ok ==> final(self).spv() == (PV { v: old(self).spv().v.update(idx.0 as int, value), ..old(self).spv() }),
//@|     r is Err ==> final(self).spv() =~~= old(self).spv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).bpv() == old(self).bpv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_const_parameter_f64
//@| ensures
//@|     r is Ok == (idx.0 < old(self).cpv().v.len() && !nanq(value)),
//@|     r is Ok ==> final(self).cpv() == (PV { v: old(self).cpv().v.update(idx.0 as int, value), ..old(self).cpv() }),
//@|     r is Err ==> final(self).cpv() =~~= old(self).cpv(),
//@|     final(self).spv() == old(self).spv() && final(self).bpv() == old(self).bpv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_general_parameter_u64_before
//@| ensures
//@|     r is Ok == (idx.0 < old(self).bpv().i.len()),
//@|     r is Ok ==> final(self).bpv() == (PV { i: old(self).bpv().i.update(idx.0 as int, value), ..old(self).bpv() }),
//@|     r is Err ==> final(self).bpv() =~~= old(self).bpv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).spv() == old(self).spv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_general_parameter_u64_after
//@| ensures
//@|     r is Ok == (idx.0 < old(self).apv().i.len()),
//@|     r is Ok ==> final(self).apv() == (PV { i: old(self).apv().i.update(idx.0 as int, value), ..old(self).apv() }),
//@|     r is Err ==> final(self).apv() =~~= old(self).apv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).spv() == old(self).spv() && final(self).bpv() == old(self).bpv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_simple_parameter_u64
//@| ensures
//@|     r is Ok == (idx.0 < old(self).spv().i.len()),
//@|     r is Ok ==> final(self).spv() == (PV { i: old(self).spv().i.update(idx.0 as int, value), ..old(self).spv() }),
//@|     r is Err ==> final(self).spv() =~~= old(self).spv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).bpv() == old(self).bpv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_const_parameter_u64
//@| ensures
//@|     r is Ok == (idx.0 < old(self).cpv().i.len()),
//@|     r is Ok ==> final(self).cpv() == (PV { i: old(self).cpv().i.update(idx.0 as int, value), ..old(self).cpv() }),
//@|     r is Err ==> final(self).cpv() =~~= old(self).cpv(),
//@|     final(self).spv() == old(self).spv() && final(self).bpv() == old(self).bpv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_general_parameter_multi_before
//@| ensures
//@|     r is Ok == (idx.0 < old(self).bpv().m.len() && !value.nan()),
//@|     r is Ok ==> final(self).bpv() == (PV { m: old(self).bpv().m.update(idx.0 as int, value), ..old(self).bpv() }),
//@|     r is Err ==> final(self).bpv() =~~= old(self).bpv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).spv() == old(self).spv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_general_parameter_multi_after
//@| ensures
//@|     r is Ok == (idx.0 < old(self).apv().m.len() && !value.nan()),
//@|     r is Ok ==> final(self).apv() == (PV { m: old(self).apv().m.update(idx.0 as int, value), ..old(self).apv() }),
//@|     r is Err ==> final(self).apv() =~~= old(self).apv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).spv() == old(self).spv() && final(self).bpv() == old(self).bpv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_simple_parameter_multi
//@| ensures
//@|     r is Ok == (idx.0 < old(self).spv().m.len() && !value.nan()),
//@|     r is Ok ==> final(self).spv() == (PV { m: old(self).spv().m.update(idx.0 as int, value), ..old(self).spv() }),
//@|     r is Err ==> final(self).spv() =~~= old(self).spv(),
//@|     final(self).cpv() == old(self).cpv() && final(self).bpv() == old(self).bpv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_const_parameter_multi
//@| ensures
//@|     r is Ok == (idx.0 < old(self).cpv().m.len() && !value.nan()),
//@|     r is Ok ==> final(self).cpv() == (PV { m: old(self).cpv().m.update(idx.0 as int, value), ..old(self).cpv() }),
//@|     r is Err ==> final(self).cpv() =~~= old(self).cpv(),
//@|     final(self).spv() == old(self).spv() && final(self).bpv() == old(self).bpv() && final(self).apv() == old(self).apv() && final(self).inter_network_values@ == old(self).inter_network_values@ && final(self).network == old(self).network
//@ extract pywr-core/src/state/mod.rs impl State::set_node_volume
//@| ensures
//@|     r is Ok == old(self).network.ns().is_store(*idx),
//@|     r is Ok ==> final(self).network.ns() =~~= old(self).network.ns().with_node(idx.0 as int, NV { v: volume@, mx: max_volume@, ..old(self).network.ns().nd(*idx) }),
//@|     r is Err ==> final(self).network.ns() =~~= old(self).network.ns(),
//@|     final(self).same_values(old(self))
//@ extract pywr-core/src/state/mod.rs impl State::reset_virtual_storage_node_volume
//@| ensures
//@|     r is Ok == old(self).network.ns().has_vs(*idx),
//@|     r is Ok ==> final(self).network.ns() =~~= old(self).network.ns().with_vs(idx.0 as int, old(self).network.ns().vs(*idx).set_to(volume@, max_volume@, *timestep)),
//@|     r is Err ==> final(self).network.ns() =~~= old(self).network.ns(),
//@|     final(self).same_values(old(self))
//@ extract pywr-core/src/state/mod.rs impl State::reset_virtual_storage_history
//@| ensures
//@|     r is Ok == old(self).network.ns().has_vs(*idx),
//@|     r is Ok ==> final(self).network.ns() =~~= old(self).network.ns().with_vs(idx.0 as int, old(self).network.ns().vs(*idx).hist_set(initial_volume@)),
//@|     r is Err ==> final(self).network.ns() =~~= old(self).network.ns(),
//@|     final(self).same_values(old(self))
//@ extract pywr-core/src/state/mod.rs impl State::recover_virtual_storage_last_historical_flow
//@| requires
//@|     timestep.dy() > 0real
//@| ensures
//@|     r is Ok == old(self).network.ns().has_vs(*idx),
//@|     r is Ok ==> final(self).network.ns() =~~= old(self).network.ns().with_vs(idx.0 as int, old(self).network.ns().vs(*idx).recovered(timestep.dy())),
//@|     r is Err ==> final(self).network.ns() =~~= old(self).network.ns(),
//@|     final(self).same_values(old(self))
//@ extract pywr-core/src/state/mod.rs impl State::get_inter_network_transfer_value
//@| ensures
//@|     r is Ok == (idx.0 < self.inter_network_values@.len()), r is Ok ==> r->Ok_0 == self.inter_network_values@[idx.0 as int]
//@ extract pywr-core/src/state/mod.rs impl State::set_inter_network_transfer_value
//@| ensures
//@|     r is Ok == (idx.0 < old(self).inter_network_values@.len()), r is Ok ==> final(self).inter_network_values@ =~= old(self).inter_network_values@.update(idx.0 as int, value), r is Err ==> final(self).inter_network_values@ == old(self).inter_network_values@,
//@|     final(self).network == old(self).network, final(self).cpv() == old(self).cpv() && final(self).spv() == old(self).spv() && final(self).bpv() == old(self).bpv() && final(self).apv() == old(self).apv()
