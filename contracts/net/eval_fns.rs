// The functions that evaluate the schedules. Proved in unit `evaluation`.
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_general_mut_f64_state
//@| ensures
//@|     r is Some == (index.0 < old(self).gf().len()),
//@|     r is Some ==> *r->Some_0 == old(self).gf()[index.0 as int] && final(self).gf() == old(self).gf().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).gu() == old(self).gu(), final(self).gm() == old(self).gm(), final(self).same_s(*old(self)), final(self).same_c(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_general_mut_u64_state
//@| ensures
//@|     r is Some == (index.0 < old(self).gu().len()),
//@|     r is Some ==> *r->Some_0 == old(self).gu()[index.0 as int] && final(self).gu() == old(self).gu().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).gf() == old(self).gf(), final(self).gm() == old(self).gm(), final(self).same_s(*old(self)), final(self).same_c(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_general_mut_multi_state
//@| ensures
//@|     r is Some == (index.0 < old(self).gm().len()),
//@|     r is Some ==> *r->Some_0 == old(self).gm()[index.0 as int] && final(self).gm() == old(self).gm().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).gf() == old(self).gf(), final(self).gu() == old(self).gu(), final(self).same_s(*old(self)), final(self).same_c(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_simple_mut_f64_state
//@| ensures
//@|     r is Some == (index.0 < old(self).sf().len()),
//@|     r is Some ==> *r->Some_0 == old(self).sf()[index.0 as int] && final(self).sf() == old(self).sf().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).su() == old(self).su(), final(self).sm() == old(self).sm(), final(self).same_g(*old(self)), final(self).same_c(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_simple_mut_u64_state
//@| ensures
//@|     r is Some == (index.0 < old(self).su().len()),
//@|     r is Some ==> *r->Some_0 == old(self).su()[index.0 as int] && final(self).su() == old(self).su().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).sf() == old(self).sf(), final(self).sm() == old(self).sm(), final(self).same_g(*old(self)), final(self).same_c(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_simple_mut_multi_state
//@| ensures
//@|     r is Some == (index.0 < old(self).sm().len()),
//@|     r is Some ==> *r->Some_0 == old(self).sm()[index.0 as int] && final(self).sm() == old(self).sm().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).sf() == old(self).sf(), final(self).su() == old(self).su(), final(self).same_g(*old(self)), final(self).same_c(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_const_mut_f64_state
//@| ensures
//@|     r is Some == (index.0 < old(self).cf().len()),
//@|     r is Some ==> *r->Some_0 == old(self).cf()[index.0 as int] && final(self).cf() == old(self).cf().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).cu() == old(self).cu(), final(self).cm() == old(self).cm(), final(self).same_g(*old(self)), final(self).same_s(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_const_mut_u64_state
//@| ensures
//@|     r is Some == (index.0 < old(self).cu().len()),
//@|     r is Some ==> *r->Some_0 == old(self).cu()[index.0 as int] && final(self).cu() == old(self).cu().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).cf() == old(self).cf(), final(self).cm() == old(self).cm(), final(self).same_g(*old(self)), final(self).same_s(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterStates::get_const_mut_multi_state
//@| ensures
//@|     r is Some == (index.0 < old(self).cm().len()),
//@|     r is Some ==> *r->Some_0 == old(self).cm()[index.0 as int] && final(self).cm() == old(self).cm().update(index.0 as int, *final(r->Some_0)),
//@|     final(self).cf() == old(self).cf(), final(self).cu() == old(self).cu(), final(self).same_g(*old(self)), final(self).same_s(*old(self))
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::before_general
//@| requires
//@|     self.timings_fit(timings)
//@| ensures
//@|     r is Ok ==> exists|tr: Seq<Sit>| before_run(*self, self.general_before_order@.len() as int, timestep, scenario_index, network, tr) && ends(tr, *old(state), *old(internal_states), *final(state), *final(internal_states))
//@| at fn.top let ghost mut tr: Seq<Sit> = seq![Sit { st: *state, is: *internal_states }];
//@| loop 0 invariant
//@|     before_run(*self, _i0 as int, timestep, scenario_index, network, tr), ends(tr, *old(state), *old(internal_states), *state, *internal_states), self.timings_fit(timings), timings is Some ==> timings->Some_0.id == self.id
//@| at loop0.end proof { tr = tr.push(Sit { st: *state, is: *internal_states }); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::after_general
//@| requires
//@|     self.timings_fit(timings)
//@| ensures
//@|     r is Ok ==> exists|tr: Seq<Sit>| after_run(*self, self.general_after_order@.len() as int, timestep, scenario_index, network, tr) && ends(tr, *old(state), *old(internal_states), *final(state), *final(internal_states))
//@| at fn.top let ghost mut tr: Seq<Sit> = seq![Sit { st: *state, is: *internal_states }];
//@| loop 0 invariant
//@|     after_run(*self, _i0 as int, timestep, scenario_index, network, tr), ends(tr, *old(state), *old(internal_states), *state, *internal_states), self.timings_fit(timings), timings is Some ==> timings->Some_0.id == self.id
//@| at loop0.end proof { tr = tr.push(Sit { st: *state, is: *internal_states }); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::compute_simple
//@| ensures
//@|     r is Ok ==> exists|tr: Seq<Sit>| simple_run(*self, self.simple_resolve_order@.len() as int, timestep, scenario_index, tr) && ends(tr, *old(state), *old(internal_states), *final(state), *final(internal_states))
//@| at fn.top let ghost mut tr: Seq<Sit> = seq![Sit { st: *state, is: *internal_states }];
//@| loop 0 invariant
//@|     simple_run(*self, _i0 as int, timestep, scenario_index, tr), ends(tr, *old(state), *old(internal_states), *state, *internal_states)
//@| at loop0.end proof { tr = tr.push(Sit { st: *state, is: *internal_states }); }
//@ extract pywr-core/src/parameters/mod.rs impl ParameterCollection::compute_const
//@| ensures
//@|     r is Ok ==> exists|tr: Seq<Sit>| const_run(*self, self.constant_resolve_order@.len() as int, scenario_index, tr) && ends(tr, *old(state), *old(internal_states), *final(state), *final(internal_states))
//@| at fn.top let ghost mut tr: Seq<Sit> = seq![Sit { st: *state, is: *internal_states }];
//@| loop 0 invariant
//@|     const_run(*self, _i0 as int, scenario_index, tr), ends(tr, *old(state), *old(internal_states), *state, *internal_states)
//@| at loop0.end proof { tr = tr.push(Sit { st: *state, is: *internal_states }); }
