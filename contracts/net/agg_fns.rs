// Aggregated nodes. Proved in unit `aggnode`.
//@ extract pywr-core/src/aggregated_node.rs impl NodeFactor<'a>::new
//@| implgen <'a>
//@| selfty NodeFactor<'a>
//@| ensures
//@|     r.indices@ == indices@, r.factor@ == factor@
//@ extract pywr-core/src/aggregated_node.rs impl NodeFactorPair<'a>::new
//@| implgen <'a>
//@| selfty NodeFactorPair<'a>
//@| ensures
//@|     r.node0 == node0, r.node1 == node1, r.rhs@ == rhs@
//@ extract pywr-core/src/aggregated_node.rs impl NodeConstFactor<'a>::new
//@| implgen <'a>
//@| selfty NodeConstFactor<'a>
//@| ensures
//@|     r.indices@ == indices@, r.factor == factor
//@ extract pywr-core/src/aggregated_node.rs impl NodeConstFactorPair<'a>::new
//@| implgen <'a>
//@| selfty NodeConstFactorPair<'a>
//@| ensures
//@|     r.node0 == node0, r.node1 == node1, r.rhs@ == rhs@
//@ extract pywr-core/src/aggregated_node.rs fn get_norm_proportional_factor_pairs
//@| requires
//@|     nodes@.len() > 0, mno_zero(factors@, model, state)
//@| ensures
//@|     r is Ok == prop_ok(factors@, nodes@.len(), model, state),
//@|     r is Ok ==> fps(r->Ok_0@) =~= prop_pairs(nodes@, mvals(factors@, model, state))
//@| acctype 0 R
//@|     2 NodeFactorPair<'a>
//@| loop 0 invariant
//@|     _n0 == factors@.len(), _acc0@.len() == _i0, forall|k: int| 0 <= k < _i0 ==> (#[trigger] factors@[k]).has(model, state) && factors@[k].val(model, state) >= 0real, forall|k: int| 0 <= k < _i0 ==> (#[trigger] _acc0@[k])@ == factors@[k].val(model, state)
//@| at loop0.after
//@|     proof { assert(rviews(_acc0@) =~= mvals(factors@, model, state)); }
//@| loop 1 invariant
//@|     _n1 == values@.len(), rviews(values@) == mvals(factors@, model, state), _acc1@ == upto(rviews(values@), _i1 as int)
//@| loop 2 invariant
//@|     mno_zero(factors@, model, state), _n2 == nodes@.len() - 1, factors@.len() == nodes@.len() - 1, values@.len() == factors@.len(), rviews(values@) == mvals(factors@, model, state), f0@ == 1real - tot(mvals(factors@, model, state)), n0@ == nodes@[0]@, _acc2@.len() == _i2, forall|k: int| 0 <= k < _i2 ==> (#[trigger] _acc2@[k]).fp() == prop_pair(nodes@, mvals(factors@, model, state), k)
//@| at loop2.before
//@|     proof { assert forall|k: int| 0 <= k < values@.len() implies (#[trigger] values@[k])@ == factors@[k].val(model, state) by { let _a = rviews(values@)[k]; } }
//@ extract pywr-core/src/aggregated_node.rs fn get_const_norm_proportional_factor_pairs
//@| requires
//@|     nodes@.len() > 0, cno_zero(factors@, values.constant.pv())
//@| ensures
//@|     r is Ok == cprop_ok(factors@, nodes@.len(), values.constant.pv()),
//@|     r is Ok ==> cpairs_ok(r->Ok_0@, prop_pairs(nodes@, cvals(factors@, values.constant.pv())), |k: int| all_const(factors@))
//@| acctype 0 Option<R>
//@|     2 NodeConstFactorPair<'a>
//@|     4 NodeConstFactorPair<'a>
//@| loop 0 invariant
//@|     _n0 == factors@.len(), _acc0@.len() == _i0, forall|k: int| 0 <= k < _i0 ==> chas(#[trigger] factors@[k], values.constant.pv()) && (constant(factors@[k]) ==> cval(factors@[k], values.constant.pv()) >= 0real), forall|k: int| 0 <= k < _i0 ==> ck(#[trigger] _acc0@[k], factors@[k], values.constant.pv())
//@| loop 1 invariant
//@|     _n1 == factor_values@.len(), factor_values@.len() == factors@.len(), forall|k: int| 0 <= k < factors@.len() ==> ck(#[trigger] factor_values@[k], factors@[k], values.constant.pv()), _acc1 ==> !constant(factors@[_i1 as int - 1]) && _i1 > 0, !_acc1 ==> forall|k: int| 0 <= k < _i1 ==> constant(#[trigger] factors@[k])
//@| loop 2 invariant
//@|     _n2 == nodes@.len() - 1, factors@.len() == nodes@.len() - 1, factor_values@.len() == factors@.len(), n0@ == nodes@[0]@, _acc2@.len() == _i2, forall|k: int| 0 <= k < _i2 ==> cpair_ok(#[trigger] _acc2@[k], prop_pair(nodes@, cvals(factors@, values.constant.pv()), k), false)
//@| loop 3 invariant
//@|     all_const(factors@), _n3 == factor_values@.len(), factor_values@.len() == factors@.len(), forall|k: int| 0 <= k < factors@.len() ==> ck(#[trigger] factor_values@[k], factors@[k], values.constant.pv()), _acc3@ == upto(cvals(factors@, values.constant.pv()), _i3 as int)
//@| loop 4 invariant
//@|     all_const(factors@), cno_zero(factors@, values.constant.pv()), _n4 == nodes@.len() - 1, factors@.len() == nodes@.len() - 1, factor_values@.len() == factors@.len(), forall|k: int| 0 <= k < factors@.len() ==> ck(#[trigger] factor_values@[k], factors@[k], values.constant.pv()), f0@ == 1real - tot(cvals(factors@, values.constant.pv())), n0@ == nodes@[0]@, _acc4@.len() == _i4, forall|k: int| 0 <= k < _i4 ==> cpair_ok(#[trigger] _acc4@[k], prop_pair(nodes@, cvals(factors@, values.constant.pv()), k), true)
//@ extract pywr-core/src/aggregated_node.rs fn get_norm_ratio_factor_pairs
//@| requires
//@|     nodes@.len() > 0, mno_zero(factors@, model, state)
//@| ensures
//@|     r is Ok == ratio_ok(factors@, nodes@.len(), model, state),
//@|     r is Ok ==> fps(r->Ok_0@) =~= ratio_pairs(nodes@, mvals(factors@, model, state))
//@| acctype 0 NodeFactorPair<'a>
//@| loop 0 invariant
//@|     mno_zero(factors@, model, state), _n0 == nodes@.len() - 1, factors@.len() == nodes@.len(), f0@ == factors@[0].val(model, state), n0@ == nodes@[0]@, _acc0@.len() == _i0, forall|k: int| 0 <= k < _i0 + 1 ==> (#[trigger] factors@[k]).has(model, state) && factors@[k].val(model, state) >= 0real, forall|k: int| 0 <= k < _i0 ==> (#[trigger] _acc0@[k]).fp() == ratio_pair(nodes@, mvals(factors@, model, state), k)
//@ extract pywr-core/src/aggregated_node.rs fn get_const_norm_ratio_factor_pairs
//@| requires
//@|     nodes@.len() > 0, cno_zero(factors@, values.constant.pv())
//@| ensures
//@|     r is Ok == cratio_ok(factors@, nodes@.len(), values.constant.pv()),
//@|     r is Ok ==> cpairs_ok(r->Ok_0@, ratio_pairs(nodes@, cvals(factors@, values.constant.pv())), |k: int| constant(factors@[0]) && constant(factors@[k + 1]))
//@| acctype 0 NodeConstFactorPair<'a>
//@| loop 0 invariant
//@|     cno_zero(factors@, values.constant.pv()), _n0 == nodes@.len() - 1, factors@.len() == nodes@.len(), ck(f0, factors@[0], values.constant.pv()), n0@ == nodes@[0]@, _acc0@.len() == _i0, forall|k: int| 0 <= k < _i0 + 1 ==> chas(#[trigger] factors@[k], values.constant.pv()) && (constant(factors@[k]) ==> cval(factors@[k], values.constant.pv()) >= 0real), forall|k: int| 0 <= k < _i0 ==> cpair_ok(#[trigger] _acc0@[k], ratio_pair(nodes@, cvals(factors@, values.constant.pv()), k), constant(factors@[0]) && constant(factors@[k + 1]))
//@ extract pywr-core/src/aggregated_node.rs fn get_coefficient_factor_pairs
//@| requires
//@|     nodes@.len() > 0
//@| ensures
//@|     r is Ok == coef_ok(factors@, own(rhs), nodes@.len(), model, state),
//@|     r is Ok ==> fps(r->Ok_0@) =~= coef_pairs(nodes@, factors@, own(rhs), model, state)
//@ extract pywr-core/src/aggregated_node.rs fn get_const_coefficient_factor_pairs
//@| requires
//@|     nodes@.len() > 0
//@| ensures
//@|     r is Ok == ccoef_ok(factors@, own(rhs), nodes@.len(), values.constant.pv()),
//@|     r is Ok ==> cpairs_ok(r->Ok_0@, ccoef_pairs(nodes@, factors@, own(rhs), values.constant.pv()), |k: int| all_const(factors@) && (rhs is Some ==> constant(*rhs->Some_0)))
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::get_factors
//@| ensures
//@|     own(r) == self.factors()
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::get_exclusivity
//@| ensures
//@|     own(r) == self.exclusivity()
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::has_exclusivity
//@| ensures
//@|     r == (self.exclusivity() is Some)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::index
//@| ensures
//@|     r == self.meta.index
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::get_const_norm_factor_pairs
//@| requires
//@|     self.nodes@.len() > 0, self.factors() is Some ==> self.factors()->Some_0.const_nonzero(values.constant.pv())
//@| ensures
//@|     r is Some == self.factors() is Some,
//@|     r is Some ==> r->Some_0 is Ok == self.factors()->Some_0.const_accepted(self.nodes@.len(), values.constant.pv()),
//@|     r is Some && r->Some_0 is Ok ==> cpairs_ok(r->Some_0->Ok_0@, self.factors()->Some_0.const_pairs(self.nodes@, values.constant.pv()), |k: int| self.factors()->Some_0.const_known(k))
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::get_norm_factor_pairs
//@| requires
//@|     self.nodes@.len() > 0, self.factors() is Some ==> self.factors()->Some_0.nonzero(model, state)
//@| ensures
//@|     r is Some == self.factors() is Some,
//@|     r is Some ==> r->Some_0 is Ok == self.factors()->Some_0.accepted(self.nodes@.len(), model, state),
//@|     r is Some && r->Some_0 is Ok ==> fps(r->Some_0->Ok_0@) =~= self.factors()->Some_0.pairs(self.nodes@, model, state)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::get_min_flow
//@| ensures
//@|     r is Ok == self.flow_constraints.has_min(model, state), r is Ok ==> r->Ok_0@ == self.flow_constraints.min(model, state)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::get_max_flow
//@| ensures
//@|     r is Ok == self.flow_constraints.has_max(model, state), r is Ok ==> r->Ok_0@ == self.flow_constraints.max(model, state)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNode::get_flow_bounds
//@| ensures
//@|     r is Ok == (self.flow_constraints.has_min(model, state) && self.flow_constraints.has_max(model, state)), r is Ok ==> r->Ok_0.0@ == self.flow_constraints.min(model, state) && r->Ok_0.1@ == self.flow_constraints.max(model, state)
//@ extract pywr-core/src/aggregated_node.rs impl NodeFactorPair<'a>::node0_indices
//@| implgen <'a>
//@| selfty NodeFactorPair<'a>
//@| ensures
//@|     r@ == self.node0.indices@
//@ extract pywr-core/src/aggregated_node.rs impl NodeFactorPair<'a>::node0_factor
//@| implgen <'a>
//@| selfty NodeFactorPair<'a>
//@| ensures
//@|     r == self.node0.factor
//@ extract pywr-core/src/aggregated_node.rs impl NodeFactorPair<'a>::node1_indices
//@| implgen <'a>
//@| selfty NodeFactorPair<'a>
//@| ensures
//@|     r@ == self.node1.indices@
//@ extract pywr-core/src/aggregated_node.rs impl NodeFactorPair<'a>::node1_factor
//@| implgen <'a>
//@| selfty NodeFactorPair<'a>
//@| ensures
//@|     r == self.node1.factor
//@ extract pywr-core/src/aggregated_node.rs impl NodeFactorPair<'a>::rhs
//@| implgen <'a>
//@| selfty NodeFactorPair<'a>
//@| ensures
//@|     r == self.rhs
//@ extract pywr-core/src/aggregated_node.rs impl NodeConstFactorPair<'a>::node0_indices
//@| implgen <'a>
//@| selfty NodeConstFactorPair<'a>
//@| ensures
//@|     r@ == self.node0.indices@
//@ extract pywr-core/src/aggregated_node.rs impl NodeConstFactorPair<'a>::node0_factor
//@| implgen <'a>
//@| selfty NodeConstFactorPair<'a>
//@| ensures
//@|     r == self.node0.factor
//@ extract pywr-core/src/aggregated_node.rs impl NodeConstFactorPair<'a>::node1_indices
//@| implgen <'a>
//@| selfty NodeConstFactorPair<'a>
//@| ensures
//@|     r@ == self.node1.indices@
//@ extract pywr-core/src/aggregated_node.rs impl NodeConstFactorPair<'a>::node1_factor
//@| implgen <'a>
//@| selfty NodeConstFactorPair<'a>
//@| ensures
//@|     r == self.node1.factor
//@ extract pywr-core/src/aggregated_node.rs impl NodeConstFactorPair<'a>::rhs
//@| implgen <'a>
//@| selfty NodeConstFactorPair<'a>
//@| ensures
//@|     r == self.rhs
