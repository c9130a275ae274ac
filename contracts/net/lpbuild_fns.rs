// Rows of the linear programme. Proved in unit `lpbuild`.
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::col_for_edge
//@| selfty SolverBuilder
//@| ensures
//@|     self.col().contains_key(*edge_index) && r == self.col()[*edge_index]
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::add_node
//@| selfty SolverBuilder
//@| ensures
//@|     final(row).lower == old(row).lower && final(row).upper == old(row).upper,
//@|     forall|x: Flows| #[trigger] final(row).at(x) == old(row).at(x) + factor@ * node.flow(self.col(), x),
//@|     forall|c: usize| #[trigger] final(row).columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || node.uses(self.col(), c)
//@| loop 0 invariant
//@|     forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.outs(), self.col(), c, _i0 as int),
//@|     _n0 == node.outs().len(), _s0_0@ == node.outs(), row.lower == old(row).lower && row.upper == old(row).upper,
//@|     forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * esum(node.outs(), self.col(), x, _i0 as int)
//@| at loop0.end
//@|     proof { ecol_step(node.outs(), self.col(), _i0 as int - 1); assert forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.outs(), self.col(), c, _i0 as int) by { let _k = (row.columns@.dom().contains(c), ecol(node.outs(), self.col(), c, _i0 as int)); } assert forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * esum(node.outs(), self.col(), x, _i0 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.outs(), self.col(), x, _i0 as int - 1), x(self.col()[node.outs()[_i0 as int - 1]] as int));
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| loop 1 invariant
//@|     forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.outs(), self.col(), c, _i1 as int),
//@|     _n1 == node.outs().len(), _s1_1@ == node.outs(), row.lower == old(row).lower && row.upper == old(row).upper,
//@|     forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * esum(node.outs(), self.col(), x, _i1 as int)
//@| at loop1.end
//@|     proof { ecol_step(node.outs(), self.col(), _i1 as int - 1); assert forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.outs(), self.col(), c, _i1 as int) by { let _k = (row.columns@.dom().contains(c), ecol(node.outs(), self.col(), c, _i1 as int)); } assert forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * esum(node.outs(), self.col(), x, _i1 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.outs(), self.col(), x, _i1 as int - 1), x(self.col()[node.outs()[_i1 as int - 1]] as int));
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| loop 2 invariant
//@|     forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.ins(), self.col(), c, _i2 as int),
//@|     _n2 == node.ins().len(), _s2_2@ == node.ins(), row.lower == old(row).lower && row.upper == old(row).upper,
//@|     forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * esum(node.ins(), self.col(), x, _i2 as int)
//@| at loop2.end
//@|     proof { ecol_step(node.ins(), self.col(), _i2 as int - 1); assert forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.ins(), self.col(), c, _i2 as int) by { let _k = (row.columns@.dom().contains(c), ecol(node.ins(), self.col(), c, _i2 as int)); } assert forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * esum(node.ins(), self.col(), x, _i2 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.ins(), self.col(), x, _i2 as int - 1), x(self.col()[node.ins()[_i2 as int - 1]] as int));
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| loop 3 invariant
//@|     forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.ins(), self.col(), c, _i3 as int),
//@|     _n3 == node.ins().len(), _s3_3@ == node.ins(), row.lower == old(row).lower && row.upper == old(row).upper,
//@|     forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * esum(node.ins(), self.col(), x, _i3 as int)
//@| at loop3.end
//@|     proof { ecol_step(node.ins(), self.col(), _i3 as int - 1); assert forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.ins(), self.col(), c, _i3 as int) by { let _k = (row.columns@.dom().contains(c), ecol(node.ins(), self.col(), c, _i3 as int)); } assert forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * esum(node.ins(), self.col(), x, _i3 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.ins(), self.col(), x, _i3 as int - 1), x(self.col()[node.ins()[_i3 as int - 1]] as int));
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| loop 4 invariant
//@|     forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.ins(), self.col(), c, node.ins().len() as int) || ecol(node.outs(), self.col(), c, _i4 as int),
//@|     _n4 == node.outs().len(), _s4_4@ == node.outs(), row.lower == old(row).lower && row.upper == old(row).upper,
//@|     forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * through(node.ins(), self.col(), x) + -factor@ * esum(node.outs(), self.col(), x, _i4 as int)
//@| at loop4.end
//@|     proof { ecol_step(node.outs(), self.col(), _i4 as int - 1); assert forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> old(row).columns@.contains_key(c) || ecol(node.ins(), self.col(), c, node.ins().len() as int) || ecol(node.outs(), self.col(), c, _i4 as int) by { let _k = (row.columns@.dom().contains(c), ecol(node.outs(), self.col(), c, _i4 as int)); } assert forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * through(node.ins(), self.col(), x) + -factor@ * esum(node.outs(), self.col(), x, _i4 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.outs(), self.col(), x, _i4 as int - 1), x(self.col()[node.outs()[_i4 as int - 1]] as int));
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| at fn.end
//@|     proof { if node is Storage { assert forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * node.flow(self.col(), x) by {
//@|         let (f, a, b) = (factor@, through(node.ins(), self.col(), x), through(node.outs(), self.col(), x));
//@|         assert(f * (a - b) == f * a + -f * b) by (nonlinear_arith);
//@|     } } else { assert forall|x: Flows| #[trigger] row.at(x) == old(row).at(x) + factor@ * node.flow(self.col(), x) by { assert(factor@ * 0real == 0real) by (nonlinear_arith); } } }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::create_aggregated_node_constraints
//@| selfty SolverBuilder
//@| iterof
//@|     aggregated_nodes AggregatedNode
//@| requires
//@|     aggs_known(network)
//@| ensures
//@|     *final(self) == (SolverBuilder { builder: final(self).builder, ..*old(self) }), more_rows(old(self).builder, final(self).builder),
//@|     r@.len() == network.aggregated_nodes@.len(), forall|k: int| 0 <= k < r@.len() ==> agg_row(final(self).builder, #[trigger] r@[k], &network.aggregated_nodes@[k], network, old(self).col())
//@| loop 0 invariant
//@|     aggs_known(network), _s0_0@ == network.aggregated_nodes@, _n0 == _s0_0@.len(),
//@|     *self == (SolverBuilder { builder: self.builder, ..*old(self) }), more_rows(old(self).builder, self.builder),
//@|     row_ids@.len() == _i0, forall|k: int| 0 <= k < _i0 ==> agg_row(self.builder, #[trigger] row_ids@[k], &network.aggregated_nodes@[k], network, old(self).col())
//@| at loop0.top
//@|     let ghost b0 = self.builder; let ghost mut new_row: RowBuilder = arbitrary();
//@|     proof { let _k = network.aggregated_nodes@[_i0 - 1].known(network); }
//@| loop 1 invariant
//@|     agg_node.known(network), _n1 == agg_node.nodes@.len(), open_row(row), *self == (SolverBuilder { builder: b0, ..*old(self) }),
//@|     forall|x: Flows| #[trigger] row.at(x) == gsum(network, agg_node.nodes@, old(self).col(), x, _i1 as int)
//@| at loop1.before
//@|     proof { broadcast use lin_empty; }
//@| loop 2 invariant
//@|     agg_node.known(network), _n2 == node_indices@.len(), node_indices@ == agg_node.nodes@[_i1 - 1]@, 1 <= _i1 <= _n1, open_row(row), *self == (SolverBuilder { builder: b0, ..*old(self) }),
//@|     forall|x: Flows| #[trigger] row.at(x) == gsum(network, agg_node.nodes@, old(self).col(), x, _i1 - 1) + nsum(network, node_indices@, old(self).col(), x, _i2 as int)
//@| at loop2.top
//@|     proof { let _k = known_nodes(network, agg_node.nodes@[_i1 - 1]@); let _j = network.has_node(node_indices@[_i2 - 1]); }
//@| at loop1.after
//@|     proof { new_row = row; }
//@| at loop0.end
//@|     proof { row_eq_same(self.builder.rows@[row_id as int], new_row); assert forall|k: int| 0 <= k < _i0 implies agg_row(self.builder, #[trigger] row_ids@[k], &network.aggregated_nodes@[k], network, old(self).col()) by {
//@|         if k < _i0 - 1 { assert(agg_row(b0, row_ids@[k], &network.aggregated_nodes@[k], network, old(self).col())); }
//@|     } }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::create_virtual_storage_constraints
//@| selfty SolverBuilder
//@| stop !vss_known(network)
//@| requires
//@|     forall|k: int, j: int| 0 <= k < network.virtual_storage_nodes@.len() && 0 <= j < network.virtual_storage_nodes@[k].npairs() ==> network.has_node(#[trigger] network.virtual_storage_nodes@[k].nodes@[j])
//@| ensures
//@|     *final(self) == (SolverBuilder { builder: final(self).builder, ..*old(self) }), more_rows(old(self).builder, final(self).builder),
//@|     r@.len() == network.virtual_storage_nodes@.len(), forall|k: int| 0 <= k < r@.len() ==> vs_row(final(self).builder, #[trigger] r@[k], &network.virtual_storage_nodes@[k], network, old(self).col())
//@| loop 0 invariant
//@|     _s0_0@ == network.virtual_storage_nodes@, _n0 == _s0_0@.len(),
//@|     *self == (SolverBuilder { builder: self.builder, ..*old(self) }), more_rows(old(self).builder, self.builder),
//@|     row_ids@.len() == _i0, forall|k: int| 0 <= k < _i0 ==> vs_row(self.builder, #[trigger] row_ids@[k], &network.virtual_storage_nodes@[k], network, old(self).col())
//@| at loop0.top
//@|     let ghost b0 = self.builder; let ghost mut new_row: RowBuilder = arbitrary();
//@| loop 1 invariant
//@|     _n1 == virtual_storage.npairs(), open_row(row), *self == (SolverBuilder { builder: b0, ..*old(self) }),
//@|     forall|x: Flows| #[trigger] row.at(x) == -virtual_storage.taken(network, old(self).col(), x, _i1 as int)
//@| at loop1.before
//@|     proof { broadcast use lin_empty; }
//@| at loop1.top
//@|     proof { let _k = network.has_node(network.virtual_storage_nodes@[_i0 - 1].nodes@[_i1 - 1]); }
//@|     let ghost row0 = row;
//@| at loop1.end
//@|     proof { assert forall|x: Flows| #[trigger] row.at(x) == -virtual_storage.taken(network, old(self).col(), x, _i1 as int) by {
//@|         let (f, q) = (factor@, network.node(virtual_storage.nodes@[_i1 - 1]).flow(old(self).col(), x));
//@|         assert(-f * q == -(f * q)) by (nonlinear_arith);
//@|         let _r = row0.at(x);
//@|     } }
//@| at loop1.after
//@|     proof { new_row = row; }
//@| at loop0.end
//@|     proof { row_eq_same(self.builder.rows@[row_id as int], new_row); assert forall|k: int| 0 <= k < _i0 implies vs_row(self.builder, #[trigger] row_ids@[k], &network.virtual_storage_nodes@[k], network, old(self).col()) by {
//@|         if k < _i0 - 1 { assert(vs_row(b0, row_ids@[k], &network.virtual_storage_nodes@[k], network, old(self).col())); }
//@|     } }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::create_mutual_exclusivity_constraints
//@| selfty SolverBuilder
//@| iterof
//@|     aggregated_nodes AggregatedNode
//@| requires
//@|     has_bins(network, old(self).node_set_bin_col_map@), old(self).builder.f64_max@ > usize::MAX as real
//@| ensures
//@|     *final(self) == (SolverBuilder { builder: final(self).builder, ..*old(self) }), more_fixed(old(self).builder, final(self).builder),
//@|     forall|x: Flows| #[trigger] all_hold(final(self).builder.fixed_rows@, old(self).builder.f64_max, x) <==> all_hold(old(self).builder.fixed_rows@, old(self).builder.f64_max, x) && excls_hold(network, old(self).node_set_bin_col_map@, x, network.aggregated_nodes@.len() as int)
//@| loop 0 invariant
//@|     _s0_0@ == network.aggregated_nodes@, _n0 == _s0_0@.len(),
//@|     *self == (SolverBuilder { builder: self.builder, ..*old(self) }), more_fixed(old(self).builder, self.builder),
//@|     forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, old(self).builder.f64_max, x) <==> all_hold(old(self).builder.fixed_rows@, old(self).builder.f64_max, x) && excls_hold(network, old(self).node_set_bin_col_map@, x, _i0 as int)
//@| at loop0.top
//@|     let ghost b0 = self.builder; let ghost bins = self.node_set_bin_col_map@; let ghost mut sum_row: RowBuilder = arbitrary();
//@| loop 1 invariant
//@|     _n1 == agg_node.nodes@.len(), open_row(row), *self == (SolverBuilder { builder: b0, ..*old(self) }),
//@|     forall|x: Flows| #[trigger] row.at(x) == active(bins, agg_node.nodes@, x, _i1 as int)
//@| at loop1.before
//@|     proof { broadcast use lin_empty; }
//@| at loop1.top
//@|     proof { let _k = bins.contains_key(network.aggregated_nodes@[_i0 - 1].nodes@[_i1 - 1]@); }
//@| at loop1.after
//@|     proof { sum_row = row; }
//@| at loop0.end
//@|     proof {
//@|         let mx = old(self).builder.f64_max;
//@|         let last = self.builder.fixed_rows@.last();
//@|         all_hold_push(b0.fixed_rows@, last, mx);
//@|         assert forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, mx, x) <==> all_hold(old(self).builder.fixed_rows@, mx, x) && excls_hold(network, bins, x, _i0 as int) by {
//@|             let _h = all_hold(b0.fixed_rows@, mx, x);
//@|             assert(excls_hold(network, bins, x, _i0 as int) <==> excls_hold(network, bins, x, _i0 - 1) && excl_holds(&network.aggregated_nodes@[_i0 - 1], bins, x)) by {
//@|                 if excls_hold(network, bins, x, _i0 as int) {
//@|                     assert(excl_holds(&network.aggregated_nodes@[_i0 - 1], bins, x));
//@|                     assert forall|k: int| 0 <= k < _i0 - 1 implies excl_holds(&#[trigger] network.aggregated_nodes@[k], bins, x) by {}
//@|                 }
//@|             }
//@|             if agg_node.exclusivity() is Some { assert(self.builder.fixed_rows@ == b0.fixed_rows@.push(last)); let _r = sum_row.at(x); assert(last.at(x) == sum_row.at(x)); }
//@|         }
//@|     }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::create_aggregated_node_factor_constraints
//@| selfty SolverBuilder
//@| requires
//@|     aggs_known(network), agg_indexed(network), forall|k: int| 0 <= k < network.aggregated_nodes@.len() ==> (#[trigger] network.aggregated_nodes@[k]).factors_ok(values.constant.pv())
//@| ensures
//@|     r is Ok == (forall|k: int| 0 <= k < network.aggregated_nodes@.len() && (#[trigger] network.aggregated_nodes@[k]).factors() is Some ==> network.aggregated_nodes@[k].factors()->Some_0.const_accepted(network.aggregated_nodes@[k].nodes@.len(), values.constant.pv())),
//@|     *final(self) == (SolverBuilder { builder: final(self).builder, ..*old(self) }), final(self).builder.same_columns(old(self).builder), starts(old(self).builder.rows@, final(self).builder.rows@), starts(old(self).builder.fixed_rows@, final(self).builder.fixed_rows@),
//@|     r is Ok ==> forall|j: int| 0 <= j < r->Ok_0@.len() ==> factor_rows(final(self).builder, #[trigger] r->Ok_0@[j], network, values.constant.pv(), old(self).col()),
//@|     r is Ok ==> later_nodes(r->Ok_0@),
//@|     r is Ok ==> forall|k: int| 0 <= k < network.aggregated_nodes@.len() && (#[trigger] network.aggregated_nodes@[k]).factors() is Some ==> exists|j: int| 0 <= j < r->Ok_0@.len() && (#[trigger] r->Ok_0@[j]).agg_node_idx.0 == k,
//@|     r is Ok ==> forall|x: Flows| #[trigger] all_hold(final(self).builder.fixed_rows@, old(self).builder.f64_max, x) <==> all_hold(old(self).builder.fixed_rows@, old(self).builder.f64_max, x) && known_factors_hold(network, values.constant.pv(), old(self).col(), old(self).builder.f64_max, x, network.aggregated_nodes@.len() as int)
//@| loop 0 invariant
//@|     _s0_0@ == network.aggregated_nodes@, _n0 == _s0_0@.len(), forall|k: int| 0 <= k < network.aggregated_nodes@.len() ==> (#[trigger] network.aggregated_nodes@[k]).factors_ok(values.constant.pv()),
//@|     *self == (SolverBuilder { builder: self.builder, ..*old(self) }), self.builder.same_columns(old(self).builder), starts(old(self).builder.rows@, self.builder.rows@), starts(old(self).builder.fixed_rows@, self.builder.fixed_rows@),
//@|     forall|k: int| 0 <= k < _i0 && (#[trigger] network.aggregated_nodes@[k]).factors() is Some ==> network.aggregated_nodes@[k].factors()->Some_0.const_accepted(network.aggregated_nodes@[k].nodes@.len(), values.constant.pv()),
//@|     forall|j: int| 0 <= j < row_ids@.len() ==> factor_rows(self.builder, #[trigger] row_ids@[j], network, values.constant.pv(), old(self).col()), later_nodes(row_ids@),
//@|     forall|k: int| 0 <= k < _i0 && (#[trigger] network.aggregated_nodes@[k]).factors() is Some ==> exists|j: int| 0 <= j < row_ids@.len() && (#[trigger] row_ids@[j]).agg_node_idx.0 == k,
//@|     forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, old(self).builder.f64_max, x) <==> all_hold(old(self).builder.fixed_rows@, old(self).builder.f64_max, x) && known_factors_hold(network, values.constant.pv(), old(self).col(), old(self).builder.f64_max, x, _i0 as int)
//@| at loop0.top
//@|     let ghost b0 = self.builder; let ghost ids0 = row_ids@; let ghost c = values.constant.pv(); let ghost mx = old(self).builder.f64_max; let ghost col = old(self).col(); let ghost agg = network.aggregated_nodes@[_i0 - 1];
//@|     proof { assert(agg.factors_ok(c)); assert(agg.known(network)); }
//@| loop 1 invariant
//@|     _n1 == node_pairs@.len(), node_pairs@.len() == agg.npair(c), *agg_node == agg, row_ids@ == ids0,
//@|     *self == (SolverBuilder { builder: self.builder, ..*old(self) }), self.builder.same_columns(b0), starts(b0.rows@, self.builder.rows@), starts(b0.fixed_rows@, self.builder.fixed_rows@),
//@|     row_indices_for_agg_node@.len() == _i1, forall|k: int| 0 <= k < _i1 ==> factor_row(self.builder, #[trigger] row_indices_for_agg_node@[k], &agg, k, network, c, col), later_rows(row_indices_for_agg_node@), forall|k: int| 0 <= k < _i1 && #[trigger] row_indices_for_agg_node@[k] is Some ==> row_indices_for_agg_node@[k]->Some_0 >= b0.rows@.len(),
//@|     forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, mx, x) <==> all_hold(b0.fixed_rows@, mx, x) && agg.known_hold(network, c, col, mx, x, _i1 as int)
//@| at loop1.top
//@|     let ghost b1 = self.builder; let ghost ri = row_indices_for_agg_node@; let ghost e = agg.cpair(c, _i1 - 1); let ghost mut new_row: RowBuilder = arbitrary();
//@|     proof { pair_groups(&agg, c, _i1 - 1); assert(cpair_ok(node_pairs@[_i1 - 1], e, agg.factors()->Some_0.const_known(_i1 - 1))); assert(known_nodes(network, agg.nodes@[0]@)); assert(known_nodes(network, agg.nodes@[_i1 as int]@)); }
//@| loop 2 invariant
//@|     _n2 == e.a.len(), _s2_1@ == e.a, open_row(row), *self == (SolverBuilder { builder: b1, ..*old(self) }), f0 == node_pair.node0.factor,
//@|     forall|x: Flows| #[trigger] row.at(x) == (match f0 { Some(f) => f@, None => 1real }) * nsum(network, e.a, col, x, _i2 as int),
//@|     forall|q: usize| #[trigger] row.columns@.contains_key(q) <==> guses(network, e.a, col, q, _i2 as int)
//@| at loop2.before
//@|     proof { broadcast use lin_empty; assert forall|x: Flows| #[trigger] row.at(x) == (match f0 { Some(f) => f@, None => 1real }) * nsum(network, e.a, col, x, 0) by { let f = (match f0 { Some(f) => f@, None => 1real }); assert(f * 0real == 0real) by (nonlinear_arith); } }
//@| at loop2.top
//@|     let ghost row0 = row;
//@|     proof { let _k = network.has_node(e.a[_i2 - 1]); }
//@| at loop2.end
//@|     proof {
//@|         assert forall|x: Flows| #[trigger] row.at(x) == (match f0 { Some(f) => f@, None => 1real }) * nsum(network, e.a, col, x, _i2 as int) by {
//@|             let (f, a, b) = ((match f0 { Some(f) => f@, None => 1real }), nsum(network, e.a, col, x, _i2 - 1), network.node(e.a[_i2 - 1]).flow(col, x));
//@|             assert(f * (a + b) == f * a + f * b) by (nonlinear_arith);
//@|             let _r = row0.at(x);
//@|         }
//@|         guses_step(network, e.a, col, _i2 - 1); assert forall|q: usize| #[trigger] row.columns@.contains_key(q) <==> guses(network, e.a, col, q, _i2 as int) by { let _k = (row0.columns@.contains_key(q), guses(network, e.a, col, q, _i2 as int)); }
//@|     }
//@| loop 3 invariant
//@|     _n3 == e.b.len(), _s3_2@ == e.b, open_row(row), *self == (SolverBuilder { builder: b1, ..*old(self) }), f0 == node_pair.node0.factor, f1 == node_pair.node1.factor,
//@|     forall|x: Flows| #[trigger] row.at(x) == (match f0 { Some(f) => f@, None => 1real }) * gflow(network, e.a, col, x) + (match f1 { Some(f) => f@, None => 1real }) * nsum(network, e.b, col, x, _i3 as int),
//@|     forall|q: usize| #[trigger] row.columns@.contains_key(q) <==> guses(network, e.a, col, q, e.a.len() as int) || guses(network, e.b, col, q, _i3 as int)
//@| at loop3.before
//@|     proof { let f = (match f1 { Some(f) => f@, None => 1real }); assert(f * 0real == 0real) by (nonlinear_arith); }
//@| at loop3.top
//@|     let ghost row0 = row;
//@|     proof { let _k = network.has_node(e.b[_i3 - 1]); }
//@| at loop3.end
//@|     proof {
//@|         assert forall|x: Flows| #[trigger] row.at(x) == (match f0 { Some(f) => f@, None => 1real }) * gflow(network, e.a, col, x) + (match f1 { Some(f) => f@, None => 1real }) * nsum(network, e.b, col, x, _i3 as int) by {
//@|             let (f, a, b) = ((match f1 { Some(f) => f@, None => 1real }), nsum(network, e.b, col, x, _i3 - 1), network.node(e.b[_i3 - 1]).flow(col, x));
//@|             assert(f * (a + b) == f * a + f * b) by (nonlinear_arith);
//@|             let _r = row0.at(x);
//@|         }
//@|         guses_step(network, e.b, col, _i3 - 1); assert forall|q: usize| #[trigger] row.columns@.contains_key(q) <==> guses(network, e.a, col, q, e.a.len() as int) || guses(network, e.b, col, q, _i3 as int) by { let _k = (row0.columns@.contains_key(q), guses(network, e.b, col, q, _i3 as int)); }
//@|     }
//@| at loop3.after
//@|     proof { new_row = row; }
//@| at loop1.end
//@|     proof {
//@|         assert forall|k: int| 0 <= k < _i1 implies factor_row(self.builder, #[trigger] row_indices_for_agg_node@[k], &agg, k, network, c, col) by {
//@|             if k < _i1 - 1 { assert(factor_row(b1, ri[k], &agg, k, network, c, col)); if ri[k] is Some { let _r = self.builder.rows@[ri[k]->Some_0 as int]; } }
//@|         }
//@|         let last = self.builder.fixed_rows@.last();
//@|         all_hold_push(b1.fixed_rows@, last, mx);
//@|         assert forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, mx, x) <==> all_hold(b0.fixed_rows@, mx, x) && agg.known_hold(network, c, col, mx, x, _i1 as int) by {
//@|             let _h = all_hold(b1.fixed_rows@, mx, x);
//@|             let known = agg.factors()->Some_0.const_known(_i1 - 1);
//@|             assert(agg.known_hold(network, c, col, mx, x, _i1 as int) <==> agg.known_hold(network, c, col, mx, x, _i1 - 1) && (known ==> fp_holds(e, network, col, mx, x))) by {
//@|                 if agg.known_hold(network, c, col, mx, x, _i1 as int) {
//@|                     assert forall|k: int| 0 <= k < _i1 - 1 && k < agg.npair(c) && agg.factors()->Some_0.const_known(k) implies fp_holds(#[trigger] agg.cpair(c, k), network, col, mx, x) by {}
//@|                 }
//@|             }
//@|             if known { assert(self.builder.fixed_rows@ == b1.fixed_rows@.push(last)); let _r = new_row.at(x); assert(last.at(x) == new_row.at(x)); }
//@|         }
//@|     }
//@| at loop0.end
//@|     proof {
//@|         assert forall|j: int| 0 <= j < row_ids@.len() implies factor_rows(self.builder, #[trigger] row_ids@[j], network, c, col) by { if j < ids0.len() { assert(row_ids@[j] == ids0[j]); factor_rows_more(b0, self.builder, ids0[j], network, c, col); } else { } }
//@|         assert forall|k: int| 0 <= k < _i0 && (#[trigger] network.aggregated_nodes@[k]).factors() is Some implies exists|j: int| 0 <= j < row_ids@.len() && (#[trigger] row_ids@[j]).agg_node_idx.0 == k by {
//@|             if k < _i0 - 1 { let j = choose|j: int| 0 <= j < ids0.len() && (#[trigger] ids0[j]).agg_node_idx.0 == k; assert(row_ids@[j].agg_node_idx.0 == k); } else { assert(row_ids@.last().agg_node_idx.0 == k); }
//@|         }
//@|         assert forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, mx, x) <==> all_hold(old(self).builder.fixed_rows@, mx, x) && known_factors_hold(network, c, col, mx, x, _i0 as int) by {
//@|             let _h = all_hold(b0.fixed_rows@, mx, x);
//@|             assert(known_factors_hold(network, c, col, mx, x, _i0 as int) <==> known_factors_hold(network, c, col, mx, x, _i0 - 1) && agg.known_hold(network, c, col, mx, x, agg.npair(c))) by {
//@|                 if known_factors_hold(network, c, col, mx, x, _i0 as int) {
//@|                     assert forall|j: int| 0 <= j < _i0 - 1 implies (#[trigger] network.aggregated_nodes@[j]).known_hold(network, c, col, mx, x, network.aggregated_nodes@[j].npair(c)) by {}
//@|                 }
//@|             }
//@|         }
//@|     }
//@| at fn.end
//@|     proof {
//@|         assert forall|k: int| 0 <= k < network.aggregated_nodes@.len() && (#[trigger] network.aggregated_nodes@[k]).factors() is Some implies exists|j: int| 0 <= j < _ret->Ok_0@.len() && (#[trigger] _ret->Ok_0@[j]).agg_node_idx.0 == k by {
//@|             let j = choose|j: int| 0 <= j < _ret->Ok_0@.len() && (#[trigger] _ret->Ok_0@[j]).agg_node_idx.0 == k;
//@|         }
//@|     }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::create_node_constraints
//@| selfty SolverBuilder
//@| byval !cols
//@| requires
//@|     node_indexed(network)
//@| ensures
//@|     *final(self) == (SolverBuilder { builder: final(self).builder, ..*old(self) }), final(self).builder.same_columns(old(self).builder), starts(old(self).builder.rows@, final(self).builder.rows@), starts(old(self).builder.fixed_rows@, final(self).builder.fixed_rows@),
//@|     r is Ok ==> forall|j: int| 0 <= j < r->Ok_0@.len() ==> node_row(final(self).builder, #[trigger] r->Ok_0@[j], network, old(self).node_bin_col_map@, old(self).col()),
//@|     r is Ok ==> own_rows(r->Ok_0@),
//@|     r is Ok ==> forall|k: int| 0 <= k < network.nodes@.len() && (#[trigger] network.nodes@[k]).varying() ==> node_rows(r->Ok_0@, network.nodes@[k].idx(), old(self).node_bin_col_map@),
//@|     r is Ok ==> forall|x: Flows| #[trigger] all_hold(final(self).builder.fixed_rows@, old(self).builder.f64_max, x) <==> all_hold(old(self).builder.fixed_rows@, old(self).builder.f64_max, x) && const_bounds_hold(network, values.constant.pv(), old(self).node_bin_col_map@, old(self).col(), old(self).builder.f64_max, x, network.nodes@.len() as int)
//@| loop 0 invariant
//@|     node_indexed(network), _s0_0@ == network.nodes@, _n0 == _s0_0@.len(),
//@|     *self == (SolverBuilder { builder: self.builder, ..*old(self) }), self.builder.same_columns(old(self).builder), starts(old(self).builder.rows@, self.builder.rows@), starts(old(self).builder.fixed_rows@, self.builder.fixed_rows@),
//@|     forall|j: int| 0 <= j < row_ids@.len() ==> node_row(self.builder, #[trigger] row_ids@[j], network, old(self).node_bin_col_map@, old(self).col()), own_rows(row_ids@),
//@|     forall|k: int| 0 <= k < _i0 && (#[trigger] network.nodes@[k]).varying() ==> node_rows(row_ids@, network.nodes@[k].idx(), old(self).node_bin_col_map@),
//@|     forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, old(self).builder.f64_max, x) <==> all_hold(old(self).builder.fixed_rows@, old(self).builder.f64_max, x) && const_bounds_hold(network, values.constant.pv(), old(self).node_bin_col_map@, old(self).col(), old(self).builder.f64_max, x, _i0 as int)
//@| at loop0.top
//@|     let ghost b0 = self.builder; let ghost ids0 = row_ids@; let ghost c = values.constant.pv(); let ghost mx = old(self).builder.f64_max; let ghost cm = old(self).col(); let ghost bins = old(self).node_bin_col_map@; let ghost nd = network.nodes@[_i0 - 1]; let ghost bs = bins[nd.idx()];
//@| loop 1 invariant
//@|     _n1 == cols@.len(), cols@ == bs, *node == nd, bins.contains_key(nd.idx()), bounds is Some == !nd.varying(), bounds is Some ==> bounds->Some_0.min_flow@ == nd.cmin(c) && bounds->Some_0.max_flow@ == nd.cmax(c),
//@|     *self == (SolverBuilder { builder: self.builder, ..*old(self) }), self.builder.same_columns(b0), starts(b0.rows@, self.builder.rows@), starts(b0.fixed_rows@, self.builder.fixed_rows@),
//@|     forall|j: int| 0 <= j < row_ids@.len() ==> node_row(self.builder, #[trigger] row_ids@[j], network, bins, cm), starts_ids(ids0, row_ids@), own_rows(row_ids@),
//@|     nd.varying() ==> bin_rows(row_ids@, nd.idx(), bs, _i1 as int) && self.builder.fixed_rows@ == b0.fixed_rows@,
//@|     !nd.varying() ==> row_ids@ == ids0 && forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, mx, x) <==> all_hold(b0.fixed_rows@, mx, x) && bins_hold(&nd, c, bs, cm, mx, x, _i1 as int)
//@| at loop1.top
//@|     let ghost b1 = self.builder; let ghost ids1 = row_ids@;
//@| at loop1.end
//@|     proof {
//@|         assert forall|j: int| 0 <= j < row_ids@.len() implies node_row(self.builder, #[trigger] row_ids@[j], network, bins, cm) by {
//@|             if j < ids1.len() { assert(node_row(b1, ids1[j], network, bins, cm)); let _r = self.builder.rows@[ids1[j].row_id as int]; }
//@|             else { assert(bs.contains(bs[_i1 - 1])); }
//@|         }
//@|         if nd.varying() {
//@|             bin_rows_more(ids1, row_ids@, nd.idx(), bs, _i1 - 1);
//@|             let n = ids1.len() as int;
//@|             assert(row_ids@[n].row_type == NodeRowType::BinaryUpperBound { bin_col_id: bs[_i1 - 1] });
//@|             assert(row_ids@[n + 1].row_type == NodeRowType::BinaryLowerBound { bin_col_id: bs[_i1 - 1] });
//@|         } else {
//@|             let f0 = b1.fixed_rows@; let f1 = self.builder.fixed_rows@; let n = f0.len() as int; let b = bs[_i1 - 1];
//@|             if f1.len() == n + 2 { all_hold_push2(f0, f1[n], f1[n + 1], mx); assert(f1 =~= f0.push(f1[n]).push(f1[n + 1])); } else { all_hold_push(f0, f1[n], mx); assert(f1 =~= f0.push(f1[n])); }
//@|             assert forall|x: Flows| #[trigger] all_hold(f1, mx, x) <==> all_hold(b0.fixed_rows@, mx, x) && bins_hold(&nd, c, bs, cm, mx, x, _i1 as int) by {
//@|                 let _h = all_hold(f0, mx, x);
//@|                 assert(bins_hold(&nd, c, bs, cm, mx, x, _i1 as int) <==> bins_hold(&nd, c, bs, cm, mx, x, _i1 - 1) && bin_holds(nd.flow(cm, x), nd.cmin(c), nd.cmax(c), b, mx, x)) by {
//@|                     if bins_hold(&nd, c, bs, cm, mx, x, _i1 as int) { assert forall|m: int| 0 <= m < _i1 - 1 && m < bs.len() implies bin_holds(nd.flow(cm, x), nd.cmin(c), nd.cmax(c), #[trigger] bs[m], mx, x) by {} }
//@|                 }
//@|                 let q = nd.flow(cm, x); assert(-1real * q == -q && 1real * q == q) by (nonlinear_arith);
//@|                 assert(f1[n].at(x) == rmin(nd.cmax(c), BIG()) * x(b as int) - nd.flow(cm, x));
//@|                 if f1.len() == n + 2 {
//@|                     let (l, y) = (rmax(nd.cmin(c), 1real / BIG()), x(b as int));
//@|                     assert(-l * y == -(l * y)) by (nonlinear_arith);
//@|                     assert(f1[n + 1].at(x) == nd.flow(cm, x) - l * y);
//@|                 }
//@|             }
//@|         }
//@|     }
//@| at loop0.end
//@|     proof {
//@|         assert(starts_ids(ids0, row_ids@));
//@|         assert forall|j: int| 0 <= j < row_ids@.len() implies node_row(self.builder, #[trigger] row_ids@[j], network, bins, cm) by {
//@|             if j < ids0.len() { assert(row_ids@[j] == ids0[j]); assert(node_row(b0, ids0[j], network, bins, cm)); let _r = self.builder.rows@[ids0[j].row_id as int]; }
//@|         }
//@|         assert forall|k: int| 0 <= k < _i0 && (#[trigger] network.nodes@[k]).varying() implies node_rows(row_ids@, network.nodes@[k].idx(), bins) by {
//@|             if k < _i0 - 1 { node_rows_more(ids0, row_ids@, network.nodes@[k].idx(), bins); }
//@|             else if !bins.contains_key(nd.idx()) { let l = row_ids@[row_ids@.len() - 1]; assert(l.node_idx == nd.idx() && l.row_type == NodeRowType::Continuous); assert(has_id(row_ids@, nd.idx(), NodeRowType::Continuous)); }
//@|         }
//@|         let f0 = b0.fixed_rows@; let f1 = self.builder.fixed_rows@; let n = f0.len() as int;
//@|         assert forall|x: Flows| #[trigger] all_hold(f1, mx, x) <==> all_hold(old(self).builder.fixed_rows@, mx, x) && const_bounds_hold(network, c, bins, cm, mx, x, _i0 as int) by {
//@|             let _h = all_hold(f0, mx, x);
//@|             assert(const_bounds_hold(network, c, bins, cm, mx, x, _i0 as int) <==> const_bounds_hold(network, c, bins, cm, mx, x, _i0 - 1) && (!nd.varying() ==> nd.const_holds(c, bins, cm, mx, x))) by {
//@|                 if const_bounds_hold(network, c, bins, cm, mx, x, _i0 as int) { assert forall|k: int| 0 <= k < _i0 - 1 && !network.nodes@[k].varying() implies (#[trigger] network.nodes@[k]).const_holds(c, bins, cm, mx, x) by {} }
//@|             }
//@|             if nd.varying() { assert(f1 =~= f0); }
//@|             else if bins.contains_key(nd.idx()) { assert(nd.const_holds(c, bins, cm, mx, x) <==> bins_hold(&nd, c, bs, cm, mx, x, bs.len() as int)); }
//@|             else { all_hold_push(f0, f1[n], mx); assert(f1 =~= f0.push(f1[n])); assert(f1[n].at(x) == nd.flow(cm, x)); }
//@|         }
//@|     }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::create_mass_balance_constraints
//@| selfty SolverBuilder
//@| requires
//@|     links_ok(network), chains(network, old(self).col()), old(self).builder.f64_max@ > 0real
//@| ensures
//@|     *final(self) == (SolverBuilder { builder: final(self).builder, ..*old(self) }), final(self).builder.same_columns(old(self).builder), final(self).builder.rows == old(self).builder.rows, starts(old(self).builder.fixed_rows@, final(self).builder.fixed_rows@),
//@|     forall|x: Flows| #[trigger] all_hold(final(self).builder.fixed_rows@, old(self).builder.f64_max, x) <==> all_hold(old(self).builder.fixed_rows@, old(self).builder.f64_max, x) && balance_holds(network, old(self).col(), x, network.nodes@.len() as int)
//@| loop 0 invariant
//@|     links_ok(network), chains(network, old(self).col()), old(self).builder.f64_max@ > 0real, _s0_0@ == network.nodes@, _n0 == _s0_0@.len(),
//@|     *self == (SolverBuilder { builder: self.builder, ..*old(self) }), self.builder.same_columns(old(self).builder), self.builder.rows == old(self).builder.rows, starts(old(self).builder.fixed_rows@, self.builder.fixed_rows@),
//@|     forall|x: Flows| #[trigger] all_hold(self.builder.fixed_rows@, old(self).builder.f64_max, x) <==> all_hold(old(self).builder.fixed_rows@, old(self).builder.f64_max, x) && balance_holds(network, old(self).col(), x, _i0 as int)
//@| at loop0.top
//@|     let ghost f0 = self.builder.fixed_rows@; let ghost mx = old(self).builder.f64_max; let ghost cm = old(self).col(); let ghost nd = network.nodes@[_i0 - 1];
//@|     proof { if nd is Link { assert(link_ok(network, _i0 - 1)); } }
//@| loop 1 invariant
//@|     row.lower@ == 0real && row.upper is None, _n1 == nd.ins().len(), incoming_edges@ == nd.ins(),
//@|     forall|m: int| 0 <= m < _i1 ==> cm.contains_key(#[trigger] nd.ins()[m]),
//@|     forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> ecol(nd.ins(), cm, c, _i1 as int),
//@|     forall|x: Flows| #[trigger] row.at(x) == esum(nd.ins(), cm, x, _i1 as int)
//@| at loop1.end
//@|     proof { ecol_step(nd.ins(), cm, _i1 - 1); }
//@| loop 2 invariant
//@|     row.lower@ == 0real && row.upper is None, _n2 == nd.outs().len(), outgoing_edges@ == nd.outs(),
//@|     forall|m: int| 0 <= m < nd.ins().len() ==> cm.contains_key(#[trigger] nd.ins()[m]),
//@|     forall|m: int| 0 <= m < _i2 ==> cm.contains_key(#[trigger] nd.outs()[m]),
//@|     forall|c: usize| #[trigger] row.columns@.contains_key(c) <==> ecol(nd.ins(), cm, c, nd.ins().len() as int) || ecol(nd.outs(), cm, c, _i2 as int),
//@|     forall|x: Flows| #[trigger] row.at(x) == through(nd.ins(), cm, x) - esum(nd.outs(), cm, x, _i2 as int)
//@| at loop2.top
//@|     let ghost r2 = row;
//@| at loop2.end
//@|     proof {
//@|         ecol_step(nd.outs(), cm, _i2 - 1);
//@|         assert forall|x: Flows| #[trigger] row.at(x) == through(nd.ins(), cm, x) - esum(nd.outs(), cm, x, _i2 as int) by { assert(r2.at(x) == through(nd.ins(), cm, x) - esum(nd.outs(), cm, x, _i2 - 1)); let y = x(cm[nd.outs()[_i2 - 1]] as int); assert(-1real * y == -y) by (nonlinear_arith); assert(row.at(x) == r2.at(x) - y); }
//@|     }
//@| at loop2.after
//@|     proof {
//@|         let s = row.columns@.dom();
//@|         assert(ecol(nd.ins(), cm, cm[nd.ins()[0]], nd.ins().len() as int)); assert(s.contains(cm[nd.ins()[0]]));
//@|         if s.len() == 1 {
//@|             let c = cm[nd.ins()[0]];
//@|             assert forall|a: usize| #[trigger] row.columns@.contains_key(a) implies a == c by { assert(s.remove(c).len() == 0); if a != c { assert(s.remove(c).contains(a)); } }
//@|             assert forall|m: int| 0 <= m < nd.ins().len() implies cm[#[trigger] nd.ins()[m]] == c by { assert(ecol(nd.ins(), cm, cm[nd.ins()[m]], nd.ins().len() as int)); assert(row.columns@.contains_key(cm[nd.ins()[m]])); }
//@|             assert forall|m: int| 0 <= m < nd.outs().len() implies cm[#[trigger] nd.outs()[m]] == c by { assert(ecol(nd.outs(), cm, cm[nd.outs()[m]], nd.outs().len() as int)); assert(row.columns@.contains_key(cm[nd.outs()[m]])); }
//@|             one_column(network, cm, _i0 - 1, c);
//@|         }
//@|     }
//@| at loop0.end
//@|     proof {
//@|         let f1 = self.builder.fixed_rows@; let n = f0.len() as int;
//@|         if f1.len() > n { all_hold_push(f0, f1[n], mx); assert(f1 =~= f0.push(f1[n])); } else { assert(f1 =~= f0); }
//@|         assert forall|x: Flows| #[trigger] all_hold(f1, mx, x) <==> all_hold(old(self).builder.fixed_rows@, mx, x) && balance_holds(network, cm, x, _i0 as int) by {
//@|             let _h = (all_hold(f0, mx, x), nd.balanced(cm, x));
//@|             if f1.len() > n { assert(f1[n].at(x) == through(nd.ins(), cm, x) - through(nd.outs(), cm, x)); }
//@|             assert(balance_holds(network, cm, x, _i0 as int) <==> balance_holds(network, cm, x, _i0 - 1) && (nd is Link ==> nd.balanced(cm, x))) by {
//@|                 if balance_holds(network, cm, x, _i0 as int) { assert forall|k: int| 0 <= k < _i0 - 1 && #[trigger] network.nodes@[k] is Link implies network.nodes@[k].balanced(cm, x) by {} }
//@|             }
//@|         }
//@|     }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::create_columns
//@| selfty SolverBuilder
//@| mapiter node_sets_in_a_mutual_exclusivity
//@| iterof
//@|     aggregated_nodes AggregatedNode
//@| requires
//@|     links_ok(network), old(self).fresh()
//@| ensures
//@|     final(self).builder.rows == old(self).builder.rows && final(self).builder.fixed_rows == old(self).builder.fixed_rows && final(self).builder.f64_max == old(self).builder.f64_max && final(self).builder.f64_neg_max == old(self).builder.f64_neg_max,
//@|     r is Ok ==> cols_ok(network, final(self).col(), final(self).ncols()) && (forall|k: int| 0 <= k < network.edges@.len() ==> final(self).col().contains_key(#[trigger] network.edges@[k].index)),
//@|     r is Ok ==> final(self).col().dom().len() > 0 && columns_ok(final(self).builder, final(self).ncols()),
//@|     r is Ok ==> group_cols(network, final(self).node_set_bin_col_map@, final(self).ncols(), final(self).builder.col_lower@.len() as int),
//@|     r is Ok ==> node_cols(final(self).node_bin_col_map@, final(self).node_set_bin_col_map@)
//@| loop 0 invariant
//@|     _s0_0@ == network.edges@, _n0 == _s0_0@.len(), links_ok(network),
//@|     *self == (SolverBuilder { col_edge_map: self.col_edge_map, ..*old(self) }), cols_ok(network, self.col(), self.ncols()),
//@|     forall|k: int| 0 <= k < _i0 ==> self.col().contains_key(#[trigger] network.edges@[k].index)
//@| at loop0.top
//@|     let ghost m0 = self.col_edge_map; let ghost ed = network.edges@[_i0 - 1];
//@|     proof { assert(edge_ok(network, _i0 - 1)); assert(m0.col_to_edges.len() == m0.col_to_edges@.len()); }
//@| at loop0.end
//@|     proof {
//@|         let n = m0.col_to_edges@.len() as usize; let c0 = m0.edge_to_col@; let e = ed.index;
//@|         let nd = network.from(e);
//@|         if nd.one_one() {
//@|             let k = ed.from_node_index.0 as int; let d = nd.ins()[0];
//@|             assert(link_ok(network, k)); assert(nd.outs()[0] == e); assert(edge_ok(network, d.0 as int)); assert(network.nodes@[k] == nd);
//@|             assert(follows(network, d, e));
//@|             cols_equal(network, c0, n, e, d);
//@|         } else if !c0.contains_key(e) { cols_new(network, c0, n, e); }
//@|         assert(self.col().contains_key(e));
//@|         assert(sub_cols(c0, self.col()));
//@|     }
//@| loop 1 invariant
//@|     _n1 == self.ncols(), *self == (SolverBuilder { col_edge_map: self.col_edge_map, builder: self.builder, ..*old(self) }),
//@|     cols_ok(network, self.col(), self.ncols()), forall|k: int| 0 <= k < network.edges@.len() ==> self.col().contains_key(#[trigger] network.edges@[k].index),
//@|     self.builder.same_rows(old(self).builder), self.builder.col_lower@.len() == _i1, columns_ok(self.builder, _i1 as int)
//@| at loop1.after
//@|     proof { nc = self.ncols(); cem = self.col_edge_map; let d = self.col().dom(); let e = network.edges@[0].index; assert(self.col().contains_key(e)); assert(d.remove(e).len() == d.len() - 1); }
//@| at fn.top
//@|     let ghost mut nc: int = arbitrary(); let ghost mut cem: ColumnEdgeMapBuilder = arbitrary();
//@| loop 2 invariant
//@|     _s2_2@ == network.aggregated_nodes@, _n2 == _s2_2@.len(),
//@|     forall|s: Seq<NodeIndex>| #[trigger] node_sets_in_a_mutual_exclusivity@.contains(s) <==> is_excl(network, s, _i2 as int)
//@| at loop2.top
//@|     let ghost e0 = node_sets_in_a_mutual_exclusivity@;
//@| loop 3 invariant
//@|     _n3 == agg_node.nodes@.len(), agg_node.exclusivity() is Some,
//@|     forall|s: Seq<NodeIndex>| #[trigger] node_sets_in_a_mutual_exclusivity@.contains(s) <==> e0.contains(s) || is_group(agg_node.nodes@, s, _i3 as int)
//@| at loop3.top
//@|     let ghost e1 = node_sets_in_a_mutual_exclusivity@;
//@| at loop3.end
//@|     proof {
//@|         assert forall|s: Seq<NodeIndex>| #[trigger] node_sets_in_a_mutual_exclusivity@.contains(s) <==> e0.contains(s) || is_group(agg_node.nodes@, s, _i3 as int) by {
//@|             let g = agg_node.nodes@[_i3 - 1]@; let _k = e1.contains(s);
//@|             if is_group(agg_node.nodes@, s, _i3 - 1) { let q = choose|q: int| 0 <= q < _i3 - 1 && q < agg_node.nodes@.len() && (#[trigger] agg_node.nodes@[q])@ == s; assert(agg_node.nodes@[q]@ == s); }
//@|             if is_group(agg_node.nodes@, s, _i3 as int) && s != g { let q = choose|q: int| 0 <= q < _i3 && q < agg_node.nodes@.len() && (#[trigger] agg_node.nodes@[q])@ == s; assert(agg_node.nodes@[q]@ == s); assert(q < _i3 - 1); }
//@|         }
//@|     }
//@| at loop2.end
//@|     proof {
//@|         let k = _i2 - 1; let a = network.aggregated_nodes@[k];
//@|         assert forall|s: Seq<NodeIndex>| #[trigger] node_sets_in_a_mutual_exclusivity@.contains(s) <==> is_excl(network, s, _i2 as int) by {
//@|             let _k = e0.contains(s); let ag = network.aggregated_nodes@;
//@|             if is_excl(network, s, k) { let q = choose|q: int| 0 <= q < k && q < ag.len() && (#[trigger] ag[q]).exclusivity() is Some && is_group(ag[q].nodes@, s, ag[q].nodes@.len() as int); assert(ag[q].exclusivity() is Some); }
//@|             if is_excl(network, s, k + 1) && !is_excl(network, s, k) { let q = choose|q: int| 0 <= q < k + 1 && q < ag.len() && (#[trigger] ag[q]).exclusivity() is Some && is_group(ag[q].nodes@, s, ag[q].nodes@.len() as int); assert(q == k); }
//@|             if a.exclusivity() is Some && is_group(a.nodes@, s, a.nodes@.len() as int) { assert(ag[k].exclusivity() is Some); }
//@|         }
//@|     }
//@| loop 4 invariant
//@|     _n4 == _s4_3@.len(), self.col_edge_map == cem, self.builder.same_rows(old(self).builder), self.builder.col_lower@.len() == nc + _i4, columns_ok(self.builder, nc),
//@|     bins_upto(self.node_bin_col_map@, _s4_3@, nc, _i4 as int, 0), sets_upto(self.node_set_bin_col_map@, _s4_3@, nc, _i4 as int)
//@| at loop4.top
//@|     let ghost sm0 = self.node_set_bin_col_map@; let ghost i = _i4 - 1; let ghost v = _s4_3@;
//@| loop 5 invariant
//@|     _n5 == v[i]@.len(), node_set@ == v[i]@, self.col_edge_map == cem, self.builder.same_rows(old(self).builder), self.builder.col_lower@.len() == nc + i + 1, columns_ok(self.builder, nc),
//@|     bins_upto(self.node_bin_col_map@, v, nc, i, _i5 as int), self.node_set_bin_col_map@ == sm0, col_id == nc + i
//@| at loop5.top
//@|     let ghost bm0 = self.node_bin_col_map@;
//@| at loop5.end
//@|     proof { bins_step(bm0, self.node_bin_col_map@, v, nc, i, _i5 - 1, col_id); }
//@| at loop4.end
//@|     proof { bins_next(self.node_bin_col_map@, v, nc, i); sets_step(sm0, v, nc, i, col_id); }
//@| at loop4.after
//@|     proof { all_groups(network, self.node_set_bin_col_map@, self.node_bin_col_map@, _s4_3@, node_sets_in_a_mutual_exclusivity@, nc); }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::create
//@| selfty SolverBuilder
//@| requires
//@|     net_ok(network), self.fresh(), self.builder.f64_max@ > usize::MAX as real, forall|k: int| 0 <= k < network.aggregated_nodes@.len() ==> (#[trigger] network.aggregated_nodes@[k]).factors_ok(values.constant.pv())
//@| ensures
//@|     r is Ok ==> exists|b: LpBuilder, bins: Bins, sm: Map<Seq<NodeIndex>, usize>, col: Cols, nc: int| #[trigger] built(network, values.constant.pv(), r->Ok_0, b, bins, sm, col, nc) && b.f64_max == self.builder.f64_max && b.f64_neg_max == self.builder.f64_neg_max
//@| at fn.top
//@|     broadcast use node_row_more, agg_row_more, vs_row_more, factor_rows_more_b, groups_have_bins;
//@| at fn.end
//@|     proof {
//@|         let b = self_.builder; let c = values.constant.pv(); let s = _ret->Ok_0;
//@|         mcol_of(s.col_edge_map, self_.col());
//@|         assert(built(network, c, s, b, self_.node_bin_col_map@, self_.node_set_bin_col_map@, self_.col(), self_.ncols()));
//@|     }
//@ extract pywr-core/src/solvers/builder.rs impl SolverBuilder<I>::new
//@| selfty SolverBuilder
//@| ensures
//@|     r.fresh(), r.builder.f64_max == f64_max && r.builder.f64_neg_max == f64_neg_max
