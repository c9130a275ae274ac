// BuiltSolver: the linear programme of a time-step. Proved in unit `lpupdate`.
//@ extract pywr-core/src/solvers/builder.rs impl Lp<I>::update_row_coefficients
//@| selfty Lp
//@| ensures
//@|     *final(self) == (Lp { coefficients_to_update: final(self).coefficients_to_update, ..*old(self) }), once(final(self).coefficients_to_update@),
//@|     forall|x: Flows| #[trigger] ulin(final(self).coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * node.flow(mcol(*col_edge_map), x),
//@|     forall|c: usize| #[trigger] ucols(final(self).coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || node.uses(mcol(*col_edge_map), c),
//@|     forall|q: usize| q != row ==> #[trigger] ucols(final(self).coefficients_to_update@, q) == ucols(old(self).coefficients_to_update@, q)
//@| requires
//@|     once(old(self).coefficients_to_update@)
//@| at fn.top
//@|     let ghost col = mcol(*col_edge_map);
//@| loop 0 invariant
//@|     _n0 == node.outs().len(), _s0_0@ == node.outs(), *self == (Lp { coefficients_to_update: self.coefficients_to_update, ..*old(self) }), once(self.coefficients_to_update@), forall|q: usize| q != row ==> #[trigger] ucols(self.coefficients_to_update@, q) == ucols(old(self).coefficients_to_update@, q),
//@|     forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.outs(), col, c, _i0 as int),
//@|     forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * esum(node.outs(), col, x, _i0 as int)
//@| at loop0.top
//@|     let ghost u0 = self.coefficients_to_update@; proof { broadcast use mcol_is; let _k = col.contains_key(node.outs()[_i0 as int - 1]); }
//@| at loop0.end
//@|     proof { ecol_step(node.outs(), col, _i0 as int - 1);
//@|     assert forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.outs(), col, c, _i0 as int) by { broadcast use mcol_is; let _k = (ucols(u0, row).contains_key(c), ecol(node.outs(), col, c, _i0 as int)); }
//@|     assert forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * esum(node.outs(), col, x, _i0 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.outs(), col, x, _i0 as int - 1), x(col[node.outs()[_i0 as int - 1]] as int)); let _k = ulin(u0, row, x);
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| loop 1 invariant
//@|     _n1 == node.outs().len(), _s1_1@ == node.outs(), *self == (Lp { coefficients_to_update: self.coefficients_to_update, ..*old(self) }), once(self.coefficients_to_update@), forall|q: usize| q != row ==> #[trigger] ucols(self.coefficients_to_update@, q) == ucols(old(self).coefficients_to_update@, q),
//@|     forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.outs(), col, c, _i1 as int),
//@|     forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * esum(node.outs(), col, x, _i1 as int)
//@| at loop1.top
//@|     let ghost u0 = self.coefficients_to_update@; proof { broadcast use mcol_is; let _k = col.contains_key(node.outs()[_i1 as int - 1]); }
//@| at loop1.end
//@|     proof { ecol_step(node.outs(), col, _i1 as int - 1);
//@|     assert forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.outs(), col, c, _i1 as int) by { broadcast use mcol_is; let _k = (ucols(u0, row).contains_key(c), ecol(node.outs(), col, c, _i1 as int)); }
//@|     assert forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * esum(node.outs(), col, x, _i1 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.outs(), col, x, _i1 as int - 1), x(col[node.outs()[_i1 as int - 1]] as int)); let _k = ulin(u0, row, x);
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| loop 2 invariant
//@|     _n2 == node.ins().len(), _s2_2@ == node.ins(), *self == (Lp { coefficients_to_update: self.coefficients_to_update, ..*old(self) }), once(self.coefficients_to_update@), forall|q: usize| q != row ==> #[trigger] ucols(self.coefficients_to_update@, q) == ucols(old(self).coefficients_to_update@, q),
//@|     forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.ins(), col, c, _i2 as int),
//@|     forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * esum(node.ins(), col, x, _i2 as int)
//@| at loop2.top
//@|     let ghost u0 = self.coefficients_to_update@; proof { broadcast use mcol_is; let _k = col.contains_key(node.ins()[_i2 as int - 1]); }
//@| at loop2.end
//@|     proof { ecol_step(node.ins(), col, _i2 as int - 1);
//@|     assert forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.ins(), col, c, _i2 as int) by { broadcast use mcol_is; let _k = (ucols(u0, row).contains_key(c), ecol(node.ins(), col, c, _i2 as int)); }
//@|     assert forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * esum(node.ins(), col, x, _i2 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.ins(), col, x, _i2 as int - 1), x(col[node.ins()[_i2 as int - 1]] as int)); let _k = ulin(u0, row, x);
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| loop 3 invariant
//@|     _n3 == node.ins().len(), _s3_3@ == node.ins(), *self == (Lp { coefficients_to_update: self.coefficients_to_update, ..*old(self) }), once(self.coefficients_to_update@), forall|q: usize| q != row ==> #[trigger] ucols(self.coefficients_to_update@, q) == ucols(old(self).coefficients_to_update@, q),
//@|     forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.ins(), col, c, _i3 as int),
//@|     forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * esum(node.ins(), col, x, _i3 as int)
//@| at loop3.top
//@|     let ghost u0 = self.coefficients_to_update@; proof { broadcast use mcol_is; let _k = col.contains_key(node.ins()[_i3 as int - 1]); }
//@| at loop3.end
//@|     proof { ecol_step(node.ins(), col, _i3 as int - 1);
//@|     assert forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.ins(), col, c, _i3 as int) by { broadcast use mcol_is; let _k = (ucols(u0, row).contains_key(c), ecol(node.ins(), col, c, _i3 as int)); }
//@|     assert forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * esum(node.ins(), col, x, _i3 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.ins(), col, x, _i3 as int - 1), x(col[node.ins()[_i3 as int - 1]] as int)); let _k = ulin(u0, row, x);
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| loop 4 invariant
//@|     _n4 == node.outs().len(), _s4_4@ == node.outs(), *self == (Lp { coefficients_to_update: self.coefficients_to_update, ..*old(self) }), once(self.coefficients_to_update@), forall|q: usize| q != row ==> #[trigger] ucols(self.coefficients_to_update@, q) == ucols(old(self).coefficients_to_update@, q),
//@|     forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.ins(), col, c, node.ins().len() as int) || ecol(node.outs(), col, c, _i4 as int),
//@|     forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * through(node.ins(), col, x) + -factor@ * esum(node.outs(), col, x, _i4 as int)
//@| at loop4.top
//@|     let ghost u0 = self.coefficients_to_update@; proof { broadcast use mcol_is; let _k = col.contains_key(node.outs()[_i4 as int - 1]); }
//@| at loop4.end
//@|     proof { ecol_step(node.outs(), col, _i4 as int - 1);
//@|     assert forall|c: usize| #[trigger] ucols(self.coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || ecol(node.ins(), col, c, node.ins().len() as int) || ecol(node.outs(), col, c, _i4 as int) by { broadcast use mcol_is; let _k = (ucols(u0, row).contains_key(c), ecol(node.outs(), col, c, _i4 as int)); }
//@|     assert forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * through(node.ins(), col, x) + -factor@ * esum(node.outs(), col, x, _i4 as int) by {
//@|         let (f, a, b) = (factor@, esum(node.outs(), col, x, _i4 as int - 1), x(col[node.outs()[_i4 as int - 1]] as int)); let _k = ulin(u0, row, x);
//@|         assert(f * (a + b) == f * a + f * b && -f * (a + b) == -f * a + -f * b) by (nonlinear_arith);
//@|     } }
//@| at fn.end
//@|     proof { if node is Storage { assert forall|x: Flows| #[trigger] ulin(self.coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + factor@ * node.flow(col, x) by {
//@|         let (f, a, b) = (factor@, through(node.ins(), col, x), through(node.outs(), col, x));
//@|         assert(f * (a - b) == f * a + -f * b) by (nonlinear_arith);
//@|     } } }
//@ extract pywr-core/src/solvers/builder.rs impl BuiltSolver<I>::col_for_edge
//@| selfty BuiltSolver
//@| stop edge_index.0 >= self.col_edge_map.edge_to_col@.len()
//@| ensures
//@|     self.col().contains_key(*edge_index) && r == self.col()[*edge_index]
//@| at fn.end
//@|     proof { mcol_is(self.col_edge_map, *edge_index); }
//@ extract pywr-core/src/solvers/builder.rs impl BuiltSolver<I>::update_edge_objectives
//@| selfty BuiltSolver
//@| stop true
//@| requires
//@|     forall|k: int| 0 <= k < network.edges@.len() ==> #[trigger] edge_ok(network, k), cols_below(old(self).col(), old(self).builder.col_obj_coef@.len() as int)
//@| ensures
//@|     *final(self) == (BuiltSolver { builder: Lp { col_obj_coef: final(self).builder.col_obj_coef, ..old(self).builder }, ..*old(self) }), final(self).builder.col_obj_coef@.len() == old(self).builder.col_obj_coef@.len(),
//@|     r is Ok == (forall|k: int| 0 <= k < network.edges@.len() ==> has_cost(network, state, #[trigger] network.edges@[k])),
//@|     r is Ok ==> forall|x: Flows| #[trigger] objsum(final(self).builder.col_obj_coef@, x, old(self).builder.col_obj_coef@.len() as int) == cost_of(network, state, old(self).col(), x, network.edges@.len() as int)
//@| at fn.top
//@|     let ghost n = self.builder.col_obj_coef@.len() as int; let ghost gcol = self.col();
//@| loop 0 invariant
//@|     _n0 == network.edges@.len(), _s0_0@ == network.edges@, *self == (BuiltSolver { builder: Lp { col_obj_coef: self.builder.col_obj_coef, ..old(self).builder }, ..*old(self) }), self.builder.col_obj_coef@.len() == n,
//@|     forall|k: int| 0 <= k < _i0 ==> has_cost(network, state, #[trigger] network.edges@[k]),
//@|     forall|x: Flows| #[trigger] objsum(self.builder.col_obj_coef@, x, n) == cost_of(network, state, gcol, x, _i0 as int)
//@| at loop0.before
//@|     proof { assert forall|x: Flows| #[trigger] objsum(self.builder.col_obj_coef@, x, n) == 0real by { objsum_zero(self.builder.col_obj_coef@, x, n); } }
//@| at loop0.top
//@|     let ghost o0 = self.builder.col_obj_coef@; proof { assert(edge_ok(network, _i0 - 1)); }
//@| at loop0.end
//@|     proof { let e = network.edges@[_i0 - 1]; let c = gcol[e.index] as int; assert(gcol.contains_key(e.index));
//@|     assert forall|x: Flows| #[trigger] objsum(self.builder.col_obj_coef@, x, n) == cost_of(network, state, gcol, x, _i0 as int) by { let _k = objsum(o0, x, n); objsum_add(o0, self.builder.col_obj_coef@, c, edge_cost(network, state, e), x, n); } }
//@ extract pywr-core/src/solvers/builder.rs impl BuiltSolver<I>::update_node_constraint_bounds
//@| selfty BuiltSolver
//@| requires
//@|     old(self).builder.wf(), ids_ok(old(self).node_constraints_row_ids@, network, old(self).builder), own_rows(old(self).node_constraints_row_ids@), old(self).builder.coefficients_to_update@.len() == 0, timestep.dy() > 0real
//@| ensures
//@|     r is Ok == ids_known(old(self).node_constraints_row_ids@, network, state),
//@|     *final(self) == (BuiltSolver { builder: final(self).builder, ..*old(self) }), final(self).builder.more_coefs(old(self).builder),
//@|     r is Ok ==> forall|v: Flows| #[trigger] final(self).builder.bounds_hold(v) <==> old(self).builder.bounds_hold(v) && ids_hold(old(self).node_constraints_row_ids@, network, state, timestep.dy(), old(self).builder.f64_neg_max, old(self).builder.f64_max, v, old(self).node_constraints_row_ids@.len() as int),
//@|     r is Ok ==> once(final(self).builder.coefficients_to_update@) && ids_coefs(final(self).builder.coefficients_to_update@, old(self).node_constraints_row_ids@, network, state, timestep.dy(), old(self).node_constraints_row_ids@.len() as int) && only_bins(final(self).builder.coefficients_to_update@, old(self).node_constraints_row_ids@, old(self).node_constraints_row_ids@.len() as int)
//@| at fn.top
//@|     let ghost ids = self.node_constraints_row_ids@; let ghost d = timestep.dy(); let ghost mn = self.builder.f64_neg_max; let ghost mx = self.builder.f64_max; let ghost lp0 = self.builder;
//@| loop 0 invariant
//@|     _n0 == ids.len(), *self == (BuiltSolver { builder: self.builder, ..*old(self) }), self.builder.more_coefs(lp0), once(self.builder.coefficients_to_update@), ids_coefs(self.builder.coefficients_to_update@, ids, network, state, d, _i0 as int), only_bins(self.builder.coefficients_to_update@, ids, _i0 as int),
//@|     forall|k: int| 0 <= k < _i0 ==> network.node((#[trigger] ids[k]).node_idx).has_step(network, state),
//@|     forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && ids_hold(ids, network, state, d, mn, mx, v, _i0 as int)
//@| at loop0.top
//@|     let ghost b0 = self.builder; let ghost id = ids[_i0 - 1]; proof { assert(network.has_node(id.node_idx) && lp0.settable(id.row_id as int)); ids_hold_step(ids, network, state, d, mn, mx, _i0 - 1); }
//@| at loop0.end
//@|     proof {
//@|     let r = id.row_id as int; let u0 = b0.coefficients_to_update@; let u1 = self.builder.coefficients_to_update@; let node = network.node(id.node_idx);
//@|     assert(self.builder.same_fixed(lp0)) by { assert forall|i: int| 0 <= i < lp0.nrows() && lp0.row_mask@[i] != 1 implies #[trigger] self.builder.row_lower@[i] == lp0.row_lower@[i] && self.builder.row_upper@[i] == lp0.row_upper@[i] by { assert(i != r); let _k = (b0.row_lower@[i], b0.row_upper@[i], self.builder.row_upper@[i]); } }
//@|     if id.binary() { let x = u1.last().2; assert(u1 =~= u0.push((id.row_id, id.bin(), x))); one_more(u0, ids, network, state, d, _i0 - 1, x); tighter(b0, self.builder, r, 0real, mx@); }
//@|     else { assert(u1 == u0); no_more(u0, ids, network, state, d, _i0 - 1); tighter(b0, self.builder, r, node.step_lo(network, state, d), node.step_hi(network, state, d)); }
//@|     assert forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && ids_hold(ids, network, state, d, mn, mx, v, _i0 as int) by { let _k = (b0.bounds_hold(v), ids_hold(ids, network, state, d, mn, mx, v, _i0 as int)); }
//@|     }
//@ extract pywr-core/src/solvers/builder.rs impl BuiltSolver<I>::update_aggregated_node_factor_constraints
//@| selfty BuiltSolver
//@| requires
//@|     old(self).builder.wf(), facs_ok(old(self).agg_node_factor_constraint_row_ids@, network, old(self).builder), facs_nonzero(old(self).agg_node_factor_constraint_row_ids@, network, state), once(old(self).builder.coefficients_to_update@), facs_free(old(self).builder.coefficients_to_update@, old(self).agg_node_factor_constraint_row_ids@)
//@| ensures
//@|     r is Ok == facs_accepted(old(self).agg_node_factor_constraint_row_ids@, network, state, old(self).agg_node_factor_constraint_row_ids@.len() as int),
//@|     *final(self) == (BuiltSolver { builder: final(self).builder, ..*old(self) }), final(self).builder.more_coefs(old(self).builder),
//@|     r is Ok ==> forall|v: Flows| #[trigger] final(self).builder.bounds_hold(v) <==> old(self).builder.bounds_hold(v) && facs_hold(old(self).agg_node_factor_constraint_row_ids@, network, state, old(self).builder.f64_neg_max, old(self).builder.f64_max, v, old(self).agg_node_factor_constraint_row_ids@.len() as int, 0),
//@|     r is Ok ==> once(final(self).builder.coefficients_to_update@) && facs_coefs(final(self).builder.coefficients_to_update@, old(self).agg_node_factor_constraint_row_ids@, network, state, old(self).col(), old(self).agg_node_factor_constraint_row_ids@.len() as int, 0) && others_same(old(self).builder.coefficients_to_update@, final(self).builder.coefficients_to_update@, old(self).agg_node_factor_constraint_row_ids@, old(self).agg_node_factor_constraint_row_ids@.len() as int, 0)
//@| at fn.top
//@|     let ghost ids = self.agg_node_factor_constraint_row_ids@; let ghost col = self.col(); let ghost mn = self.builder.f64_neg_max; let ghost mx = self.builder.f64_max; let ghost lp0 = self.builder; let ghost uu = self.builder.coefficients_to_update@;
//@| loop 0 invariant
//@|     _n0 == ids.len(), *self == (BuiltSolver { builder: self.builder, ..*old(self) }), self.builder.more_coefs(lp0), once(self.builder.coefficients_to_update@), facs_coefs(self.builder.coefficients_to_update@, ids, network, state, col, _i0 as int, 0), others_same(uu, self.builder.coefficients_to_update@, ids, _i0 as int, 0), facs_accepted(ids, network, state, _i0 as int),
//@|     forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && facs_hold(ids, network, state, mn, mx, v, _i0 as int, 0)
//@| at loop0.top
//@|     let ghost f = ids[_i0 - 1]; let ghost agg = network.agg(f.agg_node_idx); proof { assert(frow_ok(f, network, lp0)); assert(agg.factors()->Some_0.nonzero(network, state)); }
//@| loop 1 invariant
//@|     _n1 == node_pairs@.len(), _n1 == f.row_indices@.len(), *self == (BuiltSolver { builder: self.builder, ..*old(self) }), self.builder.more_coefs(lp0), once(self.builder.coefficients_to_update@), facs_coefs(self.builder.coefficients_to_update@, ids, network, state, col, _i0 - 1, _i1 as int), others_same(uu, self.builder.coefficients_to_update@, ids, _i0 - 1, _i1 as int),
//@|     forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && facs_hold(ids, network, state, mn, mx, v, _i0 - 1, _i1 as int)
//@| at loop1.top
//@|     let ghost b1 = self.builder; let ghost u1 = self.builder.coefficients_to_update@; let ghost e = agg.spair(network, state, _i1 - 1); let ghost m = _i1 - 1;
//@|     proof { assert(fps(node_pairs@)[m] == node_pairs@[m].fp()); spair_groups(&agg, network, state, m); assert(known_nodes(network, agg.nodes@[0]@)); assert(known_nodes(network, agg.nodes@[m + 1]@)); fac_hold_step(ids, network, state, mn, mx, _i0 - 1, m); if ids[_i0 - 1].row_indices@[m] is Some { frow_apart(ids, _i0 - 1, m); assert(ucols(uu, ids[_i0 - 1].row_indices@[m]->Some_0) == Map::<usize, R>::empty()); } }
//@| loop 2 invariant
//@|     _n2 == e.a.len(), _s2_0@ == e.a, *self == (BuiltSolver { builder: Lp { coefficients_to_update: self.builder.coefficients_to_update, ..b1 }, ..*old(self) }), once(self.builder.coefficients_to_update@),
//@|     forall|x: Flows| #[trigger] ulin(self.builder.coefficients_to_update@, *row_idx, x) == e.fa * nsum(network, e.a, col, x, _i2 as int),
//@|     forall|q: usize| #[trigger] ucols(self.builder.coefficients_to_update@, *row_idx).contains_key(q) <==> guses(network, e.a, col, q, _i2 as int),
//@|     forall|q: usize| q != *row_idx ==> #[trigger] ucols(self.builder.coefficients_to_update@, q) == ucols(u1, q)
//@| at loop2.before
//@|     proof { broadcast use lin_empty; let f = e.fa; assert(f * 0real == 0real) by (nonlinear_arith); }
//@| at loop2.top
//@|     let ghost u2 = self.builder.coefficients_to_update@; proof { let _k = network.has_node(e.a[_i2 - 1]); }
//@| at loop2.end
//@|     proof {
//@|     assert forall|x: Flows| #[trigger] ulin(self.builder.coefficients_to_update@, *row_idx, x) == e.fa * nsum(network, e.a, col, x, _i2 as int) by {
//@|         let (f, a, b) = (e.fa, nsum(network, e.a, col, x, _i2 - 1), network.node(e.a[_i2 - 1]).flow(col, x)); assert(f * (a + b) == f * a + f * b) by (nonlinear_arith); let _r = ulin(u2, *row_idx, x);
//@|     }
//@|     guses_step(network, e.a, col, _i2 - 1); assert forall|q: usize| #[trigger] ucols(self.builder.coefficients_to_update@, *row_idx).contains_key(q) <==> guses(network, e.a, col, q, _i2 as int) by { let _k = (ucols(u2, *row_idx).contains_key(q), guses(network, e.a, col, q, _i2 as int)); }
//@|     }
//@| loop 3 invariant
//@|     _n3 == e.b.len(), _s3_1@ == e.b, *self == (BuiltSolver { builder: Lp { coefficients_to_update: self.builder.coefficients_to_update, ..b1 }, ..*old(self) }), once(self.builder.coefficients_to_update@),
//@|     forall|x: Flows| #[trigger] ulin(self.builder.coefficients_to_update@, *row_idx, x) == e.fa * gflow(network, e.a, col, x) + e.fb * nsum(network, e.b, col, x, _i3 as int),
//@|     forall|q: usize| #[trigger] ucols(self.builder.coefficients_to_update@, *row_idx).contains_key(q) <==> guses(network, e.a, col, q, e.a.len() as int) || guses(network, e.b, col, q, _i3 as int),
//@|     forall|q: usize| q != *row_idx ==> #[trigger] ucols(self.builder.coefficients_to_update@, q) == ucols(u1, q)
//@| at loop3.before
//@|     proof { let f = e.fb; assert(f * 0real == 0real) by (nonlinear_arith); }
//@| at loop3.top
//@|     let ghost u2 = self.builder.coefficients_to_update@; proof { let _k = network.has_node(e.b[_i3 - 1]); }
//@| at loop3.end
//@|     proof {
//@|     assert forall|x: Flows| #[trigger] ulin(self.builder.coefficients_to_update@, *row_idx, x) == e.fa * gflow(network, e.a, col, x) + e.fb * nsum(network, e.b, col, x, _i3 as int) by {
//@|         let (f, a, b) = (e.fb, nsum(network, e.b, col, x, _i3 - 1), network.node(e.b[_i3 - 1]).flow(col, x)); assert(f * (a + b) == f * a + f * b) by (nonlinear_arith); let _r = ulin(u2, *row_idx, x);
//@|     }
//@|     guses_step(network, e.b, col, _i3 - 1); assert forall|q: usize| #[trigger] ucols(self.builder.coefficients_to_update@, *row_idx).contains_key(q) <==> guses(network, e.a, col, q, e.a.len() as int) || guses(network, e.b, col, q, _i3 as int) by { let _k = (ucols(u2, *row_idx).contains_key(q), guses(network, e.b, col, q, _i3 as int)); }
//@|     }
//@| at loop1.end
//@|     proof {
//@|     assert(self.builder.more_coefs(b1)); assert(self.builder.more_coefs(lp0));
//@|     fac_step(uu, u1, self.builder.coefficients_to_update@, ids, network, state, col, _i0 - 1, m);
//@|     if ids[_i0 - 1].row_indices@[m] is Some { tighter(b1, self.builder, ids[_i0 - 1].row_indices@[m]->Some_0 as int, e.rhs, e.rhs); }
//@|     assert forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && facs_hold(ids, network, state, mn, mx, v, _i0 - 1, _i1 as int) by { let _k = (b1.bounds_hold(v), facs_hold(ids, network, state, mn, mx, v, _i0 - 1, m + 1)); }
//@|     }
//@| at loop0.end
//@|     proof { fac_next(uu, self.builder.coefficients_to_update@, ids, network, state, col, _i0 - 1); fac_hold_next(ids, network, state, mn, mx, _i0 - 1);
//@|     assert forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && facs_hold(ids, network, state, mn, mx, v, _i0 as int, 0) by { let _k = facs_hold(ids, network, state, mn, mx, v, _i0 as int, 0); } }
//@ extract pywr-core/src/solvers/builder.rs impl BuiltSolver<I>::update_aggregated_node_constraint_bounds
//@| selfty BuiltSolver
//@| iterof
//@|     aggregated_nodes AggregatedNode
//@| requires
//@|     old(self).builder.wf(), rows_settable(old(self).agg_node_constraint_row_ids@, old(self).builder), old(self).agg_node_constraint_row_ids@.len() == network.aggregated_nodes@.len()
//@| ensures
//@|     r is Ok == aggs_have(network, state),
//@|     *final(self) == (BuiltSolver { builder: final(self).builder, ..*old(self) }), final(self).builder.more_bounds(old(self).builder),
//@|     r is Ok ==> forall|v: Flows| #[trigger] final(self).builder.bounds_hold(v) <==> old(self).builder.bounds_hold(v) && aggs_hold(old(self).agg_node_constraint_row_ids@, network, state, old(self).builder.f64_neg_max, old(self).builder.f64_max, v, old(self).agg_node_constraint_row_ids@.len() as int)
//@| at fn.top
//@|     let ghost ids = self.agg_node_constraint_row_ids@; let ghost mn = self.builder.f64_neg_max; let ghost mx = self.builder.f64_max; let ghost lp0 = self.builder;
//@| loop 0 invariant
//@|     _n0 == ids.len(), *self == (BuiltSolver { builder: self.builder, ..*old(self) }), self.builder.more_bounds(lp0), forall|k: int| 0 <= k < _i0 ==> (#[trigger] network.aggregated_nodes@[k]).flow_constraints.has_min(network, state) && network.aggregated_nodes@[k].flow_constraints.has_max(network, state),
//@|     forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && aggs_hold(ids, network, state, mn, mx, v, _i0 as int)
//@| at loop0.top
//@|     let ghost b0 = self.builder; proof { assert(lp0.settable(ids[_i0 - 1] as int)); aggs_hold_step(ids, network, state, mn, mx, _i0 - 1); }
//@| at loop0.end
//@|     proof { let a = &network.aggregated_nodes@[_i0 - 1]; let r = ids[_i0 - 1] as int; tighter(b0, self.builder, r, a.flow_constraints.min(network, state), a.flow_constraints.max(network, state));
//@|     assert forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && aggs_hold(ids, network, state, mn, mx, v, _i0 as int) by { let _k = (b0.bounds_hold(v), aggs_hold(ids, network, state, mn, mx, v, _i0 as int)); } }
//@ extract pywr-core/src/solvers/builder.rs impl BuiltSolver<I>::update_virtual_storage_node_constraint_bounds
//@| selfty BuiltSolver
//@| iterof
//@|     virtual_storage_nodes VirtualStorageNode
//@| requires
//@|     old(self).builder.wf(), rows_settable(old(self).virtual_storage_constraint_row_ids@, old(self).builder), old(self).virtual_storage_constraint_row_ids@.len() == network.virtual_storage_nodes@.len(), timestep.dy() > 0real
//@| ensures
//@|     r is Ok == vss_have(network, timestep, state),
//@|     *final(self) == (BuiltSolver { builder: final(self).builder, ..*old(self) }), final(self).builder.more_bounds(old(self).builder),
//@|     r is Ok ==> forall|v: Flows| #[trigger] final(self).builder.bounds_hold(v) <==> old(self).builder.bounds_hold(v) && vss_hold(old(self).virtual_storage_constraint_row_ids@, network, timestep, state, old(self).builder.f64_neg_max, old(self).builder.f64_max, v, old(self).virtual_storage_constraint_row_ids@.len() as int)
//@| at fn.top
//@|     let ghost ids = self.virtual_storage_constraint_row_ids@; let ghost mn = self.builder.f64_neg_max; let ghost mx = self.builder.f64_max; let ghost lp0 = self.builder;
//@| loop 0 invariant
//@|     _n0 == ids.len(), *self == (BuiltSolver { builder: self.builder, ..*old(self) }), self.builder.more_bounds(lp0), forall|k: int| 0 <= k < _i0 && (#[trigger] network.virtual_storage_nodes@[k]).active(timestep) ==> network.virtual_storage_nodes@[k].has_room(state),
//@|     forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && vss_hold(ids, network, timestep, state, mn, mx, v, _i0 as int)
//@| at loop0.top
//@|     let ghost b0 = self.builder; proof { assert(lp0.settable(ids[_i0 - 1] as int)); vss_hold_step(ids, network, timestep, state, mn, mx, _i0 - 1); }
//@| at loop0.end
//@|     proof { let a = &network.virtual_storage_nodes@[_i0 - 1]; let r = ids[_i0 - 1] as int; if a.active(timestep) { tighter(b0, self.builder, r, -a.avail(state) / timestep.dy(), a.missing(state) / timestep.dy()); } else { tighter(b0, self.builder, r, mn@, mx@); }
//@|     assert forall|v: Flows| #[trigger] self.builder.bounds_hold(v) <==> lp0.bounds_hold(v) && vss_hold(ids, network, timestep, state, mn, mx, v, _i0 as int) by { let _k = (b0.bounds_hold(v), vss_hold(ids, network, timestep, state, mn, mx, v, _i0 as int)); } }
//@ extract pywr-core/src/solvers/builder.rs impl BuiltSolver<I>::apply_updated_coefficients
//@| selfty BuiltSolver
//@| requires
//@|     old(self).builder.wf(), placed(old(self).builder.coefficients_to_update@, old(self).builder.sp())
//@| ensures
//@|     *final(self) == (BuiltSolver { builder: Lp { elements: final(self).builder.elements, coefficients_to_update: final(self).builder.coefficients_to_update, ..old(self).builder }, ..*old(self) }), final(self).builder.wf(), final(self).builder.coefficients_to_update@.len() == 0,
//@|     changed(old(self).builder.sp(), final(self).builder.sp(), old(self).builder.coefficients_to_update@)
//@| at fn.top
//@|     let ghost u = self.builder.coefficients_to_update@; let ghost a = self.builder.sp();
//@| loop 0 invariant
//@|     _n0 == u.len(), _s0_0@ == u, placed(u, a), a.wf(), a == old(self).builder.sp(), *self == (BuiltSolver { builder: Lp { elements: self.builder.elements, coefficients_to_update: self.builder.coefficients_to_update, ..old(self).builder }, ..*old(self) }), self.builder.coefficients_to_update@.len() == 0, self.builder.elements@.len() == a.es.len(),
//@|     changed(a, self.builder.sp(), u.take(_i0 as int))
//@| at loop0.before
//@|     proof { changed_none(a); assert(u.take(0) =~= Seq::<(usize, usize, R)>::empty()); }
//@| at loop0.top
//@|     let ghost b0 = self.builder.sp(); proof { assert(self.builder.row_starts.len() == self.builder.row_starts@.len()); assert(a.wf()); } let ghost mut kk: int = 0; proof { assert(in_row(a, u[_i0 - 1].0 as int, u[_i0 - 1].1)); let r = u[_i0 - 1].0 as int; assert(a.st[r] <= a.st[r + 1] && a.st[r + 1] <= a.st[a.n()]); }
//@| loop 1 invariant
//@|     _n1 == a.st[row + 1] - a.st[row as int], start == a.st[row as int], end == a.st[row + 1],
//@|     _acc1 is Some ==> _acc1->Some_0 < _n1 && a.cs[start + _acc1->Some_0] == col,
//@|     _acc1 is None ==> forall|k: int| start <= k < start + _i1 ==> #[trigger] a.cs[k] != col
//@| at loop1.after
//@|     proof { if _acc1 is Some { kk = start + _acc1->Some_0; } else { let k = choose|k: int| a.st[row as int] <= k < a.st[row + 1] && #[trigger] a.cs[k] == col; assert(start <= k < start + _n1); } }
//@| at loop0.end
//@|     proof { assert(self.builder.elements@ =~= b0.es.update(kk, value)); changed_step(a, b0, u, _i0 - 1, kk); assert(self.builder.sp() == (SP { es: b0.es.update(kk, u[_i0 - 1].2), ..b0 })); }
//@| at fn.end
//@|     proof { assert(u.take(u.len() as int) =~= u); }
//@ extract pywr-core/src/solvers/builder.rs impl BuiltSolver<I>::update
//@| selfty BuiltSolver
//@| stop true
//@| requires
//@|     step_ok(*old(self), network, state), timestep.dy() > 0real
//@| ensures
//@|     r is Ok == can_step(*old(self), network, timestep, state),
//@|     *final(self) == (BuiltSolver { builder: final(self).builder, ..*old(self) }), final(self).builder.wf(), final(self).builder.same_fixed(old(self).builder),
//@|     final(self).builder == (Lp { row_lower: final(self).builder.row_lower, row_upper: final(self).builder.row_upper, col_obj_coef: final(self).builder.col_obj_coef, coefficients_to_update: final(self).builder.coefficients_to_update, ..old(self).builder }), final(self).builder.col_obj_coef@.len() == old(self).builder.col_obj_coef@.len(),
//@|     r is Ok ==> stepped(*final(self), network, timestep, state)
