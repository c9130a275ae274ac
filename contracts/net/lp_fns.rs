// The sparse linear programme and its builder. Proved in unit `lp`.
//@ extract pywr-core/src/solvers/builder.rs impl RowBuilder<I>::set_upper
//@| selfty RowBuilder
//@| ensures
//@|     *final(self) == (RowBuilder { upper: Some(upper), ..*old(self) }), forall|x: Flows| #[trigger] final(self).at(x) == old(self).at(x)
//@ extract pywr-core/src/solvers/builder.rs impl RowBuilder<I>::set_lower
//@| selfty RowBuilder
//@| ensures
//@|     *final(self) == (RowBuilder { lower: lower, ..*old(self) }), forall|x: Flows| #[trigger] final(self).at(x) == old(self).at(x)
//@ extract pywr-core/src/solvers/builder.rs impl Default for RowBuilder<I>::default
//@| selfty RowBuilder
//@| ensures
//@|     r.empty_row(), forall|x: Flows| #[trigger] r.at(x) == 0real
//@| at fn.end
//@|     proof { broadcast use lin_empty; }
//@ extract pywr-core/src/solvers/builder.rs impl RowBuilder<I>::add_element
//@| selfty RowBuilder
//@| stop !finiteq(value)
//@| ensures
//@|     final(self).lower == old(self).lower && final(self).upper == old(self).upper,
//@|     forall|x: Flows| #[trigger] final(self).at(x) == old(self).at(x) + value@ * x(column as int),
//@|     final(self).columns@.dom() == old(self).columns@.dom().insert(column)
//@| at fn.end
//@|     proof {
//@|     assert forall|x: Flows| #[trigger] self.at(x) == old(self).at(x) + value@ * x(column as int) by {
//@|         let v = self.columns@[column];
//@|         lin_insert(old(self).columns@, column, v, x);
//@|         assert(self.columns@ =~= old(self).columns@.insert(column, v));
//@|     }
//@|     assert(self.columns@.dom() =~= old(self).columns@.dom().insert(column));
//@|     }
//@ extract pywr-core/src/solvers/builder.rs impl LpBuilder<I>::new
//@| selfty LpBuilder
//@| ensures
//@|     r.f64_max == f64_max && r.f64_neg_max == f64_neg_max, r.wf(),
//@|     r.col_lower@.len() == 0 && r.rows@.len() == 0 && r.fixed_rows@.len() == 0
//@ extract pywr-core/src/solvers/builder.rs impl LpBuilder<I>::num_variable_rows
//@| selfty LpBuilder
//@| ensures
//@|     r == self.rows@.len()
//@ extract pywr-core/src/solvers/builder.rs impl LpBuilder<I>::add_column
//@| selfty LpBuilder
//@| requires
//@|     old(self).wf()
//@| ensures
//@|     r == old(self).col_lower@.len(), final(self).wf(),
//@|     final(self).rows == old(self).rows && final(self).fixed_rows == old(self).fixed_rows && final(self).f64_max == old(self).f64_max && final(self).f64_neg_max == old(self).f64_neg_max,
//@|     final(self).col_obj_coef@ == old(self).col_obj_coef@.push(obj_coef) && final(self).col_type@ == old(self).col_type@.push(col_type),
//@|     final(self).col_lower@ == old(self).col_lower@.push(match bounds { Bounds::Double(a, b) => a, Bounds::Lower(a) => a }),
//@|     final(self).col_upper@ == old(self).col_upper@.push(match bounds { Bounds::Double(a, b) => b, Bounds::Lower(a) => old(self).f64_max })
//@ extract pywr-core/src/solvers/builder.rs impl LpBuilder<I>::add_fixed_row
//@| selfty LpBuilder
//@| ensures
//@|     final(self).same_columns(*old(self)), final(self).rows == old(self).rows, final(self).fixed_rows@ == old(self).fixed_rows@.push(row)
//@ extract pywr-core/src/solvers/builder.rs impl LpBuilder<I>::add_variable_row
//@| selfty LpBuilder
//@| ensures
//@|     final(self).same_columns(*old(self)), final(self).fixed_rows == old(self).fixed_rows,
//@|     final(self).rows@ == old(self).rows@ || final(self).rows@ == old(self).rows@.push(row),
//@|     r < final(self).rows@.len(), row_eq(final(self).rows@[r as int], row), forall|x: Flows| #[trigger] final(self).rows@[r as int].at(x) == row.at(x)
//@| at fn.end
//@|     proof { row_eq_same(self.rows@[_ret as int], row); }
//@| loop 0 invariant
//@|     _acc0 is Some ==> _acc0->Some_0 < self.rows@.len() && row_eq(self.rows@[_acc0->Some_0 as int], row),
//@|     _n0 == self.rows@.len()
//@ extract pywr-core/src/solvers/builder.rs impl LpBuilder<I>::add_updatable_row
//@| selfty LpBuilder
//@| ensures
//@|     final(self).same_columns(*old(self)), final(self).fixed_rows == old(self).fixed_rows,
//@|     final(self).rows@ == old(self).rows@.push(row), r == old(self).rows@.len()
//@ extract pywr-core/src/solvers/builder.rs impl LpBuilder<I>::build
//@| selfty LpBuilder
//@| byval !rows
//@| mapiter columns
//@| requires
//@|     self.wf()
//@| ensures
//@|     r.wf(), r.nrows() == self.rows@.len() + self.fixed_rows@.len(),
//@|     r.f64_max == self.f64_max && r.f64_neg_max == self.f64_neg_max, r.col_lower == self.col_lower && r.col_upper == self.col_upper && r.col_obj_coef == self.col_obj_coef && r.col_type == self.col_type,
//@|     r.coefficients_to_update@.len() == 0,
//@|     r.sp().rows_are(self.rows@ + self.fixed_rows@, self.f64_max, self.rows@.len() as int)
//@| at fn.top
//@|     lp_fits(&self);
//@|     let ghost all = self.rows@ + self.fixed_rows@;
//@| loop 0 invariant
//@|     _n0 == rows@.len(), mask == 1, rows@ == self.rows@, all == self.rows@ + self.fixed_rows@, nnz(all) < usize::MAX,
//@|     (SP { lo: row_lower@, hi: row_upper@, mask: row_mask@, st: row_starts@, cs: columns@, es: elements@ }).rows_are(all.take(0 + _i0), self.f64_max, self.rows@.len() as int),
//@|     columns@.len() == nnz(all.take(0 + _i0))
//@| at loop0.top
//@|     proof { nnz_step(all, 0 + _i0 - 1); assert(all[0 + _i0 - 1] == *row); }
//@|     let ghost s0 = SP { lo: row_lower@, hi: row_upper@, mask: row_mask@, st: row_starts@, cs: columns@, es: elements@ };
//@| loop 1 invariant
//@|     columns@ == s0.cs + _s1_0@.take(_i1 as int).map_values(|p: (usize, R)| p.0), elements@ == s0.es + _s1_0@.take(_i1 as int).map_values(|p: (usize, R)| p.1), _n1 == _s1_0@.len()
//@| at loop1.before
//@|     proof { assert(columns@ =~= s0.cs + _s1_0@.take(0).map_values(|p: (usize, R)| p.0)); assert(elements@ =~= s0.es + _s1_0@.take(0).map_values(|p: (usize, R)| p.1)); }
//@| at loop1.end
//@|     proof {
//@|         assert(columns@ =~= s0.cs + _s1_0@.take(_i1 as int).map_values(|p: (usize, R)| p.0));
//@|         assert(elements@ =~= s0.es + _s1_0@.take(_i1 as int).map_values(|p: (usize, R)| p.1));
//@|     }
//@| at loop1.after
//@|     proof {
//@|         let ps = _s1_0@;
//@|         assert(ps.take(_i1 as int) =~= ps);
//@|         let hi = row_upper@.last();
//@|         parts_push(s0, all.take(0 + _i0 - 1), *row, self.f64_max, self.rows@.len() as int, hi, mask, ps);
//@|         let t = s0.plus(*row, hi, mask, ps);
//@|         assert(t.st =~= row_starts@); assert(t.hi =~= row_upper@); assert(t.lo =~= row_lower@); assert(t.mask =~= row_mask@);
//@|     }
//@| loop 2 invariant
//@|     _n2 == rows@.len(), mask == 0, rows@ == self.fixed_rows@, all == self.rows@ + self.fixed_rows@, nnz(all) < usize::MAX,
//@|     (SP { lo: row_lower@, hi: row_upper@, mask: row_mask@, st: row_starts@, cs: columns@, es: elements@ }).rows_are(all.take(self.rows@.len() + _i2), self.f64_max, self.rows@.len() as int),
//@|     columns@.len() == nnz(all.take(self.rows@.len() + _i2))
//@| at loop2.top
//@|     proof { nnz_step(all, self.rows@.len() + _i2 - 1); assert(all[self.rows@.len() + _i2 - 1] == *row); }
//@|     let ghost s0 = SP { lo: row_lower@, hi: row_upper@, mask: row_mask@, st: row_starts@, cs: columns@, es: elements@ };
//@| loop 3 invariant
//@|     columns@ == s0.cs + _s3_1@.take(_i3 as int).map_values(|p: (usize, R)| p.0), elements@ == s0.es + _s3_1@.take(_i3 as int).map_values(|p: (usize, R)| p.1), _n3 == _s3_1@.len()
//@| at loop3.before
//@|     proof { assert(columns@ =~= s0.cs + _s3_1@.take(0).map_values(|p: (usize, R)| p.0)); assert(elements@ =~= s0.es + _s3_1@.take(0).map_values(|p: (usize, R)| p.1)); }
//@| at loop3.end
//@|     proof {
//@|         assert(columns@ =~= s0.cs + _s3_1@.take(_i3 as int).map_values(|p: (usize, R)| p.0));
//@|         assert(elements@ =~= s0.es + _s3_1@.take(_i3 as int).map_values(|p: (usize, R)| p.1));
//@|     }
//@| at loop3.after
//@|     proof {
//@|         let ps = _s3_1@;
//@|         assert(ps.take(_i3 as int) =~= ps);
//@|         let hi = row_upper@.last();
//@|         parts_push(s0, all.take(self.rows@.len() + _i2 - 1), *row, self.f64_max, self.rows@.len() as int, hi, mask, ps);
//@|         let t = s0.plus(*row, hi, mask, ps);
//@|         assert(t.st =~= row_starts@); assert(t.hi =~= row_upper@); assert(t.lo =~= row_lower@); assert(t.mask =~= row_mask@);
//@|     }
//@| at fn.end
//@|     proof { assert(all.take(all.len() as int) =~= all); }
//@ extract pywr-core/src/solvers/builder.rs impl Lp<I>::zero_obj_coefficients
//@| selfty Lp
//@| ensures
//@|     *final(self) == (Lp { col_obj_coef: final(self).col_obj_coef, ..*old(self) }),
//@|     final(self).col_obj_coef@.len() == old(self).col_obj_coef@.len(), forall|i: int| 0 <= i < final(self).col_obj_coef@.len() ==> (#[trigger] final(self).col_obj_coef@[i])@ == 0real
//@ extract pywr-core/src/solvers/builder.rs impl Lp<I>::add_obj_coefficient
//@| selfty Lp
//@| requires
//@|     col < old(self).col_obj_coef@.len()
//@| ensures
//@|     *final(self) == (Lp { col_obj_coef: final(self).col_obj_coef, ..*old(self) }),
//@|     final(self).col_obj_coef@.len() == old(self).col_obj_coef@.len(),
//@|     final(self).col_obj_coef@[col as int]@ == old(self).col_obj_coef@[col as int]@ + obj_coef@,
//@|     forall|i: int| 0 <= i < final(self).col_obj_coef@.len() && i != col ==> #[trigger] final(self).col_obj_coef@[i] == old(self).col_obj_coef@[i]
//@ extract pywr-core/src/solvers/builder.rs impl Lp<I>::reset_row_bounds
//@| selfty Lp
//@| requires
//@|     old(self).wf()
//@| ensures
//@|     *final(self) == (Lp { row_lower: final(self).row_lower, row_upper: final(self).row_upper, ..*old(self) }), final(self).wf(),
//@|     forall|i: int| 0 <= i < old(self).nrows() ==> #[trigger] final(self).row_lower@[i] == (if old(self).row_mask@[i] == 1 { old(self).f64_neg_max } else { old(self).row_lower@[i] }),
//@|     forall|i: int| 0 <= i < old(self).nrows() ==> #[trigger] final(self).row_upper@[i] == (if old(self).row_mask@[i] == 1 { old(self).f64_max } else { old(self).row_upper@[i] })
//@| loop 0 invariant
//@|     old(self).wf(), *self == (Lp { row_lower: self.row_lower, row_upper: self.row_upper, ..*old(self) }), self.wf(), _n0 == old(self).nrows(),
//@|     forall|i: int| 0 <= i < _n0 ==> #[trigger] self.row_lower@[i] == (if i < _i0 && old(self).row_mask@[i] == 1 { old(self).f64_neg_max } else { old(self).row_lower@[i] }),
//@|     forall|i: int| 0 <= i < _n0 ==> #[trigger] self.row_upper@[i] == (if i < _i0 && old(self).row_mask@[i] == 1 { old(self).f64_max } else { old(self).row_upper@[i] })
//@ extract pywr-core/src/solvers/builder.rs impl Lp<I>::reset_coefficients_to_update
//@| selfty Lp
//@| ensures
//@|     *final(self) == (Lp { coefficients_to_update: final(self).coefficients_to_update, ..*old(self) }), final(self).coefficients_to_update@ == Seq::<(usize, usize, R)>::empty()
//@ extract pywr-core/src/solvers/builder.rs impl Lp<I>::apply_row_bounds
//@| selfty Lp
//@| requires
//@|     old(self).wf(), row < old(self).nrows()
//@| ensures
//@|     *final(self) == (Lp { row_lower: final(self).row_lower, row_upper: final(self).row_upper, ..*old(self) }), final(self).wf(),
//@|     final(self).row_lower@[row as int]@ == rmax(old(self).row_lower@[row as int]@, lb@), final(self).row_upper@[row as int]@ == rmin(old(self).row_upper@[row as int]@, ub@),
//@|     forall|i: int| 0 <= i < old(self).nrows() && i != row ==> #[trigger] final(self).row_lower@[i] == old(self).row_lower@[i],
//@|     forall|i: int| 0 <= i < old(self).nrows() && i != row ==> #[trigger] final(self).row_upper@[i] == old(self).row_upper@[i]
//@ extract pywr-core/src/solvers/builder.rs impl Lp<I>::add_coefficient_to_update
//@| selfty Lp
//@| requires
//@|     once(old(self).coefficients_to_update@)
//@| ensures
//@|     *final(self) == (Lp { coefficients_to_update: final(self).coefficients_to_update, ..*old(self) }), once(final(self).coefficients_to_update@),
//@|     forall|x: Flows| #[trigger] ulin(final(self).coefficients_to_update@, row, x) == ulin(old(self).coefficients_to_update@, row, x) + value@ * x(col as int),
//@|     forall|c: usize| #[trigger] ucols(final(self).coefficients_to_update@, row).contains_key(c) <==> ucols(old(self).coefficients_to_update@, row).contains_key(c) || c == col,
//@|     forall|q: usize| q != row ==> #[trigger] ucols(final(self).coefficients_to_update@, q) == ucols(old(self).coefficients_to_update@, q)
//@| loop 0 invariant
//@|     _n0 == self.coefficients_to_update@.len(), *self == *old(self),
//@|     _acc0 is Some ==> _acc0->Some_0 < _n0 && self.coefficients_to_update@[_acc0->Some_0 as int].0 == row && self.coefficients_to_update@[_acc0->Some_0 as int].1 == col,
//@|     _acc0 is None ==> forall|k: int| 0 <= k < _i0 ==> !((#[trigger] self.coefficients_to_update@[k]).0 == row && self.coefficients_to_update@[k].1 == col)
//@| at fn.end
//@|     proof {
//@|     let (s, t) = (old(self).coefficients_to_update@, self.coefficients_to_update@);
//@|     if s.len() == t.len() {
//@|         let i = choose|i: int| 0 <= i < s.len() && s[i].0 == row && s[i].1 == col && t[i].2@ == s[i].2@ + value@ && t =~= s.update(i, (s[i].0, s[i].1, t[i].2)) && (#[trigger] s[i]).0 == row;
//@|         assert forall|q: usize| q != row implies #[trigger] ucols(t, q) == ucols(s, q) by { ucols_update(s, i, t[i].2, q); }
//@|         ucols_update(s, i, t[i].2, row);
//@|         assert forall|x: Flows| #[trigger] ulin(t, row, x) == ulin(s, row, x) + value@ * x(col as int) by { lin_insert(ucols(s, row), col, t[i].2, x); }
//@|     } else {
//@|         assert(t.drop_last() =~= s);
//@|         ucols_key(s, row, col);
//@|         assert forall|x: Flows| #[trigger] ulin(t, row, x) == ulin(s, row, x) + value@ * x(col as int) by { lin_insert(ucols(s, row), col, t.last().2, x); }
//@|     }
//@|     }
//@ extract pywr-core/src/solvers/col_edge_map.rs impl ColumnEdgeMap<I>::col_for_edge
//@| selfty ColumnEdgeMap
//@| stop edge_index.0 >= self.edge_to_col@.len()
//@| ensures
//@|     edge_index.0 < self.edge_to_col@.len() && r == self.edge_to_col@[edge_index.0 as int]
//@ extract pywr-core/src/solvers/col_edge_map.rs impl Default for ColumnEdgeMapBuilder<I>::default
//@| selfty ColumnEdgeMapBuilder
//@| ensures
//@|     r.edge_to_col@ == Map::<EdgeIndex, usize>::empty() && r.col_to_edges@.len() == 0
//@ extract pywr-core/src/solvers/col_edge_map.rs impl ColumnEdgeMapBuilder<I>::build
//@| selfty ColumnEdgeMapBuilder
//@| stop true
//@| requires
//@|     self.edge_to_col@.dom().len() > 0
//@| at fn.top
//@|     let ghost m = self.edge_to_col@;
//@|     proof {
//@|         if exists|s: Seq<EdgeIndex>| #[trigger] sorted_keys(m, s) && s.last().0 == s.len() - 1 {
//@|             let s = choose|s: Seq<EdgeIndex>| #[trigger] sorted_keys(m, s) && s.last().0 == s.len() - 1;
//@|             dense(m, s);
//@|             assert forall|t: Seq<EdgeIndex>| #[trigger] sorted_keys(m, t) implies forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]).0 == i by { dense_again(m, t); }
//@|         }
//@|     }
//@| loop 0 invariant
//@|     _n0 == _s0_0@.len(), _acc0@.len() == _i0, forall|k: int| 0 <= k < _i0 ==> #[trigger] _acc0@[k] == _s0_0@[k]
//@| ensures
//@|     forall|e: EdgeIndex| #[trigger] self.edge_to_col@.contains_key(e) <==> e.0 < r.edge_to_col@.len(), forall|e: EdgeIndex| #[trigger] self.edge_to_col@.contains_key(e) ==> r.edge_to_col@[e.0 as int] == self.edge_to_col@[e]
//@ extract pywr-core/src/solvers/col_edge_map.rs impl ColumnEdgeMapBuilder<I>::ncols
//@| selfty ColumnEdgeMapBuilder
//@| ensures
//@|     r == self.col_to_edges@.len()
//@ extract pywr-core/src/solvers/col_edge_map.rs impl ColumnEdgeMapBuilder<I>::col_for_edge
//@| selfty ColumnEdgeMapBuilder
//@| stop !self.edge_to_col@.contains_key(*edge_index)
//@| ensures
//@|     self.edge_to_col@.contains_key(*edge_index) && r == self.edge_to_col@[*edge_index]
//@ extract pywr-core/src/solvers/col_edge_map.rs impl ColumnEdgeMapBuilder<I>::add_simple_edge
//@| selfty ColumnEdgeMapBuilder
//@| ensures
//@|     old(self).edge_to_col@.contains_key(idx) ==> *final(self) == *old(self),
//@|     !old(self).edge_to_col@.contains_key(idx) ==> final(self).edge_to_col@ == old(self).edge_to_col@.insert(idx, old(self).col_to_edges@.len() as usize) && final(self).col_to_edges@.len() == old(self).col_to_edges@.len() + 1
//@ extract pywr-core/src/solvers/col_edge_map.rs impl ColumnEdgeMapBuilder<I>::add_equal_edges
//@| selfty ColumnEdgeMapBuilder
//@| requires
//@|     forall|e: EdgeIndex| #[trigger] old(self).edge_to_col@.contains_key(e) ==> old(self).edge_to_col@[e] < old(self).col_to_edges@.len()
//@| ensures
//@|     final(self).edge_to_col@ == equal_edges(old(self).edge_to_col@, old(self).col_to_edges@.len(), idx1, idx2),
//@|     final(self).col_to_edges@.len() == old(self).col_to_edges@.len() + (if !old(self).edge_to_col@.contains_key(idx1) && !old(self).edge_to_col@.contains_key(idx2) { 1int } else { 0 })
