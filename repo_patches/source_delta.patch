From 223c409d237a2d2c09879a321601cdb5cc698979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 01/13] fix: set up the internal state of OffsetParameter so
 that models using it can run

---
 pywr-core/src/parameters/offset.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/parameters/offset.rs b/pywr-core/src/parameters/offset.rs
index f85d673..d84fbde 100644
--- a/pywr-core/src/parameters/offset.rs
+++ b/pywr-core/src/parameters/offset.rs
@@ -1,6 +1,6 @@
 use crate::metric::{MetricConsumerPhase, MetricF64, UnresolvedMetricF64};
 use crate::network::ResolutionMaps;
-use crate::parameters::errors::GeneralCalculationError;
+use crate::parameters::errors::{GeneralCalculationError, ParameterSetupError};
 use crate::parameters::{
     ActivationFunction, BuiltParameter, GeneralBeforeParameter, GeneralParameter, GeneralParameterContext,
     GeneralParameterEntry, MaybeBuiltParameter, Parameter, ParameterBuildError, ParameterBuilder, ParameterMeta,
@@ -8,6 +8,8 @@ use crate::parameters::{
     downcast_internal_state_mut, downcast_internal_state_ref, downcast_variable_config_ref,
 };
 use crate::resolve_metric_f64;
+use crate::scenario::ScenarioIndex;
+use crate::timestep::Timestep;
 
 #[derive(Debug)]
 pub struct OffsetParameter {
@@ -36,6 +38,15 @@ impl Parameter for OffsetParameter {
         &self.meta
     }
 
+    fn setup(
+        &self,
+        _timesteps: &[Timestep],
+        _scenario_index: &ScenarioIndex,
+    ) -> Result<Option<Box<dyn ParameterState>>, ParameterSetupError> {
+        let value: InternalValue = None;
+        Ok(Some(Box::new(value)))
+    }
+
     fn as_f64_variable(&self) -> Option<&dyn VariableParameter<f64>> {
         Some(self)
     }
-- 
2.43.0


From d846711a032ea5c7ecc2a54d888253bd2b02f7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 02/13] fix: thin plate spline RBF is zero at zero distance
 instead of NaN

---
 pywr-core/src/parameters/profiles/rbf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pywr-core/src/parameters/profiles/rbf.rs b/pywr-core/src/parameters/profiles/rbf.rs
index 6d76a6f..a49fcf6 100644
--- a/pywr-core/src/parameters/profiles/rbf.rs
+++ b/pywr-core/src/parameters/profiles/rbf.rs
@@ -305,6 +305,8 @@ impl RadialBasisFunction {
             RadialBasisFunction::Linear => r,
             RadialBasisFunction::Cubic => r.powi(3),
             RadialBasisFunction::Quintic => r.powi(5),
+            // The limit at zero is zero; evaluating `0.0 * ln(0.0)` directly would give NaN.
+            RadialBasisFunction::ThinPlateSpline if r == 0.0 => 0.0,
             RadialBasisFunction::ThinPlateSpline => r.powi(2) * r.ln(),
             RadialBasisFunction::Gaussian { epsilon } => (-(epsilon * r).powi(2)).exp(),
             RadialBasisFunction::MultiQuadric { epsilon } => (1.0 + (epsilon * r).powi(2)).sqrt(),
-- 
2.43.0


From 896e352b2e587bda9dca3be458ebf9f99acedadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 03/13] fix: monthly profile interpolating to the last day
 overshot on that day

With sub-daily timesteps the interpolation factor for MonthlyInterpDay::Last
exceeded one during the last day of a month, extrapolating past the month's
value. The value now moves towards that of the next month from then on.
---
 pywr-core/src/parameters/profiles/monthly.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pywr-core/src/parameters/profiles/monthly.rs b/pywr-core/src/parameters/profiles/monthly.rs
index 594c552..033daf7 100644
--- a/pywr-core/src/parameters/profiles/monthly.rs
+++ b/pywr-core/src/parameters/profiles/monthly.rs
@@ -75,6 +75,17 @@ impl SimpleParameter<f64> for MonthlyProfileParameter {
                     interpolate_first(&ctx.timestep.date, first_value, last_value)
                 }
                 MonthlyInterpDay::Last => {
+                    let date = &ctx.timestep.date;
+                    if *date > date.last_of_month().start_of_day() {
+                        // During the last day of a month the value already moves towards that of the next month, which
+                        // is the interpolation between first days one day later.
+                        let first_value = self.values[(date.month() - 1) as usize];
+                        let last_value = self.values[(date.month() % 12) as usize];
+                        let tomorrow = date.checked_add(1.days()).expect("Datetime overflowed!");
+
+                        return Ok(interpolate_first(&tomorrow, first_value, last_value));
+                    }
+
                     let current_month = ctx.timestep.date.month();
                     let last_month = if current_month == 1 { 12 } else { current_month - 1 };
                     let first_value = self.values[last_month as usize - 1];
-- 
2.43.0


From c6c2d5b9df6c9aba6cdc0ec40af0c7af931644aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 04/13] fix: scenario combinations with a wrong length or an
 index outside the group were accepted

An out-of-range index simulated a scenario that does not exist in the group (or
panicked when the group has labels), a short combination panicked, and extra
entries were silently ignored. These are now errors from the builder.
---
 pywr-core/src/scenario.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/pywr-core/src/scenario.rs b/pywr-core/src/scenario.rs
index 862aa8b..8a5fa4a 100644
--- a/pywr-core/src/scenario.rs
+++ b/pywr-core/src/scenario.rs
@@ -21,6 +21,10 @@ pub enum ScenarioDomainBuilderError {
         found: usize,
         expected: usize,
     },
+    #[error("Scenario combination has {found} entries; expected {expected}, one for each scenario group")]
+    IncorrectCombinationLength { found: usize, expected: usize },
+    #[error("Scenario index {index} in combination is out of range for scenario group `{group}` with size {size}")]
+    CombinationIndexOutOfRange { group: String, size: usize, index: usize },
     #[error("Invalid slice ({start}, {end}) for scenario group `{group}` with size {size}")]
     InvalidSlice {
         group: String,
@@ -400,6 +404,15 @@ impl ScenarioDomainBuilder {
 
             // Handle the case where there are specific combinations of scenarios
             let scenario_map = if let Some(combinations) = &self.combinations {
+                for combination in combinations {
+                    if combination.len() != self.groups.len() {
+                        return Err(ScenarioDomainBuilderError::IncorrectCombinationLength {
+                            found: combination.len(),
+                            expected: self.groups.len(),
+                        });
+                    }
+                }
+
                 // First turn all the maybe labels into indices
                 let combinations = combinations
                     .iter()
@@ -409,7 +422,14 @@ impl ScenarioDomainBuilder {
                             .zip(&self.groups)
                             .map(|(c, group)| match c {
                                 ScenarioLabelOrIndex::Label(label) => group.label_position(label),
-                                ScenarioLabelOrIndex::Index(index) => Ok(*index),
+                                ScenarioLabelOrIndex::Index(index) if *index < group.size => Ok(*index),
+                                ScenarioLabelOrIndex::Index(index) => {
+                                    Err(ScenarioDomainBuilderError::CombinationIndexOutOfRange {
+                                        group: group.name.clone(),
+                                        size: group.size,
+                                        index: *index,
+                                    })
+                                }
                             })
                             .collect::<Result<Vec<usize>, ScenarioDomainBuilderError>>()
                     })
-- 
2.43.0


From b9ba4c715ef0c4cd767e7f697ea283c756213ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 05/13] fix: rolling virtual storage recovered a flow rate
 rather than the volume used

---
 pywr-core/src/state/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pywr-core/src/state/mod.rs b/pywr-core/src/state/mod.rs
index 7ea58c0..a0c5e3a 100644
--- a/pywr-core/src/state/mod.rs
+++ b/pywr-core/src/state/mod.rs
@@ -158,14 +158,16 @@ impl VirtualStorageState {
 
     fn recover_last_historical_flow(&mut self, timestep: &Timestep) {
         if let Some(history) = self.history.as_mut() {
-            self.storage.add_in_flow(history.pop_flow(), timestep);
+            // The history contains volumes; recover the oldest one over the current time-step.
+            self.storage.add_in_flow(history.pop_flow() / timestep.days(), timestep);
         }
     }
 
     fn add_out_flow(&mut self, flow: f64, timestep: &Timestep) {
         self.storage.add_out_flow(flow, timestep);
         if let Some(history) = self.history.as_mut() {
-            history.add_flow(flow);
+            // Store the volume used, which may be recovered over a time-step of a different length.
+            history.add_flow(flow * timestep.days());
         }
     }
 
-- 
2.43.0


From 1ede23193882ca2d2e933ca77867fef94af56b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:27 +0000
Subject: [PATCH 06/13] fix: virtual storage reset to its maximum ignored the
 initial volume, and recovered it again from a rolling window

---
 pywr-core/src/virtual_storage.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/virtual_storage.rs b/pywr-core/src/virtual_storage.rs
index a14c674..64c80f0 100644
--- a/pywr-core/src/virtual_storage.rs
+++ b/pywr-core/src/virtual_storage.rs
@@ -439,8 +439,9 @@ impl VirtualStorageNode {
             let initial_volume = self.initial_volume.get_absolute_initial_volume(max_volume, state)?;
 
             let reset_volume = match &self.reset_volume {
-                VirtualStorageResetVolume::Max => max_volume,
-                VirtualStorageResetVolume::Initial => initial_volume,
+                // The initial volume always applies to the first timestep.
+                VirtualStorageResetVolume::Max if !timestep.is_first() => max_volume,
+                _ => initial_volume,
             };
 
             state.reset_virtual_storage_node_volume(self.meta.index(), reset_volume, timestep, max_volume)?;
@@ -448,7 +449,7 @@ impl VirtualStorageNode {
             // Reset the rolling history if defined
             if let Some(window) = self.rolling_window {
                 // Initially the missing volume is distributed evenly across the window
-                let initial_flow = (max_volume - initial_volume) / window.get() as f64;
+                let initial_flow = (max_volume - reset_volume) / window.get() as f64;
                 state.reset_virtual_storage_history(self.meta.index(), initial_flow)?;
             }
         }
-- 
2.43.0


From 2c64c0008d6e9af7c3713d994303449ff565dd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 07/13] fix: negate the factor of a storage's outgoing edges
 when updating row coefficients

---
 pywr-core/src/solvers/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index c5a04f2..af5fe63 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -114,7 +114,7 @@ where
                 }
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.coefficients_to_update.push((row, column, -factor))
                 }
             }
         }
-- 
2.43.0


From f004b05613be93932b8dc1630b9cef137325eed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 08/13] fix: sum the factors of edges sharing a column when
 updating row coefficients

---
 pywr-core/src/solvers/builder.rs | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index af5fe63..eed2abd 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -87,34 +87,47 @@ where
         self.row_upper[row] = self.row_upper[row].min(ub);
     }
 
+    /// Add to the new value of a coefficient. A row may refer to a column more than once (i.e. when
+    /// several edges share the column), in which case the coefficient is the sum of the factors.
+    fn add_coefficient_to_update(&mut self, row: I, col: I, value: f64) {
+        match self
+            .coefficients_to_update
+            .iter()
+            .position(|(r, c, _)| *r == row && *c == col)
+        {
+            Some(i) => self.coefficients_to_update[i].2 += value,
+            None => self.coefficients_to_update.push((row, col, value)),
+        }
+    }
+
     fn update_row_coefficients(&mut self, row: I, node: &Node, factor: f64, col_edge_map: &ColumnEdgeMap<I>) {
         match node.node_type() {
             NodeType::Link => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Input => {
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Output => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
             }
             NodeType::Storage => {
                 for edge in node.get_incoming_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, factor))
+                    self.add_coefficient_to_update(row, column, factor);
                 }
                 for edge in node.get_outgoing_edges().unwrap() {
                     let column = col_edge_map.col_for_edge(edge);
-                    self.coefficients_to_update.push((row, column, -factor))
+                    self.add_coefficient_to_update(row, column, -factor);
                 }
             }
         }
-- 
2.43.0


From 5ba588704034938a0a353797eda79a264194720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 09/13] fix: do not share rows whose coefficients are updated
 later

---
 pywr-core/src/solvers/builder.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index eed2abd..d74d092 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -204,6 +204,16 @@ where
         }
     }
 
+    /// Add a row to the LP that is never shared.
+    ///
+    /// Rows with coefficients that are updated later must not be shared because they may be equal
+    /// only until the first update.
+    fn add_updatable_row(&mut self, row: RowBuilder<I>) -> I {
+        let row_id = self.num_variable_rows();
+        self.rows.push(row);
+        row_id
+    }
+
     /// Return the number of variable rows
     fn num_variable_rows(&self) -> I {
         I::from(self.rows.len()).unwrap()
@@ -896,7 +906,7 @@ where
                             row_ub.add_element(*col, 1.0);
                             row_lb.add_element(*col, -1.0);
 
-                            let row_id = self.builder.add_variable_row(row_ub);
+                            let row_id = self.builder.add_updatable_row(row_ub);
                             let row_type = NodeRowType::BinaryUpperBound { bin_col_id: *col };
 
                             row_ids.push(NodeRowId {
@@ -907,7 +917,7 @@ where
 
                             // We do not know the bounds yet, so we have to assume there is a possibility
                             // of a non-zero lower bound.
-                            let row_id = self.builder.add_variable_row(row_lb);
+                            let row_id = self.builder.add_updatable_row(row_lb);
                             let row_type = NodeRowType::BinaryLowerBound { bin_col_id: *col };
 
                             row_ids.push(NodeRowId {
@@ -995,7 +1005,7 @@ where
                         row_indices_for_agg_node.push(None)
                     } else {
                         // These rows will be updated with the correct ratio later
-                        let row_idx = self.builder.add_variable_row(row);
+                        let row_idx = self.builder.add_updatable_row(row);
                         row_indices_for_agg_node.push(Some(row_idx));
                     }
                 }
-- 
2.43.0


From 26f79a101a75d851623bc677be9c9089a01d46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 10/13] fix: restore the bounds of mutual exclusivity rows and
 limit their upper bound

---
 pywr-core/src/solvers/builder.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index d74d092..95a13e0 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -524,13 +524,21 @@ where
                 }
                 NodeRowType::BinaryUpperBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the upper bound
-                    // This row has the correct bounds already, so we just update the coefficients
-                    self.builder.coefficients_to_update.push((row.row_id, bin_col_id, ub));
+                    // (limited as it is for constant bounds) and restore the row's bounds.
+                    self.builder
+                        .coefficients_to_update
+                        .push((row.row_id, bin_col_id, ub.min(1e6)));
+                    let f64_max = self.builder.f64_max;
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, f64_max);
                 }
                 NodeRowType::BinaryLowerBound { bin_col_id } => {
                     // Update the coefficients for the binary column to be the lower bound
-                    // This row has the correct bounds already, so we just update the coefficients
+                    // and restore the row's bounds.
                     self.builder.coefficients_to_update.push((row.row_id, bin_col_id, -lb));
+                    let f64_max = self.builder.f64_max;
+                    self.builder
+                        .apply_row_bounds(row.row_id.to_usize().unwrap(), 0.0, f64_max);
                 }
             }
         }
-- 
2.43.0


From 1c55a50ceda61b8759ced4071e444f58c5d07add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 11/13] fix: update coefficient factor rows with a non-constant
 right-hand side

---
 pywr-core/src/aggregated_node.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index 3b51304..a55d4c7 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -1073,9 +1073,13 @@ fn get_const_coefficient_factor_pairs<'a>(
     let f0 = factors[0].try_get_constant_value(values)?;
     let f1 = factors[1].try_get_constant_value(values)?;
 
-    let rhs = match rhs {
-        Some(rhs) => rhs.try_get_constant_value(values)?.unwrap_or_default(),
-        None => 0.0,
+    let (f0, f1, rhs) = match rhs {
+        Some(rhs) => match rhs.try_get_constant_value(values)? {
+            Some(rhs) => (f0, f1, rhs),
+            // The right-hand side is not available; therefore the pair must be updated later
+            None => (None, None, 0.0),
+        },
+        None => (f0, f1, 0.0),
     };
 
     Ok(vec![NodeConstFactorPair::new(
-- 
2.43.0


From c0ceb06211d29ce0d26cb775903e2135e387e127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 12/13] fix: negative ratio factors are an error when they are
 not constant

---
 pywr-core/src/aggregated_node.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pywr-core/src/aggregated_node.rs b/pywr-core/src/aggregated_node.rs
index a55d4c7..809ad7c 100644
--- a/pywr-core/src/aggregated_node.rs
+++ b/pywr-core/src/aggregated_node.rs
@@ -911,6 +911,9 @@ fn get_norm_ratio_factor_pairs<'a>(
         .skip(1)
         .map(|(n1, f1)| {
             let v1 = f1.get_value(model, state)?;
+            if v1 < 0.0 {
+                return Err(RatioFactorError::NegativeOrZeroFactor { value: v1 });
+            }
 
             Ok(NodeFactorPair::new(
                 NodeFactor::new(n0, 1.0),
-- 
2.43.0


From 09d91884363df1bd674986355b15796ec16165e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:20 +0000
Subject: [PATCH 13/13] fix: propagate errors of aggregated node factors

---
 pywr-core/src/solvers/builder.rs | 22 +++++++++++++++++-----
 pywr-core/src/solvers/mod.rs     | 14 ++++++++++++++
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/pywr-core/src/solvers/builder.rs b/pywr-core/src/solvers/builder.rs
index 95a13e0..734c5f9 100644
--- a/pywr-core/src/solvers/builder.rs
+++ b/pywr-core/src/solvers/builder.rs
@@ -558,7 +558,13 @@ where
                 .ok_or(SolverSolveError::AggregatedNodeIndexNotFound(agg_node_row.agg_node_idx))?;
 
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_norm_factor_pairs(network, state) {
+            if let Some(node_pairs) = agg_node.get_norm_factor_pairs(network, state) {
+                let node_pairs = node_pairs.map_err(|source| SolverSolveError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
+
                 assert_eq!(
                     agg_node_row.row_indices.len(),
                     node_pairs.len(),
@@ -692,7 +698,7 @@ where
         // Create the aggregated node constraints
         let agg_node_constraint_row_ids = self.create_aggregated_node_constraints(network);
         // Create the aggregated node factor constraints
-        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values);
+        let agg_node_factor_constraint_row_ids = self.create_aggregated_node_factor_constraints(network, values)?;
         // Create virtual storage constraints
         let virtual_storage_constraint_row_ids = self.create_virtual_storage_constraints(network);
         // Create mutual exclusivity constraints
@@ -971,12 +977,18 @@ where
         &mut self,
         network: &Network,
         values: &ConstParameterValues,
-    ) -> Vec<AggNodeFactorRow<I>> {
+    ) -> Result<Vec<AggNodeFactorRow<I>>, SolverSetupError> {
         let mut row_ids = Vec::new();
 
         for agg_node in network.aggregated_nodes() {
             // Only create row for nodes that have factors
-            if let Some(Ok(node_pairs)) = agg_node.get_const_norm_factor_pairs(values) {
+            if let Some(node_pairs) = agg_node.get_const_norm_factor_pairs(values) {
+                let node_pairs = node_pairs.map_err(|source| SolverSetupError::AggregatedNodeFactorError {
+                    name: agg_node.name().to_string(),
+                    sub_name: agg_node.sub_name().map(|s| s.to_string()),
+                    source,
+                })?;
+
                 let mut row_indices_for_agg_node = Vec::with_capacity(node_pairs.len());
 
                 for node_pair in node_pairs {
@@ -1025,7 +1037,7 @@ where
             }
         }
 
-        row_ids
+        Ok(row_ids)
     }
 
     /// Create aggregated node constraints
diff --git a/pywr-core/src/solvers/mod.rs b/pywr-core/src/solvers/mod.rs
index 82792e7..c8f0893 100644
--- a/pywr-core/src/solvers/mod.rs
+++ b/pywr-core/src/solvers/mod.rs
@@ -119,6 +119,13 @@ pub enum SolverSetupError {
     NoEdgesDefined,
     #[error("Node index not found: {0}")]
     NodeIndexNotFound(NodeIndex),
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::ConstantFactorError,
+    },
     #[cfg(feature = "highs")]
     #[error("Highs error: {0}")]
     HighsError(#[from] highs::HighsStatusError),
@@ -150,6 +157,13 @@ pub enum SolverSolveError {
         #[source]
         source: crate::aggregated_node::AggregatedNodeError,
     },
+    #[error("Aggregated node `{name}` and sub-name `{}` factor error: {source}", .sub_name.as_deref().unwrap_or("None"))]
+    AggregatedNodeFactorError {
+        name: String,
+        sub_name: Option<String>,
+        #[source]
+        source: crate::aggregated_node::FactorError,
+    },
     #[error("Virtual storage error: {0}")]
     VirtualStorageError(#[from] crate::virtual_storage::VirtualStorageError),
     #[error("Node index not found: {0}")]
-- 
2.43.0

