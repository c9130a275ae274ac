//@ extract pywr-core/src/scenario.rs struct ScenarioIndices
//@ extract pywr-core/src/scenario.rs struct ScenarioIndex
//@ extract pywr-core/src/scenario.rs impl ScenarioIndex::simulation_id
//@| ensures
//@|     r == self.core.index
//@ extract pywr-core/src/scenario.rs impl ScenarioIndex::simulation_index_for_group
//@| requires
//@|     group_index < self.core.indices@.len()
//@| ensures
//@|     r == self.core.indices@[group_index as int]
impl ScenarioIndex {
    spec fn schema_indices(&self) -> Seq<usize> { match self.schema { Some(s) => s.indices@, None => self.core.indices@ } }
}
//@ extract pywr-core/src/scenario.rs impl ScenarioIndex::schema_index_for_group
//@| requires
//@|     group_index < self.core.indices@.len(), group_index < self.schema_indices().len()
//@| ensures
//@|     r == self.schema_indices()[group_index as int]
