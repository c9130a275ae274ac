// Describing a network: every call changes what it says, and nothing else.
/// names given as they are
impl Conv<UnresolvedNode> for UnresolvedNode { open spec fn conv_to(&self) -> UnresolvedNode { *self } fn conv_exec(self) -> UnresolvedNode { self } }
//@ extract pywr-core/src/node.rs impl UnresolvedNode::new
//@| ensures
//@|     r.name == *name && r.sub_name is Some == sub_name is Some && (sub_name is Some ==> r.sub_name->Some_0 == *sub_name->Some_0)
//@ extract pywr-core/src/node.rs impl UnresolvedNode::set_sub_name
//@| ensures
//@|     final(self).name == old(self).name && final(self).sub_name is Some == sub_name is Some && (sub_name is Some ==> final(self).sub_name->Some_0 == *sub_name->Some_0)
//@ extract pywr-core/src/node.rs impl NodeBuilder::new
//@| ensures
//@|     r == (NodeBuilder { name: name.conv_to(), node_type, cost: None, cost_agg_func: None, min_flow: None, max_flow: None, initial_volume: None, max_volume: None, min_volume: None })
//@ extract pywr-core/src/node.rs impl NodeBuilder::input
//@| ensures
//@|     r == (NodeBuilder { name: name.conv_to(), node_type: NodeType::Input, cost: None, cost_agg_func: None, min_flow: None, max_flow: None, initial_volume: None, max_volume: None, min_volume: None })
//@ extract pywr-core/src/node.rs impl NodeBuilder::output
//@| ensures
//@|     r == (NodeBuilder { name: name.conv_to(), node_type: NodeType::Output, cost: None, cost_agg_func: None, min_flow: None, max_flow: None, initial_volume: None, max_volume: None, min_volume: None })
//@ extract pywr-core/src/node.rs impl NodeBuilder::link
//@| ensures
//@|     r == (NodeBuilder { name: name.conv_to(), node_type: NodeType::Link, cost: None, cost_agg_func: None, min_flow: None, max_flow: None, initial_volume: None, max_volume: None, min_volume: None })
//@ extract pywr-core/src/node.rs impl NodeBuilder::storage
//@| ensures
//@|     r == (NodeBuilder { name: name.conv_to(), node_type: NodeType::Storage, cost: None, cost_agg_func: None, min_flow: None, max_flow: None, initial_volume: None, max_volume: None, min_volume: None })
//@ extract pywr-core/src/node.rs impl NodeBuilder::sub_name
//@| ensures
//@|     *r == (NodeBuilder { name: UnresolvedNode { sub_name: Some(*sub_name), ..old(self).name }, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/node.rs impl NodeBuilder::cost
//@| ensures
//@|     *r == (NodeBuilder { cost: Some(cost), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/node.rs impl NodeBuilder::cost_agg_func
//@| ensures
//@|     *r == (NodeBuilder { cost_agg_func: Some(cost_agg_func), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/node.rs impl NodeBuilder::min_flow
//@| ensures
//@|     *r == (NodeBuilder { min_flow: Some(min_flow), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/node.rs impl NodeBuilder::max_flow
//@| ensures
//@|     *r == (NodeBuilder { max_flow: Some(max_flow), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/node.rs impl NodeBuilder::initial_volume
//@| ensures
//@|     *r == (NodeBuilder { initial_volume: Some(initial_volume), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/node.rs impl NodeBuilder::max_volume
//@| ensures
//@|     *r == (NodeBuilder { max_volume: Some(max_volume), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/node.rs impl NodeBuilder::min_volume
//@| ensures
//@|     *r == (NodeBuilder { min_volume: Some(min_volume), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::new
//@| ensures
//@|     r.name == name.conv_to() && r.min_flow is None && r.max_flow is None && r.nodes@.len() == 0 && r.relationship is None
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::sub_name
//@| ensures
//@|     *r == (AggregatedNodeBuilder { name: UnresolvedNode { sub_name: Some(*sub_name), ..old(self).name }, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::min_flow
//@| ensures
//@|     *r == (AggregatedNodeBuilder { min_flow: Some(min_flow), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::max_flow
//@| ensures
//@|     *r == (AggregatedNodeBuilder { max_flow: Some(max_flow), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::nodes
//@| ensures
//@|     r.nodes@ == old(self).nodes@.push(nodes), *r == (AggregatedNodeBuilder { nodes: r.nodes, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl AggregatedNodeBuilder::relationship
//@| sub `Box<dyn RelationshipBuilder>` => `RelationshipPart`
//@| ensures
//@|     *r == (AggregatedNodeBuilder { relationship: Some(relationship), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl ProportionalFactorsBuilder::factor
//@| ensures
//@|     r.factors@ == old(self).factors@.push(factor), *r == (ProportionalFactorsBuilder { factors: r.factors, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl RatioFactorsBuilder::factor
//@| ensures
//@|     r.factors@ == old(self).factors@.push(factor), *r == (RatioFactorsBuilder { factors: r.factors, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl CoefficientFactorsBuilder::factor
//@| ensures
//@|     r.factors@ == old(self).factors@.push(factor), *r == (CoefficientFactorsBuilder { factors: r.factors, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl CoefficientFactorsBuilder::rhs
//@| ensures
//@|     *r == (CoefficientFactorsBuilder { rhs: Some(rhs), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl ExclusivityBuilder::min_active
//@| ensures
//@|     *r == (ExclusivityBuilder { min_active: min_active, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_node.rs impl ExclusivityBuilder::max_active
//@| ensures
//@|     *r == (ExclusivityBuilder { max_active: max_active, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNodeBuilder::new
//@| ensures
//@|     r.name == name.conv_to() && r.nodes@.len() == 0
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNodeBuilder::sub_name
//@| ensures
//@|     *r == (AggregatedStorageNodeBuilder { name: UnresolvedNode { sub_name: Some(*sub_name), ..old(self).name }, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/aggregated_storage_node.rs impl AggregatedStorageNodeBuilder::node
//@| ensures
//@|     r.nodes@ == old(self).nodes@.push(node), *r == (AggregatedStorageNodeBuilder { nodes: r.nodes, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::new
//@| ensures
//@|     r.name.name == *name && r.name.sub_name is None && r.nodes@ == nodes@ && r.factors is None && r.initial_volume is Absolute && r.initial_volume->Absolute_0@ == 0real && r.reset is Never && r.reset_volume is Initial && r.rolling_window is None && r.active_period is Always && r.cost is None && r.max_volume is None && r.min_volume is None
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::sub_name
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { name: UnresolvedNode { sub_name: Some(*sub_name), ..old(self).name }, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::factors
//@| ensures
//@|     r.factors is Some && r.factors->Some_0@ == factors@, *r == (VirtualStorageNodeBuilder { factors: r.factors, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::initial_volume
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { initial_volume: initial_volume, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::reset
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { reset: reset, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::reset_volume
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { reset_volume: reset_volume, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::active_period
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { active_period: active_period, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::cost
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { cost: Some(cost), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::max_volume
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { max_volume: Some(max_volume), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::min_volume
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { min_volume: Some(min_volume), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/virtual_storage.rs impl VirtualStorageNodeBuilder::rolling_window
//@| ensures
//@|     *r == (VirtualStorageNodeBuilder { rolling_window: Some(rolling_window), ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/network.rs impl NetworkBuilder::node
//@| ensures
//@|     r.nodes@ == old(self).nodes@.push(node), *r == (NetworkBuilder { nodes: r.nodes, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/network.rs impl NetworkBuilder::virtual_storage_node
//@| ensures
//@|     r.virtual_storage_nodes@ == old(self).virtual_storage_nodes@.push(vs_node), *r == (NetworkBuilder { virtual_storage_nodes: r.virtual_storage_nodes, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/network.rs impl NetworkBuilder::agg_node
//@| ensures
//@|     r.aggregated_nodes@ == old(self).aggregated_nodes@.push(agg_node), *r == (NetworkBuilder { aggregated_nodes: r.aggregated_nodes, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/network.rs impl NetworkBuilder::agg_storage_node
//@| ensures
//@|     r.aggregated_storage_nodes@ == old(self).aggregated_storage_nodes@.push(agg_storage_node), *r == (NetworkBuilder { aggregated_storage_nodes: r.aggregated_storage_nodes, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/network.rs impl NetworkBuilder::metric_set
//@| ensures
//@|     r.metric_sets@ == old(self).metric_sets@.push(metric_set), *r == (NetworkBuilder { metric_sets: r.metric_sets, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/network.rs impl NetworkBuilder::recorder
//@| sub `Box<dyn RecorderBuilder>` => `RecorderBuilderPart`
//@| ensures
//@|     r.recorders@ == old(self).recorders@.push(recorder), *r == (NetworkBuilder { recorders: r.recorders, ..*old(self) }), *final(r) == *final(self)
//@ extract pywr-core/src/network.rs impl NetworkBuilder::connect
//@| ensures
//@|     r.edges@ == old(self).edges@.push(UnresolvedEdge { from: from.conv_to(), to: to.conv_to() }), *r == (NetworkBuilder { edges: r.edges, ..*old(self) }), *final(r) == *final(self)
