/// the maps differ in the parameters only
pub open spec fn same_network(a: ResolutionMaps, b: ResolutionMaps) -> bool {
    &&& b.nodes@ == a.nodes@ && b.incoming_edges@ == a.incoming_edges@ && b.outgoing_edges@ == a.outgoing_edges@ && b.virtual_storage_node@ == a.virtual_storage_node@
    &&& b.virtual_storage_associated_nodes@ == a.virtual_storage_associated_nodes@ && b.aggregated_nodes@ == a.aggregated_nodes@ && b.aggregated_storage_nodes@ == a.aggregated_storage_nodes@ && b.edges@ == a.edges@
    &&& b.inter_network_transfers@ == a.inter_network_transfers@ && b.metric_sets@ == a.metric_sets@ && b.domain == a.domain
}
