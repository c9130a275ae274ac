// What the linear programme reads of a network. Proved in unit `lpbuild`.
//@ extract pywr-core/src/node.rs impl Node::node_type
//@| ensures
//@|     match self { Node::Input(_) => r is Input, Node::Output(_) => r is Output, Node::Link(_) => r is Link, Node::Storage(_) => r is Storage }
//@ extract pywr-core/src/node.rs impl Node::get_incoming_edges
//@| ensures
//@|     r is Ok == !(self is Input), r is Ok ==> r->Ok_0@ == self.ins()
//@ extract pywr-core/src/node.rs impl Node::get_outgoing_edges
//@| ensures
//@|     r is Ok == !(self is Output), r is Ok ==> r->Ok_0@ == self.outs()
//@ extract pywr-core/src/network.rs impl Network::edges
//@| ensures
//@|     r@ == self.edges@
//@ extract pywr-core/src/network.rs impl Network::aggregated_nodes
//@| ensures
//@|     r@ == self.aggregated_nodes@
//@ extract pywr-core/src/aggregated_node.rs impl Exclusivity::min_active
//@| ensures
//@|     r == self.min_active
//@ extract pywr-core/src/aggregated_node.rs impl Exclusivity::max_active
//@| ensures
//@|     r == self.max_active
