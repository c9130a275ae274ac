// Types of the network, its state and its metrics, shared by the network units.
/// a string; only equality is observed
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Str { x: u8 }
impl Str { pub uninterp spec fn id(&self) -> int; }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct NonZeroUsize { x: usize }
impl NonZeroUsize {
    pub uninterp spec fn v(&self) -> nat;
    #[verifier::external_body] pub fn get(&self) -> (r: usize) ensures r == self.v(), r > 0 { unimplemented!() }
}
// indices are plain positions
#[derive(Clone, Copy, PartialEq, Eq, Structural)] pub struct NodeIndex(pub usize);
impl core::ops::Deref for NodeIndex { type Target = usize; fn deref(&self) -> (r: &usize) ensures *r == self.0 { &self.0 } }
#[derive(Clone, Copy)] pub struct EdgeIndex(pub usize);
impl core::ops::Deref for EdgeIndex { type Target = usize; fn deref(&self) -> (r: &usize) ensures *r == self.0 { &self.0 } }
#[derive(Clone, Copy)] pub struct VirtualStorageIndex(pub usize);
impl core::ops::Deref for VirtualStorageIndex { type Target = usize; fn deref(&self) -> (r: &usize) ensures *r == self.0 { &self.0 } }
#[derive(Clone, Copy)] pub struct AggregatedNodeIndex(pub usize);
#[derive(Clone, Copy)] pub struct AggregatedStorageNodeIndex(pub usize);
#[derive(Clone, Copy)] pub struct MultiNetworkTransferIndex(pub usize);
impl core::ops::Deref for MultiNetworkTransferIndex { type Target = usize; fn deref(&self) -> (r: &usize) ensures *r == self.0 { &self.0 } }
/// every typed index into the values of the parameters
#[derive(Clone, Copy)] pub struct VIdx(pub usize);
impl core::ops::Deref for VIdx { type Target = usize; fn deref(&self) -> (r: &usize) ensures *r == self.0 { &self.0 } }
/// HashMap<String, V> with the look-ups used here
#[verifier::external_body] #[verifier::reject_recursive_types(V)] pub struct SMap<V> { x: Vec<V> }
impl<V> SMap<V> {
    pub uninterp spec fn has(&self, k: int) -> bool;
    pub uninterp spec fn at(&self, k: int) -> V;
    #[verifier::external_body] pub fn get(&self, k: &Str) -> (r: Option<&V>) ensures r is Some == self.has(k.id()), r is Some ==> *r->Some_0 == self.at(k.id()) { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<V>)
        ensures forall|i: int| 0 <= i < r@.len() ==> exists|k: int| self.has(k) && self.at(k) == #[trigger] r@[i],
            forall|k: int| #[trigger] self.has(k) ==> r@.contains(self.at(k)) { unimplemented!() }
}
//@ extract pywr-core/src/timestep.rs struct Timestep
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/timestep.rs impl Timestep::is_first
//@| ensures
//@|     r == (self.index == 0)
//@ extract pywr-core/src/timestep.rs impl Timestep::days
//@| ensures
//@|     r@ == self.duration.days()
impl Timestep { pub open spec fn dy(&self) -> real { self.duration.days() } }

// ---- state
//@ extract pywr-core/src/state/flow.rs struct FlowState
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/state/storage.rs struct StorageState
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/state/mod.rs enum NodeState
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/state/mod.rs struct VirtualStorageHistory
//@| pub
//@ extract pywr-core/src/state/mod.rs struct VirtualStorageState
//@| pub
//@ extract pywr-core/src/state/mod.rs struct EdgeState
//@| derive Clone Copy
//@| pub
// derived Default
impl EdgeState { #[verifier::external_body] pub fn default() -> (r: EdgeState) ensures r.flow@ == 0real { unimplemented!() } }
//@ extract pywr-core/src/state/mod.rs struct MultiValue
//@| mapfield values: SMap<R>
//@|     indices: SMap<u64>
//@| pub
impl MultiValue { #[verifier::external_body] pub fn default() -> (r: MultiValue) ensures forall|k: int| !r.values.has(k) && !r.indices.has(k) { unimplemented!() } }
impl Clone for MultiValue { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ extract pywr-core/src/state/mod.rs struct ParameterValues
//@| pub
//@ extract pywr-core/src/state/mod.rs struct ParameterValuesRef
//@| pub
//@ extract pywr-core/src/state/mod.rs struct ConstParameterValues
//@| pub
//@ extract pywr-core/src/state/mod.rs struct SimpleParameterValues
//@| pub
//@ extract pywr-core/src/state/mod.rs struct NetworkState
//@| pub
//@ extract pywr-core/src/state/mod.rs struct State
//@| pub

// ---- metrics
//@ extract pywr-core/src/metric.rs enum ConstantMetricF64
//@| pub
//@ extract pywr-core/src/metric.rs enum SimpleMetricF64
//@| pub
//@ extract pywr-core/src/metric.rs enum MetricF64
//@| pub
//@ extract pywr-core/src/metric.rs enum ConstantMetricU64
//@| pub
//@ extract pywr-core/src/metric.rs enum SimpleMetricU64
//@| pub
//@ extract pywr-core/src/metric.rs enum MetricU64
//@| pub

// ---- network
//@ extract pywr-core/src/edge.rs struct Edge
//@| pub
//@ extract pywr-core/src/node.rs struct NodeMeta
//@| pub
//@ extract pywr-core/src/node.rs struct FlowConstraints
//@| pub
//@ extract pywr-core/src/node.rs struct StorageConstraints
//@| pub
//@ extract pywr-core/src/node.rs struct FlowBounds
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/node.rs struct VolumeBounds
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/node.rs enum NodeBounds
//@| pub
//@ extract pywr-core/src/node.rs enum CostAggFunc
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/node.rs struct NodeCost
//@| pub
//@ extract pywr-core/src/node.rs struct InputNode
//@| pub
//@ extract pywr-core/src/node.rs struct OutputNode
//@| pub
//@ extract pywr-core/src/node.rs struct LinkNode
//@| pub
//@ extract pywr-core/src/node.rs enum StorageInitialVolume
//@| pub
//@ extract pywr-core/src/node.rs struct StorageNode
//@| pub
//@ extract pywr-core/src/node.rs enum Node
//@| pub
//@ extract pywr-core/src/virtual_storage.rs enum VirtualStorageReset
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/virtual_storage.rs enum VirtualStorageResetVolume
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/virtual_storage.rs enum VirtualStorageActivePeriod
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/virtual_storage.rs struct VirtualStorageNode
//@| pub
//@ extract pywr-core/src/aggregated_node.rs enum Factors
//@| pub
//@ extract pywr-core/src/aggregated_node.rs struct Exclusivity
//@| pub
//@ extract pywr-core/src/aggregated_node.rs enum Relationship
//@| pub
//@ extract pywr-core/src/aggregated_node.rs struct AggregatedNode
//@| pub
//@ extract pywr-core/src/aggregated_storage_node.rs struct AggregatedStorageNode
//@| pub
// parts of a network that no contract refers to
#[verifier::external_body] pub struct ParametersPart { x: u8 }
#[verifier::external_body] pub struct RecorderPart { x: u8 }
//@ extract pywr-core/src/network.rs struct Network
//@| mapfield parameters: ParametersPart
//@|     metric_sets: Vec<MetricSetPart>
//@|     recorders: Vec<RecorderPart>
//@| pub
