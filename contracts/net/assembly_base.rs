// Maps by name and the builders of a network (the models of this file are trusted, see the unit).
/// what a key of a HashMap is compared by
pub trait Key: Sized { type K; spec fn key(&self) -> Self::K; }
/// HashMap<K, V> whose keys are compared by value
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct HMap<K: Key, V> { k: Vec<K>, v: Vec<V> }
impl<K: Key, V> View for HMap<K, V> { type V = Map<K::K, V>; uninterp spec fn view(&self) -> Map<K::K, V>; }
impl<K: Key, V> HMap<K, V> {
    #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.contains_key(k.key()), r is Some ==> *r->Some_0 == self@[k.key()] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.key()) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.key(), v) { unimplemented!() }
    #[verifier::external_body] pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>) ensures r.key() == k.key(), r.before() == old(self)@, r.after() == final(self)@ { unimplemented!() }
}
impl<K: Key, V> Clone for HMap<K, V> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct Entry<'a, K: Key, V> { m: &'a mut HMap<K, V> }
impl<'a, K: Key, V> Entry<'a, K, V> {
    pub uninterp spec fn key(&self) -> K::K;
    pub uninterp spec fn before(&self) -> Map<K::K, V>;
    pub uninterp spec fn after(&self) -> Map<K::K, V>;
}
impl<'a, K: Key, T> Entry<'a, K, Vec<T>> {
    #[verifier::external_body] pub fn or_default(self) -> (r: &'a mut Vec<T>)
        ensures (*r)@ == (if self.before().contains_key(self.key()) { self.before()[self.key()]@ } else { Seq::<T>::empty() }), self.after() == self.before().insert(self.key(), *final(r)) { unimplemented!() }
}
/// Default of a HashMap
#[verifier::external_body] pub fn empty_map<K: Key, V>() -> (r: HMap<K, V>) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }

/// Option<&Vec<T>>::cloned
pub fn cloned_list<T: Copy>(o: Option<&Vec<T>>) -> (r: Option<Vec<T>>) ensures r is Some == o is Some, o is Some ==> r->Some_0@ == o->Some_0@ {
    match o {
        None => None,
        Some(v) => {
            let mut w: Vec<T> = Vec::new();
            let mut i: usize = 0;
            while i < v.len() invariant i <= v@.len(), w@ == v@.take(i as int) decreases v@.len() - i { w.push(v[i]); i += 1; proof { assert(w@ =~= v@.take(i as int)); } }
            proof { assert(w@ =~= v@); }
            Some(w)
        }
    }
}
/// Option<Vec<T>>::unwrap_or_default
pub fn or_empty<T>(o: Option<Vec<T>>) -> (r: Vec<T>) ensures r@ == (if o is Some { o->Some_0@ } else { Seq::<T>::empty() }) {
    match o { Some(v) => v, None => Vec::new() }
}

impl Clone for NodeCost { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[derive(Clone, Copy)] pub struct MetricSetIndex(pub usize);
//@ extract pywr-core/src/node.rs enum NodeType
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/node.rs struct UnresolvedNode
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/network.rs struct UnresolvedEdge
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/parameters/mod.rs struct ParameterName
//@| derive Clone Copy
//@| pub
/// a name with an optional second part
pub type NK = (int, Option<int>);
pub open spec fn opt_id(s: Option<Str>) -> Option<int> { match s { None => None, Some(s) => Some(s.id()) } }
impl Key for UnresolvedNode { type K = NK; open spec fn key(&self) -> NK { (self.name.id(), opt_id(self.sub_name)) } }
impl Key for UnresolvedEdge { type K = (NK, NK); open spec fn key(&self) -> (NK, NK) { (self.from.key(), self.to.key()) } }
impl Key for ParameterName { type K = (int, Option<int>, Option<int>); open spec fn key(&self) -> (int, Option<int>, Option<int>) { (self.name.id(), opt_id(self.sub_name), opt_id(self.parent)) } }
impl Key for Str { type K = int; open spec fn key(&self) -> int { self.id() } }
impl Key for NodeIndex { type K = NodeIndex; open spec fn key(&self) -> NodeIndex { *self } }

//@ extract pywr-core/src/parameters/mod.rs struct GeneralParameterRegistration
//@| dropgenerics
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum ParameterIndex
//@| dropgenerics
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/parameters/mod.rs enum ParameterReturnValue
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/metric.rs enum MetricConsumerPhase
//@| derive Clone Copy
//@| pub
//@ extract pywr-core/src/metric.rs enum UnresolvedMetricF64
//@| pub
//@ extract pywr-core/src/metric.rs enum UnresolvedMetricU64
//@| pub
// ModelDomain: cloned and not looked at
#[verifier::external_body] pub struct DomainPart { x: u8 }
impl Clone for DomainPart { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@ extract pywr-core/src/network.rs struct ResolutionMaps
//@| pub
//@ extract pywr-core/src/node.rs enum UnresolvedStorageInitialVolume
//@| pub
//@ extract pywr-core/src/node.rs struct NodeBuilder
//@| pub
/// Box<dyn RelationshipBuilder>
#[verifier::external_body] pub struct RelationshipPart { x: u8 }
//@ extract pywr-core/src/aggregated_node.rs struct AggregatedNodeBuilder
//@| mapfield relationship: Option<RelationshipPart>
//@| pub
//@ extract pywr-core/src/aggregated_storage_node.rs struct AggregatedStorageNodeBuilder
//@| pub
//@ extract pywr-core/src/virtual_storage.rs struct VirtualStorageNodeBuilder
//@| pub
#[verifier::external_body] #[derive(Clone, Copy)] pub struct ParametersBuilderPart { x: u8 }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct RecorderBuilderPart { x: u8 }
/// Aggregator: handed on and not looked at
#[verifier::external_body] pub struct AggregatorPart { x: u8 }
//@ extract pywr-core/src/recorders/metric_set.rs struct OutputMetric
//@| pub
//@ extract pywr-core/src/recorders/metric_set.rs struct UnresolvedOutputMetric
//@| pub
//@ extract pywr-core/src/recorders/metric_set.rs struct MetricSet
//@| pub
//@ extract pywr-core/src/recorders/metric_set.rs struct MetricSetBuilder
//@| pub
pub type MetricSetPart = MetricSet;
//@ extract pywr-core/src/network.rs struct NetworkBuilder
//@| mapfield parameters: ParametersBuilderPart
//@|     recorders: Vec<RecorderBuilderPart>
//@|     metric_sets: Vec<MetricSetBuilder>
//@| pub
