//@ include ../prelude.rs
//@ map I usize
//@ map Lp Lp
//@ map LpBuilder LpBuilder
//@ map RowBuilder RowBuilder
//@ map ColumnEdgeMap ColumnEdgeMap
//@ map ColumnEdgeMapBuilder ColumnEdgeMapBuilder
//@ mappath I::from => idx_from
//@ mappath I::one => idx_one
//@ mappath I::zero => idx_zero
//@ mappath .fill => &mut fn vec_fill
verus! {
#[derive(Clone, Copy)] pub struct NodeIndex(pub usize);
impl core::ops::Deref for NodeIndex { type Target = usize; fn deref(&self) -> (r: &usize) ensures *r == self.0 { &self.0 } }
#[derive(Clone, Copy)] pub struct EdgeIndex(pub usize);
impl core::ops::Deref for EdgeIndex { type Target = usize; fn deref(&self) -> (r: &usize) ensures *r == self.0 { &self.0 } }
//@ include ../net/lpbase.rs
//@ include ../net/lplin.rs
//@ include ../net/lpproofs.rs
//@ include ../net/lp_fns.rs
}
fn main() {}
