// Shared prelude. f64 is modelled as a mathematical real: `R` is an opaque type whose view is a
// `real`. Every arithmetic operator is an assumed (external_body) contract; see DESIGN.md.
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unreachable_code, unused_assignments, non_camel_case_types, unused_doc_comments)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::vec::*;
use vstd::std_specs::option::*;
use vstd::std_specs::result::*;
use std::collections::VecDeque;
use core::cmp::Ordering;
use std::ops::Deref;
verus! {
broadcast use vstd::group_vstd_default;

/// the checks are made for 64-bit targets
global size_of usize == 8;

/// `to_vec` copies the elements (only used on Copy elements)
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@ == s@;

pub assume_specification<'a, T: Copy> [Option::<&'a T>::copied] (o: Option<&'a T>) -> (r: Option<T>)
    ensures match o { Some(x) => r == Some(*x), None => r is None };
pub assume_specification<'a, T: Copy, E> [Result::<&'a T, E>::copied] (o: Result<&'a T, E>) -> (r: Result<T, E>)
    ensures match o { Ok(x) => r == Ok::<T, E>(*x), Err(e) => r == Err::<T, E>(e) };

#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct R { x: f64 }
impl View for R { type V = real; uninterp spec fn view(&self) -> real; }

/// opaque error value: the identity of errors is not part of any contract unless kept explicitly
#[derive(Clone, Copy)]
pub struct E_ {}
#[verifier::external] impl core::fmt::Debug for E_ { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }

pub uninterp spec fn nanq(x: R) -> bool;
pub uninterp spec fn finiteq(x: R) -> bool;
pub open spec fn rmax(a: real, b: real) -> real { if a >= b { a } else { b } }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rabs(a: real) -> real { if a >= 0real { a } else { -a } }
pub uninterp spec fn f64_max() -> real;
#[verifier::external_body]
pub broadcast proof fn axiom_f64_max() ensures #[trigger] f64_max() > 1000000000000real {}
pub open spec fn rpow(x: real, n: int) -> real decreases (if n >= 0 { n } else { -n }), (if n >= 0 { 0int } else { 1int }) {
    if n == 0 { 1real } else if n > 0 { rpow(x, n - 1) * x } else { 1real / rpow(x, -n) }
}
pub uninterp spec fn rexp(x: real) -> real;
pub uninterp spec fn rln(x: real) -> real;
pub uninterp spec fn rsqrt(x: real) -> real;
pub open spec fn rsum(s: Seq<real>) -> real decreases s.len() {
    if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last() }
}
/// the i-th view of a sequence of R
pub open spec fn rviews(s: Seq<R>) -> Seq<real> { s.map_values(|x: R| x@) }

impl R {
    #[verifier::external_body] pub fn int(n: u64) -> (r: R) ensures r@ == n as real { unimplemented!() }
    #[verifier::external_body] pub fn frac(n: u64, d: u64) -> (r: R) requires d != 0 ensures r@ == (n as real) / (d as real) { unimplemented!() }
    #[verifier::external_body] pub fn MAX() -> (r: R) ensures r@ == f64_max(), r@ > 1000000000000real { unimplemented!() }
    #[verifier::external_body] pub fn MIN() -> (r: R) ensures r@ == -f64_max(), r@ < -1000000000000real { unimplemented!() }
    #[verifier::external_body] pub fn MIN_POSITIVE() -> (r: R) ensures 0real < r@ < 0.000000000001real { unimplemented!() }
    #[verifier::external_body] pub fn EPSILON() -> (r: R) ensures 0real < r@ < 0.000000000001real { unimplemented!() }
    #[verifier::external_body] pub fn max(self, o: R) -> (r: R) ensures r@ == rmax(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn min(self, o: R) -> (r: R) ensures r@ == rmin(self@, o@) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: R) ensures r@ == rabs(self@) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: R) ensures r@ == rpow(self@, n as int) { unimplemented!() }
    #[verifier::external_body] pub fn exp(self) -> (r: R) ensures r@ == rexp(self@), r@ > 0real { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: R) requires self@ >= 0real ensures r@ == rsqrt(self@) { unimplemented!() }
    /// f64::clamp panics when min > max
    #[verifier::external_body] pub fn clamp(self, lo: R, hi: R) -> (r: R) requires lo@ <= hi@ ensures r@ == rmin(rmax(self@, lo@), hi@) { unimplemented!() }
    /// NaN-ness / finiteness are uninterpreted flags of a value: only explicit tests observe them, and the
    /// arithmetic and comparison contracts describe the values for which they are meaningful
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == nanq(self) { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == (self@ == 0real) { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == finiteq(self) { unimplemented!() }
    #[verifier::external_body] pub fn fract(self) -> (r: R) ensures r@ == self@ - (trunc(self@) as real) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: R) ensures r@ == self@.floor() as real { unimplemented!() }
    #[verifier::external_body] pub fn trunc(self) -> (r: R) ensures r@ == trunc(self@) as real { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: R) ensures r@ == -((-self@).floor() as real) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: R) ensures r@ == (if self@ >= 0real { trunc(self@ + 0.5real) as real } else { trunc(self@ - 0.5real) as real }) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: R) requires self@ != 0real ensures r@ == 1real / self@ { unimplemented!() }
    #[verifier::external_body] pub fn mul_add(self, a: R, b: R) -> (r: R) ensures r@ == self@ * a@ + b@ { unimplemented!() }
}
impl AddSpecImpl for R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: R) -> bool { true }
    open spec fn add_spec(self, o: R) -> R { arbitrary() }
}
impl core::ops::Add for R { type Output = R;
    #[verifier::external_body]
    fn add(self, o: R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'b> AddSpecImpl<&'b R> for R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &'b R) -> bool { true }
    open spec fn add_spec(self, o: &'b R) -> R { arbitrary() }
}
impl<'b> core::ops::Add<&'b R> for R { type Output = R;
    #[verifier::external_body]
    fn add(self, o: &'b R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'a> AddSpecImpl<R> for &'a R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: R) -> bool { true }
    open spec fn add_spec(self, o: R) -> R { arbitrary() }
}
impl<'a> core::ops::Add<R> for &'a R { type Output = R;
    #[verifier::external_body]
    fn add(self, o: R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl<'a, 'b> AddSpecImpl<&'b R> for &'a R {
    open spec fn obeys_add_spec() -> bool { false }
    open spec fn add_req(self, o: &'b R) -> bool { true }
    open spec fn add_spec(self, o: &'b R) -> R { arbitrary() }
}
impl<'a, 'b> core::ops::Add<&'b R> for &'a R { type Output = R;
    #[verifier::external_body]
    fn add(self, o: &'b R) -> (r: R) ensures r@ == self@ + o@ { unimplemented!() } }
impl SubSpecImpl for R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: R) -> bool { true }
    open spec fn sub_spec(self, o: R) -> R { arbitrary() }
}
impl core::ops::Sub for R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'b> SubSpecImpl<&'b R> for R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &'b R) -> bool { true }
    open spec fn sub_spec(self, o: &'b R) -> R { arbitrary() }
}
impl<'b> core::ops::Sub<&'b R> for R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: &'b R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'a> SubSpecImpl<R> for &'a R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: R) -> bool { true }
    open spec fn sub_spec(self, o: R) -> R { arbitrary() }
}
impl<'a> core::ops::Sub<R> for &'a R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl<'a, 'b> SubSpecImpl<&'b R> for &'a R {
    open spec fn obeys_sub_spec() -> bool { false }
    open spec fn sub_req(self, o: &'b R) -> bool { true }
    open spec fn sub_spec(self, o: &'b R) -> R { arbitrary() }
}
impl<'a, 'b> core::ops::Sub<&'b R> for &'a R { type Output = R;
    #[verifier::external_body]
    fn sub(self, o: &'b R) -> (r: R) ensures r@ == self@ - o@ { unimplemented!() } }
impl MulSpecImpl for R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> R { arbitrary() }
}
impl core::ops::Mul for R { type Output = R;
    #[verifier::external_body]
    fn mul(self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'b> MulSpecImpl<&'b R> for R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &'b R) -> bool { true }
    open spec fn mul_spec(self, o: &'b R) -> R { arbitrary() }
}
impl<'b> core::ops::Mul<&'b R> for R { type Output = R;
    #[verifier::external_body]
    fn mul(self, o: &'b R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a> MulSpecImpl<R> for &'a R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: R) -> bool { true }
    open spec fn mul_spec(self, o: R) -> R { arbitrary() }
}
impl<'a> core::ops::Mul<R> for &'a R { type Output = R;
    #[verifier::external_body]
    fn mul(self, o: R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl<'a, 'b> MulSpecImpl<&'b R> for &'a R {
    open spec fn obeys_mul_spec() -> bool { false }
    open spec fn mul_req(self, o: &'b R) -> bool { true }
    open spec fn mul_spec(self, o: &'b R) -> R { arbitrary() }
}
impl<'a, 'b> core::ops::Mul<&'b R> for &'a R { type Output = R;
    #[verifier::external_body]
    fn mul(self, o: &'b R) -> (r: R) ensures r@ == self@ * o@ { unimplemented!() } }
impl DivSpecImpl for R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: R) -> R { arbitrary() }
}
impl core::ops::Div for R { type Output = R;
    #[verifier::external_body]
    fn div(self, o: R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'b> DivSpecImpl<&'b R> for R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: &'b R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: &'b R) -> R { arbitrary() }
}
impl<'b> core::ops::Div<&'b R> for R { type Output = R;
    #[verifier::external_body]
    fn div(self, o: &'b R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'a> DivSpecImpl<R> for &'a R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: R) -> R { arbitrary() }
}
impl<'a> core::ops::Div<R> for &'a R { type Output = R;
    #[verifier::external_body]
    fn div(self, o: R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }
impl<'a, 'b> DivSpecImpl<&'b R> for &'a R {
    open spec fn obeys_div_spec() -> bool { false }
    open spec fn div_req(self, o: &'b R) -> bool { o@ != 0real }
    open spec fn div_spec(self, o: &'b R) -> R { arbitrary() }
}
impl<'a, 'b> core::ops::Div<&'b R> for &'a R { type Output = R;
    #[verifier::external_body]
    fn div(self, o: &'b R) -> (r: R) ensures r@ == self@ / o@ { unimplemented!() } }

impl NegSpecImpl for R { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> R { arbitrary() } }
impl core::ops::Neg for R { type Output = R; #[verifier::external_body] fn neg(self) -> (r: R) ensures r@ == -self@ { unimplemented!() } }
impl<'a> NegSpecImpl for &'a R { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> R { arbitrary() } }
impl<'a> core::ops::Neg for &'a R { type Output = R; #[verifier::external_body] fn neg(self) -> (r: R) ensures r@ == -self@ { unimplemented!() } }
impl PartialEqSpecImpl for R { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &R) -> bool { self@ == o@ } }
impl PartialEq for R { #[verifier::external_body] fn eq(&self, o: &R) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for R {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &R) -> Option<Ordering> {
        if self@ < o@ { Some(Ordering::Less) } else if self@ == o@ { Some(Ordering::Equal) } else { Some(Ordering::Greater) }
    }
}
impl PartialOrd for R { #[verifier::external_body] fn partial_cmp(&self, o: &R) -> (r: Option<Ordering>) { unimplemented!() } }

/// `x as f64` for the numeric types used in the extracted code
pub trait ToReal: Sized { spec fn real_of(self) -> real; fn to_real(self) -> (r: R) ensures r@ == self.real_of(); }
impl ToReal for usize { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
impl ToReal for u64 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
impl ToReal for u32 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
impl ToReal for u8 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
impl ToReal for i64 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
impl ToReal for i32 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
impl ToReal for i16 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
impl ToReal for i8 { open spec fn real_of(self) -> real { self as real } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
impl ToReal for R { open spec fn real_of(self) -> real { self@ } #[verifier::external_body] fn to_real(self) -> (r: R) { unimplemented!() } }
pub fn to_r<T: ToReal>(x: T) -> (r: R) ensures r@ == x.real_of() { x.to_real() }

/// a call that must be unreachable: every `panic!`, failed `assert!` and `unreachable!` of the source
#[verifier::external_body] pub fn vpanic() -> ! requires false { unimplemented!() }
/// a panic that the contract allows (its condition is asserted where it happens); it does not return
#[verifier::external_body] pub fn vstop() -> ! ensures false { unimplemented!() }
/// float-to-integer casts truncate towards zero
pub open spec fn trunc(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
#[verifier::external_body] pub fn cast_usize(x: R) -> (r: usize) ensures x@ < 0real ==> r == 0, 0real <= x@ && x@ < (u64::MAX as real) ==> r as int == trunc(x@) { unimplemented!() }
#[verifier::external_body] pub fn cast_u64(x: R) -> (r: u64) ensures x@ < 0real ==> r == 0, 0real <= x@ && x@ < (u64::MAX as real) ==> r as int == trunc(x@) { unimplemented!() }
#[verifier::external_body] pub fn cast_i64(x: R) -> (r: i64) ensures i64::MIN as real <= x@ && x@ <= i64::MAX as real ==> r as int == trunc(x@) { unimplemented!() }
#[verifier::external_body] pub fn cast_i32(x: R) -> (r: i32) ensures i32::MIN as real <= x@ && x@ <= i32::MAX as real ==> r as int == trunc(x@) { unimplemented!() }
/// an item of a consumed vector (each index is taken once)
#[verifier::external_body] pub fn take_at<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body] pub fn opaque_string() -> String { unimplemented!() }
#[verifier::external_body] pub fn transpose_<T, E>(x: Option<Result<T, E>>) -> (r: Result<Option<T>, E>)
    ensures match x { None => r == Ok::<Option<T>, E>(None), Some(Ok(v)) => r == Ok::<Option<T>, E>(Some(v)), Some(Err(e)) => r == Err::<Option<T>, E>(e) } { unimplemented!() }
pub fn ok_or_<T>(x: Option<T>) -> (r: Result<T, E_>)
    ensures match x { Some(v) => r == Ok::<T, E_>(v), None => r.is_err() } { match x { Some(v) => Ok(v), None => Err(E_ {}) } }
pub fn map_err_<T, E>(x: Result<T, E>) -> (r: Result<T, E_>)
    ensures match x { Ok(v) => r == Ok::<T, E_>(v), Err(_) => r.is_err() } { match x { Ok(v) => Ok(v), Err(_) => Err(E_ {}) } }
pub fn vslice<T>(s: &[T], a: usize, b: usize) -> (r: &[T]) requires a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { vstd::slice::slice_subrange(s, a, b) }
} // verus!
