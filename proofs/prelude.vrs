#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments)]
use vstd::prelude::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
use std::cmp::Ordering;
use std::cmp::Ordering::{Less, Equal, Greater};
verus! {
// ---------------------------------------------------------------- floats as extended reals
// Assumption (listed): f64 arithmetic is exact arithmetic on the extended reals (no rounding, no overflow).
pub enum Ext { Fin(real), PInf, NInf, NaN }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct F64 { x: f64 }
pub uninterp spec fn ev(x: F64) -> Ext;
impl View for F64 { type V = Ext; open spec fn view(&self) -> Ext { ev(*self) } }
pub open spec fn eadd(a: Ext, b: Ext) -> Ext { match (a, b) {
    (Ext::Fin(x), Ext::Fin(y)) => Ext::Fin(x + y),
    (Ext::NaN, _) => Ext::NaN, (_, Ext::NaN) => Ext::NaN,
    (Ext::PInf, Ext::NInf) => Ext::NaN, (Ext::NInf, Ext::PInf) => Ext::NaN,
    (Ext::PInf, _) => Ext::PInf, (_, Ext::PInf) => Ext::PInf,
    _ => Ext::NInf } }
pub open spec fn eneg(a: Ext) -> Ext { match a { Ext::Fin(x) => Ext::Fin(-x), Ext::PInf => Ext::NInf, Ext::NInf => Ext::PInf, Ext::NaN => Ext::NaN } }
pub open spec fn esub(a: Ext, b: Ext) -> Ext { eadd(a, eneg(b)) }
pub open spec fn esign(a: Ext) -> int { match a { Ext::Fin(x) => if x > 0real { 1 } else if x < 0real { -1 } else { 0int }, Ext::PInf => 1, Ext::NInf => -1, Ext::NaN => 0 } }
pub open spec fn emul(a: Ext, b: Ext) -> Ext { match (a, b) {
    (Ext::Fin(x), Ext::Fin(y)) => Ext::Fin(x * y),
    (Ext::NaN, _) => Ext::NaN, (_, Ext::NaN) => Ext::NaN,
    _ => if esign(a) * esign(b) > 0 { Ext::PInf } else if esign(a) * esign(b) < 0 { Ext::NInf } else { Ext::NaN } } }
// division by zero: only the sign of the dividend matters for us (positive zero)
pub open spec fn ediv(a: Ext, b: Ext) -> Ext { match (a, b) {
    (Ext::Fin(x), Ext::Fin(y)) => if y != 0real { Ext::Fin(x / y) } else if x > 0real { Ext::PInf } else if x < 0real { Ext::NInf } else { Ext::NaN },
    (Ext::NaN, _) => Ext::NaN, (_, Ext::NaN) => Ext::NaN,
    (Ext::Fin(x), _) => Ext::Fin(0real),
    (_, Ext::Fin(y)) => if y >= 0real { a } else { eneg(a) },
    _ => Ext::NaN } }
pub open spec fn elt(a: Ext, b: Ext) -> bool { match (a, b) {
    (Ext::Fin(x), Ext::Fin(y)) => x < y,
    (Ext::NaN, _) => false, (_, Ext::NaN) => false,
    (Ext::PInf, _) => false, (_, Ext::PInf) => true,
    (_, Ext::NInf) => false, (Ext::NInf, _) => true } }
pub open spec fn ele(a: Ext, b: Ext) -> bool { elt(a, b) || (a == b && !(a is NaN)) }
pub open spec fn eeq(a: Ext, b: Ext) -> bool { a == b && !(a is NaN) }
pub open spec fn ecmp(a: Ext, b: Ext) -> Option<Ordering> {
    if a is NaN || b is NaN { None } else if elt(a, b) { Some(Ordering::Less) } else if elt(b, a) { Some(Ordering::Greater) } else { Some(Ordering::Equal) } }
impl F64 {
    #[verifier::external_body] pub fn inf() -> (r: F64) ensures r@ == Ext::PInf { F64 { x: f64::INFINITY } }
    #[verifier::external_body] pub fn neg_inf() -> (r: F64) ensures r@ == Ext::NInf { F64 { x: f64::NEG_INFINITY } }
    #[verifier::external_body] pub fn nan() -> (r: F64) ensures r@ == Ext::NaN { F64 { x: f64::NAN } }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == (self@ is NaN) { self.x.is_nan() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == (self@ is PInf || self@ is NInf) { self.x.is_infinite() }
    #[verifier::external_body] pub fn abs(self) -> (r: F64) ensures r@ == (if esign(self@) < 0 { eneg(self@) } else { self@ }) { F64 { x: self.x.abs() } }
    #[verifier::external_body] pub fn max(self, o: F64) -> (r: F64)
        ensures self@ is NaN ==> r@ == o@, o@ is NaN ==> r@ == self@, !(self@ is NaN) && !(o@ is NaN) ==> r@ == (if elt(self@, o@) { o@ } else { self@ }) { F64 { x: self.x.max(o.x) } }
    #[verifier::external_body] pub fn min(self, o: F64) -> (r: F64)
        ensures self@ is NaN ==> r@ == o@, o@ is NaN ==> r@ == self@, !(self@ is NaN) && !(o@ is NaN) ==> r@ == (if elt(self@, o@) { self@ } else { o@ }) { F64 { x: self.x.min(o.x) } }
}
#[verifier::external_body]
pub fn f64_lit(n: i64, d: u64) -> (r: F64) requires d > 0 ensures r@ == Ext::Fin(n as real / d as real) { F64 { x: n as f64 / d as f64 } }
pub trait ToF64 { spec fn rv(&self) -> real; fn to_f64(self) -> (r: F64) where Self: Sized ensures r@ == Ext::Fin(self.rv()); }
impl ToF64 for usize { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_f64(self) -> (r: F64) { F64 { x: self as f64 } } }
impl ToF64 for u16 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_f64(self) -> (r: F64) { F64 { x: self as f64 } } }
impl ToF64 for u8 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_f64(self) -> (r: F64) { F64 { x: self as f64 } } }
impl ToF64 for i32 { open spec fn rv(&self) -> real { *self as real } #[verifier::external_body] fn to_f64(self) -> (r: F64) { F64 { x: self as f64 } } }
pub fn to_f64<T: ToF64>(x: T) -> (r: F64) ensures r@ == Ext::Fin(x.rv()) { x.to_f64() }
impl AddSpecImpl<F64> for F64 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: F64) -> bool { true } uninterp spec fn add_spec(self, o: F64) -> F64; }
impl core::ops::Add<F64> for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> (r: F64) ensures r@ == eadd(self@, o@) { F64 { x: self.x + o.x } } }
impl<'a> AddSpecImpl<&'a F64> for F64 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'a F64) -> bool { true } uninterp spec fn add_spec(self, o: &'a F64) -> F64; }
impl<'a> core::ops::Add<&'a F64> for F64 { type Output = F64; #[verifier::external_body] fn add(self, o: &'a F64) -> (r: F64) ensures r@ == eadd(self@, o@) { F64 { x: self.x + o.x } } }
impl<'a, 'b> AddSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: &'b F64) -> bool { true } uninterp spec fn add_spec(self, o: &'b F64) -> F64; }
impl<'a, 'b> core::ops::Add<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn add(self, o: &'b F64) -> (r: F64) ensures r@ == eadd(self@, o@) { F64 { x: self.x + o.x } } }
impl<'a> AddSpecImpl<F64> for &'a F64 { open spec fn obeys_add_spec() -> bool { false } open spec fn add_req(self, o: F64) -> bool { true } uninterp spec fn add_spec(self, o: F64) -> F64; }
impl<'a> core::ops::Add<F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn add(self, o: F64) -> (r: F64) ensures r@ == eadd(self@, o@) { F64 { x: self.x + o.x } } }
impl SubSpecImpl<F64> for F64 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: F64) -> bool { true } uninterp spec fn sub_spec(self, o: F64) -> F64; }
impl core::ops::Sub<F64> for F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: F64) -> (r: F64) ensures r@ == esub(self@, o@) { F64 { x: self.x - o.x } } }
impl<'a, 'b> SubSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_sub_spec() -> bool { false } open spec fn sub_req(self, o: &'b F64) -> bool { true } uninterp spec fn sub_spec(self, o: &'b F64) -> F64; }
impl<'a, 'b> core::ops::Sub<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn sub(self, o: &'b F64) -> (r: F64) ensures r@ == esub(self@, o@) { F64 { x: self.x - o.x } } }
impl MulSpecImpl<F64> for F64 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F64) -> bool { true } uninterp spec fn mul_spec(self, o: F64) -> F64; }
impl core::ops::Mul<F64> for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> (r: F64) ensures r@ == emul(self@, o@) { F64 { x: self.x * o.x } } }
impl<'a> MulSpecImpl<F64> for &'a F64 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: F64) -> bool { true } uninterp spec fn mul_spec(self, o: F64) -> F64; }
impl<'a> core::ops::Mul<F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: F64) -> (r: F64) ensures r@ == emul(self@, o@) { F64 { x: self.x * o.x } } }
impl<'a> MulSpecImpl<&'a F64> for F64 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'a F64) -> bool { true } uninterp spec fn mul_spec(self, o: &'a F64) -> F64; }
impl<'a> core::ops::Mul<&'a F64> for F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: &'a F64) -> (r: F64) ensures r@ == emul(self@, o@) { F64 { x: self.x * o.x } } }
impl<'a, 'b> MulSpecImpl<&'b F64> for &'a F64 { open spec fn obeys_mul_spec() -> bool { false } open spec fn mul_req(self, o: &'b F64) -> bool { true } uninterp spec fn mul_spec(self, o: &'b F64) -> F64; }
impl<'a, 'b> core::ops::Mul<&'b F64> for &'a F64 { type Output = F64; #[verifier::external_body] fn mul(self, o: &'b F64) -> (r: F64) ensures r@ == emul(self@, o@) { F64 { x: self.x * o.x } } }
impl DivSpecImpl<F64> for F64 { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: F64) -> bool { true } uninterp spec fn div_spec(self, o: F64) -> F64; }
impl core::ops::Div<F64> for F64 { type Output = F64; #[verifier::external_body] fn div(self, o: F64) -> (r: F64) ensures r@ == ediv(self@, o@) { F64 { x: self.x / o.x } } }
impl NegSpecImpl for F64 { open spec fn obeys_neg_spec() -> bool { false } open spec fn neg_req(self) -> bool { true } uninterp spec fn neg_spec(self) -> F64; }
impl core::ops::Neg for F64 { type Output = F64; #[verifier::external_body] fn neg(self) -> (r: F64) ensures r@ == eneg(self@) { F64 { x: -self.x } } }
impl AddAssignSpecImpl<F64> for F64 { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: F64) -> bool { true } uninterp spec fn add_assign_spec(&self, o: F64) -> &F64; }
impl core::ops::AddAssign<F64> for F64 { #[verifier::external_body] fn add_assign(&mut self, o: F64) ensures final(self)@ == eadd(old(self)@, o@) { self.x += o.x; } }
impl<'a> AddAssignSpecImpl<&'a F64> for F64 { open spec fn obeys_add_assign_spec() -> bool { false } open spec fn add_assign_req(&self, o: &'a F64) -> bool { true } uninterp spec fn add_assign_spec(&self, o: &'a F64) -> &F64; }
impl<'a> core::ops::AddAssign<&'a F64> for F64 { #[verifier::external_body] fn add_assign(&mut self, o: &'a F64) ensures final(self)@ == eadd(old(self)@, o@) { self.x += o.x; } }
impl DivAssignSpecImpl<F64> for F64 { open spec fn obeys_div_assign_spec() -> bool { false } open spec fn div_assign_req(&self, o: F64) -> bool { true } uninterp spec fn div_assign_spec(&self, o: F64) -> &F64; }
impl core::ops::DivAssign<F64> for F64 { #[verifier::external_body] fn div_assign(&mut self, o: F64) ensures final(self)@ == ediv(old(self)@, o@) { self.x /= o.x; } }
impl MulAssignSpecImpl<F64> for F64 { open spec fn obeys_mul_assign_spec() -> bool { false } open spec fn mul_assign_req(&self, o: F64) -> bool { true } uninterp spec fn mul_assign_spec(&self, o: F64) -> &F64; }
impl core::ops::MulAssign<F64> for F64 { #[verifier::external_body] fn mul_assign(&mut self, o: F64) ensures final(self)@ == emul(old(self)@, o@) { self.x *= o.x; } }
impl PartialEqSpecImpl<F64> for F64 { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &F64) -> bool { eeq(self@, o@) } }
impl PartialEq<F64> for F64 { #[verifier::external_body] fn eq(&self, o: &F64) -> (r: bool) { self.x == o.x } }
impl PartialOrdSpecImpl<F64> for F64 { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &F64) -> Option<Ordering> { ecmp(self@, o@) } }
impl PartialOrd<F64> for F64 { #[verifier::external_body] fn partial_cmp(&self, o: &F64) -> (r: Option<Ordering>) { self.x.partial_cmp(&o.x) } }
// ---------------------------------------------------------------- error messages are opaque
pub struct Msg;
pub fn msg() -> Msg { Msg }
pub fn map_err_msg<T, E>(x: Result<T, E>) -> (r: Result<T, Msg>) ensures r is Ok == x is Ok, x is Ok ==> r->Ok_0 == x->Ok_0 { match x { Ok(v) => Ok(v), Err(_) => Err(Msg) } }
// a panic is a violated obligation
#[verifier::external_body]
pub fn panic_<T>() -> (r: T) requires false { panic!() }
// ---------------------------------------------------------------- std helpers, verified here
pub fn vec_drain<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() {
    let mut r = Vec::new(); core::mem::swap(v, &mut r); r }
// consuming iteration hands out the elements in order
#[verifier::external_body]
pub fn moved<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::shrink_to_fit](v: &mut Vec<T, A>) ensures final(v)@ == old(v)@;
pub assume_specification<T, A: core::alloc::Allocator> [Vec::<T, A>::reserve_exact](v: &mut Vec<T, A>, n: usize) ensures final(v)@ == old(v)@;
pub fn vec_rep<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x {
    let mut r = Vec::new(); let mut i: usize = 0;
    while i < n invariant i <= n, r@.len() == i, forall|k: int| 0 <= k < i ==> r@[k] == x decreases n - i { r.push(x); i = i + 1; } r }
pub fn vec_resize<T: Copy>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n && i < old(v)@.len() ==> #[trigger] final(v)@[i] == old(v)@[i], forall|i: int| old(v)@.len() <= i < n ==> #[trigger] final(v)@[i] == x {
    let ghost o = v@;
    while v.len() > n invariant o.len() >= v@.len(), v@.len() >= n || v@.len() == o.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == o[i] decreases v@.len() { v.pop(); }
    while v.len() < n invariant v@.len() >= o.len() || v@.len() == n, v@.len() <= n || v@.len() == o.len(), v@.len() <= n || n >= o.len(), forall|i: int| 0 <= i < v@.len() && i < o.len() ==> #[trigger] v@[i] == o[i],
        forall|i: int| o.len() <= i < v@.len() ==> #[trigger] v@[i] == x decreases n - v@.len() { v.push(x); }
}
pub fn vec_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() {
    let mut r = Vec::new(); let ghost o = v@;
    while v.len() > 0 invariant v@.len() <= o.len(), v@ == o.subrange(0, v@.len() as int), r@.len() == o.len() - v@.len(), forall|k: int| 0 <= k < r@.len() ==> r@[k] == o[o.len() - 1 - k] decreases v@.len() { r.push(v.pop().unwrap()); }
    proof { assert(r@ =~= o.reverse()); }
    *v = r;
}
pub fn ord_eq(a: Ordering, b: Ordering) -> (r: bool) ensures r == (a == b) { match (a, b) { (Less, Less) => true, (Equal, Equal) => true, (Greater, Greater) => true, _ => false } }
pub fn opt_ord_eq(a: Option<Ordering>, b: Option<Ordering>) -> (r: bool) ensures r == (a == b) { match (a, b) { (None, None) => true, (Some(x), Some(y)) => ord_eq(x, y), _ => false } }
// vacuity guard: this must NOT verify; check.py demands that it fails
proof fn must_fail_prelude(a: F64, b: F64) ensures a@ == b@ {}
