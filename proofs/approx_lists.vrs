impl Approx<F64> {
@@fn src/approximating.rs :: Approx<f64> as Ord::cmp [id=f64::cmp; as=total_cmp]
%spec
    requires !(self.0@ is NaN), !(other.0@ is NaN),
    ensures Some(r) == acmp(self.0@, other.0@),
@@end
}
impl<'a> PartialEqSpecImpl for Approx<&'a F64> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Approx<&'a F64>) -> bool { aeq(self.0@, o.0@) } }
impl<'a> PartialEq for Approx<&'a F64> {
@@fn src/approximating.rs :: Approx<&T> as PartialEq::eq [nopub; id=ref::eq; map=T>F64]
@@end
}
impl<'a> PartialOrdSpecImpl for Approx<&'a F64> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Approx<&'a F64>) -> Option<Ordering> { acmp(self.0@, o.0@) } }
impl<'a> PartialOrd for Approx<&'a F64> {
@@fn src/approximating.rs :: Approx<&T> as PartialOrd::partial_cmp [nopub; id=ref::partial_cmp; map=T>F64]
@@end
}
impl PartialEqSpecImpl for Approx<Option<F64>> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Approx<Option<F64>>) -> bool {
    match (self.0, o.0) { (None, None) => true, (Some(a), Some(b)) => aeq(a@, b@), _ => false } } }
impl PartialEq for Approx<Option<F64>> {
@@fn src/approximating.rs :: Approx<Option<T>> as PartialEq::eq [nopub; id=option::eq; map=T>F64]
@@end
}
impl PartialOrdSpecImpl for Approx<Option<F64>> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Approx<Option<F64>>) -> Option<Ordering> {
    match (self.0, o.0) { (None, None) => Some(Ordering::Equal), (None, Some(_)) => Some(Ordering::Less), (Some(_), None) => Some(Ordering::Greater), (Some(a), Some(b)) => acmp(a@, b@) } } }
impl PartialOrd for Approx<Option<F64>> {
@@fn src/approximating.rs :: Approx<Option<T>> as PartialOrd::partial_cmp [nopub; id=option::partial_cmp; map=T>F64]
@@end
}
pub open spec fn all_eq(a: Seq<F64>, b: Seq<F64>) -> bool { forall|i: int| 0 <= i < a.len() && i < b.len() ==> aeq((#[trigger] a[i])@, b[i]@) }
pub open spec fn all_le(a: Seq<F64>, b: Seq<F64>) -> bool { forall|i: int| 0 <= i < a.len() && i < b.len() ==> acmp((#[trigger] a[i])@, b[i]@) != Some(Ordering::Greater) }
pub open spec fn all_ge(a: Seq<F64>, b: Seq<F64>) -> bool { forall|i: int| 0 <= i < a.len() && i < b.len() ==> acmp((#[trigger] a[i])@, b[i]@) != Some(Ordering::Less) }
#[verifier::external_body] pub fn vec_next<T>(v: &mut Vec<T>) -> (r: Option<T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> r == Some(old(v)@[0]) && final(v)@ == old(v)@.subrange(1, old(v)@.len() as int) { if v.is_empty() { None } else { Some(v.remove(0)) } }
pub fn same_order(a: Option<Ordering>, b: Option<Ordering>) -> (r: bool) ensures r == (a == b)
{ match (a, b) { (None, None) | (Some(Ordering::Less), Some(Ordering::Less)) | (Some(Ordering::Equal), Some(Ordering::Equal)) | (Some(Ordering::Greater), Some(Ordering::Greater)) => true, _ => false } }
pub fn any_other(v: &Vec<Option<Ordering>>, x: Option<Ordering>) -> (r: bool) ensures r == exists|i: int| 0 <= i < v@.len() && #[trigger] v@[i] != x
{
    let mut i = 0;
    while i < v.len() invariant i <= v@.len(), forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == x decreases v@.len() - i
    { if !same_order(v[i], x) { return true; } i = i + 1; }
    false
}
/// how lists compare: like all their components, if those compare alike
pub open spec fn list_cmp(a: Seq<F64>, b: Seq<F64>) -> Option<Ordering> {
    if a.len() == 0 || b.len() == 0 { None }
    else if forall|i: int| 0 <= i < a.len() && i < b.len() ==> acmp((#[trigger] a[i])@, b[i]@) == acmp(a[0]@, b[0]@) { acmp(a[0]@, b[0]@) } else { None } }
impl<'a> PartialEqSpecImpl for Approx<&'a [F64]> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Approx<&'a [F64]>) -> bool { all_eq(self.0@, o.0@) } }
impl<'a> PartialEq for Approx<&'a [F64]> {
@@fn src/approximating.rs :: Approx<&[T]> as PartialEq::eq [nopub; id=slice::eq; map=T>F64]
%ty 0 bool
%loop 0
        invariant i_0 <= self.0@.len(), i_0 <= other.0@.len(), r_0 == (forall|i: int| 0 <= i < i_0 ==> aeq((#[trigger] self.0@[i])@, other.0@[i]@)),
        decreases self.0@.len() - i_0,
@@end
}
impl<'a> Approx<&'a [F64]> {
@@fn src/approximating.rs :: Approx<&[T]> as PartialOrd::le [id=slice::le; map=T>F64]
%spec
    ensures r == all_le(self.0@, other.0@),
%loop 0
        invariant i_0 <= self.0@.len(), i_0 <= other.0@.len(), forall|i: int| 0 <= i < i_0 ==> acmp((#[trigger] self.0@[i])@, other.0@[i]@) != Some(Ordering::Greater),
        decreases self.0@.len() - i_0,
@@end
@@fn src/approximating.rs :: Approx<&[T]> as PartialOrd::ge [id=slice::ge; map=T>F64]
%spec
    ensures r == all_ge(self.0@, other.0@),
%loop 0
        invariant i_0 <= self.0@.len(), i_0 <= other.0@.len(), forall|i: int| 0 <= i < i_0 ==> acmp((#[trigger] self.0@[i])@, other.0@[i]@) != Some(Ordering::Less),
        decreases self.0@.len() - i_0,
@@end
@@fn src/approximating.rs :: Approx<&[T]> as PartialOrd::partial_cmp [id=slice::partial_cmp; eager; map=T>F64]
%rw: iterator.next() => vec_next(&mut iterator)
%rw: iterator.any(|cmp_i| cmp_0 != cmp_i) => any_other(&iterator, cmp_0)
%loop 0
        invariant i_0 <= self.0@.len(), i_0 <= other.0@.len(), r_0@.len() == i_0, forall|i: int| 0 <= i < i_0 ==> #[trigger] r_0@[i] == acmp(self.0@[i]@, other.0@[i]@),
        decreases self.0@.len() - i_0,
%before: if iterator.any(|cmp_i| cmp_0 != cmp_i)
    proof {
        let (a, b) = (self.0@, other.0@);
        assert forall|i: int| 0 <= i < iterator@.len() implies #[trigger] iterator@[i] == acmp(a[i + 1]@, b[i + 1]@) by {}
        assert forall|i: int| 1 <= i < a.len() && i < b.len() implies acmp((#[trigger] a[i])@, b[i]@) == iterator@[i - 1] by {}
    }
%spec
    ensures r == list_cmp(self.0@, other.0@),
@@end
}
impl<'a> Approx<&'a Vec<F64>> {
@@fn src/approximating.rs :: Approx<&SmallVec<A>> as PartialOrd::partial_cmp [id=smallvec::partial_cmp; as=vec_cmp; map=A>F64]
%spec
    ensures r == list_cmp(self.0@, other.0@),
@@end
@@fn src/approximating.rs :: Approx<&SmallVec<A>> as PartialOrd::le [id=smallvec::le; as=vec_le; map=A>F64]
%spec
    ensures r == all_le(self.0@, other.0@),
@@end
@@fn src/approximating.rs :: Approx<&SmallVec<A>> as PartialOrd::ge [id=smallvec::ge; as=vec_ge; map=A>F64]
%spec
    ensures r == all_ge(self.0@, other.0@),
@@end
@@fn src/approximating.rs :: Approx<&SmallVec<A>> as PartialEq::eq [id=smallvec::eq; as=vec_eq; map=A>F64]
%spec
    ensures r == all_eq(self.0@, other.0@),
@@end
}
// ---------------------------------------------------------------- the property, as lemmas over the contracts above
proof fn c17_close_is_equal(a: Ext, b: Ext)
    requires a is Fin, b is Fin, -F64_ABS_r() <= a->Fin_0 - b->Fin_0 <= F64_ABS_r(),
    ensures aeq(a, b), acmp(a, b) == Some(Ordering::Equal) {}
proof fn c17_far_is_plain(a: Ext, b: Ext)
    requires a is Fin, b is Fin, a->Fin_0 - b->Fin_0 >= 2real * F64_ABS_r() || b->Fin_0 - a->Fin_0 >= 2real * F64_ABS_r(),
    ensures !aeq(a, b), acmp(a, b) == ecmp(a, b) {}
proof fn c17_equivalence_like(a: Ext, b: Ext)
    requires a is Fin, b is Fin,
    ensures aeq(a, a), aeq(a, b) == aeq(b, a), acmp(a, b) is Some,
        (acmp(a, b) == Some(Ordering::Equal)) == aeq(a, b),
        (acmp(a, b) == Some(Ordering::Less)) == (acmp(b, a) == Some(Ordering::Greater)) {}
proof fn c17_lists(a: Seq<F64>, b: Seq<F64>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ is Fin && b[i]@ is Fin,
    ensures all_eq(a, b) ==> all_le(a, b) && all_ge(a, b),
        all_eq(a, b) == all_eq(b, a), all_le(a, b) == all_ge(b, a),
{
    assert forall|i: int| 0 <= i < a.len() implies aeq(b[i]@, a[i]@) == aeq((#[trigger] a[i])@, b[i]@) by { c17_equivalence_like(a[i]@, b[i]@); }
    assert forall|i: int| 0 <= i < a.len() implies aeq(a[i]@, b[i]@) == aeq((#[trigger] b[i])@, a[i]@) by { c17_equivalence_like(a[i]@, b[i]@); }
    assert forall|i: int| 0 <= i < a.len() implies (acmp(b[i]@, a[i]@) != Some(Ordering::Less)) == (acmp((#[trigger] a[i])@, b[i]@) != Some(Ordering::Greater)) by { c17_equivalence_like(a[i]@, b[i]@); }
    assert forall|i: int| 0 <= i < a.len() implies (acmp((#[trigger] b[i])@, a[i]@) != Some(Ordering::Less)) == (acmp(a[i]@, b[i]@) != Some(Ordering::Greater)) by { c17_equivalence_like(a[i]@, b[i]@); }
}
proof fn must_fail_approx(a: Ext, b: Ext, c: Ext) requires aeq(a, b), aeq(b, c) ensures aeq(a, c) {}
