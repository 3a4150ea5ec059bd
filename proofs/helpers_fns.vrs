// ---------------------------------------------------------------- src/helpers/mod.rs
pub open spec fn vsum(a: Seq<F64>, b: Seq<F64>, r: Seq<F64>) -> bool {
    r.len() == (if a.len() <= b.len() { a.len() } else { b.len() }) && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i])@ == eadd(a[i]@, b[i]@) }
/// alpha_0*m_0 + alpha_1*m_1 + .. over the first n components, summed from the left
pub open spec fn dot(a: Seq<F64>, b: Seq<F64>, n: int) -> Ext decreases n {
    if n <= 0 { Ext::Fin(0real) } else { eadd(dot(a, b, n - 1), emul(a[n - 1]@, b[n - 1]@)) } }
@@fn src/helpers/mod.rs :: add
%ty 0 Vec<F64>
%spec
    ensures vsum(a@, b@, r@),
%loop 0
        invariant i_0 <= a.len(), i_0 <= b.len(), r_0@.len() == i_0,
            forall|i: int| 0 <= i < i_0 ==> (#[trigger] r_0@[i])@ == eadd(a@[i]@, b@[i]@),
        decreases a.len() - i_0,
@@end
@@fn src/helpers/mod.rs :: add_assign
%spec
    ensures final(a)@.len() == old(a)@.len(),
        forall|i: int| 0 <= i < old(a)@.len() && i < b@.len() ==> (#[trigger] final(a)@[i])@ == eadd(old(a)@[i]@, b@[i]@),
        forall|i: int| b@.len() <= i < old(a)@.len() ==> final(a)@[i] == old(a)@[i],
%loop 0
        invariant a@.len() == old(a)@.len(), i_0 <= a@.len(), i_0 <= b@.len(),
            forall|i: int| 0 <= i < i_0 ==> (#[trigger] a@[i])@ == eadd(old(a)@[i]@, b@[i]@),
            forall|i: int| i_0 <= i < a@.len() ==> a@[i] == old(a)@[i],
        decreases a@.len() - i_0,
@@end
@@fn src/helpers/mod.rs :: sub
%ty 0 Vec<F64>
%spec
    ensures r@.len() == (if a@.len() <= b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == esub(a@[i]@, b@[i]@),
%loop 0
        invariant i_0 <= a.len(), i_0 <= b.len(), r_0@.len() == i_0,
            forall|i: int| 0 <= i < i_0 ==> (#[trigger] r_0@[i])@ == esub(a@[i]@, b@[i]@),
        decreases a.len() - i_0,
@@end
@@fn src/helpers/mod.rs :: dot_product
%spec
    ensures r@ == dot(a@, b@, if a@.len() <= b@.len() { a@.len() as int } else { b@.len() as int }),
%loop 0
        invariant i_0 <= a.len(), i_0 <= b.len(), r_0@ == dot(a@, b@, i_0 as int),
        decreases a.len() - i_0,
@@end
@@fn src/helpers/mod.rs :: le
%spec
    ensures r == (forall|i: int| 0 <= i < a@.len() && i < b@.len() ==> ele(#[trigger] a@[i]@, b@[i]@)),
%loop 0
        invariant i_0 <= a.len(), i_0 <= b.len(), r_0 == (forall|i: int| 0 <= i < i_0 ==> ele(#[trigger] a@[i]@, b@[i]@)),
        decreases a.len() - i_0,
@@end
