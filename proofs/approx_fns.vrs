// ---------------------------------------------------------------- src/approximating.rs
@@item src/defaults.rs :: F64_ABS [fconst; mod=accuracy]
@@item src/approximating.rs :: Approx [derive=Clone, Copy]
/// tolerant equality: finite values, rounded difference (in units of the accuracy) at most one
pub open spec fn aeq(a: Ext, b: Ext) -> bool { match (a, b) {
    (Ext::Fin(x), Ext::Fin(y)) => x - y < F64_ABS_r() * 1.5real && y - x < F64_ABS_r() * 1.5real,
    _ => false } }
pub open spec fn acmp(a: Ext, b: Ext) -> Option<Ordering> { if aeq(a, b) { Some(Ordering::Equal) } else { ecmp(a, b) } }
impl F64 {
    // std: half away from zero
    #[verifier::external_body] pub fn round(self) -> (r: F64)
        ensures self@ is Fin ==> exists|k: int| #[trigger] rounds(self@->Fin_0, k) && Ext::Fin(k as real) == r@, !(self@ is Fin) ==> r@ == self@ { F64 { x: self.x.round() } }
}
pub open spec fn rounds(x: real, k: int) -> bool {
    -0.5real <= x - (k as real) <= 0.5real && (x - (k as real) == 0.5real ==> x < 0real) && (x - (k as real) == -0.5real ==> x > 0real) }
proof fn lem_round(x: real, k: int)
    requires rounds(x, k),
    ensures (-1 <= k <= 1) == (-1.5real < x < 1.5real), (k >= 0) == (x > -0.5real), (k == 0) == (-0.5real < x < 0.5real) {}
proof fn lem_scale(d: real, x: real, k: int)
    requires x == d / F64_ABS_r(),
    ensures (-1.5real < x < 1.5real) == (-1.5real * F64_ABS_r() < d < 1.5real * F64_ABS_r()),
        (k as real) * F64_ABS_r() <= F64_ABS_r() ==> k <= 1, k <= 1 ==> (k as real) * F64_ABS_r() <= F64_ABS_r(),
        -((k as real) * F64_ABS_r()) <= F64_ABS_r() ==> k >= -1, k >= -1 ==> -((k as real) * F64_ABS_r()) <= F64_ABS_r(), ((k as real) * F64_ABS_r() < 0real) == (k < 0) {
    assert(F64_ABS_r() > 0real);
    assert(d == x * F64_ABS_r()) by(nonlinear_arith) requires x == d / F64_ABS_r(), F64_ABS_r() > 0real;
    let a = F64_ABS_r(); let kr = k as real;
    assert(-1.5real < x < 1.5real ==> -1.5real * a < x * a < 1.5real * a) by(nonlinear_arith) requires a > 0real;
    assert(-1.5real * a < x * a < 1.5real * a ==> -1.5real < x < 1.5real) by(nonlinear_arith) requires a > 0real;
    assert(kr * a <= a ==> kr <= 1real) by(nonlinear_arith) requires a > 0real;
    assert(kr <= 1real ==> kr * a <= a) by(nonlinear_arith) requires a > 0real;
    assert(-(kr * a) <= a ==> kr >= -1real) by(nonlinear_arith) requires a > 0real;
    assert(kr >= -1real ==> -(kr * a) <= a) by(nonlinear_arith) requires a > 0real;
    assert((kr * a < 0real) == (kr < 0real)) by(nonlinear_arith) requires a > 0real;
}
pub open spec fn in_units(a: Ext, r: Ext) -> bool { match a {
    Ext::Fin(x) => exists|k: int| #[trigger] rounds(x / F64_ABS_r(), k) && Ext::Fin((k as real) * F64_ABS_r()) == r,
    _ => r == a } }
impl Approx<F64> {
@@fn src/approximating.rs :: Approx<f64>::approx [id=f64::approx]
%spec
    ensures in_units(self.0@, r@),
@@end
}
impl PartialEqSpecImpl for Approx<F64> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Approx<F64>) -> bool { aeq(self.0@, o.0@) } }
impl PartialEq for Approx<F64> {
@@fn src/approximating.rs :: Approx<f64> as PartialEq::eq [nopub; id=f64::eq]
%end
        proof {
            if self.0@ is Fin && other.0@ is Fin {
                let d = self.0@->Fin_0 - other.0@->Fin_0; let x = d / F64_ABS_r();
                assert(esub(self.0@, other.0@) == Ext::Fin(d));
                assert forall|k: int| #[trigger] rounds(x, k) implies ((k as real) * F64_ABS_r() <= F64_ABS_r() && -((k as real) * F64_ABS_r()) <= F64_ABS_r()) == (-1 <= k <= 1) && (-1 <= k <= 1) == (-1.5real < x < 1.5real)
                     && ((k as real) * F64_ABS_r() < 0real) == (k < 0) by { lem_round(x, k); lem_scale(d, x, k); }
                lem_scale(d, x, 0);
            }
        }
@@end
}
impl PartialOrdSpecImpl for Approx<F64> { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Approx<F64>) -> Option<Ordering> { acmp(self.0@, o.0@) } }
impl PartialOrd for Approx<F64> {
@@fn src/approximating.rs :: Approx<f64> as PartialOrd::partial_cmp [nopub; id=f64::partial_cmp]
@@end
}
