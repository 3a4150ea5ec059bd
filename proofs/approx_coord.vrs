// ---------------------------------------------------------------- coordinates: component-wise
@@item /opt/vp/vendor/kissunits-2.0.0/src/geo.rs :: Coordinate [derive=Clone, Copy]
impl Approx<Coordinate> {
@@fn src/approximating.rs :: Approx<Coordinate>::approx [id=coordinate::approx]
%spec
    ensures in_units(self.0.lat@, r.lat@), in_units(self.0.lon@, r.lon@),
@@end
}
pub open spec fn coord_eq(a: Coordinate, b: Coordinate) -> bool { aeq(a.lat@, b.lat@) && aeq(a.lon@, b.lon@) }
impl PartialEqSpecImpl for Approx<Coordinate> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Approx<Coordinate>) -> bool { coord_eq(self.0, o.0) } }
impl PartialEq for Approx<Coordinate> {
@@fn src/approximating.rs :: Approx<Coordinate> as PartialEq::eq [nopub; id=coordinate::eq]
@@end
}
