// ---------------------------------------------------------------- the dependency kissunits, extracted from its vendored source
// std: the reflexive conversion is the identity
pub assume_specification<T>[<T as From<T>>::from](t: T) -> (r: T) ensures r == t;
@@item /opt/vp/vendor/kissunits-2.0.0/src/distance/meters.rs :: Meters [derive=Copy, Clone]
impl std::ops::Deref for Meters { type Target = F64;
@@fn /opt/vp/vendor/kissunits-2.0.0/src/distance/meters.rs :: Meters as Deref::deref [nopub; id=Meters::deref]
%spec
    ensures *r == self.0,
@@end
}
@@item /opt/vp/vendor/kissunits-2.0.0/src/distance/kilometers.rs :: Kilometers [derive=Copy, Clone]
impl std::ops::Deref for Kilometers { type Target = F64;
@@fn /opt/vp/vendor/kissunits-2.0.0/src/distance/kilometers.rs :: Kilometers as Deref::deref [nopub; id=Kilometers::deref]
%spec
    ensures *r == self.0,
@@end
}
@@item /opt/vp/vendor/kissunits-2.0.0/src/time/seconds.rs :: Seconds [derive=Copy, Clone]
impl std::ops::Deref for Seconds { type Target = F64;
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/seconds.rs :: Seconds as Deref::deref [nopub; id=Seconds::deref]
%spec
    ensures *r == self.0,
@@end
}
@@item /opt/vp/vendor/kissunits-2.0.0/src/time/minutes.rs :: Minutes [derive=Copy, Clone]
impl std::ops::Deref for Minutes { type Target = F64;
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/minutes.rs :: Minutes as Deref::deref [nopub; id=Minutes::deref]
%spec
    ensures *r == self.0,
@@end
}
@@item /opt/vp/vendor/kissunits-2.0.0/src/time/hours.rs :: Hours [derive=Copy, Clone]
impl std::ops::Deref for Hours { type Target = F64;
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/hours.rs :: Hours as Deref::deref [nopub; id=Hours::deref]
%spec
    ensures *r == self.0,
@@end
}
@@item /opt/vp/vendor/kissunits-2.0.0/src/speed/kilometers_per_hour.rs :: KilometersPerHour [derive=Copy, Clone]
impl std::ops::Deref for KilometersPerHour { type Target = F64;
@@fn /opt/vp/vendor/kissunits-2.0.0/src/speed/kilometers_per_hour.rs :: KilometersPerHour as Deref::deref [nopub; id=KilometersPerHour::deref]
%spec
    ensures *r == self.0,
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<Meters> for Kilometers { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Meters) -> Kilometers; }
impl From<Meters> for Kilometers {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/distance/kilometers.rs :: Kilometers as From<Meters>::from [nopub; id=Kilometers::fromMeters]
%spec
    ensures r.0@ == ediv(meters.0@, Ext::Fin(1000real)),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<Kilometers> for Meters { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Kilometers) -> Meters; }
impl From<Kilometers> for Meters {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/distance/meters.rs :: Meters as From<Kilometers>::from [nopub; id=Meters::fromKilometers]
%spec
    ensures r.0@ == emul(kilometers.0@, Ext::Fin(1000real)),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<Minutes> for Seconds { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Minutes) -> Seconds; }
impl From<Minutes> for Seconds {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/seconds.rs :: Seconds as From<Minutes>::from [nopub; id=Seconds::fromMinutes]
%spec
    ensures r.0@ == emul(minutes.0@, Ext::Fin(60real)),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<Hours> for Seconds { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Hours) -> Seconds; }
impl From<Hours> for Seconds {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/seconds.rs :: Seconds as From<Hours>::from [nopub; id=Seconds::fromHours]
%spec
    ensures r.0@ == emul(hours.0@, Ext::Fin(3600real)),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<Seconds> for Minutes { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Seconds) -> Minutes; }
impl From<Seconds> for Minutes {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/minutes.rs :: Minutes as From<Seconds>::from [nopub; id=Minutes::fromSeconds]
%spec
    ensures r.0@ == ediv(seconds.0@, Ext::Fin(60real)),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<Hours> for Minutes { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Hours) -> Minutes; }
impl From<Hours> for Minutes {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/minutes.rs :: Minutes as From<Hours>::from [nopub; id=Minutes::fromHours]
%spec
    ensures r.0@ == emul(hours.0@, Ext::Fin(60real)),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<Seconds> for Hours { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Seconds) -> Hours; }
impl From<Seconds> for Hours {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/hours.rs :: Hours as From<Seconds>::from [nopub; id=Hours::fromSeconds]
%spec
    ensures r.0@ == ediv(seconds.0@, Ext::Fin(3600real)),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<Minutes> for Hours { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: Minutes) -> Hours; }
impl From<Minutes> for Hours {
@@fn /opt/vp/vendor/kissunits-2.0.0/src/time/hours.rs :: Hours as From<Minutes>::from [nopub; id=Hours::fromMinutes]
%spec
    ensures r.0@ == ediv(minutes.0@, Ext::Fin(60real)),
@@end
}
impl DivSpecImpl<Hours> for Kilometers { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: Hours) -> bool { true } uninterp spec fn div_spec(self, o: Hours) -> KilometersPerHour; }
impl core::ops::Div<Hours> for Kilometers { type Output = KilometersPerHour;
@@fn /opt/vp/vendor/kissunits-2.0.0/src/distance/kilometers.rs :: Kilometers as Div<Hours>::div [nopub; id=Kilometers::divHours]
%spec
    ensures r.0@ == ediv(self.0@, duration.0@),
@@end
}
impl DivSpecImpl<KilometersPerHour> for Kilometers { open spec fn obeys_div_spec() -> bool { false } open spec fn div_req(self, o: KilometersPerHour) -> bool { true } uninterp spec fn div_spec(self, o: KilometersPerHour) -> Hours; }
impl core::ops::Div<KilometersPerHour> for Kilometers { type Output = Hours;
@@fn /opt/vp/vendor/kissunits-2.0.0/src/distance/kilometers.rs :: Kilometers as Div<KilometersPerHour>::div [nopub; id=Kilometers::divKilometersPerHour]
%spec
    ensures r.0@ == ediv(self.0@, speed.0@),
@@end
}
