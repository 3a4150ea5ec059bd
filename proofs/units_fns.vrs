// ---------------------------------------------------------------- src/configs/parsing/generating/edges/metrics.rs
proof fn lem_factors(v: real)
    ensures v * 1000real / 1real == v * 1000real, v * 1real / 1000real == v / 1000real, v * 1000real / 1000real == v,
        v * 1real / 60real == v / 60real, v * 1real / 3600real == v / 3600real, v * 60real / 60real == v, v * 60real / 3600real == v / 60real, v * 3600real / 60real == v * 60real, v * 3600real / 3600real == v, v * 1real / 1real == v {}
impl GenUnitInfo {
@@fn src/configs/parsing/generating/edges/metrics.rs :: UnitInfo::try_convert [map=UnitInfo>GenUnitInfo]
%spec
    ensures r is Ok == convertible(*self, *to),
        r is Ok && raw_value@ is Fin ==> r->Ok_0@ == Ext::Fin(converted(*self, *to, raw_value@->Fin_0)),
        r is Ok && (*self == *to || *self is F64 || *to is F64) ==> r->Ok_0 == raw_value,
%start
        proof { if raw_value@ is Fin { lem_factors(raw_value@->Fin_0); } }
@@end
@@fn src/configs/parsing/generating/edges/metrics.rs :: UnitInfo::try_calc [map=UnitInfo>GenUnitInfo]
%spec
    ensures r is Ok == calculable(*self, *unit_a, *unit_b),
        r is Ok && is_time(*self) ==> r->Ok_0@ == emul(ediv(raw_a@, raw_b@), Ext::Fin(3600real / base(*self))) || (*self is Hours && r->Ok_0@ == ediv(raw_a@, raw_b@)),
        r is Ok && *self is KilometersPerHour ==> r->Ok_0@ == ediv(raw_a@, raw_b@),
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<ProtoUnitInfo> for GenUnitInfo { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: ProtoUnitInfo) -> GenUnitInfo; }
impl From<ProtoUnitInfo> for GenUnitInfo {
@@fn src/configs/parsing/generating/edges/metrics.rs :: UnitInfo as From<ProtoUnitInfo>::from [map=UnitInfo>GenUnitInfo; nopub; id=UnitInfo::from]
%spec
    ensures proto_unit is Meters ==> r is Meters, proto_unit is Kilometers ==> r is Kilometers, proto_unit is Seconds ==> r is Seconds, proto_unit is Minutes ==> r is Minutes, proto_unit is Hours ==> r is Hours, proto_unit is KilometersPerHour ==> r is KilometersPerHour, proto_unit is LaneCount ==> r is LaneCount, proto_unit is F64 ==> r is F64,
@@end
}
impl vstd::std_specs::convert::FromSpecImpl<RawUnitInfo> for ProtoUnitInfo { open spec fn obeys_from_spec() -> bool { false } uninterp spec fn from_spec(v: RawUnitInfo) -> ProtoUnitInfo; }
impl From<RawUnitInfo> for ProtoUnitInfo {
@@fn src/configs/parsing/generating/edges/metrics.rs :: ProtoUnitInfo as From<RawUnitInfo>::from [map=UnitInfo>GenUnitInfo; nopub; id=ProtoUnitInfo::from]
%spec
    ensures raw_unit is Meters ==> r is Meters, raw_unit is Kilometers ==> r is Kilometers, raw_unit is Seconds ==> r is Seconds, raw_unit is Minutes ==> r is Minutes, raw_unit is Hours ==> r is Hours, raw_unit is KilometersPerHour ==> r is KilometersPerHour, raw_unit is LaneCount ==> r is LaneCount, raw_unit is F64 ==> r is F64,
@@end
}
proof fn must_fail_units(a: GenUnitInfo, b: GenUnitInfo) requires convertible(a, b) ensures a == b {}
