// ---------------------------------------------------------------- src/configs/parsing/edges/metrics.rs: the units of columns convert alike
@@item src/configs/parsing/edges/metrics.rs :: UnitInfo [as=ColUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
pub open spec fn same_unit(u: ColUnitInfo) -> GenUnitInfo { match u {
    ColUnitInfo::Meters => GenUnitInfo::Meters, ColUnitInfo::Kilometers => GenUnitInfo::Kilometers, ColUnitInfo::Seconds => GenUnitInfo::Seconds, ColUnitInfo::Minutes => GenUnitInfo::Minutes,
    ColUnitInfo::Hours => GenUnitInfo::Hours, ColUnitInfo::KilometersPerHour => GenUnitInfo::KilometersPerHour, ColUnitInfo::LaneCount => GenUnitInfo::LaneCount, ColUnitInfo::F64 => GenUnitInfo::F64 } }
impl ColUnitInfo {
@@fn src/configs/parsing/edges/metrics.rs :: UnitInfo::try_convert [map=UnitInfo>ColUnitInfo; id=ColUnitInfo::try_convert]
%spec
    ensures r is Ok == convertible(same_unit(*self), same_unit(*to)),
        r is Ok && raw_value@ is Fin ==> r->Ok_0@ == Ext::Fin(converted(same_unit(*self), same_unit(*to), raw_value@->Fin_0)),
        r is Ok && (*self == *to || *self is F64 || *to is F64) ==> r->Ok_0 == raw_value,
%start
        proof { if raw_value@ is Fin { lem_factors(raw_value@->Fin_0); } }
@@end
@@fn src/configs/parsing/edges/metrics.rs :: UnitInfo::convert [map=UnitInfo>ColUnitInfo; id=ColUnitInfo::convert]
%spec
    requires convertible(same_unit(*self), same_unit(*to)),      // documented: panics otherwise
    ensures raw_value@ is Fin ==> r@ == Ext::Fin(converted(same_unit(*self), same_unit(*to), raw_value@->Fin_0)),
        (*self == *to || *self is F64 || *to is F64) ==> r == raw_value,
@@end
}
