pub open spec fn is_len(u: GenUnitInfo) -> bool { u is Meters || u is Kilometers }
pub open spec fn is_time(u: GenUnitInfo) -> bool { u is Seconds || u is Minutes || u is Hours }
/// how many base units (metre, second) the unit has
pub open spec fn base(u: GenUnitInfo) -> real { match u { GenUnitInfo::Kilometers => 1000real, GenUnitInfo::Minutes => 60real, GenUnitInfo::Hours => 3600real, _ => 1real } }
pub open spec fn convertible(a: GenUnitInfo, b: GenUnitInfo) -> bool { a == b || a is F64 || b is F64 || is_len(a) && is_len(b) || is_time(a) && is_time(b) }
pub open spec fn converted(a: GenUnitInfo, b: GenUnitInfo, v: real) -> real { if a is F64 || b is F64 { v } else { v * base(a) / base(b) } }
pub open spec fn calculable(t: GenUnitInfo, a: GenUnitInfo, b: GenUnitInfo) -> bool { a is Kilometers && (is_time(t) && b is KilometersPerHour || t is KilometersPerHour && b is Hours) }
