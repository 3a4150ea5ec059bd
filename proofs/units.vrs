@@include prelude.vrs
@@include kissunits.vrs
@@item src/configs/parsing/generating/edges/metrics.rs :: UnitInfo [as=GenUnitInfo; derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/edges/metrics.rs :: ProtoUnitInfo [derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/edges/metrics.rs :: RawUnitInfo [derive=Copy, Clone, PartialEq, Eq, Structural]
@@include units_spec.vrs
@@include units_fns.vrs
@@include units_parse.vrs
}
fn main() {}
