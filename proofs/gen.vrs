@@include prelude.vrs
@@include str.vrs
@@include simpleid.vrs
@@include files.vrs
@@include cfg_full.vrs
@@item src/configs/parsing/generating/edges/metrics.rs :: ProtoUnitInfo [derive=Copy, Clone, PartialEq, Eq, Structural]
@@item src/configs/parsing/generating/edges/metrics.rs :: RawUnitInfo [derive=Copy, Clone, PartialEq, Eq, Structural]
@@assume kissunits.vrs
@@include units_spec.vrs
@@assume units_fns.vrs
@@assume graph_fns.vrs
@@include gen_defs.vrs
@@include gen_spec.vrs
@@include gen_fns.vrs
}
fn main() {}
