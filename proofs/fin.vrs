@@include prelude.vrs
@@include str.vrs
@@include simpleid.vrs
@@include files.vrs
@@include helpers_fns.vrs
@@include cfg_full.vrs
@@include units_spec.vrs
@@include graph_fns.vrs
@@include approx_fns.vrs
@@include approx_lists.vrs
@@include fin_types.vrs
@@include gen_defs.vrs
@@include gen_spec.vrs
@@include fin_fns.vrs
@@include fin_gen_stub.vrs
@@include fin_build.vrs
@@include fin_glue.vrs
}
fn main() {}
