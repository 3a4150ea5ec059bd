@@include prelude.vrs
@@include str.vrs
@@include simpleid.vrs
@@include files.vrs
@@include cfg_full.vrs
@@include graph_types.vrs
@@include bsearch.vrs
@@include fin_types.vrs
@@include fin_build.vrs
@@include checkcfg.vrs
@@include fmi_fns.vrs
}
fn main() {}
