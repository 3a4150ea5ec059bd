@@include prelude.vrs
@@include str.vrs
@@include simpleid.vrs
@@include files.vrs
@@include kissunits.vrs
@@include cfg_full.vrs
@@include graph_types.vrs
@@include bsearch.vrs
@@include fin_types.vrs
@@include fin_build.vrs
@@include checkcfg.vrs
@@assume tags_fns.vrs
@@include pbf_fns.vrs
}
fn main() {}
