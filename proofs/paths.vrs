@@include prelude.vrs
@@include helpers_fns.vrs
@@include cfg_types.vrs
@@include graph_fns.vrs
@@include paths_fns.vrs
@@include paths_lemmas.vrs
}
fn main() {}
