@@include prelude.vrs
@@include cfg_types.vrs
@@include graph_fns.vrs
@@include graph_routes.vrs
}
fn main() {}
