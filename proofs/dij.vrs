@@include prelude.vrs
use vstd::multiset::*;
@@include helpers_fns.vrs
@@include cfg_types.vrs
@@include graph_fns.vrs
@@include approx_fns.vrs
@@include dij_fns.vrs
@@include dij_walks.vrs
@@include dij_main.vrs
@@include dij_path.vrs
}
fn main() {}
