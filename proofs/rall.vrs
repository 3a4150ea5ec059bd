@@include prelude.vrs
use vstd::multiset::*;
@@include str.vrs
@@include files.vrs
@@assume helpers_fns.vrs
@@include cfg_types.vrs
@@assume graph_fns.vrs
@@assume approx_fns.vrs
@@assume dij_fns.vrs
@@assume dij_walks.vrs
@@assume dij_main.vrs
@@assume dij_path.vrs
@@include out.vrs
@@include rall_fns.vrs
}
fn main() {}
