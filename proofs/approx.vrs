@@include prelude.vrs
@@include approx_fns.vrs
@@include approx_lists.vrs
@@include approx_coord.vrs
}
fn main() {}
