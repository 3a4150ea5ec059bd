@@include prelude.vrs
@@include str.vrs
@@include kissunits.vrs
@@include vehicles.vrs
@@include tags_fns.vrs
}
fn main() {}
