@@include prelude.vrs
@@include str.vrs
@@include files.vrs
@@include routes_fns.vrs
}
fn main() {}
