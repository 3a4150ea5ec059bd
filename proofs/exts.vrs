@@include prelude.vrs
@@include str.vrs
@@include files.vrs
@@include exts_fns.vrs
}
fn main() {}
