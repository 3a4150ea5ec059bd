@@include prelude.vrs
@@include str.vrs
@@include files.vrs
@@include wcfg_fns.vrs
}
fn main() {}
