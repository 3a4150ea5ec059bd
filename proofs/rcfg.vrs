@@include prelude.vrs
@@include str.vrs
@@include simpleid.vrs
@@include rcfg_fns.vrs
}
fn main() {}
