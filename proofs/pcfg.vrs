@@include prelude.vrs
@@include str.vrs
@@include simpleid.vrs
@@include files.vrs
@@include cfg_full.vrs
@@include pcfg_fns.vrs
}
fn main() {}
