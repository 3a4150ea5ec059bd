@@include prelude.vrs
@@include str.vrs
@@include simpleid.vrs
@@include files.vrs
@@include cfg_full.vrs
@@include graph_fns.vrs
@@include out.vrs
@@include write_fns.vrs
}
fn main() {}
