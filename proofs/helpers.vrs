@@include prelude.vrs
@@include helpers_fns.vrs
}
fn main() {}
