//@include prelude.vrs
//@include buffer.vrs
//@include thm_buffer.vrs
fn main() {}
} // verus!
