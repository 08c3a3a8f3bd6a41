//@include prelude.vrs
//@include buffer.vrs
//@include thm_buffer.vrs
//@include parse.vrs
//@include impls.vrs
//@include text.vrs
//@include bytes.vrs
//@include vec.vrs
//@include thm_parse.vrs
//@include derive_lib.vrs
fn main() {}
} // verus!
