//@include prelude.vrs
//@include buffer.vrs
//@include parse.vrs
//@include impls.vrs
fn main() {}
} // verus!
