//@include attr.vrs
//@include gen.vrs
//@include make.vrs
fn main() {}
} // verus!
