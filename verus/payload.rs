//@include head.rs
verus! {
global size_of usize == 8;
//@include std.rs
//@include meta.rs
//@include bits.rs
//@include payload_body.rs
} // verus!
fn main() {}
