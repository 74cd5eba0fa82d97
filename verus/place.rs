//@include head.rs
verus! {
global size_of usize == 8;
//@include std.rs
//@include tables.rs
//@include meta.rs
//@include bits.rs
//@include bitgrid.rs
//@include place_body.rs
} // verus!
fn main() {}
