//@include head.rs
verus! {
global size_of usize == 8;
//@include std.rs
//@include bitgrid.rs
//@include grid_body.rs
//@include lru.rs
//@include image.rs
//@include buffer_body.rs
//@include bitmap_body.rs
} // verus!
fn main() {}
