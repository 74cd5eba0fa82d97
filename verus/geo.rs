//@include head.rs
verus! {
global size_of usize == 8;
//@include std.rs
//@include geo_body.rs
//@include lru.rs
//@include image.rs
//@include timing.rs
} // verus!
fn main() {}
