//@include head.rs
verus! {
global size_of usize == 8;
//@include std.rs
//@include lru.rs
//@include image.rs
//@include filler.rs
//@include fill_body.rs contracts
//@include region_body.rs
} // verus!
fn main() {}
