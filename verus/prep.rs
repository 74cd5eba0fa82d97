//@include head.rs
verus! {
global size_of usize == 8;
//@include std.rs
//@include lru.rs
//@include image.rs
//@include buffer_body.rs
//@include adapter_body.rs
//@include prepare_body.rs
} // verus!
fn main() {}
