//@include head.rs
verus! {
global size_of usize == 8;
//@include std.rs
//@include filler.rs
//@include corner_body.rs
} // verus!
fn main() {}
