//@include head.rs
verus! {
global size_of usize == 8;
//@include std.rs
//@include stdsum.rs
//@include line_body.rs
} // verus!
fn main() {}
