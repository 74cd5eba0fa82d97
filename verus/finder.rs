//@include head.rs
use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*;
use core::ops::*;
verus! {
global size_of usize == 8;
//@include reals.rs
//@include std.rs
//@include stdsum.rs
//@include lru.rs
//@include image.rs
//@include filler.rs
//@include fill_body.rs contracts
//@include region_body.rs contracts
//@include line_body.rs contracts
//@include corner_body.rs contracts
//@include pixel.rs
//@include dark_body.rs
//@include opaque_persp.rs
//@include finder_body.rs
} // verus!
fn main() {}
