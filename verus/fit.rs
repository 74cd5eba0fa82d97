//@include head.rs
use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*;
use core::ops::*;
verus! {
global size_of usize == 8;
//@include reals.rs
//@include std.rs
//@include tables.rs
//@include geo_body.rs contracts
//@include lru.rs
//@include image.rs
//@include timing.rs contracts
//@include opaque_persp.rs
//@include fit_body.rs
} // verus!
fn main() {}
