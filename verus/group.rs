//@include head.rs
use vstd::std_specs::ops::*; use vstd::std_specs::cmp::*;
use core::ops::*;
verus! {
global size_of usize == 8;
//@include reals.rs
//@include std.rs
//@include stdsum.rs
//@include geo_body.rs contracts
//@include lru.rs
//@include image.rs
//@include timing.rs contracts
//@include filler.rs
//@include fill_body.rs contracts
//@include region_body.rs contracts
//@include line_body.rs contracts
//@include corner_body.rs contracts
//@include pixel.rs contracts
//@include dark_body.rs contracts
//@include opaque_persp.rs
//@include tables.rs
//@include finder_body.rs contracts
//@include fit_body.rs contracts
//@include loc_body.rs contracts
//@include copy_body.rs
//@include group_body.rs
} // verus!
fn main() {}
