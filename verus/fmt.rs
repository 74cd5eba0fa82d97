//@include head.rs
use core::ops::{Add, AddAssign, Mul, MulAssign, Div};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.rs
//@include meta.rs
//@include bitgrid.rs
//@include field.rs
//@include gf.rs
//@include gfi.rs
//@include bm.rs
//@include poly.rs
//@include polyev.rs
//@include format.rs
} // verus!
fn main() {}
