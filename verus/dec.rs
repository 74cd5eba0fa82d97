//@include head.rs
use core::ops::{Add, AddAssign, Mul, MulAssign, Div};
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {
global size_of usize == 8;
//@include std.rs
//@include meta.rs
//@include bits.rs contracts
//@include bitgrid.rs
//@include tables.rs contracts
//@include ecc_table.rs contracts
//@include field.rs contracts
//@include gf.rs contracts
//@include gfi.rs contracts
//@include bm.rs contracts
//@include poly.rs contracts
//@include polyev.rs contracts
//@include block.rs contracts
//@include ecc.rs contracts
//@include format.rs contracts
//@include place_body.rs contracts
//@include payload_body.rs contracts
//@include dec_body.rs
} // verus!
fn main() {}
