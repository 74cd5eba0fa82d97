#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_assignments, unused_parens, unused_braces, unused_must_use, non_snake_case)]
#![verifier::loop_isolation(false)]
#![verifier::allow_complex_invariants]
use vstd::prelude::*;
use std::{cmp, mem};
