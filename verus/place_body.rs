// ------------------------------------------------------------------ masks (ISO/IEC 18004 table 10; i row, j column)
spec fn iso_mask(m: int, i: int, j: int) -> bool {
    if m == 0 { (i + j) % 2 == 0 }
    else if m == 1 { i % 2 == 0 }
    else if m == 2 { j % 3 == 0 }
    else if m == 3 { (i + j) % 3 == 0 }
    else if m == 4 { (i / 2 + j / 3) % 2 == 0 }
    else if m == 5 { (i * j) % 2 + (i * j) % 3 == 0 }
    else if m == 6 { ((i * j) % 2 + (i * j) % 3) % 2 == 0 }
    else { ((i * j) % 3 + (i + j) % 2) % 2 == 0 }
}

//@fn src/decode.rs mask_bit
//@ret r
//@sig
    requires mask < 8, y < 256, x < 256
    ensures r == iso_mask(mask as int, y as int, x as int)
//@start
    proof { assert(0 <= y * x < 65536) by (nonlinear_arith) requires 0 <= y < 256, 0 <= x < 256; }
//@endfn

// ------------------------------------------------------------------ function modules
spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
/// module (y, x) belongs to alignment pattern number (a, b)
spec fn in_apat(v: int, y: int, x: int, a: int, b: int) -> bool {
    0 <= a < iso_napat(v) && 0 <= b < iso_napat(v) && iabs(iso_apat(v, a) - y) <= 2 && iabs(iso_apat(v, b) - x) <= 2
}
/// finder patterns, separators and format information; timing; version information; alignment patterns
spec fn iso_function(v: int, y: int, x: int) -> bool {
    let s = 17 + 4 * v;
    ||| y <= 8 && x <= 8
    ||| y >= s - 8 && x <= 8
    ||| y <= 8 && x >= s - 8
    ||| y == 6 || x == 6
    ||| v >= 7 && (y <= 5 && x >= s - 11 || y >= s - 11 && x <= 5)
    ||| iso_align(v, y, x)
}
#[verifier::opaque]
spec fn iso_align(v: int, y: int, x: int) -> bool {
    exists|a: int, b: int| #[trigger] in_apat(v, y, x, a, b)
            && !(a == 0 && b == 0) && !(a == 0 && b == iso_napat(v) - 1) && !(a == iso_napat(v) - 1 && b == 0)
}
proof fn align_decide(v: int, i: int, j: int, ai: Option<usize>, aj: Option<usize>)
    requires 1 <= v <= 40, nearest(ai, v, iso_napat(v), i), nearest(aj, v, iso_napat(v), j)
    ensures iso_align(v, i, j) == (match (ai, aj) {
        (Some(p), Some(q)) => !(p == 0 && q == 0) && !(p == 0 && q == iso_napat(v) - 1) && !(p == iso_napat(v) - 1 && q == 0),
        _ => false,
    })
{
    reveal(iso_align);
    if let (Some(p), Some(q)) = (ai, aj) {
        assert(in_apat(v, i, j, p as int, q as int));
        assert forall|c: int, d: int| #[trigger] in_apat(v, i, j, c, d) implies c == p && d == q by {
            if c < p { apat_far(v, c, p as int); } else if c > p { apat_far(v, p as int, c); }
            if d < q { apat_far(v, d, q as int); } else if d > q { apat_far(v, q as int, d); }
        }
    } else {
        assert forall|c: int, d: int| #[trigger] in_apat(v, i, j, c, d) implies false by {
            assert(iabs(iso_apat(v, c) - i) <= 2); assert(iabs(iso_apat(v, d) - j) <= 2);
        }
    }
}

pub assume_specification[ usize::abs_diff ](a: usize, b: usize) -> (r: usize)
    ensures r == (if a > b { a - b } else { b - a })
;

/// o is the number of a pattern coordinate among the first n that covers c, if there is one
spec fn nearest(o: Option<usize>, v: int, n: int, c: int) -> bool {
    match o {
        Some(q) => 0 <= q < n && iabs(iso_apat(v, q as int) - c) <= 2,
        None => forall|q: int| 0 <= q < n ==> iabs(#[trigger] iso_apat(v, q) - c) > 2,
    }
}

//@fn src/decode.rs reserved_cell
//@ret r
//@sig
    requires 1 <= version.0 <= 40, i < 256, j < 256
    ensures r == iso_function(version.0 as int, i as int, j as int)
//@start
    let ghost v = version.0 as int;
    proof { apat_fact(v); }
//@loop 0
    invariant
        0 <= a <= 7, a <= iso_napat(v), len == (if a == 0 { 0 } else { a - 1 }), ver == VERSION_DATA_BASE[v],
        nearest(ai, v, a as int, i as int), nearest(aj, v, a as int, j as int),
    ensures
        a == iso_napat(v),
//@loop 0 begin
    proof { assert(ver.apat@[a as int] == VERSION_DATA_BASE@[v].apat@[a as int]); }
//@loop 0 after
    proof { align_decide(v, i as int, j as int, ai, aj); }
//@endfn


impl RawData {
    /// the bits after the end are zero
    spec fn wf(&self) -> bool { self.len <= 8 * MAX_PAYLOAD_SIZE && forall|k: int| self.len <= k < 8 * MAX_PAYLOAD_SIZE ==> #[trigger] bit_at(self.data@, k) == 0 }

    //@fn src/decode.rs RawData::push
    //@sig
        requires old(self).wf(), old(self).len < 8 * MAX_PAYLOAD_SIZE
        ensures final(self).wf(), final(self).len == old(self).len + 1,
            bit_at(final(self).data@, old(self).len as int) == (if bit { 1int } else { 0 }),
            forall|k: int| 0 <= k < old(self).len ==> #[trigger] bit_at(final(self).data@, k) == bit_at(old(self).data@, k),
    //@start
        let ghost n = self.len; let ghost d0 = self.data@;
        proof {
            assert((n & 7usize) == n % 8 && (n >> 3usize) == n / 8) by (bit_vector);
            assert(bit_at(self.data@, n as int) == 0);
        }
    //@end
        proof {
            assert forall|k: int| 0 <= k < 8 * MAX_PAYLOAD_SIZE implies #[trigger] bit_at(self.data@, k) == (if k == n && bit { 1 } else { bit_at(d0, k) }) by {
                if bit && k / 8 == n / 8 {
                    bit_or(d0[(n / 8) as int], (n % 8) as u8, (k % 8) as usize);
                }
            }
        }
    //@endfn
}

// ------------------------------------------------------------------ placement order (ISO/IEC 18004 7.7.3)
/// right hand column of column pair p, counted from the right and skipping the vertical timing pattern
spec fn pair_col(s: int, p: int) -> int { if s % 2 == 0 || s - 1 - 2 * p > 6 { s - 1 - 2 * p } else { s - 2 - 2 * p } }
spec fn npairs(s: int) -> int { s / 2 }
/// row of step r in pair p: upwards first, then alternating
spec fn pair_row(s: int, p: int, r: int) -> int { if p % 2 == 0 { s - 1 - r } else { r } }

spec fn step_cells(v: int, y: int, x: int) -> Seq<(int, int)> {
    (if iso_function(v, y, x) { seq![] } else { seq![(y, x)] }) + (if iso_function(v, y, x - 1) { seq![] } else { seq![(y, x - 1)] })
}
/// the data modules met in the first p column pairs and r rows of the next, in order
spec fn order(s: int, v: int, p: int, r: int) -> Seq<(int, int)>
    decreases p, r
{
    if p < 0 || r < 0 { seq![] }
    else if r > 0 { order(s, v, p, r - 1) + step_cells(v, pair_row(s, p, r - 1), pair_col(s, p)) }
    else if p > 0 { order(s, v, p - 1, s) }
    else { seq![] }
}
/// all data modules of the symbol in placement order
spec fn iso_order(s: int, v: int) -> Seq<(int, int)> { order(s, v, npairs(s), 0) }

spec fn module(code: &dyn BitGrid, mask: int, unmask: bool, c: (int, int)) -> bool {
    code.at(c.0, c.1) != (unmask && iso_mask(mask, c.0, c.1))
}
spec fn stream_is(ds: RawData, cells: Seq<(int, int)>, code: &dyn BitGrid, mask: int, unmask: bool) -> bool {
    ds.len == cells.len() && forall|k: int| 0 <= k < cells.len() ==> (#[trigger] bit_at(ds.data@, k) == 1) == module(code, mask, unmask, cells[k])
}


//@fn src/decode.rs read_bit
//@ret r
//@sig
    requires y < code.n(), x < code.n(), meta.wf(), code.n() < 256
    ensures r == module(code, meta.mask as int, remove_mask, (y as int, x as int))
//@start
    proof { assert(0u8 ^ 1 == 1 && 1u8 ^ 1 == 0) by (bit_vector); }
//@endfn

//@fn src/decode.rs read_data
//@ret r
//@sig
    requires meta.wf(), 21 <= code.n() <= 180
    ensures r.wf(), stream_is(r, iso_order(code.n() as int, meta.version.0 as int), code, meta.mask as int, remove_mask)
//@start
    let ghost s = code.n() as int; let ghost v = meta.version.0 as int; let ghost m = meta.mask as int;
    let ghost mut p = 0int; let ghost mut r = 0int;
//@loop 0 before
    proof {
        assert forall|k: int| 0 <= k < 8 * MAX_PAYLOAD_SIZE implies #[trigger] bit_at(ds.data@, k) == 0 by { }
    }
//@loop 0
    invariant
        0 <= p <= npairs(s), 0 <= r < s, p == npairs(s) ==> r == 0 && x == 0,
        p < npairs(s) ==> (x == pair_col(s, p) || (x == 6 && r == 0 && pair_col(s, p) == 5)) && y == pair_row(s, p, r) && neg_dir == (p % 2 == 0),
        ds.wf(), ds.len <= 2 * (p * 180 + r), stream_is(ds, order(s, v, p, r), code, m, remove_mask),
    decreases npairs(s) - p, s - r
//@loop 0 end
    proof {
        assert(order(s, v, p, r + 1) == order(s, v, p, r) + step_cells(v, pair_row(s, p, r), pair_col(s, p)));
        if r + 1 < s { r = r + 1; } else { assert(order(s, v, p + 1, 0) == order(s, v, p, s)); p = p + 1; r = 0; }
    }
//@endfn

