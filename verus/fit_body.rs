// ------------------------------------------------------------------ agreement of the image with a module that should be dark
/// 1 for a dark pixel, -1 for a white one, 0 outside of the image
spec fn sample<S: ImageBuffer>(img: &PreparedImage<S>, q: Point) -> int {
    if q.x < 0 || q.y < 0 || q.x >= img.buffer.w() || q.y >= img.buffer.h() { 0 } else if img.buffer.px(q.x as int, q.y as int) != 0 { 1 } else { -1 }
}
/// the sample points are 3/10, 5/10 and 7/10 into the module
spec fn off(k: int) -> real { (3 + 2 * k) as real / 10real }
spec fn at_off<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, x: int, y: int, u: int, v: int) -> int { sample(img, mapped(p, x as real + off(u), y as real + off(v))) }
#[verifier::opaque]
spec fn cell<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, x: int, y: int) -> int {
    at_off(img, p, x, y, 0, 0) + at_off(img, p, x, y, 1, 0) + at_off(img, p, x, y, 2, 0)
    + at_off(img, p, x, y, 0, 1) + at_off(img, p, x, y, 1, 1) + at_off(img, p, x, y, 2, 1)
    + at_off(img, p, x, y, 0, 2) + at_off(img, p, x, y, 1, 2) + at_off(img, p, x, y, 2, 2)
}
proof fn cell_range<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, x: int, y: int) ensures -9 <= cell(img, p, x, y) <= 9 { reveal(cell); }
/// samples of the first v rows and u more
spec fn part_cell<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, x: int, y: int, v: int, u: int) -> int decreases v, u {
    if u > 0 { part_cell(img, p, x, y, v, u - 1) + at_off(img, p, x, y, u - 1, v) } else if v > 0 { part_cell(img, p, x, y, v - 1, 3) } else { 0 }
}
proof fn part_all<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, x: int, y: int) ensures part_cell(img, p, x, y, 3, 0) == cell(img, p, x, y) { reveal(cell); reveal_with_fuel(part_cell, 13); }
spec fn max_abs(x: int, y: int) -> int { let a = if x < 0 { -x } else { x }; let b = if y < 0 { -y } else { y }; if a < b { b } else { a } }
/// s * c for a sign s
spec fn weighted(s: int, c: int) -> int { if s == 1 { c } else if s == -1 { -c } else { 0 } }
/// the sum over the square of modules around (cx, cy): modules at distance d count s(d) times
spec fn square<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int, r: int, s: spec_fn(int) -> int) -> int { rows_sum(img, p, cx, cy, r, s, 2 * r + 1) }
spec fn row_sum<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int, r: int, s: spec_fn(int) -> int, j: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { row_sum(img, p, cx, cy, r, s, j, n - 1) + weighted(s(max_abs(n - 1 - r, j - r)), cell(img, p, cx + (n - 1 - r), cy + (j - r))) }
}
spec fn rows_sum<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int, r: int, s: spec_fn(int) -> int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { rows_sum(img, p, cx, cy, r, s, n - 1) + row_sum(img, p, cx, cy, r, s, n - 1, 2 * r + 1) }
}
/// the ring at distance r
spec fn ring_sign(r: int) -> spec_fn(int) -> int { |d: int| if d == r { 1int } else { 0 } }
/// finder pattern: dark but for the ring at distance 2; alignment pattern: dark but for the ring at distance 1
spec fn finder_sign() -> spec_fn(int) -> int { |d: int| if d == 2 { -1int } else { 1 } }
spec fn align_sign() -> spec_fn(int) -> int { |d: int| if d == 1 { -1int } else { 1 } }
spec fn finder_score<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, x: int, y: int) -> int { square(img, p, x + 3, y + 3, 3, finder_sign()) }
spec fn align_score<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int) -> int { square(img, p, cx, cy, 2, align_sign()) }
spec fn part_ring<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int, r: int, n: int) -> int decreases n {
    if n <= 0 { 0 } else { let i = n - 1; part_ring(img, p, cx, cy, r, i) + cell(img, p, cx - r + i, cy - r) + cell(img, p, cx - r, cy + r - i) + cell(img, p, cx + r, cy - r + i) + cell(img, p, cx + r - i, cy + r) }
}
proof fn ring_is<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int, r: int)
    requires 1 <= r <= 3
    ensures part_ring(img, p, cx, cy, r, 2 * r) == square(img, p, cx, cy, r, ring_sign(r))
{
    if r == 1 { ring_1(img, p, cx, cy); } else if r == 2 { ring_2(img, p, cx, cy); } else { ring_3(img, p, cx, cy); }
}
proof fn ring_1<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int) ensures part_ring(img, p, cx, cy, 1, 2) == square(img, p, cx, cy, 1, ring_sign(1))
{ reveal_with_fuel(part_ring, 3); reveal_with_fuel(row_sum, 4); reveal_with_fuel(rows_sum, 4); }
proof fn ring_2<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int) ensures part_ring(img, p, cx, cy, 2, 4) == square(img, p, cx, cy, 2, ring_sign(2))
{ reveal_with_fuel(part_ring, 5); reveal_with_fuel(row_sum, 6); reveal_with_fuel(rows_sum, 6); }
proof fn ring_3<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int) ensures part_ring(img, p, cx, cy, 3, 6) == square(img, p, cx, cy, 3, ring_sign(3))
{
    let s = ring_sign(3);
    reveal_with_fuel(part_ring, 7);
    assert(row_sum(img, p, cx, cy, 3, s, 0, 7) == cell(img, p, cx - 3, cy - 3) + cell(img, p, cx - 2, cy - 3) + cell(img, p, cx - 1, cy - 3) + cell(img, p, cx, cy - 3) + cell(img, p, cx + 1, cy - 3) + cell(img, p, cx + 2, cy - 3) + cell(img, p, cx + 3, cy - 3)) by { reveal_with_fuel(row_sum, 8); }
    assert(row_sum(img, p, cx, cy, 3, s, 1, 7) == cell(img, p, cx - 3, cy - 2) + cell(img, p, cx + 3, cy - 2)) by { reveal_with_fuel(row_sum, 8); }
    assert(row_sum(img, p, cx, cy, 3, s, 2, 7) == cell(img, p, cx - 3, cy - 1) + cell(img, p, cx + 3, cy - 1)) by { reveal_with_fuel(row_sum, 8); }
    assert(row_sum(img, p, cx, cy, 3, s, 3, 7) == cell(img, p, cx - 3, cy) + cell(img, p, cx + 3, cy)) by { reveal_with_fuel(row_sum, 8); }
    assert(row_sum(img, p, cx, cy, 3, s, 4, 7) == cell(img, p, cx - 3, cy + 1) + cell(img, p, cx + 3, cy + 1)) by { reveal_with_fuel(row_sum, 8); }
    assert(row_sum(img, p, cx, cy, 3, s, 5, 7) == cell(img, p, cx - 3, cy + 2) + cell(img, p, cx + 3, cy + 2)) by { reveal_with_fuel(row_sum, 8); }
    assert(row_sum(img, p, cx, cy, 3, s, 6, 7) == cell(img, p, cx - 3, cy + 3) + cell(img, p, cx - 2, cy + 3) + cell(img, p, cx - 1, cy + 3) + cell(img, p, cx, cy + 3) + cell(img, p, cx + 1, cy + 3) + cell(img, p, cx + 2, cy + 3) + cell(img, p, cx + 3, cy + 3)) by { reveal_with_fuel(row_sum, 8); }
    reveal_with_fuel(rows_sum, 8);
}
proof fn ring_range<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int, r: int, n: int)
    requires 0 <= n <= 2 * r
    ensures -36 * n <= part_ring(img, p, cx, cy, r, n) <= 36 * n
    decreases n
{ if n > 0 { let i = n - 1; ring_range(img, p, cx, cy, r, i); cell_range(img, p, cx - r + i, cy - r); cell_range(img, p, cx - r, cy + r - i); cell_range(img, p, cx + r, cy - r + i); cell_range(img, p, cx + r - i, cy + r); } }
proof fn align_is<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, cx: int, cy: int)
    ensures align_score(img, p, cx, cy) == cell(img, p, cx, cy) - square(img, p, cx, cy, 1, ring_sign(1)) + square(img, p, cx, cy, 2, ring_sign(2)), -225 <= align_score(img, p, cx, cy) <= 225
{
    ring_is(img, p, cx, cy, 1); ring_is(img, p, cx, cy, 2); ring_range(img, p, cx, cy, 1, 2); ring_range(img, p, cx, cy, 2, 4); cell_range(img, p, cx, cy);
    reveal_with_fuel(row_sum, 6); reveal_with_fuel(rows_sum, 6);
}
proof fn finder_is<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, x: int, y: int)
    ensures finder_score(img, p, x, y) == cell(img, p, x + 3, y + 3) + square(img, p, x + 3, y + 3, 1, ring_sign(1)) - square(img, p, x + 3, y + 3, 2, ring_sign(2)) + square(img, p, x + 3, y + 3, 3, ring_sign(3)), -441 <= finder_score(img, p, x, y) <= 441
{
    let cx = x + 3; let cy = y + 3;
    ring_is(img, p, cx, cy, 1); ring_is(img, p, cx, cy, 2); ring_is(img, p, cx, cy, 3); ring_range(img, p, cx, cy, 1, 2); ring_range(img, p, cx, cy, 2, 4); ring_range(img, p, cx, cy, 3, 6); cell_range(img, p, cx, cy);
    reveal_with_fuel(row_sum, 8); reveal_with_fuel(rows_sum, 8);
}
spec fn near0(c: int) -> bool { -1000 <= c <= 1000 }
//@fn src/identify/grid.rs fitness_cell reals=2
//@ret r
//@sig
    requires img.scannable(), near0(x as int), near0(y as int)
    ensures r == cell(img, *perspective, x as int, y as int)
//@loop 0
    invariant 0 <= v <= 3, score == part_cell(img, *perspective, x as int, y as int, v as int, 0), -3 * (v as int) <= part_cell(img, *perspective, x as int, y as int, v as int, 0) <= 3 * (v as int)
//@loop 1
    invariant 0 <= u <= 3, score == part_cell(img, *perspective, x as int, y as int, v as int, u as int), -3 * (v as int) - (u as int) <= part_cell(img, *perspective, x as int, y as int, v as int, u as int) <= 3 * (v as int) + (u as int)
//@tail
    proof { part_all(img, *perspective, x as int, y as int); }
//@endfn
//@fn src/identify/grid.rs fitness_ring reals=2
//@ret r
//@sig
    requires img.scannable(), -900 <= cx <= 900, -900 <= cy <= 900, 1 <= radius <= 3
    ensures r == square(img, *perspective, cx as int, cy as int, radius as int, ring_sign(radius as int)), -216 <= r <= 216
//@loop 0
    invariant 0 <= i <= 2 * radius, score == part_ring(img, *perspective, cx as int, cy as int, radius as int, i as int), -36 * (i as int) <= part_ring(img, *perspective, cx as int, cy as int, radius as int, i as int) <= 36 * (i as int)
//@loop 0 begin
    proof { let r = radius as int; cell_range(img, *perspective, cx - r + i, cy - r); cell_range(img, *perspective, cx - r, cy + r - i); cell_range(img, *perspective, cx + r, cy - r + i); cell_range(img, *perspective, cx + r - i, cy + r); }
//@tail
    proof { ring_is(img, *perspective, cx as int, cy as int, radius as int); }
//@endfn
//@fn src/identify/grid.rs fitness_apat reals=2
//@ret r
//@sig
    requires img.scannable(), -900 <= cx <= 900, -900 <= cy <= 900
    ensures r == align_score(img, *perspective, cx as int, cy as int), -225 <= r <= 225
//@start
    proof { align_is(img, *perspective, cx as int, cy as int); cell_range(img, *perspective, cx as int, cy as int); }
//@endfn
//@fn src/identify/grid.rs fitness_capstone reals=2
//@ret r
//@sig
    requires img.scannable(), -800 <= x <= 800, -800 <= y <= 800
    ensures r == finder_score(img, *perspective, x as int, y as int), -441 <= r <= 441
//@start
    proof { finder_is(img, *perspective, x as int, y as int); cell_range(img, *perspective, x + 3, y + 3); }
//@endfn
//@fn src/identify/grid.rs version_from_grid_size
//@ret r
//@sig
    requires grid_size >= 17
    ensures r == (grid_size - 17) / 4
//@endfn
// ------------------------------------------------------------------ the score of a perspective
/// timing patterns: modules 7 to k - 1 of row and column 6, the even ones dark
spec fn timing_score<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, k: int) -> int decreases k {
    if k <= 7 { 0 } else { let c = cell(img, p, k - 1, 6) + cell(img, p, 6, k - 1); timing_score(img, p, k - 1) + (if (k - 1) % 2 == 0 { c } else { -c }) }
}
/// number of alignment coordinates; versions 0 and 1 have none
spec fn napat(v: int) -> int { if v <= 1 { 0 } else { iso_napat(v) } }
/// alignment pattern number (i, j), no pattern where a finder is
spec fn pattern<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, i: int, j: int) -> int {
    let l = napat(v) - 1;
    if (i == 0 && j == 0) || (i == 0 && j == l) || (i == l && j == 0) { 0 } else { align_score(img, p, iso_apat(v, i), iso_apat(v, j)) }
}
spec fn patterns_row<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, i: int, n: int) -> int decreases n { if n <= 0 { 0 } else { patterns_row(img, p, v, i, n - 1) + pattern(img, p, v, i, n - 1) } }
spec fn patterns<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, n: int) -> int decreases n { if n <= 0 { 0 } else { patterns(img, p, v, n - 1) + patterns_row(img, p, v, n - 1, napat(v)) } }
/// agreement of the image with the function patterns of ISO/IEC 18004 under a perspective
spec fn score_of<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, size: int) -> int {
    timing_score(img, p, size - 7) + finder_score(img, p, 0, 0) + finder_score(img, p, size - 7, 0) + finder_score(img, p, 0, size - 7) + patterns(img, p, (size - 17) / 4, napat((size - 17) / 4))
}
spec fn edge_row<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, n: int) -> int decreases n { if n <= 1 { 0 } else { edge_row(img, p, v, n - 1) + align_score(img, p, 6, iso_apat(v, n - 1)) } }
spec fn edge_col<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, n: int) -> int decreases n { if n <= 1 { 0 } else { edge_col(img, p, v, n - 1) + align_score(img, p, iso_apat(v, n - 1), 6) } }
spec fn inner_row<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, i: int, n: int) -> int decreases n { if n <= 1 { 0 } else { inner_row(img, p, v, i, n - 1) + align_score(img, p, iso_apat(v, i), iso_apat(v, n - 1)) } }
spec fn inner<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, n: int) -> int decreases n { if n <= 1 { 0 } else { inner(img, p, v, n - 1) + inner_row(img, p, v, n - 1, napat(v)) } }
proof fn timing_range<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, k: int) ensures k >= 7 ==> -18 * (k - 7) <= timing_score(img, p, k) <= 18 * (k - 7) decreases k
{ if k > 7 { timing_range(img, p, k - 1); cell_range(img, p, k - 1, 6); cell_range(img, p, 6, k - 1); } }
proof fn edge_range<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, n: int) ensures n >= 1 ==> -225 * n <= edge_row(img, p, v, n) <= 225 * n && -225 * n <= edge_col(img, p, v, n) <= 225 * n decreases n
{ if n > 1 { edge_range(img, p, v, n - 1); align_is(img, p, 6, iso_apat(v, n - 1)); align_is(img, p, iso_apat(v, n - 1), 6); } }
proof fn inner_row_range<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, i: int, n: int) ensures n >= 0 ==> -225 * n <= inner_row(img, p, v, i, n) <= 225 * n decreases n
{ if n > 1 { inner_row_range(img, p, v, i, n - 1); align_is(img, p, iso_apat(v, i), iso_apat(v, n - 1)); } }
proof fn inner_range<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, n: int) requires 0 <= napat(v) <= 7 ensures n >= 0 ==> -1575 * n <= inner(img, p, v, n) <= 1575 * n decreases n
{ if n > 1 { inner_range(img, p, v, n - 1); inner_row_range(img, p, v, n - 1, napat(v)); } }
proof fn first_row<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, m: int)
    requires 2 <= v <= 40, 1 <= m <= napat(v), iso_apat(v, 0) == 6
    ensures patterns_row(img, p, v, 0, m) == edge_row(img, p, v, if m < napat(v) { m } else { m - 1 })
    decreases m
{ if m > 1 { first_row(img, p, v, m - 1); } else { reveal_with_fuel(patterns_row, 2); } }
proof fn other_row<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, i: int, m: int)
    requires 2 <= v <= 40, 1 <= m <= napat(v), 1 <= i < napat(v), iso_apat(v, 0) == 6
    ensures patterns_row(img, p, v, i, m) == (if i < napat(v) - 1 { align_score(img, p, iso_apat(v, i), 6) } else { 0 }) + inner_row(img, p, v, i, m)
    decreases m
{ if m > 1 { other_row(img, p, v, i, m - 1); } else { reveal_with_fuel(patterns_row, 2); } }
proof fn all_rows<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, v: int, m: int)
    requires 2 <= v <= 40, 1 <= m <= napat(v), iso_apat(v, 0) == 6
    ensures patterns(img, p, v, m) == edge_row(img, p, v, napat(v) - 1) + edge_col(img, p, v, if m < napat(v) { m } else { m - 1 }) + inner(img, p, v, m)
    decreases m
{
    if m > 1 { all_rows(img, p, v, m - 1); other_row(img, p, v, m - 1, napat(v)); } else { first_row(img, p, v, napat(v)); reveal_with_fuel(patterns, 2); }
}
proof fn mul_sign()
    ensures forall|c: int, e: int| e == 1 ==> #[trigger] (c * e) == c, forall|c: int, e: int| e == -1 ==> #[trigger] (c * e) == -c,
        forall|c: int, e: int| c == 1 ==> #[trigger] (c * e) == e, forall|c: int, e: int| c == -1 ==> #[trigger] (c * e) == -e
{
    assert forall|c: int, e: int| e == 1 implies #[trigger] (c * e) == c by { assert(c * 1 == c); }
    assert forall|c: int, e: int| e == -1 implies #[trigger] (c * e) == -c by { assert(c * -1 == -c); }
    assert forall|c: int, e: int| c == 1 implies #[trigger] (c * e) == e by { assert(1 * e == e); }
    assert forall|c: int, e: int| c == -1 implies #[trigger] (c * e) == -e by { assert(-1 * e == -e); }
}
proof fn empty_row() ensures VERSION_DATA_BASE@[0].apat@[0] == 0 { assert(VERSION_DATA_BASE@[0].apat@[0] == 0) by (compute_only); }
//@fn src/identify/grid.rs fitness_all reals=2
//@ret r
//@sig
    requires img.scannable(), 17 <= grid_size <= 177, grid_size % 4 == 1
    ensures r == score_of(img, *perspective, grid_size as int)
//@start
    let ghost p = *perspective; let ghost n = grid_size as int; let ghost v = (n - 17) / 4;
    proof {
        empty_row(); if v >= 1 { apat_fact(v); } reveal(iso_apat);
        finder_is(img, p, 0, 0); finder_is(img, p, n - 7, 0); finder_is(img, p, 0, n - 7);
        edge_range(img, p, v, 1); if napat(v) > 1 { edge_range(img, p, v, napat(v) - 1); } inner_range(img, p, v, napat(v)); timing_range(img, p, n - 7); mul_sign();
    }
//@loop 0 before
    let ghost s0 = score as int;
//@loop 0
    invariant _lo0 <= i <= n - 14 + _lo0, 0 <= _lo0 <= 7, score == s0 + timing_score(img, p, i - _lo0 + 7), -0x10_0000 <= s0 <= 0x10_0000, -18 * (i - _lo0) <= timing_score(img, p, i - _lo0 + 7) <= 18 * (i - _lo0)
//@loop 0 begin
    proof { let k = i - _lo0 + 7; mul_sign(); timing_range(img, p, k); timing_range(img, p, k + 1); cell_range(img, p, k, 6); cell_range(img, p, 6, k); assert(i & 1 == i % 2) by (bit_vector) requires i >= 0; }
//@loop 1
    invariant 0 <= ap_count <= napat(v)
    decreases 7 - ap_count
//@loop 2 before
    let ghost s2 = score as int;
//@loop 2
    invariant ap_count == napat(v), ap_count > 1 ==> 1 <= i <= ap_count - 1, ap_count <= 1 ==> i == 1, score == s2 + edge_row(img, p, v, i as int) + edge_col(img, p, v, i as int), -0x10_0000 <= s2 <= 0x10_0000
//@loop 2 begin
    proof { edge_range(img, p, v, i as int); edge_range(img, p, v, i + 1); }
//@loop 3 before
    let ghost s3 = score as int;
//@loop 3
    invariant ap_count == napat(v), ap_count > 1 ==> 1 <= i <= ap_count, ap_count <= 1 ==> i == 1, score == s3 + inner(img, p, v, i as int), -0x10_0000 <= s3 <= 0x10_0000
//@loop 4
    invariant 1 <= i < ap_count, 1 <= j <= ap_count, score == s3 + inner(img, p, v, i as int) + inner_row(img, p, v, i as int, j as int), -0x10_0000 <= s3 <= 0x10_0000
//@loop 4 begin
    proof { inner_range(img, p, v, i as int); inner_row_range(img, p, v, i as int, j as int); }
//@tail
    proof { if v >= 2 { all_rows(img, p, v, napat(v)); } }
//@endfn
// ------------------------------------------------------------------ refinement
spec fn mag(x: real) -> real { if x < 0real { -x } else { x } }
/// coefficient j is within 4 percent of the first one, with room left for the steps to come
spec fn kept(q: Perspective, p: Perspective, a: [Fl; 8], j: int, used: real) -> bool { mag(q.0@[j].r() - p.0@[j].r()) <= mag(p.0@[j].r()) / 25real - 2real * mag(a@[j].r()) + used }
spec fn nearby(q: Perspective, p: Perspective) -> bool { forall|j: int| 0 <= j < 8 ==> mag(#[trigger] q.0@[j].r() - p.0@[j].r()) <= mag(p.0@[j].r()) / 25real }
//@fn src/identify/grid.rs jiggle_perspective reals=2
//@ret r
//@sig
    requires img.scannable(), 17 <= grid_size <= 177, grid_size % 4 == 1
    ensures score_of(img, r, grid_size as int) >= score_of(img, perspective, grid_size as int), nearby(r, perspective)
//@start
    let ghost p0 = perspective;
    proof { bits01(); }
//@loop 0
    invariant best == score_of(img, perspective, grid_size as int), best >= score_of(img, p0, grid_size as int), forall|j: int| 0 <= j < 8 ==> #[trigger] kept(perspective, p0, adjustments, j, 0real)
//@loop 1
    invariant 0 <= i <= 16, best == score_of(img, perspective, grid_size as int), best >= score_of(img, p0, grid_size as int),
        forall|j: int| 0 <= j < 8 && 2 * j >= i ==> #[trigger] kept(perspective, p0, adjustments, j, 0real),
        forall|j: int| 0 <= j < 8 && 2 * j < i ==> #[trigger] kept(perspective, p0, adjustments, j, mag(adjustments@[j].r())),
        forall|j: int| 0 <= j < 8 && 2 * j + 1 == i ==> #[trigger] kept(perspective, p0, adjustments, j, 0real) || moved(perspective, p0, adjustments, j),
//@loop 1 begin
    let ghost b = perspective; let ghost best0 = best;
    proof { bits01(); }
//@loop 1 end
    proof {
        let q = perspective; let a = adjustments; let e = i as int / 2;
        assert(e == j && step == a@[e] && old == b.0@[e]);
        assert(i % 2 == 1 ==> new.r() == old.r() + step.r());
        assert(i % 2 == 0 ==> new.r() == old.r() - step.r());
        assert(q.0@[e] == new || q.0@[e] == old);
        assert(i % 2 == 0 ==> kept(b, p0, a, e, 0real));
        assert(i % 2 == 1 ==> kept(b, p0, a, e, 0real) || moved(b, p0, a, e)) by { assert(kept(b, p0, a, e, 0real) || !kept(b, p0, a, e, 0real)); }
        if best == best0 { assert(q.0@ =~= b.0@); assert(q.0 =~= b.0); assert(q == b); }
        assert forall|k: int| 0 <= k < 8 && 2 * k >= i + 1 implies #[trigger] kept(q, p0, a, k, 0real) by { assert(kept(b, p0, a, k, 0real) || kept(b, p0, a, k, mag(a@[k].r()))); }
        assert forall|k: int| 0 <= k < 8 && 2 * k < i + 1 implies #[trigger] kept(q, p0, a, k, mag(a@[k].r())) by { assert(kept(b, p0, a, k, 0real) || kept(b, p0, a, k, mag(a@[k].r()))); }
        assert(2 * e == i ==> kept(q, p0, a, e, 0real) || moved(q, p0, a, e)) by { assert(kept(b, p0, a, e, 0real) || kept(b, p0, a, e, mag(a@[e].r()))); }
    }
//@loop 2
    invariant 0 <= i <= 8,
        forall|j: int| 0 <= j < 8 && j >= i ==> #[trigger] kept(perspective, p0, adjustments, j, mag(adjustments@[j].r())),
        forall|j: int| 0 <= j < 8 && j < i ==> #[trigger] kept(perspective, p0, adjustments, j, 0real),
//@loop 2 begin
    let ghost a = adjustments;
//@loop 2 end
    proof {
        half(a@[i as int].r());
        let t = adjustments; let q = perspective;
        assert(t@ =~= a@.update(i as int, fl(a@[i as int].r() / 2real)));
        assert forall|k: int| 0 <= k < 8 && k > i implies #[trigger] kept(q, p0, t, k, mag(t@[k].r())) by { assert(kept(q, p0, a, k, 0real) || kept(q, p0, a, k, mag(a@[k].r()))); }
        assert forall|k: int| 0 <= k < 8 && k <= i implies #[trigger] kept(q, p0, t, k, 0real) by { if k < i { assert(kept(q, p0, a, k, 0real)); assert(t@[k] == a@[k]); assert(kept(q, p0, t, k, 0real)); } if k == i { assert(kept(q, p0, a, k, mag(a@[k].r()))); assert(t@[k].r() == a@[k].r() / 2real); assert(mag(t@[k].r()) == mag(a@[k].r()) / 2real); } assert(kept(q, p0, a, k, 0real) || kept(q, p0, a, k, mag(a@[k].r()))); }
    }
//@tail
    proof { assert forall|j: int| 0 <= j < 8 implies mag(#[trigger] perspective.0@[j].r() - p0.0@[j].r()) <= mag(p0.0@[j].r()) / 25real by { assert(kept(perspective, p0, adjustments, j, 0real)); } }
//@endfn
spec fn moved(q: Perspective, p: Perspective, a: [Fl; 8], j: int) -> bool { mag(q.0@[j].r() + a@[j].r() - p.0@[j].r()) <= mag(p.0@[j].r()) / 25real - 2real * mag(a@[j].r()) }
proof fn half(x: real) ensures x * (5real / 10real) == x / 2real { assert(5real / 10real == 1real / 2real); assert(x * (1real / 2real) == x / 2real) by (nonlinear_arith); }
proof fn bits01() ensures forall|i: i32| 0 <= i ==> #[trigger] (i >> 1) == i / 2, forall|i: i32| 0 <= i ==> #[trigger] (i & 1) == i % 2, forall|i: usize| #[trigger] (i >> 1) == i / 2, forall|i: usize| #[trigger] (i & 1) == i % 2
{
    assert forall|i: i32| 0 <= i implies #[trigger] (i >> 1) == i / 2 by { assert(i >> 1 == i / 2) by (bit_vector) requires 0 <= i; }
    assert forall|i: i32| 0 <= i implies #[trigger] (i & 1) == i % 2 by { assert(i & 1 == i % 2) by (bit_vector) requires 0 <= i; }
    assert forall|i: usize| #[trigger] (i >> 1) == i / 2 by { assert(i >> 1 == i / 2) by (bit_vector); }
    assert forall|i: usize| #[trigger] (i & 1) == i % 2 by { assert(i & 1 == i % 2) by (bit_vector); }
}
//@item src/detect.rs struct CapStone derive=Clone,Copy
//@item src/identify/match_capstones.rs struct CapStoneGroup derive=Clone,Copy
/// the perspective through the outer corners of the three finders and the alignment point: a square of size - 7 modules
spec fn corners_to(g: CapStoneGroup, align: Point, size: int) -> Option<Perspective> { created(seq![g.1.corners@[0], g.2.corners@[0], align, g.0.corners@[0]], (size - 7) as real, (size - 7) as real) }
spec fn refined<S: ImageBuffer>(img: &PreparedImage<S>, size: int, a: Option<Perspective>, r: Option<Perspective>) -> bool {
    match a { Some(p) => r matches Some(q) && score_of(img, q, size) >= score_of(img, p, size) && nearby(q, p), None => r is None }
}
//@fn src/identify/grid.rs setup_perspective reals=2
//@ret r
//@sig
    requires img.scannable(), 17 <= grid_size <= 177, grid_size % 4 == 1
    ensures refined(img, grid_size as int, corners_to(*caps, align, grid_size as int), r)
//@start
    proof { assert([caps.1.corners@[0], caps.2.corners@[0], align, caps.0.corners@[0]]@ =~= seq![caps.1.corners@[0], caps.2.corners@[0], align, caps.0.corners@[0]]); }
//@endfn
