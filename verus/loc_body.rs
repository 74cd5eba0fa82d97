//@item src/detect.rs struct CapStone derive=Clone,Copy
//@item src/identify/match_capstones.rs struct CapStoneGroup derive=Clone,Copy
//@item src/identify/grid.rs struct SkewedGridLocation
//@item src/identify/grid.rs struct RefGridImage
// ------------------------------------------------------------------ reading modules
/// the image is dark (not white) at the pixel the centre of module (x, y) is mapped to, clamped to the image
spec fn dark_at<S: ImageBuffer>(img: &PreparedImage<S>, p: Perspective, x: int, y: int) -> bool {
    img.color_at(mapped(p, x as real + 1real / 2real, y as real + 1real / 2real)) != PixelColor::White
}
impl<S: ImageBuffer> RefGridImage<'_, S> {
    //@fn src/identify/grid.rs RefGridImage::BitGrid::size
    //@ret r
    //@sig
        ensures r == self.grid.grid_size
    //@endfn
    //@fn src/identify/grid.rs RefGridImage::BitGrid::bit reals=2
    //@ret r
    //@sig
        requires self.img.scannable()
        ensures r == dark_at(self.img, self.grid.c, x as int, y as int)
    //@endfn
}
// ------------------------------------------------------------------ grid size from the timing patterns
/// middle of the ring of finder k that faces the centre of the symbol
spec fn facing(g: CapStoneGroup, k: int) -> Point {
    if k == 0 { mapped(g.0.c, 13real / 2real, 1real / 2real) } else if k == 1 { mapped(g.1.c, 13real / 2real, 13real / 2real) } else { mapped(g.2.c, 1real / 2real, 13real / 2real) }
}
/// colour changes along the longer of the two timing patterns
spec fn timing_changes<S: ImageBuffer>(img: &PreparedImage<S>, g: CapStoneGroup) -> int {
    let h = changes(img, facing(g, 1), facing(g, 2), steps(facing(g, 1), facing(g, 2)));
    let v = changes(img, facing(g, 1), facing(g, 0), steps(facing(g, 1), facing(g, 0)));
    if h >= v { h as int } else { v as int }
}
/// a clean symbol of version v has 4 v + 4 changes there; 4 v + 2 to 4 v + 5 are taken for version v, fewer than 2 for a size of 17, none is no symbol
spec fn size_of_changes(n: int) -> Option<int> { if n < 1 { None } else { Some(17 + 4 * ((if n < 2 { 0 } else { n - 2 }) / 4)) } }
proof fn changes_bound<S: ImageBuffer>(img: &PreparedImage<S>, p: Point, q: Point, k: int) ensures changes(img, p, q, k) <= (if k < 0 { 0 } else { k }) decreases k { if k > 0 { changes_bound(img, p, q, k - 1); } }
//@fn src/identify/grid.rs measure_timing_pattern reals=2
//@ret r
//@sig
    requires img.scannable(), line_ok(facing(*caps, 1), facing(*caps, 2)), line_ok(facing(*caps, 1), facing(*caps, 0))
    ensures match size_of_changes(timing_changes(img, *caps)) { Some(n) => r matches Some(k) && k == n, None => r is None }
//@start
    proof {
        changes_bound(img, facing(*caps, 1), facing(*caps, 2), steps(facing(*caps, 1), facing(*caps, 2)));
        changes_bound(img, facing(*caps, 1), facing(*caps, 0), steps(facing(*caps, 1), facing(*caps, 0)));
    }
//@endfn
// ------------------------------------------------------------------ orientation of a finder
spec fn close(p: Point) -> bool { -8192 <= p.x <= 8192 && -8192 <= p.y <= 8192 }
/// cross product of p - h with d: smallest for the corner farthest to the left of the line through h along d
spec fn leftness(p: Point, h: Point, d: Point) -> int { (p.x - h.x) * -d.y + (p.y - h.y) * d.x }
/// first of the corners farthest to the left
spec fn top_left(c: Seq<Point>, h: Point, d: Point) -> int { choose|k: int| is_top_left(c, h, d, k) }
spec fn is_top_left(c: Seq<Point>, h: Point, d: Point, k: int) -> bool {
    0 <= k < c.len() && (forall|j: int| 0 <= j < c.len() ==> leftness(c[k], h, d) <= #[trigger] leftness(c[j], h, d)) && (forall|j: int| 0 <= j < k ==> leftness(c[k], h, d) < #[trigger] leftness(c[j], h, d))
}
proof fn one_top_left(c: Seq<Point>, h: Point, d: Point, k: int) requires is_top_left(c, h, d, k) ensures top_left(c, h, d) == k
{
    let t = top_left(c, h, d);
    assert(is_top_left(c, h, d, t));
    assert(leftness(c[k], h, d) <= leftness(c[t], h, d)); assert(leftness(c[t], h, d) <= leftness(c[k], h, d));
}
spec fn turned(c: Seq<Point>, k: int) -> Seq<Point> { c.subrange(k, c.len() as int) + c.subrange(0, k) }
/// the key of x is not greater, or less, than the key of y
spec fn no_greater<F: Fn(&Point) -> i32>(f: F, x: &Point, y: &Point, strict: bool) -> bool { exists|a: i32, b: i32| f.ensures((x,), a) && f.ensures((y,), b) && a <= b && (strict ==> a < b) }
/// Iterator::enumerate and Iterator::min_by_key: the first element with the least key, the key is computed once for each
fn stdx_min_by_key<F: Fn(&Point) -> i32>(s: &[Point; 4], f: F) -> (r: (usize, &Point))
    requires forall|i: int| 0 <= i < 4 ==> f.requires((&#[trigger] s@[i],))
    ensures r.0 < 4, *r.1 == s@[r.0 as int],
        forall|j: int| 0 <= j < 4 ==> no_greater(f, r.1, &#[trigger] s@[j], j < r.0)
{
    let mut best = 0usize; let mut key = f(&s[0]); let mut i = 1usize;
    let ghost mut ks = seq![key];
    while i < 4
        invariant 1 <= i <= 4, best < i, ks.len() == i, key == ks[best as int], forall|i: int| 0 <= i < 4 ==> f.requires((&#[trigger] s@[i],)),
            forall|j: int| 0 <= j < i ==> f.ensures((&s@[j],), #[trigger] ks[j]), forall|j: int| 0 <= j < i ==> ks[best as int] <= #[trigger] ks[j], forall|j: int| 0 <= j < best ==> ks[best as int] < #[trigger] ks[j]
        decreases 4 - i
    {
        let k = f(&s[i]);
        proof { ks = ks.push(k); }
        if k < key { best = i; key = k; }
        i += 1;
    }
    let e = &s[best];
    proof {
        assert(*e == s@[best as int]);
        assert forall|j: int| 0 <= j < 4 implies no_greater(f, e, &#[trigger] s@[j], j < best) by {
            let a = ks[best as int]; let b = ks[j];
            assert(f.ensures((&s@[best as int],), a)); assert(f.ensures((e,), a)); assert(f.ensures((&s@[j],), b)); assert(a <= b); assert(j < best ==> a < b);
        }
    }
    (best, e)
}
spec fn rotated(a: CapStone, h: Point, d: Point, b: CapStone) -> bool {
    let c = turned(a.corners@, top_left(a.corners@, h, d));
    b.corners@ == c && b.center == a.center && created(c, 7real, 7real) == Some(b.c)
}
proof fn left_range(p: Point, h: Point, d: Point) requires close(p), close(h), close(d)
    ensures -0x1000_0000 <= (p.x - h.x) * -d.y <= 0x1000_0000, -0x1000_0000 <= (p.y - h.y) * d.x <= 0x1000_0000,
        (p.x - h.x) * d.y == -((p.x - h.x) * -d.y)
{
    let a = p.x - h.x; let b = -d.y; let e = p.y - h.y; let f = d.x as int;
    assert(-0x1000_0000 <= a * b <= 0x1000_0000) by (nonlinear_arith) requires -16384 <= a <= 16384, -8192 <= b <= 8192;
    assert(-0x1000_0000 <= e * f <= 0x1000_0000) by (nonlinear_arith) requires -16384 <= e <= 16384, -8192 <= f <= 8192;
    assert(a * d.y == -(a * b)) by (nonlinear_arith) requires b == -d.y;
}
//@fn src/identify/grid.rs rotate_capstone reals=2
//@sub "(?s)(\w+(?:\s*\.\s*\w+)*)\s*\.\s*iter\(\)\s*\.\s*enumerate\(\)\s*\.\s*min_by_key\(\|\(_,\s*(\w+)\)\|\s*(.*?)\)\s*\.\s*expect\([^)]*\)" "stdx_min_by_key(&\1, |\2: &Point| -> (key: i32) requires close(*\2) ensures key == (\3) { proof { left_range(*\2, *h0, *hd); } \3 })"
//@ret r
//@sig
    requires close(*h0), close(*hd), forall|i: int| 0 <= i < 4 ==> close(#[trigger] old(cap).corners@[i])
    ensures r is Some ==> rotated(*old(cap), *h0, *hd, *final(cap)), r is None ==> created(turned(old(cap).corners@, top_left(old(cap).corners@, *h0, *hd)), 7real, 7real) is None
//@before "rotate_left" 0
    proof { let c = cap.corners@; let k = best_idx as int; assert(is_top_left(c, *h0, *hd, k)) by { assert forall|j: int| 0 <= j < c.len() implies leftness(c[k], *h0, *hd) <= #[trigger] leftness(c[j], *h0, *hd) && (j < k ==> leftness(c[k], *h0, *hd) < leftness(c[j], *h0, *hd)) by { assert(c[j] == c[j]); } } one_top_left(c, *h0, *hd, k); }
//@endfn
// ------------------------------------------------------------------ looking for the alignment pattern
/// std: documented behaviour of i32::unsigned_abs (assumed)
pub assume_specification [<i32>::unsigned_abs] (x: i32) -> (r: u32) ensures r == (if x < 0 { -(x as int) } else { x as int });
/// the estimated area of a module at p: a parallelogram with sides of one module, down in finder a and right in finder c
spec fn down(a: CapStone, p: Point) -> Point { let q = unmapped(a.c, p); mapped(a.c, q.0, q.1 + 1real) }
spec fn right(c: CapStone, p: Point) -> Point { let q = unmapped(c.c, p); mapped(c.c, q.0 + 1real, q.1) }
spec fn area_there(a: CapStone, c: CapStone, p: Point) -> int { let d = down(a, p); let r = right(c, p); iabs((d.x - p.x) * -(r.y - p.y) + (d.y - p.y) * (r.x - p.x)) }
spec fn within(p: Point, q: Point, n: int) -> bool { -n <= p.x - q.x <= n && -n <= p.y - q.y <= n }
/// a spiral from the first guess: legs of 1, 1, 2, 2, 3, 3 .. steps to the right, up, left, down
spec fn leg_len(l: int) -> int { l / 2 + 1 }
spec fn claimed_at<S: ImageBuffer>(b: S, p: (int, int)) -> bool { inside(b, p.0, p.1) && b.px(p.0, p.1) != 0 && !free(b.px(p.0, p.1)) }
spec fn one_step(p: (int, int), d: int) -> (int, int) { if d == 0 { (p.0 + 1, p.1) } else if d == 1 { (p.0, p.1 - 1) } else if d == 2 { (p.0 - 1, p.1) } else { (p.0, p.1 + 1) } }
spec fn walked(p: (int, int), d: int, k: int) -> (int, int) decreases k { if k <= 0 { p } else { one_step(walked(p, d, k - 1), d) } }
spec fn leg(p: (int, int), l: int) -> (int, int) decreases l { if l <= 0 { p } else { walked(leg(p, l - 1), (l - 1) % 4, leg_len(l - 1)) } }
spec fn spot(p: (int, int), l: int, k: int) -> (int, int) { walked(leg(p, l), l % 4, k) }
/// a pixel of an unclaimed region of half to twice the size
spec fn suits<S: ImageBuffer>(b: S, p: (int, int), n: int) -> bool { free_at(b, p.0, p.1) && n / 2 <= size_of_region(b, p.0, p.1) <= n * 2 }
spec fn on_spiral(l: int, k: int, n: int) -> bool { 0 <= l && 0 <= k < leg_len(l) && leg_len(l) * leg_len(l) < n * 100 }
/// neither a suitable nor a claimed pixel on the spiral before step k of leg l
spec fn none_before<S: ImageBuffer>(b: S, p: (int, int), n: int, l: int, k: int) -> bool { forall|i: int, j: int| 0 <= i && 0 <= j < leg_len(i) && (i < l || (i == l && j < k)) ==> !suits(b, #[trigger] spot(p, i, j), n) && !claimed_at(b, spot(p, i, j)) }
spec fn found_at<S: ImageBuffer>(b: S, p: (int, int), n: int, l: int, k: int) -> bool { on_spiral(l, k, n) && suits(b, spot(p, l, k), n) && none_before(b, p, n, l, k) }
spec fn none_found<S: ImageBuffer>(b: S, p: (int, int), n: int) -> bool { forall|l: int, k: int| !#[trigger] found_at(b, p, n, l, k) }
/// the first suitable point of the spiral, if it is met before a claimed one
spec fn first_found<S: ImageBuffer>(b: S, p: Point, n: int, r: Option<Point>) -> bool {
    let s = (p.x as int, p.y as int);
    match r {
        Some(q) => exists|l: int, k: int| #[trigger] found_at(b, s, n, l, k) && (q.x as int, q.y as int) == spot(s, l, k),
        None => none_found(b, s, n),
    }
}
/// a claimed pixel ends the search
proof fn blocked<S: ImageBuffer>(b: S, p: (int, int), n: int, l: int, k: int)
    requires 0 <= l, 0 <= k < leg_len(l), none_before(b, p, n, l, k), claimed_at(b, spot(p, l, k))
    ensures none_found(b, p, n)
{
    assert forall|i: int, j: int| !#[trigger] found_at(b, p, n, i, j) by {
        if found_at(b, p, n, i, j) {
            if i < l || (i == l && j < k) { assert(!suits(b, spot(p, i, j), n)); }
            else if i == l && j == k { }
            else { assert(!claimed_at(b, spot(p, l, k))); }
        }
    }
}
/// the spiral is over
proof fn nothing_found<S: ImageBuffer>(b: S, p: (int, int), n: int, l: int)
    requires 0 <= l, none_before(b, p, n, l, 0), leg_len(l) * leg_len(l) >= n * 100
    ensures none_found(b, p, n)
{
    assert forall|i: int, j: int| !#[trigger] found_at(b, p, n, i, j) by {
        if found_at(b, p, n, i, j) {
            if i >= l { let s = leg_len(l); let t = leg_len(i); assert(s * s <= t * t) by (nonlinear_arith) requires 1 <= s <= t; }
            else { assert(!suits(b, spot(p, i, j), n)); }
        }
    }
}
/// on the spiral with nothing met before, or stopped at a claimed pixel
spec fn on_way<S: ImageBuffer>(b: S, s: (int, int), n: int, l: int, k: int, at: (int, int)) -> bool {
    (at == spot(s, l, k) && none_before(b, s, n, l, k)) || (claimed_at(b, at) && none_found(b, s, n))
}
/// where the spiral can be: within the number of steps made so far
spec fn made_steps(l: int) -> int { let s = leg_len(l); if l % 2 == 0 { s * (s - 1) } else { s * s } }
spec fn near_seed(x: int, y: int, s: (int, int), n: int) -> bool { -n <= x - s.0 <= n && -n <= y - s.1 <= n }
proof fn area_range(a: CapStone, c: CapStone, p: Point)
    requires within(down(a, p), p, 1000), within(right(c, p), p, 1000)
    ensures ({ let d = down(a, p); let r = right(c, p); -1000000 <= (d.x - p.x) * -(r.y - p.y) <= 1000000 && -1000000 <= (d.y - p.y) * (r.x - p.x) <= 1000000 && 0 <= area_there(a, c, p) <= 2000000 })
{
    let d = down(a, p); let r = right(c, p);
    let x = d.x - p.x; let y = -(r.y - p.y); let z = d.y - p.y; let w = r.x - p.x;
    assert(-1000000 <= x * y <= 1000000) by (nonlinear_arith) requires -1000 <= x <= 1000, -1000 <= y <= 1000;
    assert(-1000000 <= z * w <= 1000000) by (nonlinear_arith) requires -1000 <= z <= 1000, -1000 <= w <= 1000;
}
proof fn ready_held<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>) requires ready(b, c) ensures held(b, c) { reveal(ready); }
proof fn as_index(x: i32) ensures x < 0 ==> (x as usize) >= 0x8000_0000_0000_0000 { assert(x < 0 ==> (x as usize) >= 0x8000_0000_0000_0000) by (bit_vector); }
/// legs are shorter than the area allows, so their number and what has been walked are bounded
proof fn leg_bounds(l: int, n: int)
    requires 0 <= l, leg_len(l) * leg_len(l) < n * 100, n <= 2000000
    ensures l < 2 * n * 100, 0 <= made_steps(l) < n * 100, made_steps(l) + leg_len(l) == made_steps(l + 1), leg_len(l) < n * 100, leg_len(l + 1) * leg_len(l + 1) <= 0x1000_0000_0000_0000
{
    let s = leg_len(l); let t = leg_len(l + 1);
    assert(s <= s * s) by (nonlinear_arith) requires s >= 1;
    assert(t * t <= 200000001 * 200000001) by (nonlinear_arith) requires 1 <= t <= s + 1, s <= 200000000;
    assert(s * (s - 1) + s == s * s && 0 <= s * (s - 1)) by (nonlinear_arith) requires s >= 1;
    assert(s * s + s == (s + 1) * s) by (nonlinear_arith);
}
proof fn next_leg<S: ImageBuffer>(b: S, p: (int, int), n: int, l: int, at: (int, int))
    requires 0 <= l, on_way(b, p, n, l, leg_len(l), at)
    ensures on_way(b, p, n, l + 1, 0, at)
{ if at == spot(p, l, leg_len(l)) && none_before(b, p, n, l, leg_len(l)) { assert(leg(p, l + 1) == spot(p, l, leg_len(l))); assert(spot(p, l + 1, 0) == leg(p, l + 1)); assert(none_before(b, p, n, l + 1, 0)); } }
proof fn next_spot<S: ImageBuffer>(b: S, p: (int, int), n: int, l: int, k: int, at: (int, int))
    requires 0 <= l, 0 <= k < leg_len(l), on_way(b, p, n, l, k, at)
    ensures claimed_at(b, at) ==> none_found(b, p, n) && on_way(b, p, n, l, k + 1, at),
        !claimed_at(b, at) && !suits(b, at, n) ==> on_way(b, p, n, l, k + 1, one_step(at, l % 4)),
        suits(b, at, n) && on_spiral(l, k, n) ==> found_at(b, p, n, l, k) && at == spot(p, l, k),
{
    if claimed_at(b, at) { if at == spot(p, l, k) && none_before(b, p, n, l, k) { blocked(b, p, n, l, k); } }
    else { assert(at == spot(p, l, k)); if !suits(b, at, n) { assert(spot(p, l, k + 1) == one_step(at, l % 4)); } }
}
/// what the query of a dark pixel says about it in the image at the start
proof fn seen_there<S: ImageBuffer>(b0: S, b: S, x: int, y: int)
    requires same_dark(b0, b), same_free(b0, b), inside(b, x, y)
    ensures inside(b0, x, y), (b.px(x, y) != 0) == (b0.px(x, y) != 0), free(b.px(x, y)) == free(b0.px(x, y)), claimed_at(b0, (x, y)) == (b.px(x, y) != 0 && !free(b.px(x, y))), free_at(b0, x, y) == free(b.px(x, y)), size_of_region(b, x, y) == size_of_region(b0, x, y)
{ same_size(b0, b, x, y); }
proof fn same_both<S: ImageBuffer>(b0: S, b: S, b1: S)
    requires same_dark(b0, b), same_free(b0, b), same_dark(b, b1), same_free(b, b1)
    ensures same_dark(b0, b1), same_free(b0, b1)
{
    assert forall|i: int, j: int| inside(b0, i, j) implies free(b0.px(i, j)) == free(#[trigger] b1.px(i, j)) && (b0.px(i, j) == 0) == (b1.px(i, j) == 0) by { assert(free(b0.px(i, j)) == free(b.px(i, j))); assert((b0.px(i, j) == 0) == (b.px(i, j) == 0)); assert(inside(b, i, j)); }
}
//@fn src/identify/grid.rs find_alignment_pattern reals=2
//@ret r
//@sig
    requires ready(old(img).buffer, old(img).cache), close(align_seed), within(down(*c0, align_seed), align_seed, 1000), within(right(*c2, align_seed), align_seed, 1000),
        old(img).buffer.w() <= 0x7fff_ffff, old(img).buffer.h() <= 0x7fff_ffff
    ensures ready(final(img).buffer, final(img).cache), same_dark(old(img).buffer, final(img).buffer), same_free(old(img).buffer, final(img).buffer),
        first_found(old(img).buffer, align_seed, area_there(*c0, *c2, align_seed), r)
//@start
    let ghost b0 = img.buffer; let ghost seed = (align_seed.x as int, align_seed.y as int); let ghost n = area_there(*c0, *c2, align_seed); let ghost mut l = 0int;
    proof { area_range(*c0, *c2, align_seed); assert(same_dark(b0, b0) && same_free(b0, b0)); }
//@loop 0
    invariant ready(img.buffer, img.cache), same_dark(b0, img.buffer), same_free(b0, img.buffer), 0 <= l, step_size == leg_len(l), dir == l % 4, n == size_estimate, n <= 2000000, leg_len(l) * leg_len(l) <= 0x1000_0000_0000_0000,
        on_way(b0, seed, n, l, 0, (align_seed.x as int, align_seed.y as int)), near_seed(align_seed.x as int, align_seed.y as int, seed, made_steps(l)),
    ensures leg_len(l) * leg_len(l) >= n * 100
    decreases 2 * n * 100 - l
//@loop 0 begin
    proof { leg_bounds(l, n); }
//@loop 0 end
    proof { next_leg(b0, seed, n, l, (align_seed.x as int, align_seed.y as int)); leg_bounds(l, n); assert(dir & 1 == dir % 2) by (bit_vector); l = l + 1; }
//@loop 1
    invariant ready(img.buffer, img.cache), same_dark(b0, img.buffer), same_free(b0, img.buffer), 0 <= l, step_size == leg_len(l), dir == l % 4, n == size_estimate, n <= 2000000, leg_len(l) * leg_len(l) < n * 100, 0 <= _pass <= step_size,
        on_way(b0, seed, n, l, _pass as int, (align_seed.x as int, align_seed.y as int)), near_seed(align_seed.x as int, align_seed.y as int, seed, made_steps(l) + _pass),
//@loop 1 begin
    let ghost k = _pass as int; let ghost b = img.buffer; let ghost c = img.cache; let ghost at = (align_seed.x as int, align_seed.y as int);
    proof {
        ready_held(b, c); leg_bounds(l, n); as_index(align_seed.x); as_index(align_seed.y);
        if inside(b, at.0, at.1) { seen_there(b0, b, at.0, at.1); }
        next_spot(b0, seed, n, l, k, at);
    }
//@after "img.get_region" 0
    proof { asked(b, c, img.buffer, img.cache, at.0, at.1, region); same_both(b0, b, img.buffer); }
//@tail
    proof { if on_way(b0, seed, n, l, 0, (align_seed.x as int, align_seed.y as int)) && !none_found(b0, seed, n) { nothing_found(b0, seed, n, l); } }
//@endfn
// ------------------------------------------------------------------ the whole location
spec fn minus(p: Point, q: Point) -> Point { Point { x: (p.x - q.x) as i32, y: (p.y - q.y) as i32 } }
/// the finders in the order bottom left, top left, top right may come the other way round
spec fn other_way(g: CapStoneGroup) -> bool { let d = minus(g.2.center, g.0.center); leftness(g.1.center, g.0.center, d) > 0 }
spec fn ordered(g: CapStoneGroup) -> CapStoneGroup { if other_way(g) { CapStoneGroup(g.2, g.1, g.0) } else { g } }
/// the diagonal from the bottom left to the top right finder
spec fn diagonal(g: CapStoneGroup) -> Point { minus(ordered(g).2.center, ordered(g).0.center) }
spec fn turnable(a: CapStone, h: Point, d: Point) -> bool { created(turned(a.corners@, top_left(a.corners@, h, d)), 7real, 7real) is Some }
spec fn orientable(g: CapStoneGroup) -> bool { let o = ordered(g); let h = g.0.center; let d = diagonal(g); turnable(o.0, h, d) && turnable(o.1, h, d) && turnable(o.2, h, d) }
/// all finders turned so that corner 0 is the top left one of the symbol
spec fn oriented(g: CapStoneGroup, t: CapStoneGroup) -> bool { let o = ordered(g); let h = g.0.center; let d = diagonal(g); rotated(o.0, h, d, t.0) && rotated(o.1, h, d, t.1) && rotated(o.2, h, d, t.2) }
/// where the outer edges of the bottom left and top right finder meet
spec fn fourth(t: CapStoneGroup) -> Option<Point> { isect(t.0.corners@[0], t.0.corners@[1], t.2.corners@[0], t.2.corners@[3]) }
/// p and the ends of the runs of its region: a is the one farthest to the left of the diagonal; the region is claimed
spec fn claimed_left<S: ImageBuffer>(m: S, b1: S, p: Point, d: Point, a: Point) -> bool {
    let v = m.px(p.x as int, p.y as int);
    recolored(m, b1, v, 3, p.x as int, p.y as int) && exists|rows: Seq<Row>| #[trigger] region_runs(m, v, p.x as int, p.y as int, rows) && earliest_max(left_of(d), seq![p] + ends(rows), a, left_of(d)(a))
}
spec fn fitted<S: ImageBuffer>(img: &PreparedImage<S>, t: CapStoneGroup, a: Point, n: int, r: Option<SkewedGridLocation>) -> bool {
    if (n - 17) / 4 > 40 { r is None } else {
        (r matches Some(q) ==> q.grid_size == n) && refined(img, n, corners_to(t, a, n), match r { Some(q) => Some(q.c), None => None })
    }
}
/// the answer for turned finders
spec fn placed<S: ImageBuffer>(i0: &PreparedImage<S>, t: CapStoneGroup, d: Point, i1: &PreparedImage<S>, r: Option<SkewedGridLocation>) -> bool {
    match size_of_changes(timing_changes(i0, t)) {
        None => r is None && *i1 == *i0,
        Some(n) => match fourth(t) {
            None => r is None && *i1 == *i0,
            Some(a) => if n <= 21 { *i1 == *i0 && fitted(i1, t, a, n, r) } else { exists|f: Option<Point>| #[trigger] first_found(i0.buffer, a, area_there(t.0, t.2, a), f) && after_search(i0, t, d, n, f, i1, r) },
        },
    }
}
spec fn after_search<S: ImageBuffer>(i0: &PreparedImage<S>, t: CapStoneGroup, d: Point, n: int, f: Option<Point>, i1: &PreparedImage<S>, r: Option<SkewedGridLocation>) -> bool {
    match f {
        None => r is None && same_dark(i0.buffer, i1.buffer) && same_free(i0.buffer, i1.buffer),
        Some(p) => exists|m: S, e: Point| #[trigger] claimed_left(m, i1.buffer, p, d, e) && same_dark(i0.buffer, m) && same_free(i0.buffer, m) && fitted(i1, t, e, n, r),
    }
}
spec fn placeable<S: ImageBuffer>(img: &PreparedImage<S>, t: CapStoneGroup) -> bool {
    &&& line_ok(facing(t, 1), facing(t, 2)) && line_ok(facing(t, 1), facing(t, 0))
    &&& fourth(t) matches Some(a) ==> close(a) && within(down(t.0, a), a, 1000) && within(right(t.2, a), a, 1000)
}
spec fn in_field(p: Point) -> bool { 0 <= p.x <= 8192 && 0 <= p.y <= 8192 }
spec fn corners_close(a: CapStone) -> bool { in_field(a.center) && forall|i: int| 0 <= i < 4 ==> close(#[trigger] a.corners@[i]) }
proof fn left_fed(a: LeftMostFinder, line: Point, start: Point, rows: Seq<Row>, m: LeftMostFinder)
    requires fed(a, rows, m), a.seen(line, start, seq![])
    ensures m.seen(line, start, rows)
    decreases rows.len()
{
    if rows.len() == 0 { assert(rows =~= seq![]); }
    else {
        let rs = rows.drop_last();
        let n = choose|n: LeftMostFinder| fed(a, rs, n) && #[trigger] n.took(rows.last(), &m);
        left_fed(a, line, start, rs, n); assert(rs.push(rows.last()) =~= rows);
    }
}
proof fn mul_all()
    ensures forall|a: int, b: int| -16384 <= a <= 16384 && -16384 <= b <= 16384 ==> -0x1000_0000 <= #[trigger] (a * b) <= 0x1000_0000
{
    assert forall|a: int, b: int| -16384 <= a <= 16384 && -16384 <= b <= 16384 implies -0x1000_0000 <= #[trigger] (a * b) <= 0x1000_0000 by { mul_in(a, b); }
}
proof fn left_takes(a: LeftMostFinder, start: Point, w: int, h: int)
    requires a.seen(a.line_p, start, seq![]), w <= 16384, h <= 16384, close(a.line_p)
    ensures takes_all(a, w, h)
{
    assert forall|rows: Seq<Row>, r: Row, m: LeftMostFinder| #[trigger] fed(a, rows, m) && runs_ok(rows, w, h) && run_inside(r, w, h) && area(rows) + (r.right - r.left + 1) <= w * h implies #[trigger] m.takes(r) by { left_fed(a, a.line_p, start, rows, m); }
}
proof fn left_starts(a: LeftMostFinder)
    requires a.score == -left_of(a.line_p)(a.best)
    ensures a.seen(a.line_p, a.best, seq![])
{ let pts = seq![a.best] + ends(seq![]); assert(pts =~= seq![a.best]); assert(pts[0] == a.best); }
proof fn turned_close(a: CapStone, h: Point, d: Point, b: CapStone)
    requires corners_close(a), rotated(a, h, d, b), exists|k: int| is_top_left(a.corners@, h, d, k)
    ensures forall|i: int| 0 <= i < 4 ==> close(#[trigger] b.corners@[i])
{
    let k = choose|k: int| is_top_left(a.corners@, h, d, k); one_top_left(a.corners@, h, d, k);
    assert forall|i: int| 0 <= i < 4 implies close(#[trigger] b.corners@[i]) by { if i < 4 - k { assert(b.corners@[i] == a.corners@[i + k]); } else { assert(b.corners@[i] == a.corners@[i + k - 4]); } }
}
proof fn some_top_left(c: Seq<Point>, h: Point, d: Point, n: int) -> (k: int)
    requires 1 <= n <= c.len()
    ensures is_top_left(c.subrange(0, n), h, d, k)
    decreases n
{
    let q = c.subrange(0, n);
    if n == 1 { 0 } else {
        let k = some_top_left(c, h, d, n - 1); let p = c.subrange(0, n - 1);
        assert forall|j: int| 0 <= j < n - 1 implies #[trigger] q[j] == p[j] by { }
        if leftness(q[n - 1], h, d) < leftness(q[k], h, d) {
            assert forall|j: int| 0 <= j < n implies leftness(q[n - 1], h, d) <= #[trigger] leftness(q[j], h, d) && (j < n - 1 ==> leftness(q[n - 1], h, d) < leftness(q[j], h, d)) by { if j < n - 1 { assert(leftness(p[k], h, d) <= leftness(p[j], h, d)); } }
            n - 1
        } else {
            assert forall|j: int| 0 <= j < n implies leftness(q[k], h, d) <= #[trigger] leftness(q[j], h, d) && (j < k ==> leftness(q[k], h, d) < leftness(q[j], h, d)) by { if j < n - 1 { assert(leftness(p[k], h, d) <= leftness(p[j], h, d)); if j < k { assert(leftness(p[k], h, d) < leftness(p[j], h, d)); } } }
            k
        }
    }
}
proof fn turned_in(a: CapStone, h: Point, d: Point, b: CapStone)
    requires corners_close(a), rotated(a, h, d, b)
    ensures forall|i: int| 0 <= i < 4 ==> close(#[trigger] b.corners@[i])
{ let k = some_top_left(a.corners@, h, d, 4); assert(a.corners@.subrange(0, 4) =~= a.corners@); turned_close(a, h, d, b); }
/// the answer for finders in any order and position
spec fn located<S: ImageBuffer>(i0: &PreparedImage<S>, g: CapStoneGroup, i1: &PreparedImage<S>, r: Option<SkewedGridLocation>) -> bool {
    &&& !orientable(g) ==> r is None && *i1 == *i0
    &&& orientable(g) ==> exists|t: CapStoneGroup| #[trigger] oriented(g, t) && placed(i0, t, diagonal(g), i1, r)
}
impl SkewedGridLocation {
//@fn src/identify/grid.rs SkewedGridLocation::from_group
//@ret r
//@sig
    requires ready(old(img).buffer, old(img).cache), old(img).scannable(), old(img).buffer.w() <= 16384, old(img).buffer.h() <= 16384,
        corners_close(group.0), corners_close(group.1), corners_close(group.2),
        forall|t: CapStoneGroup| #[trigger] oriented(group, t) ==> placeable(old(img), t)
    ensures ready(final(img).buffer, final(img).cache), final(img).buffer.w() == old(img).buffer.w(), final(img).buffer.h() == old(img).buffer.h(),
        located(old(img), group, final(img), r)
//@start
    let ghost g = group; let ghost i0 = *img;
    proof { let d = minus(group.2.center, group.0.center); left_range(group.1.center, group.0.center, d); }
//@before "measure_timing_pattern" 0
    let ghost t = group;
    proof { assert(oriented(g, t)); let o = ordered(g); let d = diagonal(g); turned_in(o.0, g.0.center, d, t.0); turned_in(o.1, g.0.center, d, t.1); turned_in(o.2, g.0.center, d, t.2); }
//@after "find_alignment_pattern" 0
    let ghost i2 = *img; let ghost d = diagonal(g); let ghost n = grid_size as int;
    proof { ready_held(i2.buffer, i2.cache); mul_all(); }
//@before "repaint_and_apply" 0
    let ghost a2 = align;
    proof {
        seen_there(i0.buffer, i2.buffer, a2.x as int, a2.y as int);
        mul_in(d.y as int, a2.x as int); mul_in(d.x as int, a2.y as int);
        let f = LeftMostFinder { line_p: d, best: a2, score: (-d.y * a2.x + d.x * a2.y) as i32 };
        left_starts(f); left_takes(f, a2, i2.buffer.w() as int, i2.buffer.h() as int);
    }
//@after "repaint_and_apply" 0
    proof {
        let f = LeftMostFinder { line_p: d, best: a2, score: (-d.y * a2.x + d.x * a2.y) as i32 };
        let v = i2.buffer.px(a2.x as int, a2.y as int);
        let rows = choose|rows: Seq<Row>| #[trigger] region_runs(i2.buffer, v, a2.x as int, a2.y as int, rows) && fed(f, rows, found);
        left_fed(f, d, a2, rows, found);
        assert(claimed_left(i2.buffer, img.buffer, a2, d, found.best));
        claim_ready(i2.buffer, img.buffer, i2.cache, v, 3, a2.x as int, a2.y as int);
    }
//@endfn
}
