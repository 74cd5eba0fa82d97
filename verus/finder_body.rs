//@item src/detect.rs struct CapStone derive=Clone,Copy
// ------------------------------------------------------------------ acceptance
/// the finder test: ends and ring in one region nobody has claimed, stone in another one, and the stone's share of pixels right
#[verifier::opaque]
spec fn acceptable<S: ImageBuffer>(b: S, left: int, stone: int, right: int, y: int) -> bool {
    let ratio = (size_of_region(b, stone, y) * 100) as int / size_of_region(b, right, y) as int;
    free_at(b, right, y) && free_at(b, stone, y) && same_region(b, right, y, left, y) && !same_region(b, right, y, stone, y) && 10 < ratio < 70
}
proof fn region_sized<S: ImageBuffer>(b: S, x: int, y: int)
    requires free_at(b, x, y), b.w() * b.h() <= usize::MAX
    ensures 1 <= size_of_region(b, x, y) <= b.w() * b.h()
{
    let f = whole_region(b, x, y); let g = |i: int, j: int| f(i, j) && !(i == x && j == y); let w = b.w() as int; let h = b.h() as int;
    region_self(b, x, y);
    cells_one(g, f, w, h, x, y);
    cells_max(f, w, h);
}
//@fn src/detect.rs is_capstone
//@ret r
//@sig
    requires ready(old(img).buffer, old(img).cache), old(img).buffer.w() * old(img).buffer.h() <= 0x1000_0000,
        linepos.left < old(img).buffer.w(), linepos.stone < old(img).buffer.w(), linepos.right < old(img).buffer.w(), y < old(img).buffer.h(),
        old(img).buffer.px(linepos.left as int, y as int) != 0, old(img).buffer.px(linepos.stone as int, y as int) != 0, old(img).buffer.px(linepos.right as int, y as int) != 0
    ensures ready(final(img).buffer, final(img).cache), same_dark(old(img).buffer, final(img).buffer), same_free(old(img).buffer, final(img).buffer),
        r == acceptable(old(img).buffer, linepos.left as int, linepos.stone as int, linepos.right as int, y as int)
//@start
    proof { reveal(ready); reveal(acceptable); }
    let ghost b0 = img.buffer; let ghost c0 = img.cache; let ghost yi = y as int; let ghost lx = linepos.left as int; let ghost sx = linepos.stone as int; let ghost rx = linepos.right as int;
//@after "img.get_region" 0
    let ghost b1 = img.buffer; let ghost c1 = img.cache;
    proof { asked(b0, c0, b1, c1, rx, yi, ring_reg); assert(inside(b0, sx, yi)); assert(inside(b0, lx, yi)); if free(b0.px(rx, yi)) { told_left(b0, c0, b1, c1, rx, lx, yi, ring_reg); } }
//@after "img.get_region" 1
    proof {
        let b2 = img.buffer; let c2 = img.cache;
        asked(b1, c1, b2, c2, sx, yi, stone_reg);
        assert(inside(b0, sx, yi)); assert(inside(b0, lx, yi)); assert(inside(b0, rx, yi));
        same_regions(b0, b1, rx, yi, sx, yi); same_regions(b0, b1, rx, yi, lx, yi); same_regions(b1, b2, rx, yi, lx, yi); same_size(b0, b1, sx, yi);
        assert(same_free(b0, b2)) by { assert forall|i: int, j: int| inside(b0, i, j) implies free(b0.px(i, j)) == free(#[trigger] b2.px(i, j)) by { assert(free(b0.px(i, j)) == free(b1.px(i, j))); assert(inside(b1, i, j)); } }
        assert(same_dark(b0, b2)) by { assert forall|i: int, j: int| inside(b0, i, j) implies (b0.px(i, j) == 0) == (#[trigger] b2.px(i, j) == 0) by { assert((b0.px(i, j) == 0) == (b1.px(i, j) == 0)); assert(inside(b1, i, j)); } }
        if free(b0.px(rx, yi)) && free(b0.px(sx, yi)) { told_apart(b0, c0, b1, c1, b2, c2, rx, sx, lx, yi, ring_reg, stone_reg); region_sized(b0, rx, yi); region_sized(b0, sx, yi); }
    }
//@endfn
/// after querying the ring its value says whether the left end is connected
proof fn told_left<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>, b1: S, c1: LruCache<u8, ColoredRegion>, rx: int, lx: int, y: int, ring: ColoredRegion)
    requires ready(b, c), ready(b1, c1), same_free(b, b1), inside(b, rx, y), inside(b, lx, y), free(b.px(rx, y)), answer(b, c, b1, c1, rx, y, ring)
    ensures (color_of(b1.px(lx, y)) == color_of(b1.px(rx, y))) == same_region(b, rx, y, lx, y)
{ reveal(ready);
    let k = match ring { ColoredRegion::Unclaimed { color, .. } => match color { PixelColor::Discarded(k) => k, _ => 0u8 }, _ => 0u8 };
    assert(given(b, c, b1, c1, rx, y, k));
    region_self(b, rx, y);
    assert(b1.px(rx, y) == 5 + k);
    same_regions(b, b1, rx, y, lx, y);
    assert(inside(b1, rx, y)); assert(inside(b1, lx, y));
    known_region(b1, c1, rx, y);
}
/// after querying ring and stone their numbers, and the value of the left end, say what is connected
proof fn told_apart<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>, b1: S, c1: LruCache<u8, ColoredRegion>, b2: S, c2: LruCache<u8, ColoredRegion>, rx: int, sx: int, lx: int, y: int, ring: ColoredRegion, stone: ColoredRegion)
    requires ready(b, c), ready(b1, c1), ready(b2, c2), same_free(b, b1), same_free(b1, b2), inside(b, rx, y), inside(b, sx, y), inside(b, lx, y), free(b.px(rx, y)), free(b.px(sx, y)),
        answer(b, c, b1, c1, rx, y, ring), answer(b1, c1, b2, c2, sx, y, stone)
    ensures ring matches ColoredRegion::Unclaimed { color: rc, pixel_count: rn, .. } && stone matches ColoredRegion::Unclaimed { color: sc, pixel_count: sn, .. }
        && (rc != sc) == !same_region(b, rx, y, sx, y) && rn == size_of_region(b, rx, y) && sn == size_of_region(b, sx, y)
        && (color_of(b2.px(lx, y)) == color_of(b2.px(rx, y))) == same_region(b, rx, y, lx, y)
{ reveal(ready);
    let k = match ring { ColoredRegion::Unclaimed { color, .. } => match color { PixelColor::Discarded(k) => k, _ => 0u8 }, _ => 0u8 };
    let n = match stone { ColoredRegion::Unclaimed { color, .. } => match color { PixelColor::Discarded(k) => k, _ => 0u8 }, _ => 0u8 };
    assert(given(b, c, b1, c1, rx, y, k)); assert(given(b1, c1, b2, c2, sx, y, n));
    region_self(b, rx, y);
    assert(b1.px(rx, y) == 5 + k);
    same_regions(b, b1, rx, y, sx, y); same_regions(b, b1, rx, y, lx, y); same_size(b, b1, sx, y); same_regions(b1, b2, rx, y, lx, y);
    if same_region(b, rx, y, sx, y) { assert(b1.px(sx, y) == 5 + k); assert(n == k); }
    else {
        assert(b1.px(sx, y) != 5 + k) by { if b1.px(sx, y) == 5 + k { known_region(b1, c1, rx, y); assert(inside(b1, sx, y)); } }
        if b1.px(sx, y) == 1 { if c1.order().len() == 251 { assert(c1.order()[250] == k); assert(c1.order()[0] != c1.order()[250]); } else { assert(c1.order().contains(k)) by { assert(c1.order()[c1.order().len() - 1] == k); } assert(c1.map().contains_key(k)); } }
        assert(n != k);
    }
    // the ring still carries its number
    if !same_region(b, rx, y, sx, y) && same_region(b1, sx, y, rx, y) { region_back(b1, sx, y, rx, y); }
    assert(inside(b1, rx, y)); assert(inside(b1, lx, y));
    assert(b2.px(rx, y) == 5 + k);
    known_region(b2, c2, rx, y);
    assert(inside(b2, lx, y));
}
proof fn region_back<S: ImageBuffer>(b: S, ax: int, ay: int, x: int, y: int)
    requires same_region(b, ax, ay, x, y)
    ensures same_region(b, x, y, ax, ay)
{
    let p = choose|p: Seq<(int, int)>| #[trigger] free_path(b, p) && p[0] == (ax, ay) && p.last() == (x, y);
    let q = Seq::new(p.len(), |i: int| p[p.len() - 1 - i]);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] free_at(b, q[i].0, q[i].1) by { let n = p.len() - 1 - i; assert(free_at(b, p[n].0, p[n].1)); }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < q.len() implies #[trigger] next_to(q[i].0, q[i].1, q[j].0, q[j].1) by { let n = p.len() - 1 - i; let m = n - 1; assert(next_to(p[m].0, p[m].1, p[n].0, p[n].1)); }
    assert(free_path(b, q));
    assert(q[0] == (x, y)); assert(q.last() == (ax, ay));
}
// ------------------------------------------------------------------ claiming
/// the runs are the region of (x, y), each cell once
spec fn covers<S: ImageBuffer>(b: S, x: int, y: int, rows: Seq<Row>) -> bool {
    runs_ok(rows, b.w() as int, b.h() as int) && forall|i: int, j: int| inside(b, i, j) ==> same_region(b, x, y, i, j) == #[trigger] in_runs(rows, i, j)
}
spec fn at(x: int, y: int) -> Point { Point { x: x as i32, y: y as i32 } }
/// p is a pixel of the region of o where f is greatest
spec fn most<S: ImageBuffer>(b: S, o: Point, f: spec_fn(Point) -> int, p: Point) -> bool {
    same_region(b, o.x as int, o.y as int, p.x as int, p.y as int) && forall|x: int, y: int| #[trigger] same_region(b, o.x as int, o.y as int, x, y) ==> f(at(x, y)) <= f(p)
}
/// base leads from o to a pixel of the region farthest from o
spec fn base_line<S: ImageBuffer>(b: S, o: Point, base: Point) -> bool { exists|first: Point| #[trigger] most(b, o, dist2(o), first) && base.x == first.x - o.x && base.y == first.y - o.y }
/// the corners are pixels of the region extremal along, across, against and across a line from o to the farthest pixel
spec fn corners_of<S: ImageBuffer>(b: S, o: Point, c: [Point; 4]) -> bool {
    exists|base: Point| #[trigger] base_line(b, o, base) && forall|j: int| 0 <= j < 4 ==> most(b, o, along(base, j), #[trigger] c@[j])
}
/// on a run f is greatest at an end
spec fn convex(f: spec_fn(Point) -> int) -> bool { forall|l: int, x: int, r: int, y: int| 0 <= l <= x <= r <= 16384 && 0 <= y <= 16384 ==> f(#[trigger] at(x, y)) <= f(#[trigger] at(l, y)) || f(at(x, y)) <= f(#[trigger] at(r, y)) }
proof fn dist_convex(o: Point) requires bounded(o.x as int), bounded(o.y as int) ensures convex(dist2(o))
{
    assert forall|l: int, x: int, r: int, y: int| 0 <= l <= x <= r <= 16384 && 0 <= y <= 16384 implies dist2(o)(#[trigger] at(x, y)) <= dist2(o)(#[trigger] at(l, y)) || dist2(o)(at(x, y)) <= dist2(o)(#[trigger] at(r, y)) by {
        let p = l - o.x; let q = x - o.x; let t = r - o.x;
        assert(q * q <= p * p || q * q <= t * t) by (nonlinear_arith) requires p <= q <= t;
    }
}
proof fn along_convex(b: Point, j: int) requires 0 <= j < 4 ensures convex(along(b, j))
{
    assert forall|l: int, x: int, r: int, y: int| 0 <= l <= x <= r <= 16384 && 0 <= y <= 16384 implies along(b, j)(#[trigger] at(x, y)) <= along(b, j)(#[trigger] at(l, y)) || along(b, j)(at(x, y)) <= along(b, j)(#[trigger] at(r, y)) by {
        let u = b.x as int; let v = b.y as int;
        assert(u >= 0 ==> x * u <= r * u && l * u <= x * u) by (nonlinear_arith) requires l <= x <= r;
        assert(u < 0 ==> x * u <= l * u && r * u <= x * u) by (nonlinear_arith) requires l <= x <= r;
        assert(v >= 0 ==> x * v <= r * v && l * v <= x * v) by (nonlinear_arith) requires l <= x <= r;
        assert(v < 0 ==> x * v <= l * v && r * v <= x * v) by (nonlinear_arith) requires l <= x <= r;
    }
}
/// every end of a run is among the ends
proof fn end_of(rows: Seq<Row>, k: int)
    requires 0 <= k < rows.len()
    ensures exists|i: int| 0 <= i < ends(rows).len() && #[trigger] ends(rows)[i] == left_end(rows[k]), exists|i: int| 0 <= i < ends(rows).len() && #[trigger] ends(rows)[i] == right_end(rows[k])
    decreases rows.len()
{
    let rs = rows.drop_last(); let n = ends(rs).len() as int; let e = ends(rows);
    if k == rows.len() - 1 { assert(e[n] == left_end(rows[k])); assert(e[n + 1] == right_end(rows[k])); }
    else {
        end_of(rs, k); assert(rs[k] == rows[k]);
        let i = choose|i: int| 0 <= i < ends(rs).len() && #[trigger] ends(rs)[i] == left_end(rs[k]); assert(e[i] == left_end(rows[k]));
        let m = choose|i: int| 0 <= i < ends(rs).len() && #[trigger] ends(rs)[i] == right_end(rs[k]); assert(e[m] == right_end(rows[k]));
    }
}
/// every one of the ends is a pixel of a run
proof fn end_in(rows: Seq<Row>, w: int, h: int, i: int)
    requires 0 <= i < ends(rows).len(), w <= 16384, h <= 16384, forall|k: int| 0 <= k < rows.len() ==> run_inside(#[trigger] rows[k], w, h)
    ensures in_runs(rows, ends(rows)[i].x as int, ends(rows)[i].y as int), 0 <= ends(rows)[i].x < w, 0 <= ends(rows)[i].y < h
    decreases rows.len()
{
    let rs = rows.drop_last(); let n = ends(rs).len() as int; let p = ends(rows)[i];
    assert(run_inside(rows[rows.len() - 1], w, h));
    if i < n {
        assert forall|k: int| 0 <= k < rs.len() implies run_inside(#[trigger] rs[k], w, h) by { assert(rs[k] == rows[k]); }
        end_in(rs, w, h, i); assert(p == ends(rs)[i]);
        let k = choose|k: int| 0 <= k < rs.len() && #[trigger] in_run(rs[k], p.x as int, p.y as int); assert(in_run(rows[k], p.x as int, p.y as int));
    } else { assert(in_run(rows[rows.len() - 1], p.x as int, p.y as int)); }
}
/// the greatest of o and the run ends is the greatest of the region
proof fn most_is<S: ImageBuffer>(b: S, o: Point, rows: Seq<Row>, f: spec_fn(Point) -> int, pts: Seq<Point>, p: Point)
    requires covers(b, o.x as int, o.y as int, rows), b.w() <= 16384, b.h() <= 16384, convex(f), earliest_max(f, pts, p, f(p)), pts == ends(rows) || pts == seq![o] + ends(rows), free_at(b, o.x as int, o.y as int)
    ensures most(b, o, f, p), bounded(p.x as int), bounded(p.y as int)
{
    let ox = o.x as int; let oy = o.y as int; let w = b.w() as int; let h = b.h() as int; let e = ends(rows);
    let k = choose|k: int| #![trigger pts[k]] 0 <= k < pts.len() && pts[k] == p && (forall|j: int| 0 <= j < pts.len() ==> f(#[trigger] pts[j]) <= f(p)) && (forall|j: int| 0 <= j < k ==> f(#[trigger] pts[j]) < f(p));
    let off = if pts == e { 0int } else { 1 };
    region_self(b, ox, oy);
    if k >= off { end_in(rows, w, h, k - off); assert(pts[k] == e[k - off]); assert(inside(b, p.x as int, p.y as int)); }
    assert forall|x: int, y: int| #[trigger] same_region(b, ox, oy, x, y) implies f(at(x, y)) <= f(p) by {
        region_free(b, ox, oy, x, y); assert(in_runs(rows, x, y));
        let i = choose|i: int| 0 <= i < rows.len() && #[trigger] in_run(rows[i], x, y);
        let r = rows[i];
        assert(run_inside(r, w, h));
        end_of(rows, i);
        let u = choose|u: int| 0 <= u < e.len() && #[trigger] e[u] == left_end(r); let v = choose|u: int| 0 <= u < e.len() && #[trigger] e[u] == right_end(r);
        assert(pts[u + off] == e[u]); assert(pts[v + off] == e[v]);
        assert(at(r.left as int, y) == left_end(r)); assert(at(r.right as int, y) == right_end(r));
        assert(f(at(x, y)) <= f(at(r.left as int, y)) || f(at(x, y)) <= f(at(r.right as int, y)));
    }
}
/// b1 is b with the region of (x, y) claimed
spec fn taken<S: ImageBuffer>(b: S, b1: S, x: int, y: int) -> bool {
    &&& b1.w() == b.w() && b1.h() == b.h()
    &&& forall|i: int, j: int| inside(b, i, j) ==> #[trigger] b1.px(i, j) == (if same_region(b, x, y, i, j) { 2u8 } else { b.px(i, j) })
}
/// a finder with these corners, its local perspective and its centre; none if there is no perspective
spec fn finder_with(c: [Point; 4], r: Option<CapStone>) -> bool {
    match created(c@, 7real, 7real) { Some(p) => r == Some(CapStone { corners: c, center: mapped(p, 7real / 2real, 7real / 2real), c: p }), None => r is None }
}
proof fn first_fed(a: FirstCornerFinder, initial: Point, rows: Seq<Row>, m: FirstCornerFinder)
    requires fed(a, rows, m), a.seen(initial, seq![])
    ensures m.seen(initial, rows)
    decreases rows.len()
{
    if rows.len() == 0 { assert(rows =~= seq![]); }
    else {
        let rs = rows.drop_last();
        let n = choose|n: FirstCornerFinder| fed(a, rs, n) && #[trigger] n.took(rows.last(), &m);
        first_fed(a, initial, rs, n); assert(rs.push(rows.last()) =~= rows);
    }
}
proof fn all_fed(a: AllCornerFinder, initial: Point, corner: Point, rows: Seq<Row>, m: AllCornerFinder)
    requires fed(a, rows, m), a.seen(initial, corner, seq![])
    ensures m.seen(initial, corner, rows)
    decreases rows.len()
{
    if rows.len() == 0 { assert(rows =~= seq![]); }
    else {
        let rs = rows.drop_last();
        let n = choose|n: AllCornerFinder| fed(a, rs, n) && #[trigger] n.took(rows.last(), &m);
        all_fed(a, initial, corner, rs, n); assert(rs.push(rows.last()) =~= rows);
    }
}
proof fn first_takes(a: FirstCornerFinder, initial: Point, w: int, h: int)
    requires a.seen(initial, seq![]), w <= 16384, h <= 16384, bounded(initial.x as int), bounded(initial.y as int)
    ensures takes_all(a, w, h)
{
    assert forall|rows: Seq<Row>, r: Row, m: FirstCornerFinder| #[trigger] fed(a, rows, m) && runs_ok(rows, w, h) && run_inside(r, w, h) && area(rows) + (r.right - r.left + 1) <= w * h implies #[trigger] m.takes(r) by { first_fed(a, initial, rows, m); }
}
proof fn all_takes(a: AllCornerFinder, initial: Point, corner: Point, w: int, h: int)
    requires a.seen(initial, corner, seq![]), w <= 16384, h <= 16384, bounded(initial.x as int), bounded(initial.y as int), bounded(corner.x as int), bounded(corner.y as int)
    ensures takes_all(a, w, h)
{
    assert forall|rows: Seq<Row>, r: Row, m: AllCornerFinder| #[trigger] fed(a, rows, m) && runs_ok(rows, w, h) && run_inside(r, w, h) && area(rows) + (r.right - r.left + 1) <= w * h implies #[trigger] m.takes(r) by { all_fed(a, initial, corner, rows, m); }
}
/// recolouring a whole region to a value it does not touch keeps it what is connected
proof fn still_connected<S: ImageBuffer>(b: S, b1: S, v: u8, to: u8, x: int, y: int, i: int, j: int)
    requires flat(b), v != 0, v != to, to != 0, has(b, v, x, y), recolored(b, b1, v, to, x, y)
    ensures conn(b1, to, x, y, i, j) == conn(b, v, x, y, i, j)
{
    conn_start(b, v, x, y);
    if conn(b, v, x, y, i, j) {
        let p = choose|p: Seq<(int, int)>| #[trigger] path(b, v, p) && p[0] == (x, y) && p.last() == (i, j);
        assert forall|n: int| 0 <= n < p.len() implies #[trigger] has(b1, to, p[n].0, p[n].1) by { conn_along(b, v, x, y, p, n); assert(has(b, v, p[n].0, p[n].1)); assert(inside(b, p[n].0, p[n].1)); }
        assert(path(b1, to, p));
    }
    if conn(b1, to, x, y, i, j) {
        let p = choose|p: Seq<(int, int)>| #[trigger] path(b1, to, p) && p[0] == (x, y) && p.last() == (i, j);
        still_along(b, b1, v, to, x, y, p, p.len() - 1);
    }
}
proof fn still_along<S: ImageBuffer>(b: S, b1: S, v: u8, to: u8, x: int, y: int, p: Seq<(int, int)>, n: int)
    requires flat(b), v != 0, v != to, to != 0, has(b, v, x, y), recolored(b, b1, v, to, x, y), path(b1, to, p), p[0] == (x, y), 0 <= n < p.len()
    ensures conn(b, v, x, y, p[n].0, p[n].1)
    decreases n
{
    if n == 0 { conn_start(b, v, x, y); }
    else {
        still_along(b, b1, v, to, x, y, p, n - 1);
        let m = n - 1;
        conn_has(b, v, x, y, p[m].0, p[m].1);
        assert(next_to(p[m].0, p[m].1, p[n].0, p[n].1)); assert(has(b1, to, p[n].0, p[n].1)); assert(inside(b, p[n].0, p[n].1));
        if !conn(b, v, x, y, p[n].0, p[n].1) { assert(b.px(p[n].0, p[n].1) == to); assert(b.px(p[m].0, p[m].1) == b.px(p[n].0, p[n].1)); }
    }
}
//@fn src/detect.rs create_capstone reals=2
//@ret r
//@sig
    requires ready(old(img).buffer, old(img).cache), old(img).buffer.w() <= 16384, old(img).buffer.h() <= 16384, free_at(old(img).buffer, linepos.right as int, y as int)
    ensures ready(final(img).buffer, final(img).cache), taken(old(img).buffer, final(img).buffer, linepos.right as int, y as int),
        exists|c: [Point; 4]| #[trigger] corners_of(old(img).buffer, Point { x: linepos.right as i32, y: y as i32 }, c) && finder_with(c, r)
//@start
    proof { reveal(ready); }
    let ghost b0 = img.buffer; let ghost c0 = img.cache; let ghost yi = y as int; let ghost xi = linepos.right as int; let ghost v = b0.px(xi, yi); let ghost o = Point { x: linepos.right as i32, y: y as i32 };
    let ghost wi = b0.w() as int; let ghost hi = b0.h() as int;
//@before "img.repaint_and_apply" 0
    proof { first_takes(first_corner_finder, o, wi, hi); }
    let ghost f0 = first_corner_finder;
//@before "let all_corner_finder" 0
    let ghost b1 = img.buffer;
    let ghost rows1 = choose|rows: Seq<Row>| #[trigger] region_runs(b0, v, xi, yi, rows) && fed(f0, rows, first_corner_finder);
    let ghost first = first_corner_finder.best;
    proof {
        first_fed(f0, o, rows1, first_corner_finder);
        assert(has(b0, v, xi, yi)); conn_start(b0, v, xi, yi); assert(in_runs(rows1, xi, yi)); assert(rows1.len() > 0);
        assert(earliest_max(dist2(o), ends(rows1), first, first_corner_finder.score as int));
        assert forall|i: int, j: int| inside(b0, i, j) implies same_region(b0, xi, yi, i, j) == #[trigger] in_runs(rows1, i, j) by { region_is(b0, xi, yi, i, j); }
        dist_convex(o); most_is(b0, o, rows1, dist2(o), ends(rows1), first);
        claimed(b0, b1, c0, v, 4, xi, yi);
        assert(b1.px(xi, yi) == 4);
    }
//@after "let all_corner_finder" 0
    let ghost a0 = all_corner_finder;
    proof { all_takes(a0, o, first, wi, hi); }
//@before "let corners" 0
    proof {
        let b2 = img.buffer;
        let rows2 = choose|rows: Seq<Row>| #[trigger] region_runs(b1, 4, xi, yi, rows) && fed(a0, rows, all_corner_finder);
        all_fed(a0, o, first, rows2, all_corner_finder);
        assert forall|i: int, j: int| #[trigger] conn(b1, 4, xi, yi, i, j) == same_region(b0, xi, yi, i, j) by { still_connected(b0, b1, v, 4, xi, yi, i, j); region_is(b0, xi, yi, i, j); }
        assert(covers(b0, xi, yi, rows1)); assert(covers(b0, xi, yi, rows2)) by { assert forall|i: int, j: int| inside(b0, i, j) implies same_region(b0, xi, yi, i, j) == #[trigger] in_runs(rows2, i, j) by { assert(inside(b1, i, j)); assert(conn(b1, 4, xi, yi, i, j) == same_region(b0, xi, yi, i, j)); } }
        claimed(b1, b2, c0, 4, 2, xi, yi);
        assert forall|i: int, j: int| inside(b0, i, j) implies #[trigger] b2.px(i, j) == (if same_region(b0, xi, yi, i, j) { 2u8 } else { b0.px(i, j) }) by {
            assert(inside(b1, i, j)); assert(conn(b1, 4, xi, yi, i, j) == same_region(b0, xi, yi, i, j)); region_is(b0, xi, yi, i, j); assert(b1.px(i, j) == (if conn(b0, v, xi, yi, i, j) { 4u8 } else { b0.px(i, j) })); assert(b2.px(i, j) == (if conn(b1, 4, xi, yi, i, j) { 2u8 } else { b1.px(i, j) }));
        }
        still_flat(b0, b2, xi, yi);
        let base = a0.baseline;
        assert(base_line(b0, o, base));
        assert forall|j: int| 0 <= j < 4 implies most(b0, o, along(base, j), #[trigger] all_corner_finder.best@[j]) by {
            assert(all_corner_finder.baseline.x == base.x && all_corner_finder.baseline.y == base.y);
            assert(earliest_max(along(all_corner_finder.baseline, j), seq![o] + ends(rows2), all_corner_finder.best@[j], all_corner_finder.scores@[j] as int));
            along_convex(base, j); most_is(b0, o, rows2, along(base, j), seq![o] + ends(rows2), all_corner_finder.best@[j]);
        }
        assert(corners_of(b0, o, all_corner_finder.best));
    }
//@endfn
proof fn still_flat<S: ImageBuffer>(b: S, b1: S, x: int, y: int)
    requires flat(b), taken(b, b1, x, y)
    ensures flat(b1)
{
    assert forall|i: int, j: int, u: int, w: int| #[trigger] next_to(i, j, u, w) && inside(b1, i, j) && inside(b1, u, w) && b1.px(i, j) != 0 && b1.px(u, w) != 0 implies b1.px(i, j) == b1.px(u, w) by {
        assert(inside(b, i, j) && inside(b, u, w));
        if same_region(b, x, y, i, j) { region_free(b, x, y, i, j); } if same_region(b, x, y, u, w) { region_free(b, x, y, u, w); }
        assert(b.px(i, j) != 0 && b.px(u, w) != 0); assert(b.px(i, j) == b.px(u, w)); assert(next_to(u, w, i, j));
        if same_region(b, x, y, i, j) { assert(free_at(b, u, w)); region_step(b, x, y, i, j, u, w); }
        if same_region(b, x, y, u, w) { assert(free_at(b, i, j)); region_step(b, x, y, u, w, i, j); }
    }
}
// ------------------------------------------------------------------ the scan
/// row y of the image, dark or white, with a white pixel after it
spec fn dark_line<S: ImageBuffer>(b: S, y: int) -> Line { Seq::new((b.w() + 1) as nat, |j: int| if j < b.w() && b.px(j, y) != 0 { PixelColor::Black } else { PixelColor::White }) }
struct Found { left: int, stone: int, right: int, y: int }
/// first pixels of the first, third and fifth of the five runs before column i
spec fn line_found<S: ImageBuffer>(b: S, y: int, i: int) -> Found { let m = dark_line(b, y); Found { left: before(m, i - 1, 5) + 1, stone: before(m, i - 1, 3) + 1, right: before(m, i - 1, 1) + 1, y: y } }
/// (x, y) belongs to the ring of one of the finders
spec fn in_ring<S: ImageBuffer>(b: S, log: Seq<Found>, x: int, y: int) -> bool { exists|k: int| 0 <= k < log.len() && same_region(b, (#[trigger] log[k]).right, log[k].y, x, y) }
/// the finder pattern ends before column i of line y, passes the test and no earlier finder has its ring or stone
spec fn is_finder<S: ImageBuffer>(b: S, log: Seq<Found>, y: int, i: int) -> bool {
    let f = line_found(b, y, i);
    finder_runs(dark_line(b, y), i) && acceptable(b, f.left, f.stone, f.right, y) && !in_ring(b, log, f.right, y) && !in_ring(b, log, f.stone, y)
}
/// the finders after columns 1..=i of line y, in order, log being those of the lines above
spec fn on_line_upto<S: ImageBuffer>(b: S, y: int, i: int, log: Seq<Found>) -> Seq<Found> decreases i {
    if i <= 0 { log } else { let p = on_line_upto(b, y, i - 1, log); if is_finder(b, p, y, i) { p.push(line_found(b, y, i)) } else { p } }
}
/// the finders of the first n lines
spec fn finders<S: ImageBuffer>(b: S, n: int) -> Seq<Found> decreases n { if n <= 0 { seq![] } else { on_line_upto(b, n - 1, b.w() as int, finders(b, n - 1)) } }
/// the finders with a local perspective, in order
spec fn made(cs: Seq<[Point; 4]>) -> Seq<CapStone> decreases cs.len() {
    if cs.len() == 0 { seq![] } else { let p = made(cs.drop_last()); match created(cs.last()@, 7real, 7real) { Some(q) => p.push(CapStone { corners: cs.last(), center: mapped(q, 7real / 2real, 7real / 2real), c: q }), None => p } }
}
spec fn ring_start(f: Found) -> Point { Point { x: f.right as i32, y: f.y as i32 } }
/// res are the finders of the log, with corners extremal in their rings
#[verifier::opaque]
spec fn reported<S: ImageBuffer>(b: S, log: Seq<Found>, res: Seq<CapStone>) -> bool {
    exists|cs: Seq<[Point; 4]>| cs.len() == log.len() && (forall|k: int| 0 <= k < log.len() ==> corners_of(b, ring_start(log[k]), #[trigger] cs[k])) && res == #[trigger] made(cs)
}
/// b is b0 with the rings of the log claimed (and perhaps regions numbered)
#[verifier::opaque]
spec fn claims<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>) -> bool {
    same_dark(b0, b) && forall|i: int, j: int| inside(b0, i, j) ==> free(#[trigger] b.px(i, j)) == (free(b0.px(i, j)) && !in_ring(b0, log, i, j))
}
proof fn region_trans<S: ImageBuffer>(b: S, ax: int, ay: int, p: Seq<(int, int)>, n: int)
    requires free_path(b, p), same_region(b, ax, ay, p[0].0, p[0].1), 0 <= n < p.len()
    ensures same_region(b, ax, ay, p[n].0, p[n].1)
    decreases n
{ if n > 0 { region_trans(b, ax, ay, p, n - 1); assert(next_to(p[n - 1].0, p[n - 1].1, p[n].0, p[n].1)); assert(free_at(b, p[n].0, p[n].1)); region_step(b, ax, ay, p[n - 1].0, p[n - 1].1, p[n].0, p[n].1); } }
/// a region without claimed pixels is what it was
proof fn region_was<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>, x: int, y: int, i: int, j: int)
    requires claims(b0, b, log), free_at(b, x, y)
    ensures same_region(b, x, y, i, j) == same_region(b0, x, y, i, j)
{ reveal(claims);
    if same_region(b, x, y, i, j) {
        let p = choose|p: Seq<(int, int)>| #[trigger] free_path(b, p) && p[0] == (x, y) && p.last() == (i, j);
        assert forall|n: int| 0 <= n < p.len() implies #[trigger] free_at(b0, p[n].0, p[n].1) by { assert(free_at(b, p[n].0, p[n].1)); assert(inside(b0, p[n].0, p[n].1)); }
        assert(free_path(b0, p));
    }
    if same_region(b0, x, y, i, j) {
        let p = choose|p: Seq<(int, int)>| #[trigger] free_path(b0, p) && p[0] == (x, y) && p.last() == (i, j);
        assert(inside(b0, x, y)); assert(!in_ring(b0, log, x, y));
        assert forall|n: int| 0 <= n < p.len() implies #[trigger] free_at(b, p[n].0, p[n].1) by {
            assert(free_at(b0, p[n].0, p[n].1)); assert(inside(b0, p[n].0, p[n].1));
            if in_ring(b0, log, p[n].0, p[n].1) {
                let k = choose|k: int| 0 <= k < log.len() && same_region(b0, (#[trigger] log[k]).right, log[k].y, p[n].0, p[n].1);
                region_self(b0, x, y); region_trans(b0, x, y, p, n); region_back(b0, x, y, p[n].0, p[n].1);
                let q = choose|q: Seq<(int, int)>| #[trigger] free_path(b0, q) && q[0] == (p[n].0, p[n].1) && q.last() == (x, y);
                region_trans(b0, log[k].right, log[k].y, q, q.len() - 1);
            }
        }
        assert(free_path(b, p));
    }
}
proof fn size_was<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>, x: int, y: int)
    requires claims(b0, b, log), free_at(b, x, y)
    ensures size_of_region(b, x, y) == size_of_region(b0, x, y)
{ reveal(claims);
    assert forall|i: int, j: int| 0 <= i < b.w() && 0 <= j < b.h() implies #[trigger] whole_region(b, x, y)(i, j) == whole_region(b0, x, y)(i, j) by { region_was(b0, b, log, x, y, i, j); }
    cells_same(whole_region(b, x, y), whole_region(b0, x, y), b.w() as int, b.h() as int);
}
proof fn acceptable_was<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>, f: Found)
    requires claims(b0, b, log), inside(b0, f.right, f.y), inside(b0, f.stone, f.y)
    ensures acceptable(b, f.left, f.stone, f.right, f.y) == (acceptable(b0, f.left, f.stone, f.right, f.y) && !in_ring(b0, log, f.right, f.y) && !in_ring(b0, log, f.stone, f.y))
{ reveal(acceptable); reveal(claims);
    assert(free(b.px(f.right, f.y)) == (free(b0.px(f.right, f.y)) && !in_ring(b0, log, f.right, f.y)));
    assert(free(b.px(f.stone, f.y)) == (free(b0.px(f.stone, f.y)) && !in_ring(b0, log, f.stone, f.y)));
    if free_at(b, f.right, f.y) && free_at(b, f.stone, f.y) {
        region_was(b0, b, log, f.right, f.y, f.left, f.y); region_was(b0, b, log, f.right, f.y, f.stone, f.y); size_was(b0, b, log, f.right, f.y); size_was(b0, b, log, f.stone, f.y);
    }
}
/// claiming a ring
proof fn claims_one<S: ImageBuffer>(b0: S, b: S, b1: S, log: Seq<Found>, f: Found)
    requires claims(b0, b, log), free_at(b, f.right, f.y), taken(b, b1, f.right, f.y)
    ensures claims(b0, b1, log.push(f)), b1.w() == b0.w(), b1.h() == b0.h()
{ reveal(claims);
    let l2 = log.push(f);
    assert forall|i: int, j: int| inside(b0, i, j) implies free(#[trigger] b1.px(i, j)) == (free(b0.px(i, j)) && !in_ring(b0, l2, i, j)) && (b0.px(i, j) == 0) == (b1.px(i, j) == 0) by {
        assert(inside(b, i, j)); assert(b1.px(i, j) == (if same_region(b, f.right, f.y, i, j) { 2u8 } else { b.px(i, j) }));
        if same_region(b, f.right, f.y, i, j) { region_free(b, f.right, f.y, i, j); assert((b0.px(i, j) == 0) == (b.px(i, j) == 0)); }
        region_was(b0, b, log, f.right, f.y, i, j);
        assert(free(b.px(i, j)) == (free(b0.px(i, j)) && !in_ring(b0, log, i, j)));
        if in_ring(b0, log, i, j) { let k = choose|k: int| 0 <= k < log.len() && same_region(b0, (#[trigger] log[k]).right, log[k].y, i, j); assert(l2[k] == log[k]); }
        if same_region(b0, f.right, f.y, i, j) { assert(l2[log.len() as int] == f); }
        if in_ring(b0, l2, i, j) { let k = choose|k: int| 0 <= k < l2.len() && same_region(b0, (#[trigger] l2[k]).right, l2[k].y, i, j); if k < log.len() { assert(l2[k] == log[k]); assert(in_ring(b0, log, i, j)); } }
    }
}
proof fn most_was<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>, o: Point, f: spec_fn(Point) -> int, p: Point)
    requires claims(b0, b, log), free_at(b, o.x as int, o.y as int), most(b, o, f, p)
    ensures most(b0, o, f, p)
{
    region_was(b0, b, log, o.x as int, o.y as int, p.x as int, p.y as int);
    assert forall|x: int, y: int| #[trigger] same_region(b0, o.x as int, o.y as int, x, y) implies f(at(x, y)) <= f(p) by { region_was(b0, b, log, o.x as int, o.y as int, x, y); }
}
proof fn corners_were<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>, o: Point, c: [Point; 4])
    requires claims(b0, b, log), free_at(b, o.x as int, o.y as int), corners_of(b, o, c)
    ensures corners_of(b0, o, c)
{
    let base = choose|base: Point| #[trigger] base_line(b, o, base) && forall|j: int| 0 <= j < 4 ==> most(b, o, along(base, j), #[trigger] c@[j]);
    let first = choose|first: Point| #[trigger] most(b, o, dist2(o), first) && base.x == first.x - o.x && base.y == first.y - o.y;
    most_was(b0, b, log, o, dist2(o), first);
    assert(base_line(b0, o, base));
    assert forall|j: int| 0 <= j < 4 implies most(b0, o, along(base, j), #[trigger] c@[j]) by { most_was(b0, b, log, o, along(base, j), c@[j]); }
}
spec fn and_one(res: Seq<CapStone>, r: Option<CapStone>) -> Seq<CapStone> { match r { Some(c) => res.push(c), None => res } }
proof fn reported_one<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>, res: Seq<CapStone>, f: Found, c: [Point; 4], r: Option<CapStone>)
    requires claims(b0, b, log), free_at(b, f.right, f.y), f.right <= 0x7fff_ffff, f.y <= 0x7fff_ffff, reported(b0, log, res), corners_of(b, ring_start(f), c), finder_with(c, r)
    ensures reported(b0, log.push(f), and_one(res, r))
{ reveal(reported);
    let cs = choose|cs: Seq<[Point; 4]>| cs.len() == log.len() && (forall|k: int| 0 <= k < log.len() ==> corners_of(b0, ring_start(log[k]), #[trigger] cs[k])) && res == #[trigger] made(cs);
    let c2 = cs.push(c); let l2 = log.push(f);
    assert(c2.drop_last() =~= cs);
    corners_were(b0, b, log, ring_start(f), c);
    assert forall|k: int| 0 <= k < l2.len() implies corners_of(b0, ring_start(l2[k]), #[trigger] c2[k]) by { if k < log.len() { assert(c2[k] == cs[k]); assert(l2[k] == log[k]); } }
    assert(made(c2) == and_one(res, r));
}
// ------------------------------------------------------------------ what the scanner has seen
/// l shows the colours of line y: white where the image is white, and one colour for each run of dark pixels
#[verifier::opaque]
spec fn shows<S: ImageBuffer>(b: S, y: int, l: Line) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j] == PixelColor::White) == (dark_line(b, y)[j] == PixelColor::White)
    &&& forall|j: int, k: int| 0 <= j && k == j + 1 && k < l.len() && l[j] != PixelColor::White && l[k] != PixelColor::White ==> #[trigger] l[j] == #[trigger] l[k]
}
/// the scanner has seen the first n pixels of line y
spec fn scanned<S: ImageBuffer>(b0: S, b: S, s: LineScanner, y: int, n: int) -> bool {
    exists|l: Line| #[trigger] s.seen(l) && l.len() == n && shows(b0, y, l) && (l[n - 1] != PixelColor::White ==> l[n - 1] == color_of(b.px(n - 1, y)))
}
spec fn same_steps(l: Line, m: Line, i: int) -> bool { forall|j: int, k: int| 0 <= j && k == j + 1 && k <= i ==> (#[trigger] l[j] != #[trigger] l[k]) == (m[j] != m[k]) }
proof fn run_alike(l: Line, m: Line, i: int)
    requires -1 <= i < l.len(), i < m.len(), same_steps(l, m, i)
    ensures run(l, i) == run(m, i)
    decreases i
{ if i > 0 { run_alike(l, m, i - 1); assert((l[i - 1] != l[i]) == (m[i - 1] != m[i])); } }
proof fn before_alike(l: Line, m: Line, i: int, k: nat)
    requires -1 <= i < l.len(), i < m.len(), same_steps(l, m, i)
    ensures before(l, i, k) == before(m, i, k)
    decreases k
{ if k > 0 { before_alike(l, m, i, (k - 1) as nat); before_pos(l, i, (k - 1) as nat); run_alike(l, m, before(l, i, (k - 1) as nat)); } }
proof fn finder_alike(l: Line, m: Line, i: int)
    requires 0 < i < l.len(), i < m.len(), same_steps(l, m, i), (l[i] == PixelColor::White) == (m[i] == PixelColor::White)
    ensures finder_runs(l, i) == finder_runs(m, i), forall|k: nat| k <= 5 ==> before(l, i - 1, k) == #[trigger] before(m, i - 1, k)
{
    assert((l[i - 1] != l[i]) == (m[i - 1] != m[i]));
    assert forall|k: nat| k <= 5 implies before(l, i - 1, k) == #[trigger] before(m, i - 1, k) by { before_alike(l, m, i - 1, k); }
    assert forall|j: int| 0 <= j < 5 implies #[trigger] r5(l, i - 1, j) == r5(m, i - 1, j) by { let k = (4 - j) as nat; assert(before(l, i - 1, k) == before(m, i - 1, k)); before_pos(l, i - 1, k); run_alike(l, m, before(l, i - 1, k)); }
}
/// the pixels of a run have one colour, and the pixel before it another
proof fn run_colour(l: Line, i: int, j: int)
    requires 0 <= i < l.len(), i - run(l, i) < j <= i
    ensures l[j] == l[i], i - run(l, i) >= 0 ==> l[i - run(l, i)] != l[i], i - run(l, i) >= -1
    decreases i
{ if i == 0 || l[i] != l[i - 1] { } else { run_pos(l, i - 1); if j == i { run_colour(l, i - 1, i - 1); } else { run_colour(l, i - 1, j); } } }
/// where the runs of a found pattern start
proof fn starts<S: ImageBuffer>(b: S, y: int, i: int)
    requires 0 < i <= b.w(), finder_runs(dark_line(b, y), i)
    ensures ({ let f = line_found(b, y, i); 0 <= f.left < f.stone < f.right < b.w() && b.px(f.left, y) != 0 && b.px(f.stone, y) != 0 && b.px(f.right, y) != 0 })
{
    let m = dark_line(b, y); let p = i - 1;
    reveal_with_fuel(before, 7);
    let p1 = before(m, p, 1); let p2 = before(m, p, 2); let p3 = before(m, p, 3); let p4 = before(m, p, 4); let p5 = before(m, p, 5);
    before_pos(m, p, 1); before_pos(m, p, 2); before_pos(m, p, 3); before_pos(m, p, 4); before_pos(m, p, 5);
    run_pos(m, p); run_colour(m, p, p1 + 1);
    assert(p3 >= p4 && p2 >= p3 && p1 >= p2) by { run_pos(m, p1); run_pos(m, p2); run_pos(m, p3); }
    run_pos(m, p1); run_colour(m, p1, p2 + 1); run_pos(m, p2); run_colour(m, p2, p3 + 1); run_pos(m, p3); run_colour(m, p3, p4 + 1); run_pos(m, p4); run_colour(m, p4, p5 + 1);
    assert(m[p] == PixelColor::Black && m[p1] == PixelColor::White && m[p2] == PixelColor::Black && m[p3] == PixelColor::White && m[p4] == PixelColor::Black);
}
/// one more pixel of the line
proof fn one_more<S: ImageBuffer>(b0: S, b: S, l: Line, y: int, n: int, c: PixelColor)
    requires flat(b), same_dark(b0, b), 0 <= y < b0.h(), 0 < n == l.len() <= b0.w(), shows(b0, y, l), l[n - 1] != PixelColor::White ==> l[n - 1] == color_of(b.px(n - 1, y)),
        n < b0.w() ==> c == color_of(b.px(n, y)), n == b0.w() ==> c == PixelColor::White
    ensures shows(b0, y, l.push(c)), finder_runs(l.push(c), n) == finder_runs(dark_line(b0, y), n), forall|k: nat| k <= 5 ==> before(l.push(c), n - 1, k) == #[trigger] before(dark_line(b0, y), n - 1, k)
{ reveal(shows);
    let m = l.push(c); let d = dark_line(b0, y);
    if n < b0.w() { assert(inside(b0, n, y)); assert((b0.px(n, y) == 0) == (b.px(n, y) == 0)); }
    assert(inside(b0, n - 1, y)); assert((b0.px(n - 1, y) == 0) == (b.px(n - 1, y) == 0));
    assert(l[n - 1] == m[n - 1]);
    assert((l[n - 1] == PixelColor::White) == (d[n - 1] == PixelColor::White));
    if n < b0.w() && c != PixelColor::White && l[n - 1] != PixelColor::White { assert(next_to(n - 1, y, n, y)); assert(b.px(n - 1, y) == b.px(n, y)); }
    assert forall|j: int, k: int| 0 <= j && k == j + 1 && k < m.len() && m[j] != PixelColor::White && m[k] != PixelColor::White implies #[trigger] m[j] == #[trigger] m[k] by { if k < n { assert(l[j] == l[k]); } }
    assert forall|j: int| 0 <= j < m.len() implies (#[trigger] m[j] == PixelColor::White) == (d[j] == PixelColor::White) by { if j < n { assert(m[j] == l[j]); } }
    assert(same_steps(m, d, n)) by { assert forall|j: int, k: int| 0 <= j && k == j + 1 && k <= n implies (#[trigger] m[j] != #[trigger] m[k]) == (d[j] != d[k]) by { assert((m[j] == PixelColor::White) == (d[j] == PixelColor::White)); assert((m[k] == PixelColor::White) == (d[k] == PixelColor::White)); } }
    finder_alike(m, d, n);
}
proof fn no_columns<S: ImageBuffer>(b: S, n: int) requires b.w() == 0 ensures finders(b, n) == Seq::<Found>::empty() decreases n { if n > 0 { no_columns(b, n - 1); } }
spec fn dims<S: ImageBuffer>(b0: S, b: S, wi: int, hi: int) -> bool { b0.w() == wi && b0.h() == hi && b.w() == wi && b.h() == hi }
/// everything a step of the scan at column n needs to know
proof fn next_column<S: ImageBuffer>(b0: S, b: S, cc: LruCache<u8, ColoredRegion>, log: Seq<Found>, s: LineScanner, y: int, n: int, c: PixelColor)
    requires ready(b, cc), claims(b0, b, log), 0 <= y < b0.h(), 0 < n <= b0.w() <= 16384, scanned(b0, b, s, y, n), n < b0.w() ==> c == color_of(b.px(n, y)), n == b0.w() ==> c == PixelColor::White
    ensures exists|l: Line| #[trigger] s.seen(l) && l.len() == n && after_column(b0, l, y, n, c)
{ reveal(ready); reveal(claims);
    let l = choose|l: Line| #[trigger] s.seen(l) && l.len() == n && shows(b0, y, l) && (l[n - 1] != PixelColor::White ==> l[n - 1] == color_of(b.px(n - 1, y)));
    one_more(b0, b, l, y, n, c);
    let d = dark_line(b0, y); let m = l.push(c);
    if finder_runs(d, n) { starts(b0, y, n); }
    assert(before(m, n - 1, 5) == before(d, n - 1, 5)); assert(before(m, n - 1, 3) == before(d, n - 1, 3)); assert(before(m, n - 1, 1) == before(d, n - 1, 1));
}
/// the line with one more pixel is right, and what the scanner reports is what is there
spec fn after_column<S: ImageBuffer>(b0: S, l: Line, y: int, n: int, c: PixelColor) -> bool {
    let m = l.push(c); let f = line_found(b0, y, n);
    &&& shows(b0, y, m) && m.len() == n + 1 && m[n] == c
    &&& finder_runs(m, n) == finder_runs(dark_line(b0, y), n)
    &&& finder_runs(m, n) ==> c == PixelColor::White && before(m, n - 1, 5) + 1 == f.left && before(m, n - 1, 3) + 1 == f.stone && before(m, n - 1, 1) + 1 == f.right
        && 0 <= f.left < f.stone < f.right < b0.w() && b0.px(f.left, y) != 0 && b0.px(f.stone, y) != 0 && b0.px(f.right, y) != 0
}
//@fn src/detect.rs capstones_from_image
//@ret r
//@sig
    requires ready(old(img).buffer, old(img).cache), old(img).buffer.w() <= 16384, old(img).buffer.h() <= 16384
    ensures ready(final(img).buffer, final(img).cache),
        claims(old(img).buffer, final(img).buffer, finders(old(img).buffer, old(img).buffer.h() as int)),
        reported(old(img).buffer, finders(old(img).buffer, old(img).buffer.h() as int), r@)
//@start
    let ghost b0 = img.buffer; let ghost wi = b0.w() as int; let ghost hi = b0.h() as int;
    proof { if wi == 0 { no_columns(b0, hi); } assert(finders(b0, 0) == Seq::<Found>::empty()); let cs = Seq::<[Point; 4]>::empty(); assert(claims(b0, b0, seq![])) by { reveal(claims); } assert(reported(b0, seq![], seq![])) by { reveal(reported); assert(made(cs) == Seq::<CapStone>::empty()); } }
//@loop 0
    invariant
        dims(b0, img.buffer, wi, hi), 0 < wi <= 16384, hi <= 16384, _hi0 == hi, 0 <= y <= hi, b0 == old(img).buffer,
        ready(img.buffer, img.cache), claims(b0, img.buffer, finders(b0, y as int)), reported(b0, finders(b0, y as int), res@),
//@loop 0 begin
    let ghost yi = y as int; let ghost up = finders(b0, yi);
//@loop 1 before
    proof { first_column(b0, img.buffer, up, finder, yi); }
//@loop 1
    invariant
        dims(b0, img.buffer, wi, hi), 0 < wi <= 16384, hi <= 16384, _hi1 == wi, 1 <= x <= wi, b0 == old(img).buffer, 0 <= yi == y < hi, up == finders(b0, yi),
        ready(img.buffer, img.cache), claims(b0, img.buffer, on_line_upto(b0, yi, x - 1, up)), reported(b0, on_line_upto(b0, yi, x - 1, up), res@),
        scanned(b0, img.buffer, finder, yi, x as int),
//@before "finder.advance" 0
    let ghost n = x as int; let ghost c = color_of(img.buffer.px(n, yi)); let ghost log = on_line_upto(b0, yi, n - 1, up);
    proof { next_column(b0, img.buffer, img.cache, log, finder, yi, n, c); }
//@before "is_capstone (" 0
    proof { ask_now(b0, img.buffer, log, line_found(b0, yi, n)); }
//@before "create_capstone (" 0
    let ghost bb = img.buffer; let ghost f = line_found(b0, yi, n);
    proof {
        assert(free(bb.px(f.right, yi))); assert(ring_start(f) == (Point { x: linepos.right as i32, y: y as i32 }));
        assert forall|b1: S| #[trigger] taken(bb, b1, f.right, f.y) implies claims(b0, b1, log.push(f)) && dims(b0, b1, wi, hi) by { claims_one(b0, bb, b1, log, f); }
        assert forall|c: [Point; 4], r: Option<CapStone>| #[trigger] corners_of(bb, ring_start(f), c) && #[trigger] finder_with(c, r) implies reported(b0, log.push(f), and_one(res@, r)) by { reported_one(b0, bb, log, res@, f, c, r); }
    }
//@before "finder.advance" 1
    let ghost n = wi; let ghost c = PixelColor::White; let ghost log = on_line_upto(b0, yi, n - 1, up);
    proof { next_column(b0, img.buffer, img.cache, log, finder, yi, n, c); }
//@before "is_capstone (" 1
    proof { ask_now(b0, img.buffer, log, line_found(b0, yi, n)); }
//@before "create_capstone (" 1
    let ghost bb = img.buffer; let ghost f = line_found(b0, yi, n);
    proof {
        assert(free(bb.px(f.right, yi))); assert(ring_start(f) == (Point { x: linepos.right as i32, y: y as i32 }));
        assert forall|b1: S| #[trigger] taken(bb, b1, f.right, f.y) implies claims(b0, b1, log.push(f)) && dims(b0, b1, wi, hi) by { claims_one(b0, bb, b1, log, f); }
        assert forall|c: [Point; 4], r: Option<CapStone>| #[trigger] corners_of(bb, ring_start(f), c) && #[trigger] finder_with(c, r) implies reported(b0, log.push(f), and_one(res@, r)) by { reported_one(b0, bb, log, res@, f, c, r); }
    }
//@endfn
/// the next two queries leave the claims alone, and decide whether there is a finder
proof fn ask_now<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>, f: Found)
    requires claims(b0, b, log), inside(b0, f.left, f.y), inside(b0, f.right, f.y), inside(b0, f.stone, f.y), b0.w() <= 16384, b0.h() <= 16384, b0.px(f.left, f.y) != 0, b0.px(f.right, f.y) != 0, b0.px(f.stone, f.y) != 0
    ensures b.w() == b0.w(), b.h() == b0.h(), b.px(f.left, f.y) != 0, b.px(f.right, f.y) != 0, b.px(f.stone, f.y) != 0, acceptable(b, f.left, f.stone, f.right, f.y) ==> free_at(b, f.right, f.y),
        acceptable(b, f.left, f.stone, f.right, f.y) == (acceptable(b0, f.left, f.stone, f.right, f.y) && !in_ring(b0, log, f.right, f.y) && !in_ring(b0, log, f.stone, f.y)),
        b.w() * b.h() <= 0x1000_0000, forall|b1: S| same_dark(b, b1) && #[trigger] same_free(b, b1) ==> claims(b0, b1, log)
{ reveal(claims);
    acceptable_was(b0, b, log, f); reveal(acceptable);
    assert((b0.px(f.left, f.y) == 0) == (b.px(f.left, f.y) == 0)); assert((b0.px(f.right, f.y) == 0) == (b.px(f.right, f.y) == 0)); assert((b0.px(f.stone, f.y) == 0) == (b.px(f.stone, f.y) == 0));
    assert(b.w() * b.h() <= 0x1000_0000) by (nonlinear_arith) requires 0 <= b.w() <= 16384, 0 <= b.h() <= 16384;
    assert forall|b1: S| same_dark(b, b1) && #[trigger] same_free(b, b1) implies claims(b0, b1, log) by {
        assert forall|i: int, j: int| inside(b0, i, j) implies free(#[trigger] b1.px(i, j)) == (free(b0.px(i, j)) && !in_ring(b0, log, i, j)) && (b0.px(i, j) == 0) == (b1.px(i, j) == 0) by { assert(inside(b, i, j)); assert(free(b.px(i, j)) == free(b1.px(i, j))); assert((b.px(i, j) == 0) == (b1.px(i, j) == 0)); }
    }
}
proof fn first_column<S: ImageBuffer>(b0: S, b: S, log: Seq<Found>, s: LineScanner, y: int)
    requires claims(b0, b, log), 0 <= y < b0.h(), 0 < b0.w(), s.seen(seq![color_of(b.px(0, y))])
    ensures scanned(b0, b, s, y, 1)
{ reveal(shows); reveal(claims);
    let l = seq![color_of(b.px(0, y))];
    assert(inside(b0, 0, y)); assert((b0.px(0, y) == 0) == (b.px(0, y) == 0));
    assert(shows(b0, y, l));
}
