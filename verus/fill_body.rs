// ------------------------------------------------------------------ connected regions
spec fn inside<S: ImageBuffer>(b: S, x: int, y: int) -> bool { 0 <= x < b.w() && 0 <= y < b.h() }
spec fn has<S: ImageBuffer>(b: S, v: u8, x: int, y: int) -> bool { inside(b, x, y) && b.px(x, y) == v }
spec fn next_to(x: int, y: int, u: int, v: int) -> bool { (y == v && (u == x + 1 || u == x - 1)) || (x == u && (v == y + 1 || v == y - 1)) }
/// a path from cell to neighbouring cell through cells of value v
spec fn path<S: ImageBuffer>(b: S, v: u8, p: Seq<(int, int)>) -> bool {
    &&& p.len() >= 1
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] has(b, v, p[i].0, p[i].1)
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < p.len() ==> #[trigger] next_to(p[i].0, p[i].1, p[j].0, p[j].1)
}
/// (x, y) is 4-connected to (ax, ay) through cells of value v
spec fn conn<S: ImageBuffer>(b: S, v: u8, ax: int, ay: int, x: int, y: int) -> bool {
    exists|p: Seq<(int, int)>| #[trigger] path(b, v, p) && p[0] == (ax, ay) && p.last() == (x, y)
}
proof fn conn_start<S: ImageBuffer>(b: S, v: u8, x: int, y: int) requires has(b, v, x, y) ensures conn(b, v, x, y, x, y)
{ let p = seq![(x, y)]; assert(path(b, v, p)); }
proof fn conn_step<S: ImageBuffer>(b: S, v: u8, ax: int, ay: int, x: int, y: int, u: int, w: int)
    requires conn(b, v, ax, ay, x, y), next_to(x, y, u, w), has(b, v, u, w)
    ensures conn(b, v, ax, ay, u, w)
{
    let p = choose|p: Seq<(int, int)>| #[trigger] path(b, v, p) && p[0] == (ax, ay) && p.last() == (x, y);
    let q = p.push((u, w));
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] has(b, v, q[i].0, q[i].1) by { if i < p.len() { assert(has(b, v, p[i].0, p[i].1)); } }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < q.len() implies #[trigger] next_to(q[i].0, q[i].1, q[j].0, q[j].1) by {
        if j < p.len() { assert(next_to(p[i].0, p[i].1, p[j].0, p[j].1)); }
    }
    assert(path(b, v, q));
}
// ------------------------------------------------------------------ number of cells
spec fn in_line(f: spec_fn(int, int) -> bool, y: int, n: int) -> nat decreases n { if n <= 0 { 0 } else { in_line(f, y, n - 1) + (if f(n - 1, y) { 1nat } else { 0 }) } }
/// number of cells of a w x h image with property f
spec fn cells(f: spec_fn(int, int) -> bool, w: int, h: int) -> nat decreases h { if h <= 0 { 0 } else { cells(f, w, h - 1) + in_line(f, h - 1, w) } }
proof fn line_same(f: spec_fn(int, int) -> bool, g: spec_fn(int, int) -> bool, y: int, n: int)
    requires forall|x: int| 0 <= x < n ==> #[trigger] f(x, y) == g(x, y)
    ensures in_line(f, y, n) == in_line(g, y, n)
    decreases n
{ if n > 0 { line_same(f, g, y, n - 1); } }
proof fn cells_same(f: spec_fn(int, int) -> bool, g: spec_fn(int, int) -> bool, w: int, h: int)
    requires forall|x: int, y: int| 0 <= x < w && 0 <= y < h ==> #[trigger] f(x, y) == g(x, y)
    ensures cells(f, w, h) == cells(g, w, h)
    decreases h
{ if h > 0 { line_same(f, g, h - 1, w); cells_same(f, g, w, h - 1); } }
proof fn line_one(f: spec_fn(int, int) -> bool, g: spec_fn(int, int) -> bool, y: int, n: int, a: int)
    requires 0 <= a < n, !f(a, y), g(a, y), forall|x: int| 0 <= x < n && x != a ==> #[trigger] f(x, y) == g(x, y)
    ensures in_line(g, y, n) == in_line(f, y, n) + 1
    decreases n
{ if a == n - 1 { line_same(f, g, y, n - 1); } else { line_one(f, g, y, n - 1, a); } }
/// one more cell
proof fn cells_one(f: spec_fn(int, int) -> bool, g: spec_fn(int, int) -> bool, w: int, h: int, a: int, b: int)
    requires 0 <= a < w, 0 <= b < h, !f(a, b), g(a, b), forall|x: int, y: int| 0 <= x < w && 0 <= y < h && !(x == a && y == b) ==> #[trigger] f(x, y) == g(x, y)
    ensures cells(g, w, h) == cells(f, w, h) + 1
    decreases h
{ if b == h - 1 { line_one(f, g, b, w, a); cells_same(f, g, w, h - 1); } else { line_same(f, g, h - 1, w); cells_one(f, g, w, h - 1, a, b); } }
proof fn line_max(f: spec_fn(int, int) -> bool, y: int, n: int) requires n >= 0 ensures in_line(f, y, n) <= n decreases n { if n > 0 { line_max(f, y, n - 1); } }
proof fn cells_max(f: spec_fn(int, int) -> bool, w: int, h: int) requires w >= 0, h >= 0 ensures cells(f, w, h) <= w * h decreases h
{
    if h > 0 { line_max(f, h - 1, w); cells_max(f, w, h - 1); assert(w * (h - 1) + w == w * h) by (nonlinear_arith); }
    else { assert(w * h == 0) by (nonlinear_arith) requires h == 0; }
}
proof fn line_none(f: spec_fn(int, int) -> bool, y: int, n: int) requires forall|x: int| 0 <= x < n ==> !(#[trigger] f(x, y)) ensures in_line(f, y, n) == 0 decreases n { if n > 0 { line_none(f, y, n - 1); } }
proof fn cells_none(f: spec_fn(int, int) -> bool, w: int, h: int) requires forall|x: int, y: int| 0 <= x < w && 0 <= y < h ==> !(#[trigger] f(x, y)) ensures cells(f, w, h) == 0 decreases h
{ if h > 0 { line_none(f, h - 1, w); cells_none(f, w, h - 1); } }
// ------------------------------------------------------------------ runs
spec fn in_run(r: Row, x: int, y: int) -> bool { r.y == y && r.left <= x <= r.right }
spec fn in_runs(rows: Seq<Row>, x: int, y: int) -> bool { exists|k: int| 0 <= k < rows.len() && #[trigger] in_run(rows[k], x, y) }
spec fn run_inside(r: Row, w: int, h: int) -> bool { r.left <= r.right < w && r.y < h }
/// the runs lie in the image and share no cell
spec fn runs_ok(rows: Seq<Row>, w: int, h: int) -> bool {
    &&& forall|k: int| 0 <= k < rows.len() ==> run_inside(#[trigger] rows[k], w, h)
    &&& forall|k: int, l: int, x: int, y: int| 0 <= k < l < rows.len() && #[trigger] in_run(rows[k], x, y) ==> !#[trigger] in_run(rows[l], x, y)
}
/// number of cells of the runs
spec fn area(rows: Seq<Row>) -> nat decreases rows.len() { if rows.len() == 0 { 0 } else { area(rows.drop_last()) + (rows.last().right - rows.last().left + 1) as nat } }
proof fn area_push(rows: Seq<Row>, r: Row) requires r.left <= r.right ensures area(rows.push(r)) == area(rows) + (r.right - r.left + 1) { assert(rows.push(r).drop_last() =~= rows); }
/// z is the state of filler a after the runs
spec fn fed<F: AreaFiller>(a: F, rows: Seq<Row>, z: F) -> bool decreases rows.len() {
    if rows.len() == 0 { a == z } else { exists|m: F| fed(a, rows.drop_last(), m) && #[trigger] m.took(rows.last(), &z) }
}
proof fn fed_push<F: AreaFiller>(a: F, rows: Seq<Row>, m: F, r: Row, z: F)
    requires fed(a, rows, m), m.took(r, &z)
    ensures fed(a, rows.push(r), z)
{ assert(rows.push(r).drop_last() =~= rows); assert(fed(a, rows.push(r).drop_last(), m)); assert(rows.push(r).last() == r); }
/// a can take whatever runs of a w x h image
spec fn takes_all<F: AreaFiller>(a: F, w: int, h: int) -> bool {
    forall|rows: Seq<Row>, r: Row, m: F| #[trigger] fed(a, rows, m) && runs_ok(rows, w, h) && run_inside(r, w, h) && area(rows) + (r.right - r.left + 1) <= w * h ==> #[trigger] m.takes(r)
}
// ------------------------------------------------------------------ state of the fill
spec fn filled<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8) -> spec_fn(int, int) -> bool { |x: int, y: int| b0.px(x, y) == from && b.px(x, y) == to }
/// cells are unchanged, or belong to the region and are filled
spec fn grown<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, sx: int, sy: int) -> bool {
    &&& b.w() == b0.w() && b.h() == b0.h()
    &&& forall|x: int, y: int| inside(b0, x, y) ==> #[trigger] b.px(x, y) == b0.px(x, y) || (b.px(x, y) == to && conn(b0, from, sx, sy, x, y))
}
spec fn seeds_ok<S: ImageBuffer>(b0: S, from: u8, sx: int, sy: int, q: Seq<(usize, usize)>) -> bool {
    forall|k: int| 0 <= k < q.len() ==> inside(b0, (#[trigger] q[k]).0 as int, q[k].1 as int) && (b0.px(q[k].0 as int, q[k].1 as int) == from ==> conn(b0, from, sx, sy, q[k].0 as int, q[k].1 as int))
}
/// the cells from a to z of line y have value v
spec fn seg<S: ImageBuffer>(b: S, v: u8, y: int, a: int, z: int) -> bool { forall|i: int| (a <= i <= z || z <= i <= a) ==> #[trigger] b.px(i, y) == v }
/// a seed of the queue is in the same run as (x, y)
spec fn covered<S: ImageBuffer>(b: S, v: u8, q: Seq<(usize, usize)>, x: int, y: int) -> bool {
    exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).1 == y && seg(b, v, y, q[k].0 as int, x)
}
/// the neighbours of filled cells that belong to the region are filled or will be
spec fn fringe<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, q: Seq<(usize, usize)>) -> bool {
    forall|x: int, y: int, u: int, v: int| inside(b0, x, y) && filled(b0, b, from, to)(x, y) && #[trigger] next_to(x, y, u, v) && inside(b0, u, v) && b0.px(u, v) == from
        ==> b.px(u, v) == to || covered(b, from, q, u, v)
}
spec fn begun<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, q: Seq<(usize, usize)>, x: int, y: int) -> bool {
    b0.px(x, y) == from ==> b.px(x, y) == to || covered(b, from, q, x, y)
}
/// the runs reported so far are the cells filled
spec fn told<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, rows: Seq<Row>) -> bool {
    &&& runs_ok(rows, b0.w() as int, b0.h() as int)
    &&& forall|x: int, y: int| inside(b0, x, y) ==> filled(b0, b, from, to)(x, y) == #[trigger] in_runs(rows, x, y)
    &&& area(rows) == cells(filled(b0, b, from, to), b0.w() as int, b0.h() as int)
}
/// b1 is b with the run l..=r of line y set to v
spec fn painted<S: ImageBuffer>(b: S, b1: S, y: int, l: int, r: int, v: u8) -> bool {
    &&& b1.w() == b.w() && b1.h() == b.h()
    &&& forall|i: int, j: int| inside(b, i, j) ==> #[trigger] b1.px(i, j) == (if j == y && l <= i <= r { v } else { b.px(i, j) })
}
/// the cells l..=r of line y are all the cells of value v around them
spec fn whole_run<S: ImageBuffer>(b: S, v: u8, y: int, l: int, r: int) -> bool {
    &&& 0 <= l <= r < b.w() && 0 <= y < b.h()
    &&& forall|i: int| l <= i <= r ==> #[trigger] b.px(i, y) == v
    &&& (l > 0 ==> b.px(l - 1, y) != v) && (r < b.w() - 1 ==> b.px(r + 1, y) != v)
}
/// seeds other than those of the run stay seeds of the same cells
proof fn covered_on<S: ImageBuffer>(b: S, b1: S, from: u8, to: u8, q: Seq<(usize, usize)>, s: (usize, usize), y: int, l: int, r: int, u: int, v: int)
    requires painted(b, b1, y, l, r, to), whole_run(b, from, y, l, r), l <= s.0 <= r, s.1 == y, covered(b, from, q.push(s), u, v), inside(b, u, v), from != to,
        forall|k: int| 0 <= k < q.len() ==> inside(b, (#[trigger] q[k]).0 as int, q[k].1 as int)
    ensures b1.px(u, v) == to || covered(b1, from, q, u, v)
{
    let qs = q.push(s);
    let k = choose|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).1 == v && seg(b, from, v, qs[k].0 as int, u);
    let a = qs[k].0 as int;
    if v == y && l <= a <= r {
        // the segment from a to u does not leave the run
        if u < l { assert(b.px(l - 1, y) == from); } else if u > r { assert(b.px(r + 1, y) == from); }
    } else if v == y {
        // nor does it enter it
        if a < l { if u >= l { assert(b.px(l - 1, y) == from); } } else { if u <= r { assert(b.px(r + 1, y) == from); } }
        assert(q[k] == qs[k]);
        assert(seg(b1, from, v, a, u));
    } else {
        assert(q[k] == qs[k]);
        assert(seg(b1, from, v, a, u));
    }
}
proof fn skip_seed<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, q: Seq<(usize, usize)>, s: (usize, usize))
    requires b.px(s.0 as int, s.1 as int) != from, fringe(b0, b, from, to, q.push(s))
    ensures fringe(b0, b, from, to, q), forall|x: int, y: int| begun(b0, b, from, to, q.push(s), x, y) ==> #[trigger] begun(b0, b, from, to, q, x, y)
{
    let qs = q.push(s);
    assert forall|x: int, y: int| covered(b, from, qs, x, y) implies #[trigger] covered(b, from, q, x, y) by {
        let k = choose|k: int| 0 <= k < qs.len() && (#[trigger] qs[k]).1 == y && seg(b, from, y, qs[k].0 as int, x);
        if k == q.len() { assert(b.px(s.0 as int, s.1 as int) == from); } else { assert(q[k] == qs[k]); }
    }
}
proof fn run_conn<S: ImageBuffer>(b0: S, b: S, from: u8, sx: int, sy: int, y: int, l: int, r: int, s: int, x: int)
    requires b0.w() == b.w(), b0.h() == b.h(), l <= s <= r, l <= x <= r, 0 <= l, r < b.w(), 0 <= y < b.h(), conn(b0, from, sx, sy, s, y), forall|i: int| l <= i <= r ==> b0.px(i, y) == from
    ensures conn(b0, from, sx, sy, x, y)
    decreases (if x > s { x - s } else { s - x })
{
    if x > s { run_conn(b0, b, from, sx, sy, y, l, r, s, x - 1); conn_step(b0, from, sx, sy, x - 1, y, x, y); }
    else if x < s { run_conn(b0, b, from, sx, sy, y, l, r, s, x + 1); conn_step(b0, from, sx, sy, x + 1, y, x, y); }
}
proof fn conn_has<S: ImageBuffer>(b: S, v: u8, ax: int, ay: int, x: int, y: int) requires conn(b, v, ax, ay, x, y) ensures has(b, v, x, y), has(b, v, ax, ay)
{
    let p = choose|p: Seq<(int, int)>| #[trigger] path(b, v, p) && p[0] == (ax, ay) && p.last() == (x, y);
    assert(has(b, v, p[0].0, p[0].1)); assert(has(b, v, p[p.len() - 1].0, p[p.len() - 1].1));
}
/// the run found around a seed belongs to the region
proof fn run_region<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, sx: int, sy: int, y: int, l: int, r: int, s: (usize, usize))
    requires grown(b0, b, from, to, sx, sy), from != to, whole_run(b, from, y, l, r), l <= s.0 <= r, s.1 == y, b0.px(s.0 as int, y) == from ==> conn(b0, from, sx, sy, s.0 as int, y)
    ensures forall|i: int| l <= i <= r ==> #[trigger] conn(b0, from, sx, sy, i, y)
{
    assert forall|i: int| l <= i <= r implies b0.px(i, y) == from by { assert(b.px(i, y) == from); assert(inside(b0, i, y)); }
    assert forall|i: int| l <= i <= r implies #[trigger] conn(b0, from, sx, sy, i, y) by { run_conn(b0, b, from, sx, sy, y, l, r, s.0 as int, i); }
}
spec fn fringe_but<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, q: Seq<(usize, usize)>, yy: int, l: int, r: int) -> bool {
    forall|x: int, y: int, u: int, v: int| inside(b0, x, y) && filled(b0, b, from, to)(x, y) && #[trigger] next_to(x, y, u, v) && inside(b0, u, v) && b0.px(u, v) == from
        ==> b.px(u, v) == to || covered(b, from, q, u, v) || (y == yy && u == x && l <= x <= r && b.px(u, v) == from)
}
proof fn run_filled<S: ImageBuffer>(b0: S, b: S, b1: S, from: u8, to: u8, sx: int, sy: int, q: Seq<(usize, usize)>, s: (usize, usize), y: int, l: int, r: int)
    requires from != to, inside(b0, sx, sy), grown(b0, b, from, to, sx, sy), painted(b, b1, y, l, r, to), whole_run(b, from, y, l, r), l <= s.0 <= r, s.1 == y,
        seeds_ok(b0, from, sx, sy, q.push(s)), fringe(b0, b, from, to, q.push(s)), begun(b0, b, from, to, q.push(s), sx, sy),
        forall|i: int| l <= i <= r ==> #[trigger] conn(b0, from, sx, sy, i, y)
    ensures grown(b0, b1, from, to, sx, sy), seeds_ok(b0, from, sx, sy, q), fringe_but(b0, b1, from, to, q, y, l, r), begun(b0, b1, from, to, q, sx, sy)
{
    let qs = q.push(s);
    assert forall|k: int| 0 <= k < q.len() implies inside(b0, (#[trigger] q[k]).0 as int, q[k].1 as int) && (b0.px(q[k].0 as int, q[k].1 as int) == from ==> conn(b0, from, sx, sy, q[k].0 as int, q[k].1 as int)) by { assert(q[k] == qs[k]); }
    assert forall|u: int, v: int| inside(b, u, v) && covered(b, from, qs, u, v) implies b1.px(u, v) == to || #[trigger] covered(b1, from, q, u, v) by { covered_on(b, b1, from, to, q, s, y, l, r, u, v); }
    if b0.px(sx, sy) == from && b.px(sx, sy) != to { covered_on(b, b1, from, to, q, s, y, l, r, sx, sy); }
    assert forall|i: int, j: int| inside(b0, i, j) implies #[trigger] b1.px(i, j) == b0.px(i, j) || (b1.px(i, j) == to && conn(b0, from, sx, sy, i, j)) by { assert(b.px(i, j) == b.px(i, j)); }
    assert forall|x: int, yy: int, u: int, v: int| inside(b0, x, yy) && filled(b0, b1, from, to)(x, yy) && #[trigger] next_to(x, yy, u, v) && inside(b0, u, v) && b0.px(u, v) == from
        implies b1.px(u, v) == to || covered(b1, from, q, u, v) || (yy == y && u == x && l <= x <= r && b1.px(u, v) == from) by {
        assert(b.px(u, v) == from || b.px(u, v) == to);
        if b.px(x, yy) == to { if b.px(u, v) != to { assert(covered(b, from, qs, u, v)); covered_on(b, b1, from, to, q, s, y, l, r, u, v); } else { assert(b1.px(u, v) == to); } }
        else {
            assert(yy == y && l <= x <= r);
            if v == y { if u < l { assert(u == l - 1); } else if u > r { assert(u == r + 1); } assert(b1.px(u, v) == to); }
            else { assert(b1.px(u, v) == b.px(u, v)); }
        }
    }
}
proof fn run_told<S: ImageBuffer>(b0: S, b: S, b1: S, from: u8, to: u8, rows: Seq<Row>, run: Row)
    requires from != to, b.w() == b0.w(), b.h() == b0.h(), told(b0, b, from, to, rows), painted(b, b1, run.y as int, run.left as int, run.right as int, to), whole_run(b, from, run.y as int, run.left as int, run.right as int),
        forall|i: int| run.left <= i <= run.right ==> b0.px(i, run.y as int) == from,
        cells(filled(b0, b1, from, to), b0.w() as int, b0.h() as int) == cells(filled(b0, b, from, to), b0.w() as int, b0.h() as int) + (run.right - run.left + 1)
    ensures told(b0, b1, from, to, rows.push(run))
{
    let w = b0.w() as int; let h = b0.h() as int; let all = rows.push(run);
    area_push(rows, run);
    assert forall|x: int, y: int| inside(b0, x, y) implies filled(b0, b1, from, to)(x, y) == #[trigger] in_runs(all, x, y) by {
        if in_run(run, x, y) { assert(in_run(all[rows.len() as int], x, y)); assert(b1.px(x, y) == to); }
        else {
            assert(b1.px(x, y) == b.px(x, y));
            if in_runs(rows, x, y) { let k = choose|k: int| 0 <= k < rows.len() && #[trigger] in_run(rows[k], x, y); assert(in_run(all[k], x, y)); }
            if in_runs(all, x, y) { let k = choose|k: int| 0 <= k < all.len() && #[trigger] in_run(all[k], x, y); assert(k < rows.len()); assert(in_run(rows[k], x, y)); }
        }
    }
    assert forall|k: int| 0 <= k < all.len() implies run_inside(#[trigger] all[k], w, h) by { if k < rows.len() { assert(all[k] == rows[k]); } }
    assert forall|k: int, l: int, x: int, y: int| 0 <= k < l < all.len() && #[trigger] in_run(all[k], x, y) implies !#[trigger] in_run(all[l], x, y) by {
        assert(all[k] == rows[k]);
        if l < rows.len() { assert(all[l] == rows[l]); }
        else if in_run(run, x, y) { assert(in_run(rows[k], x, y)); assert(run_inside(rows[k], w, h)); assert(in_runs(rows, x, y)); assert(inside(b0, x, y)); assert(filled(b0, b, from, to)(x, y)); }
    }
}
/// q2 begins with q
spec fn ext(q: Seq<(usize, usize)>, q2: Seq<(usize, usize)>) -> bool { q.len() <= q2.len() && forall|k: int| 0 <= k < q.len() ==> #[trigger] q2[k] == q[k] }
/// the cells of value v among l..=r of line y are covered
spec fn seeded_line<S: ImageBuffer>(b: S, v: u8, q: Seq<(usize, usize)>, y: int, l: int, r: int) -> bool { forall|i: int| l <= i <= r && b.px(i, y) == v ==> #[trigger] covered(b, v, q, i, y) }
proof fn seeds_ext<S: ImageBuffer>(b: S, v: u8, q: Seq<(usize, usize)>, q2: Seq<(usize, usize)>)
    requires ext(q, q2)
    ensures forall|x: int, y: int| covered(b, v, q, x, y) ==> #[trigger] covered(b, v, q2, x, y)
{
    assert forall|x: int, y: int| covered(b, v, q, x, y) implies #[trigger] covered(b, v, q2, x, y) by {
        let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).1 == y && seg(b, v, y, q[k].0 as int, x);
        assert(q2[k] == q[k]);
    }
}
proof fn seed_on<S: ImageBuffer>(b: S, v: u8, q: Seq<(usize, usize)>, x: int, y: int)
    requires covered(b, v, q, x, y), b.px(x + 1, y) == v
    ensures covered(b, v, q, x + 1, y)
{
    let k = choose|k: int| 0 <= k < q.len() && (#[trigger] q[k]).1 == y && seg(b, v, y, q[k].0 as int, x);
    assert(seg(b, v, y, q[k].0 as int, x + 1)) by { assert forall|i: int| (q[k].0 <= i <= x + 1 || x + 1 <= i <= q[k].0) implies #[trigger] b.px(i, y) == v by { } }
}
proof fn fringe_done<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, q: Seq<(usize, usize)>, q2: Seq<(usize, usize)>, y: int, l: int, r: int)
    requires fringe_but(b0, b, from, to, q, y, l, r), ext(q, q2), b.w() == b0.w(), b.h() == b0.h(), y > 0 ==> seeded_line(b, from, q2, y - 1, l, r), y < b0.h() - 1 ==> seeded_line(b, from, q2, y + 1, l, r)
    ensures fringe(b0, b, from, to, q2)
{
    seeds_ext(b, from, q, q2);
    assert forall|x: int, yy: int, u: int, v: int| inside(b0, x, yy) && filled(b0, b, from, to)(x, yy) && #[trigger] next_to(x, yy, u, v) && inside(b0, u, v) && b0.px(u, v) == from
        implies b.px(u, v) == to || covered(b, from, q2, u, v) by {
        if !(b.px(u, v) == to || covered(b, from, q, u, v)) { assert(v == y - 1 || v == y + 1); assert(b.px(u, v) == from); assert(covered(b, from, q2, u, v)); }
    }
}
/// what is filled when no seeds are left is the region
proof fn all_filled<S: ImageBuffer>(b0: S, b: S, from: u8, to: u8, sx: int, sy: int, p: Seq<(int, int)>, n: int)
    requires inside(b0, sx, sy), from != to, grown(b0, b, from, to, sx, sy), fringe(b0, b, from, to, seq![]), begun(b0, b, from, to, seq![], sx, sy), path(b0, from, p), p[0] == (sx, sy), 0 <= n < p.len()
    ensures b.px(p[n].0, p[n].1) == to
    decreases n
{
    assert(has(b0, from, p[n].0, p[n].1));
    if n > 0 {
        all_filled(b0, b, from, to, sx, sy, p, n - 1);
        assert(has(b0, from, p[n - 1].0, p[n - 1].1));
        assert(next_to(p[n - 1].0, p[n - 1].1, p[n].0, p[n].1));
    }
}
/// b1 is b with the region of (x, y) set to v
spec fn recolored<S: ImageBuffer>(b: S, b1: S, from: u8, to: u8, x: int, y: int) -> bool {
    &&& b1.w() == b.w() && b1.h() == b.h()
    &&& forall|i: int, j: int| inside(b, i, j) ==> #[trigger] b1.px(i, j) == (if conn(b, from, x, y, i, j) { to } else { b.px(i, j) })
}
spec fn region<S: ImageBuffer>(b: S, v: u8, x: int, y: int) -> spec_fn(int, int) -> bool { |i: int, j: int| conn(b, v, x, y, i, j) }
/// the runs are the region of (x, y), each cell once
spec fn region_runs<S: ImageBuffer>(b: S, v: u8, x: int, y: int, rows: Seq<Row>) -> bool {
    &&& runs_ok(rows, b.w() as int, b.h() as int)
    &&& forall|i: int, j: int| inside(b, i, j) ==> conn(b, v, x, y, i, j) == #[trigger] in_runs(rows, i, j)
    &&& area(rows) == cells(region(b, v, x, y), b.w() as int, b.h() as int)
}
impl<S> PreparedImage<S> where S: ImageBuffer {
    //@fn src/prepare.rs PreparedImage::flood_fill
    //@ret r
    //@sig
        requires from != to, inside(old(self).buffer, x as int, y as int), takes_all(fill, old(self).buffer.w() as int, old(self).buffer.h() as int)
        ensures final(self).cache == old(self).cache, recolored(old(self).buffer, final(self).buffer, from, to, x as int, y as int),
            exists|rows: Seq<Row>| #[trigger] region_runs(old(self).buffer, from, x as int, y as int, rows) && fed(fill, rows, r)
    //@start
        let ghost b0 = self.buffer; let ghost c0 = self.cache; let ghost f0 = fill; let ghost sx = x as int; let ghost sy = y as int;
        let ghost mut rows: Seq<Row> = seq![];
        let ghost wi = b0.w() as int; let ghost hi = b0.h() as int;
    //@loop 0 before
        proof {
            cells_none(filled(b0, b0, from, to), wi, hi);
            if b0.px(sx, sy) == from { conn_start(b0, from, sx, sy); assert(queue@[0] == (x, y)); assert(seg(b0, from, sy, sx, sx)); }
        }
    //@loop 0
        invariant_except_break
            seeds_ok(b0, from, sx, sy, queue@), fringe(b0, self.buffer, from, to, queue@), begun(b0, self.buffer, from, to, queue@, sx, sy),
            from != to, w == b0.w(), wi == b0.w(), hi == b0.h(), inside(b0, sx, sy), self.cache == c0, grown(b0, self.buffer, from, to, sx, sy),
            told(b0, self.buffer, from, to, rows), fed(f0, rows, fill), takes_all(f0, wi, hi),
        ensures
            self.cache == c0, grown(b0, self.buffer, from, to, sx, sy), fringe(b0, self.buffer, from, to, seq![]), begun(b0, self.buffer, from, to, seq![], sx, sy),
            told(b0, self.buffer, from, to, rows), fed(f0, rows, fill),
        decreases wi * hi - cells(filled(b0, self.buffer, from, to), wi, hi), queue.len(),
    //@loop 0 top
        let ghost q0 = queue@;
    //@loop 0 begin
        let ghost b1 = self.buffer; let ghost q1 = queue@; let ghost s = (x, y);
        proof { cells_max(filled(b0, self.buffer, from, to), wi, hi); assert(q0[q0.len() - 1] == s); assert(q0 =~= q1.push(s)); }
    //@before "continue" 0
        proof { skip_seed(b0, b1, from, to, q1, s); }
    //@loop 1
        invariant 0 <= left <= x < w, y < hi, w == b1.w(), hi == b1.h(), self.buffer == b1, forall|i: int| left <= i <= x ==> #[trigger] b1.px(i, y as int) == from,
        ensures left > 0 ==> b1.px(left - 1, y as int) != from,
        decreases left,
    //@loop 2
        invariant x <= right < w, y < hi, w == b1.w(), hi == b1.h(), self.buffer == b1, forall|i: int| x <= i <= right ==> #[trigger] b1.px(i, y as int) == from,
        ensures right < w - 1 ==> b1.px(right + 1, y as int) != from,
        decreases w - right,
    //@loop 3
        invariant
            left <= idx <= right + 1, right < w, y < hi, w == b1.w(), hi == b1.h(), wi == w, b0.w() == w, b0.h() == hi, self.cache == c0, _hi3 == right, from != to,
            painted(b1, self.buffer, y as int, left as int, idx - 1, to),
            forall|i: int| left <= i <= right ==> #[trigger] b1.px(i, y as int) == from,
            forall|i: int| left <= i <= right ==> b0.px(i, y as int) == from,
            cells(filled(b0, self.buffer, from, to), wi, hi) == cells(filled(b0, b1, from, to), wi, hi) + (idx - left),
    //@loop 3 before
        proof { assert forall|i: int| left <= i <= right implies b0.px(i, y as int) == from by { assert(b1.px(i, y as int) == from); assert(inside(b0, i, y as int)); } }
    //@loop 3 begin
        let ghost b = self.buffer;
    //@loop 3 end
        proof { cells_one(filled(b0, b, from, to), filled(b0, self.buffer, from, to), wi, hi, idx as int, y as int); }
    //@before "fill.update" 0
        let ghost b2 = self.buffer; let ghost run = Row { left, right, y };
        proof {
            run_region(b0, b1, from, to, sx, sy, y as int, left as int, right as int, s);
            run_filled(b0, b1, b2, from, to, sx, sy, q1, s, y as int, left as int, right as int);
            cells_max(filled(b0, b2, from, to), wi, hi);
            run_told(b0, b1, b2, from, to, rows, run);
            assert(fill.takes(run));
        }
        let ghost m = fill;
    //@after "fill.update" 0
        proof { fed_push(f0, rows, m, run, fill); rows = rows.push(run); }
    //@loop 4
        invariant
            left <= x <= right + 1, right < w, y < hi, y > 0, w == b2.w(), hi == b2.h(), b0.w() == w, b0.h() == hi, wi == w, self.buffer == b2, self.cache == c0, _hi4 == right,
            grown(b0, b2, from, to, sx, sy), from != to, seeds_ok(b0, from, sx, sy, queue@), ext(q1, queue@), seeded_line(b2, from, queue@, y - 1, left as int, x - 1),
            forall|i: int| left <= i <= right ==> #[trigger] conn(b0, from, sx, sy, i, y as int),
            seeded_previous == (x > left && b2.px(x - 1, y - 1) == from),
    //@loop 4 begin
        let ghost q = queue@;
    //@loop 4 end
        proof {
            if p == from {
                assert(conn(b0, from, sx, sy, x as int, y as int));
                assert(next_to(x as int, y as int, x as int, y - 1));
                conn_step(b0, from, sx, sy, x as int, y as int, x as int, y - 1);
                if q.len() < queue@.len() { assert(queue@[q.len() as int] == (x, (y - 1) as usize)); assert(seg(b2, from, y - 1, x as int, x as int)); }
                else { seed_on(b2, from, q, x - 1, y - 1); }
            }
            seeds_ext(b2, from, q, queue@);
        }
    //@loop 5
        invariant
            left <= x <= right + 1, right < w, y < hi, y + 1 < hi, w == b2.w(), hi == b2.h(), b0.w() == w, b0.h() == hi, wi == w, self.buffer == b2, self.cache == c0, _hi5 == right,
            grown(b0, b2, from, to, sx, sy), from != to, seeds_ok(b0, from, sx, sy, queue@), ext(q1, queue@), seeded_line(b2, from, queue@, y + 1, left as int, x - 1),
            forall|i: int| left <= i <= right ==> #[trigger] conn(b0, from, sx, sy, i, y as int),
            seeded_previous == (x > left && b2.px(x - 1, y + 1) == from),
            y > 0 ==> seeded_line(b2, from, queue@, y - 1, left as int, right as int),
    //@loop 5 begin
        let ghost q = queue@;
    //@loop 5 end
        proof {
            if p == from {
                assert(conn(b0, from, sx, sy, x as int, y as int));
                assert(next_to(x as int, y as int, x as int, y + 1));
                conn_step(b0, from, sx, sy, x as int, y as int, x as int, y + 1);
                if q.len() < queue@.len() { assert(queue@[q.len() as int] == (x, (y + 1) as usize)); assert(seg(b2, from, y + 1, x as int, x as int)); }
                else { seed_on(b2, from, q, x - 1, y + 1); }
            }
            seeds_ext(b2, from, q, queue@);
        }
    //@loop 0 end
        proof {
            seeds_ext(b2, from, q1, queue@);
            fringe_done(b0, b2, from, to, q1, queue@, y as int, left as int, right as int);
        }
    //@tail
        proof {
            assert forall|i: int, j: int| inside(b0, i, j) implies #[trigger] self.buffer.px(i, j) == (if conn(b0, from, sx, sy, i, j) { to } else { b0.px(i, j) }) by {
                if conn(b0, from, sx, sy, i, j) {
                    let p = choose|p: Seq<(int, int)>| #[trigger] path(b0, from, p) && p[0] == (sx, sy) && p.last() == (i, j);
                    all_filled(b0, self.buffer, from, to, sx, sy, p, p.len() - 1);
                }
            }
            assert forall|i: int, j: int| inside(b0, i, j) implies #[trigger] filled(b0, self.buffer, from, to)(i, j) == region(b0, from, sx, sy)(i, j) by { if conn(b0, from, sx, sy, i, j) { conn_has(b0, from, sx, sy, i, j); } }
            cells_same(filled(b0, self.buffer, from, to), region(b0, from, sx, sy), wi, hi);
            assert(region_runs(b0, from, sx, sy, rows));
        }
    //@endfn
}
// ------------------------------------------------------------------ counting
//@item src/prepare.rs struct AreaCounter
impl AreaFiller for AreaCounter {
    spec fn takes(&self, row: Row) -> bool { row.left <= row.right && self.0 + (row.right - row.left + 1) <= usize::MAX }
    spec fn took(&self, row: Row, after: &Self) -> bool { after.0 == self.0 + (row.right - row.left + 1) }
    //@fn src/prepare.rs AreaCounter::update
    //@endfn
}
proof fn counted(a: AreaCounter, rows: Seq<Row>, z: AreaCounter, w: int, h: int)
    requires fed(a, rows, z), runs_ok(rows, w, h)
    ensures z.0 == a.0 + area(rows)
    decreases rows.len()
{
    if rows.len() > 0 {
        let rs = rows.drop_last();
        let m = choose|m: AreaCounter| fed(a, rs, m) && #[trigger] m.took(rows.last(), &z);
        assert(run_inside(rows[rows.len() - 1], w, h));
        assert forall|k: int| 0 <= k < rs.len() implies run_inside(#[trigger] rs[k], w, h) by { assert(rs[k] == rows[k]); }
        assert forall|k: int, l: int, x: int, y: int| 0 <= k < l < rs.len() && #[trigger] in_run(rs[k], x, y) implies !#[trigger] in_run(rs[l], x, y) by { assert(in_run(rows[k], x, y)); assert(rs[l] == rows[l]); }
        counted(a, rs, m, w, h);
    }
}
proof fn counter_takes_all(a: AreaCounter, w: int, h: int)
    requires a.0 + w * h <= usize::MAX
    ensures takes_all(a, w, h)
{
    assert forall|rows: Seq<Row>, r: Row, m: AreaCounter| #[trigger] fed(a, rows, m) && runs_ok(rows, w, h) && run_inside(r, w, h) && area(rows) + (r.right - r.left + 1) <= w * h implies #[trigger] m.takes(r) by { counted(a, rows, m, w, h); }
}
/// a filler that does nothing: the closure |_| ()
struct NoFill;
impl AreaFiller for NoFill {
    spec fn takes(&self, row: Row) -> bool { true }
    spec fn took(&self, row: Row, after: &Self) -> bool { true }
    fn update(&mut self, row: Row) { }
}
