pub assume_specification[ i32::abs ](a: i32) -> (r: i32) requires a > i32::MIN ensures r == (if a < 0 { -a } else { a as int });
//@item src/identify/mod.rs struct Point derive=Clone,Copy,PartialEq,Eq pub=1
// ------------------------------------------------------------------ intersection of two lines
/// quotient truncated towards zero
spec fn tdiv(a: int, b: int) -> int { if a >= 0 { a / b } else { -((-a) / b) } }
broadcast proof fn div_small(a: int, b: int)
    requires b < 0, a >= 0
    ensures -a <= #[trigger] (a / b) <= 0
{
    assert(-a <= (a / b) <= 0) by (nonlinear_arith) requires b < 0, a >= 0;
}
/// cross product of the directions of the lines p0 p1 and q0 q1
spec fn cross(p0: Point, p1: Point, q0: Point, q1: Point) -> int { (p1.x - p0.x) * (q1.y - q0.y) - (p1.y - p0.y) * (q1.x - q0.x) }
/// the rational point (nx / de, ny / de) lies on the line through p0 and p1
spec fn on_line(p0: Point, p1: Point, nx: int, ny: int, de: int) -> bool { (p1.x - p0.x) * (ny - p0.y * de) == (p1.y - p0.y) * (nx - p0.x * de) }
/// the point of the line p with parameter t / de, where de is the cross product
spec fn isect_t(p0: Point, p1: Point, q0: Point, q1: Point) -> int { (q0.x - p0.x) * (q1.y - q0.y) - (q0.y - p0.y) * (q1.x - q0.x) }
spec fn isect_nx(p0: Point, p1: Point, q0: Point, q1: Point) -> int { p0.x * cross(p0, p1, q0, q1) + isect_t(p0, p1, q0, q1) * (p1.x - p0.x) }
spec fn isect_ny(p0: Point, p1: Point, q0: Point, q1: Point) -> int { p0.y * cross(p0, p1, q0, q1) + isect_t(p0, p1, q0, q1) * (p1.y - p0.y) }
// polynomial identities
proof fn dist(a: int, b: int, c: int, d: int, e: int) ensures a * (b * c - d * e) == a * b * c - a * d * e
{ assert(a * (b * c - d * e) == a * b * c - a * d * e) by (nonlinear_arith); }
proof fn perm(a: int, b: int, c: int) ensures a * b * c == b * a * c, a * b * c == a * c * b, a * b * c == b * c * a, a * b * c == c * a * b, a * b * c == c * b * a
{ assert(a * b * c == b * a * c && a * b * c == a * c * b && a * b * c == b * c * a && a * b * c == c * a * b && a * b * c == c * b * a) by (nonlinear_arith); }
proof fn sub(a: int, b: int, c: int) ensures (a - b) * c == a * c - b * c, c * (a - b) == c * a - c * b
{ assert((a - b) * c == a * c - b * c && c * (a - b) == c * a - c * b) by (nonlinear_arith); }
proof fn code_nx(px: int, py: int, dx: int, dy: int, qx: int, qy: int, ex: int, ey: int)
    ensures ex * (dx * py - dy * px) - dx * (ex * qy - ey * qx) == px * (dx * ey - dy * ex) + ((qx - px) * ey - (qy - py) * ex) * dx
{
    dist(ex, dx, py, dy, px); dist(dx, ex, qy, ey, qx); dist(px, dx, ey, dy, ex);
    sub(qx, px, ey); sub(qy, py, ex);
    let q = qx * ey - px * ey - (qy * ex - py * ex);
    assert(q * dx == qx * ey * dx - px * ey * dx - qy * ex * dx + py * ex * dx) by { sub(qx * ey - px * ey, qy * ex - py * ex, dx); sub(qx * ey, px * ey, dx); sub(qy * ex, py * ex, dx); }
    perm(ex, dx, py); perm(ex, dy, px); perm(dx, ex, qy); perm(dx, ey, qx); perm(px, dx, ey); perm(px, dy, ex);
}
spec fn normal(p0: Point, p1: Point) -> int { (p1.x - p0.x) * p0.y - (p1.y - p0.y) * p0.x }
/// the numerators as combinations of the lines' constants
proof fn isect_code(p0: Point, p1: Point, q0: Point, q1: Point)
    ensures
        isect_nx(p0, p1, q0, q1) == (q1.x - q0.x) * normal(p0, p1) - (p1.x - p0.x) * normal(q0, q1),
        isect_ny(p0, p1, q0, q1) == (q1.y - q0.y) * normal(p0, p1) - (p1.y - p0.y) * normal(q0, q1),
{
    let px = p0.x as int; let py = p0.y as int; let qx = q0.x as int; let qy = q0.y as int; let dx = p1.x - px; let dy = p1.y - py; let ex = q1.x - qx; let ey = q1.y - qy;
    code_nx(px, py, dx, dy, qx, qy, ex, ey);
    code_nx(py, px, dy, dx, qy, qx, ey, ex);
    let e = dx * py - dy * px; let f = ex * qy - ey * qx; let de = dx * ey - dy * ex; let t = (qx - px) * ey - (qy - py) * ex;
    assert(ey * (0 - e) == 0 - ey * e) by { sub(0, e, ey); }
    assert(dy * (0 - f) == 0 - dy * f) by { sub(0, f, dy); }
    assert(py * (0 - de) == 0 - py * de) by { sub(0, de, py); }
    assert((0 - t) * dy == 0 - t * dy) by { sub(0, t, dy); }
}
/// p is on the line exactly if ...
proof fn on_line_is(p0: Point, p1: Point, nx: int, ny: int, de: int)
    ensures on_line(p0, p1, nx, ny, de) <==> (p1.x - p0.x) * ny - (p1.y - p0.y) * nx == normal(p0, p1) * de
{
    let px = p0.x as int; let py = p0.y as int; let dx = p1.x - px; let dy = p1.y - py;
    sub(ny, py * de, dx); sub(nx, px * de, dy); sub(dx * py, dy * px, de);
    assert(dx * (py * de) == dx * py * de && dy * (px * de) == dy * px * de) by (nonlinear_arith);
}
/// the specification is the intersection: it lies on both lines
proof fn isect_on(p0: Point, p1: Point, q0: Point, q1: Point)
    ensures
        on_line(p0, p1, isect_nx(p0, p1, q0, q1), isect_ny(p0, p1, q0, q1), cross(p0, p1, q0, q1)),
        on_line(q0, q1, isect_nx(p0, p1, q0, q1), isect_ny(p0, p1, q0, q1), cross(p0, p1, q0, q1)),
{
    isect_code(p0, p1, q0, q1);
    let nx = isect_nx(p0, p1, q0, q1); let ny = isect_ny(p0, p1, q0, q1); let de = cross(p0, p1, q0, q1);
    on_line_is(p0, p1, nx, ny, de); on_line_is(q0, q1, nx, ny, de);
    let dx = p1.x - p0.x; let dy = p1.y - p0.y; let ex = q1.x - q0.x; let ey = q1.y - q0.y; let e = normal(p0, p1); let f = normal(q0, q1);
    dist(dx, ey, e, dy, f); dist(dy, ex, e, dx, f); dist(ex, ey, e, dy, f); dist(ey, ex, e, dx, f);
    assert((dx * ey - dy * ex) * e == dx * ey * e - dy * ex * e) by { sub(dx * ey, dy * ex, e); }
    assert((dx * ey - dy * ex) * f == dx * ey * f - dy * ex * f) by { sub(dx * ey, dy * ex, f); }
    assert(e * de == de * e && f * de == de * f) by (nonlinear_arith);
    perm(dx, dy, f); perm(ex, ey, e); perm(ex, dy, f); perm(ey, dx, f);
}
/// and it is the only such point
proof fn isect_only(p0: Point, p1: Point, q0: Point, q1: Point, nx: int, ny: int, de: int)
    requires on_line(p0, p1, nx, ny, de), on_line(q0, q1, nx, ny, de)
    ensures nx * cross(p0, p1, q0, q1) == isect_nx(p0, p1, q0, q1) * de, ny * cross(p0, p1, q0, q1) == isect_ny(p0, p1, q0, q1) * de
{
    isect_code(p0, p1, q0, q1);
    on_line_is(p0, p1, nx, ny, de); on_line_is(q0, q1, nx, ny, de);
    let dx = p1.x - p0.x; let dy = p1.y - p0.y; let ex = q1.x - q0.x; let ey = q1.y - q0.y; let e = normal(p0, p1); let f = normal(q0, q1);
    dist(ex, dx, ny, dy, nx); dist(dx, ex, ny, ey, nx); dist(ey, dx, ny, dy, nx); dist(dy, ex, ny, ey, nx);
    assert(ex * (e * de) == ex * e * de && dx * (f * de) == dx * f * de && ey * (e * de) == ey * e * de && dy * (f * de) == dy * f * de) by (nonlinear_arith);
    sub(ex * e, dx * f, de); sub(ey * e, dy * f, de);
    dist(nx, dx, ey, dy, ex); dist(ny, dx, ey, dy, ex);
    perm(ex, dx, ny); perm(ex, dy, nx); perm(dx, ey, nx); perm(ey, dx, ny); perm(ey, dy, nx); perm(dy, ex, ny);
}
spec fn i32_of(v: int) -> Option<i32> { if -0x8000_0000 <= v <= 0x7fff_ffff { Some(v as i32) } else { None } }
spec fn isect(p0: Point, p1: Point, q0: Point, q1: Point) -> Option<Point> {
    let de = cross(p0, p1, q0, q1);
    if de == 0 { None } else {
        match (i32_of(tdiv(isect_nx(p0, p1, q0, q1), de)), i32_of(tdiv(isect_ny(p0, p1, q0, q1), de))) { (Some(x), Some(y)) => Some(Point { x, y }), _ => None }
    }
}
spec fn small(p: Point) -> bool { -0x80000 <= p.x <= 0x80000 && -0x80000 <= p.y <= 0x80000 }
/// a * x with both factors bounded
proof fn mul_abs(a: int, x: int, m: int, n: int)
    requires -m <= a <= m, -n <= x <= n
    ensures -(m * n) <= a * x <= m * n
{
    assert(-(m * n) <= a * x <= m * n) by (nonlinear_arith) requires -m <= a <= m, -n <= x <= n;
}
//@fn src/geometry.rs line_intersect
//@ret r
//@sig
    requires small(*p0), small(*p1), small(*q0), small(*q1)
    ensures r == isect(*p0, *p1, *q0, *q1)
//@start
    broadcast use div_small;
    proof {
        let a = -(p1.y - p0.y) as int; let b = (p1.x - p0.x) as int; let c = -(q1.y - q0.y) as int; let d = (q1.x - q0.x) as int;
        mul_abs(a, p1.x as int, 0x100000, 0x80000); mul_abs(b, p1.y as int, 0x100000, 0x80000);
        mul_abs(c, q1.x as int, 0x100000, 0x80000); mul_abs(d, q1.y as int, 0x100000, 0x80000);
        let e = a * p1.x + b * p1.y; let f = c * q1.x + d * q1.y;
        mul_abs(d, e, 0x100000, 0x100_0000_0000); mul_abs(b, f, 0x100000, 0x100_0000_0000);
        mul_abs(-c, e, 0x100000, 0x100_0000_0000); mul_abs(a, f, 0x100000, 0x100_0000_0000);
        mul_abs(a, d, 0x100000, 0x100000); mul_abs(b, c, 0x100000, 0x100000);
        isect_code(*p0, *p1, *q0, *q1);
        let px = p0.x as int; let py = p0.y as int; let qx = q0.x as int; let qy = q0.y as int;
        assert(-(p1.y - py) * p1.x == 0 - (p1.y - py) * p1.x) by { sub(0, p1.y - py, p1.x as int); }
        sub(p1.y as int, py, p1.x as int); sub(p1.x as int, px, p1.y as int); sub(p1.x as int, px, py); sub(p1.y as int, py, px);
        assert(p1.x * p1.y == p1.y * p1.x && px * p1.y == p1.y * px && py * p1.x == p1.x * py && px * py == py * px) by (nonlinear_arith);
        assert(e == normal(*p0, *p1));
        assert(-(q1.y - qy) * q1.x == 0 - (q1.y - qy) * q1.x) by { sub(0, q1.y - qy, q1.x as int); }
        sub(q1.y as int, qy, q1.x as int); sub(q1.x as int, qx, q1.y as int); sub(q1.x as int, qx, qy); sub(q1.y as int, qy, qx);
        assert(q1.x * q1.y == q1.y * q1.x && qx * q1.y == q1.y * qx && qy * q1.x == q1.x * qy && qx * qy == qy * qx) by (nonlinear_arith);
        assert(f == normal(*q0, *q1));
        assert(a * f == 0 - (p1.y - py) * f) by { sub(0, p1.y - py, f); }
        assert(a * d == 0 - (p1.y - py) * d) by { sub(0, p1.y - py, d); }
        assert(b * c == 0 - b * (q1.y - qy)) by { sub(0, q1.y - qy, b); }
    }
//@endfn
// ------------------------------------------------------------------ the points of a line, one step of the dominant axis at a time
//@item src/geometry.rs struct BresenhamScan
spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
spec fn sgn(a: int) -> int { if a < 0 { -1int } else { 1 } }
/// k steps in the direction of a
spec fn go(a: int, k: int) -> int { if a < 0 { -k } else { k } }
spec fn x_dominant(p: Point, q: Point) -> bool { iabs(q.x - p.x) > iabs(q.y - p.y) }
/// number of steps
spec fn steps(p: Point, q: Point) -> int { if x_dominant(p, q) { iabs(q.x - p.x) } else { iabs(q.y - p.y) } }
/// distance along the other axis
spec fn minor(p: Point, q: Point) -> int { if x_dominant(p, q) { iabs(q.y - p.y) } else { iabs(q.x - p.x) } }
/// steps made along the other axis after k steps
spec fn minor_at(k: int, n: int, d: int) -> int { if n >= d { k } else { (n * (k + 1)) / d } }
spec fn px_at(p: Point, q: Point, k: int) -> int { p.x + go(q.x - p.x, if x_dominant(p, q) { k } else { minor_at(k, minor(p, q), steps(p, q)) }) }
spec fn py_at(p: Point, q: Point, k: int) -> int { p.y + go(q.y - p.y, if x_dominant(p, q) { minor_at(k, minor(p, q), steps(p, q)) } else { k }) }
/// point k of the line scan
spec fn line_point(p: Point, q: Point, k: int) -> Point { Point { x: px_at(p, q, k) as i32, y: py_at(p, q, k) as i32 } }
spec fn line_ok(p: Point, q: Point) -> bool {
    -0x4000_0000 < p.x < 0x4000_0000 && -0x4000_0000 < p.y < 0x4000_0000 && -0x4000_0000 < q.x < 0x4000_0000 && -0x4000_0000 < q.y < 0x4000_0000
    && iabs(q.x - p.x) < 0x2000_0000 && iabs(q.y - p.y) < 0x2000_0000
}
proof fn minor_step(k: int, n: int, d: int)
    requires 0 <= n <= d, 0 <= k
    ensures
        n < d ==> 0 <= n * (k + 1) - minor_at(k, n, d) * d < d,
        n == d ==> n * (k + 1) - minor_at(k, n, d) * d == d,
        minor_at(k + 1, n, d) == minor_at(k, n, d) + (if n * (k + 1) - minor_at(k, n, d) * d + n >= d { 1int } else { 0 }),
        0 <= minor_at(k, n, d) <= k + 1,
{
    let m = minor_at(k, n, d); let m1 = minor_at(k + 1, n, d);
    assert(n * (k + 2) == n * (k + 1) + n) by (nonlinear_arith);
    if n < d {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n * (k + 1), d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n * (k + 2), d);
        assert(d * m == m * d && d * m1 == m1 * d) by (nonlinear_arith);
        let a = n * (k + 1) - m * d; let a1 = n * (k + 2) - m1 * d;
        assert(0 <= n * (k + 1)) by (nonlinear_arith) requires 0 <= n, 0 <= k;
        assert((m1 - m) * d == a + n - a1) by (nonlinear_arith) requires a == n * (k + 1) - m * d, a1 == n * (k + 1) + n - m1 * d;
        let z = m1 - m;
        assert(z < 2) by (nonlinear_arith) requires z * d == a + n - a1, a < d, n < d, 0 <= a1, 0 < d;
        assert(z > -1) by (nonlinear_arith) requires z * d == a + n - a1, 0 <= a, 0 <= n, a1 < d, 0 < d;
        if a + n >= d { assert(z >= 1) by (nonlinear_arith) requires z * d == a + n - a1, a + n >= d, a1 < d, 0 < d; }
        else { assert(z < 1) by (nonlinear_arith) requires z * d == a + n - a1, a + n < d, 0 <= a1, 0 < d; }
        assert(m >= 0) by (nonlinear_arith) requires m * d == n * (k + 1) - a, a < d, 0 < d, 0 <= n * (k + 1);
        assert(n * (k + 1) <= d * (k + 1)) by (nonlinear_arith) requires n < d, 0 <= k;
        assert(m <= k + 1) by (nonlinear_arith) requires m * d <= d * (k + 1), 0 < d;
    } else {
        assert(n * (k + 1) - k * d == d) by (nonlinear_arith) requires n == d;
    }
}
proof fn minor_end(n: int, d: int)
    requires 0 <= n <= d
    ensures minor_at(d, n, d) == n
{
    if n < d {
        assert(n * (d + 1) == n * d + n) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * (d + 1), d, n, n);
    }
}
proof fn minor_mono(k: int, j: int, n: int, d: int)
    requires 0 <= n <= d, 0 <= k <= j
    ensures minor_at(k, n, d) <= minor_at(j, n, d)
    decreases j - k
{
    if k < j { minor_step(k, n, d); minor_mono(k + 1, j, n, d); }
}
/// the line scan starts at p, ends at q after steps(p, q) steps, each of which is one along the dominant axis,
/// and stays within one of the exact line
proof fn line_scan(p: Point, q: Point, k: int)
    requires line_ok(p, q), 0 <= k <= steps(p, q)
    ensures
        line_point(p, q, 0) == p,
        line_point(p, q, steps(p, q)) == q,
        k < steps(p, q) && x_dominant(p, q) ==> line_point(p, q, k + 1).x == line_point(p, q, k).x + sgn(q.x - p.x),
        k < steps(p, q) && !x_dominant(p, q) ==> line_point(p, q, k + 1).y == line_point(p, q, k).y + sgn(q.y - p.y),
        // |other coordinate - exact| <= 1, multiplied by the number of steps
        x_dominant(p, q) ==> iabs((line_point(p, q, k).y - p.y) * steps(p, q) - k * (q.y - p.y)) <= steps(p, q),
        !x_dominant(p, q) ==> iabs((line_point(p, q, k).x - p.x) * steps(p, q) - k * (q.x - p.x)) <= steps(p, q),
{
    let n = minor(p, q); let d = steps(p, q);
    minor_step(0, n, d); minor_step(k, n, d); minor_step(d, n, d); minor_end(n, d); minor_mono(k, d, n, d);
    if k < d { minor_mono(k + 1, d, n, d); }
    assert(n * (0 + 1) == n);
    if n < d { assert(minor_at(0, n, d) == 0) by { vstd::arithmetic::div_mod::lemma_basic_div(n, d); } }
    let m = minor_at(k, n, d);
    assert(n * (k + 1) == n * k + n && n * k == k * n) by (nonlinear_arith);
    assert(-d <= m * d - k * n <= d);
    let dn = if x_dominant(p, q) { q.y - p.y } else { q.x - p.x };
    assert((-m) * d == -(m * d) && k * (-n) == -(k * n)) by (nonlinear_arith);
    assert(go(dn, n) == dn);
}
impl BresenhamScan {
    /// the state after i points of the line from p to q
    spec fn at(&self, p: Point, q: Point) -> bool {
        &&& line_ok(p, q) && 0 <= self.i <= self.d + 1
        &&& self.x_dom == x_dominant(p, q) && self.d == steps(p, q) && self.n == minor(p, q)
        &&& self.dom_step == (if self.x_dom { sgn(q.x - p.x) } else { sgn(q.y - p.y) })
        &&& self.non_step == (if self.x_dom { sgn(q.y - p.y) } else { sgn(q.x - p.x) })
        &&& self.x == px_at(p, q, self.i as int) && self.y == py_at(p, q, self.i as int)
        &&& self.a == self.n * (self.i + 1) - minor_at(self.i as int, self.n as int, self.d as int) * self.d
    }
    //@fn src/geometry.rs BresenhamScan::new
    //@ret r
    //@sig
        requires line_ok(*from, *to)
        ensures r.at(*from, *to), r.i == 0
    //@start
        proof { let n = minor(*from, *to); let d = steps(*from, *to); minor_step(0, n, d); assert(n * (0 + 1) == n); if n < d { vstd::arithmetic::div_mod::lemma_basic_div(n, d); } assert(minor_at(0, n, d) == 0); assert(minor_at(0, n, d) * d == 0) by (nonlinear_arith) requires minor_at(0, n, d) == 0; }
    //@endfn
    //@fn src/geometry.rs BresenhamScan::next
    //@sub "<Self as Iterator>::Item" "Point"
    //@ret r
    //@sig
        requires exists|p: Point, q: Point| old(self).at(p, q)
        ensures
            old(self).i > old(self).d ==> r is None && *final(self) == *old(self),
            old(self).i <= old(self).d ==> final(self).i == old(self).i + 1 && final(self).d == old(self).d
                && forall|p: Point, q: Point| #[trigger] old(self).at(p, q) ==> final(self).at(p, q) && r == Some(line_point(p, q, old(self).i as int)),
    //@start
        let ghost (p, q) = choose|p: Point, q: Point| self.at(p, q);
        proof { minor_step(self.i as int, self.n as int, self.d as int); minor_end(self.n as int, self.d as int); if self.i <= self.d { minor_mono(self.i as int, self.d as int, self.n as int, self.d as int); } let n = self.n; let i = self.i; assert(n * (i + 2) == n * (i + 1) + n) by (nonlinear_arith); let m = minor_at(i as int, n as int, self.d as int); let d = self.d; assert((m + 1) * d == m * d + d) by (nonlinear_arith); }
    //@endfn
}
