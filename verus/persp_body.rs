//@item src/identify/mod.rs struct Point derive=Clone,Copy,PartialEq,Eq pub=1
//@item src/geometry.rs struct Perspective derive=Clone,Copy reals=1
// ------------------------------------------------------------------ the projective map
spec fn pr(p: Perspective, i: int) -> real { p.0@[i].r() }
spec fn rx(p: Point) -> real { p.x as int as real }
spec fn ry(p: Point) -> real { p.y as int as real }
spec fn pden(p: Perspective, u: real, v: real) -> real { pr(p, 6) * u + pr(p, 7) * v + 1real }
/// (x, y) is the image of (u, v): the projective equations, defined where the denominator is not zero
spec fn image(p: Perspective, u: real, v: real, x: real, y: real) -> bool {
    pden(p, u, v) != 0real && x * pden(p, u, v) == pr(p, 0) * u + pr(p, 1) * v + pr(p, 2) && y * pden(p, u, v) == pr(p, 3) * u + pr(p, 4) * v + pr(p, 5)
}
/// twice the signed area of a triangle
spec fn area2(a: Point, b: Point, c: Point) -> real { rx(b) * ry(c) - rx(c) * ry(b) + (rx(c) - rx(b)) * ry(a) + rx(a) * (ry(b) - ry(c)) }
/// the corners (0,0), (w,0), (w,h), (0,h) have the images rect[0..4], wherever the denominator (a ratio of triangle areas) is not zero
spec fn to_corners(p: Perspective, rect: Seq<Point>, w: real, h: real) -> bool {
    &&& image(p, 0real, 0real, rx(rect[0]), ry(rect[0]))
    &&& area2(rect[0], rect[2], rect[3]) != 0real ==> image(p, w, 0real, rx(rect[1]), ry(rect[1]))
    &&& area2(rect[0], rect[1], rect[3]) != 0real ==> image(p, w, h, rx(rect[2]), ry(rect[2]))
    &&& area2(rect[0], rect[1], rect[2]) != 0real ==> image(p, 0real, h, rx(rect[3]), ry(rect[3]))
}
proof fn over(n: real, w: real, d: real) requires w != 0real, d != 0real ensures w * d != 0real, (n / (w * d)) * w == n / d
{
    assert(w * d != 0real) by (nonlinear_arith) requires w != 0real, d != 0real;
    let q = n / (w * d);
    assert(q * (w * d) == n) by (nonlinear_arith) requires w * d != 0real, q == n / (w * d);
    assert((q * w) * d == q * (w * d)) by (nonlinear_arith);
    quot(q * w, d);
}
/// x (a + 1) = b + x0 for a = m / d, b = n / d
proof fn at_corner(x: real, m: real, n: real, x0: real, d: real)
    requires d != 0real, x * (m + d) == n + x0 * d
    ensures x * (m / d + 1real) == n / d + x0, m + d != 0real ==> m / d + 1real != 0real
{
    let a = m / d; let b = n / d;
    assert(a * d == m) by (nonlinear_arith) requires d != 0real, a == m / d;
    assert(b * d == n) by (nonlinear_arith) requires d != 0real, b == n / d;
    rg_dist(a, 1real, d); assert(1real * d == d) by (nonlinear_arith);
    assert((a + 1real) * d == m + d);
    rg_assoc(x, a + 1real, d); rg_dist(b, x0, d);
    assert((x * (a + 1real)) * d == (b + x0) * d);
    quot(x * (a + 1real), d); quot(b + x0, d);
    if a + 1real == 0real { rg_zero(d); }
}
proof fn div_sum(a: real, b: real, d: real) requires d != 0real ensures (a + b) / d == a / d + b / d { assert((a + b) / d == a / d + b / d) by (nonlinear_arith) requires d != 0real; }
spec fn fits(x: real) -> bool { -2147483647real <= x <= 2147483646real }
spec fn near(k: i32, x: real) -> bool { k as int as real - x <= 1real / 2real && x - k as int as real <= 1real / 2real }
spec fn back_den(p: Perspective, x: real, y: real) -> real { -pr(p, 0) * pr(p, 7) * y + pr(p, 1) * pr(p, 6) * y + (pr(p, 3) * pr(p, 7) - pr(p, 4) * pr(p, 6)) * x + pr(p, 0) * pr(p, 4) - pr(p, 1) * pr(p, 3) }
proof fn rg_one(a: real) ensures a * 1real == a { assert(a * 1real == a) by (nonlinear_arith); }
proof fn sign(w: real, d: real) requires w > 0real ensures w * d > 0real ==> d > 0real { assert(w * d > 0real ==> d > 0real) by (nonlinear_arith) requires w > 0real; }
proof fn quot(s: real, d: real) requires d != 0real ensures (s * d) / d == s { assert((s * d) / d == s) by (nonlinear_arith) requires d != 0real; }
proof fn den_split(p: Perspective, u: real, v: real, x: real) ensures x * pden(p, u, v) == x * (pr(p, 6) * u + pr(p, 7) * v) + x
{ let a = pr(p, 6) * u + pr(p, 7) * v; rg_dist(a, 1real, x); assert(x * 1real == x) by (nonlinear_arith); }
impl Perspective {
    //@fn src/geometry.rs Perspective::create reals=1
    //@ret z
    //@sig
        requires w.r() > 0real, h.r() > 0real
        ensures z is Some <==> w.r() * area2(rect@[1], rect@[2], rect@[3]) >= eps() && h.r() * area2(rect@[1], rect@[2], rect@[3]) >= eps(),
            z is Some ==> to_corners(z->Some_0, rect@, w.r(), h.r())
    //@start
        proof { eps_pos(); sign(w.r(), area2(rect@[1], rect@[2], rect@[3])); }
    //@tail
        proof {
            let p = Perspective(c); let d = area2(rect@[1], rect@[2], rect@[3]);
            let m6 = pr(p, 6) * w.r(); let m7 = pr(p, 7) * h.r();
            let x0 = rx(rect@[0]); let y0 = ry(rect@[0]); let x1 = rx(rect@[1]); let y1 = ry(rect@[1]); let x2 = rx(rect@[2]); let y2 = ry(rect@[2]); let x3 = rx(rect@[3]); let y3 = ry(rect@[3]);
            let n0 = (x1 * (x2 * y3 - x3 * y2) + x0 * (-x2 * y3 + x3 * y2 + (x2 - x3) * y1) + x1 * (x3 - x2) * y0);
            let n1 = -(x0 * (x2 * y3 + x1 * (y2 - y3) - x2 * y1) - x1 * x3 * y2 + x2 * x3 * y1 + (x1 * x3 - x2 * x3) * y0);
            let n3 = (y0 * (x1 * (y3 - y2) - x2 * y3 + x3 * y2) + y1 * (x2 * y3 - x3 * y2) + x0 * y1 * (y2 - y3));
            let n4 = (x0 * (y1 * y3 - y2 * y3) + x1 * y2 * y3 - x2 * y1 * y3 + y0 * (x3 * y2 - x1 * y2 + (x2 - x3) * y1));
            let n6 = (x1 * (y3 - y2) + x0 * (y2 - y3) + (x2 - x3) * y1 + (x3 - x2) * y0);
            let n7 = (-x2 * y3 + x1 * y3 + x3 * y2 + x0 * (y1 - y2) - x3 * y1 + (x2 - x1) * y0);
            over(n0, w.r(), d); over(n1, h.r(), d); over(n3, w.r(), d); over(n4, h.r(), d); over(n6, w.r(), d); over(n7, h.r(), d);
            rg_x1(x0, y0, x1, y1, x2, y2, x3, y3); rg_y1(x0, y0, x1, y1, x2, y2, x3, y3); rg_x2(x0, y0, x1, y1, x2, y2, x3, y3); rg_y2(x0, y0, x1, y1, x2, y2, x3, y3); rg_x3(x0, y0, x1, y1, x2, y2, x3, y3); rg_y3(x0, y0, x1, y1, x2, y2, x3, y3);
            rg_d1(x0, y0, x1, y1, x2, y2, x3, y3); rg_d2(x0, y0, x1, y1, x2, y2, x3, y3); rg_d3(x0, y0, x1, y1, x2, y2, x3, y3);
            assert(pr(p, 0) == n0 / (w.r() * d)); assert(pr(p, 1) == n1 / (h.r() * d)); assert(pr(p, 2) == x0); assert(pr(p, 3) == n3 / (w.r() * d)); assert(pr(p, 4) == n4 / (h.r() * d)); assert(pr(p, 5) == y0); assert(pr(p, 6) == n6 / (w.r() * d)); assert(pr(p, 7) == n7 / (h.r() * d));
            at_corner(x1, n6, n0, x0, d); at_corner(y1, n6, n3, y0, d); at_corner(x3, n7, n1, x0, d); at_corner(y3, n7, n4, y0, d);
            at_corner(x2, n6 + n7, n0 + n1, x0, d); at_corner(y2, n6 + n7, n3 + n4, y0, d); div_sum(n6, n7, d); div_sum(n0, n1, d); div_sum(n3, n4, d);
            rg_zero(pr(p, 0)); rg_zero(pr(p, 1)); rg_zero(pr(p, 3)); rg_zero(pr(p, 4)); rg_zero(pr(p, 6)); rg_zero(pr(p, 7)); rg_one(x0); rg_one(y0);
        }
    //@endfn
    //@fn src/geometry.rs Perspective::map reals=1
    //@ret z
    //@sig
        requires pden(*self, u.r(), v.r()) != 0real,
            exists|x: real, y: real| #[trigger] image(*self, u.r(), v.r(), x, y) && fits(x) && fits(y)
        ensures forall|x: real, y: real| #[trigger] image(*self, u.r(), v.r(), x, y) ==> near(z.x, x) && near(z.y, y)
    //@after "let y" 0
        proof {
            let d = pden(*self, u.r(), v.r());
            assert forall|s: real, t: real| #[trigger] image(*self, u.r(), v.r(), s, t) implies x.r() == s && y.r() == t by { quot(s, d); quot(t, d); }
        }
    //@endfn
    //@fn src/geometry.rs Perspective::unmap reals=1
    //@start
        let ghost p0 = p;
    //@ret z
    //@sig
        requires back_den(*self, rx(*p), ry(*p)) != 0real
        ensures forall|u: real, v: real| #[trigger] image(*self, u, v, rx(*p), ry(*p)) ==> z.0.r() == u && z.1.r() == v
    //@tail
        proof {
            let c0 = pr(*self, 0); let c1 = pr(*self, 1); let c2 = pr(*self, 2); let c3 = pr(*self, 3); let c4 = pr(*self, 4); let c5 = pr(*self, 5); let c6 = pr(*self, 6); let c7 = pr(*self, 7);
            let xr = rx(*p0); let yr = ry(*p0); let d = back_den(*self, xr, yr);
            assert forall|s: real, t: real| #[trigger] image(*self, s, t, xr, yr) implies u.r() == s && v.r() == t by {
                rg_u(c0, c1, c2, c3, c4, c5, c6, c7, s, t, xr, yr); rg_v(c0, c1, c2, c3, c4, c5, c6, c7, s, t, xr, yr);
                den_split(*self, s, t, xr); den_split(*self, s, t, yr);
                rg_zero(c4 - yr * c7); rg_zero(c1 - xr * c7); rg_zero(c0 - xr * c6); rg_zero(c3 - yr * c6);
                quot(s, d); quot(t, d);
            }
        }
    //@endfn
}
