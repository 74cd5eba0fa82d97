// written by tools/ring.py: polynomial identities over the reals behind the perspective transform
proof fn rg_dist(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c, (a - b) * c == a * c - b * c, c * (a + b) == c * a + c * b, c * (a - b) == c * a - c * b
{ assert((a + b) * c == a * c + b * c && (a - b) * c == a * c - b * c && c * (a + b) == c * a + c * b && c * (a - b) == c * a - c * b) by (nonlinear_arith); }
proof fn rg_assoc(a: real, b: real, c: real) ensures a * (b * c) == (a * b) * c { assert(a * (b * c) == (a * b) * c) by (nonlinear_arith); }
proof fn rg_swap(a: real, b: real, c: real) ensures (a * b) * c == (a * c) * b { assert((a * b) * c == (a * c) * b) by (nonlinear_arith); }
proof fn rg_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
proof fn rg_zero(a: real) ensures 0real * a == 0real, a * 0real == 0real { assert(0real * a == 0real && a * 0real == 0real) by (nonlinear_arith); }
proof fn rg_x1(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures x1 * ((x1 * (y3 - y2) + x0 * (y2 - y3) + (x2 - x3) * y1 + (x3 - x2) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))) == (x1 * (x2 * y3 - x3 * y2) + x0 * (-x2 * y3 + x3 * y2 + (x2 - x3) * y1) + x1 * (x3 - x2) * y0) + x0 * (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))
{
    assert((y3 - y2) == ((0real - y2) + y3));
    assert(x1 * (y3 - y2) == x1 * ((0real - y2) + y3));
    rg_dist((0real - y2), y3, x1);
    rg_dist(0real, y2, x1); rg_zero(x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * y3 == (x1 * y3));
    assert(x1 * (y3 - y2) == ((0real - (x1 * y2)) + (x1 * y3)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x0);
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * y3 == (x0 * y3));
    assert(x0 * (y2 - y3) == ((x0 * y2) - (x0 * y3)));
    assert(((x1 * (y3 - y2)) + (x0 * (y2 - y3))) == ((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)));
    assert((x2 - x3) == (x2 - x3));
    rg_dist(x2, x3, y1);
    assert(x2 * y1 == (x2 * y1));
    assert(x3 * y1 == (x3 * y1));
    assert((x2 - x3) * y1 == ((x2 * y1) - (x3 * y1)));
    assert((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) == ((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) + (x2 * y1)) - (x3 * y1)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y0 == ((0real - x2) + x3) * y0);
    rg_dist((0real - x2), x3, y0);
    rg_dist(0real, x2, y0); rg_zero(y0);
    assert(x2 * y0 == (x2 * y0));
    assert(x3 * y0 == (x3 * y0));
    assert((x3 - x2) * y0 == ((0real - (x2 * y0)) + (x3 * y0)));
    assert(((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) == ((((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) - (x2 * y0)) + (x2 * y1)) + (x3 * y0)) - (x3 * y1)));
    assert(x2 * y3 == (x2 * y3));
    assert(x3 * y2 == (x3 * y2));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist(y2, y3, x1);
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)) + (x3 * y0)) - (x3 * y2)));
    assert(x1 * (((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == x1 * ((((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)) + (x3 * y0)) - (x3 * y2)));
    rg_dist((((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)) + (x3 * y0)), (x3 * y2), x1);
    rg_dist(((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)), (x3 * y0), x1);
    rg_dist((((x0 * y2) - (x0 * y3)) - (x2 * y0)), (x2 * y3), x1);
    rg_dist(((x0 * y2) - (x0 * y3)), (x2 * y0), x1);
    rg_dist((x0 * y2), (x0 * y3), x1);
    rg_assoc(x1, x0, y2);
    rg_comm(x1, x0);
    assert(x1 * x0 == (x0 * x1));
    assert((x1 * x0) * y2 == (x0 * x1) * y2);
    assert(x1 * (x0 * y2) == ((x0 * x1) * y2));
    rg_assoc(x1, x0, y3);
    assert((x1 * x0) * y3 == (x0 * x1) * y3);
    assert(x1 * (x0 * y3) == ((x0 * x1) * y3));
    rg_assoc(x1, x2, y0);
    assert(x1 * x2 == (x1 * x2));
    assert((x1 * x2) * y0 == (x1 * x2) * y0);
    assert(x1 * (x2 * y0) == ((x1 * x2) * y0));
    rg_assoc(x1, x2, y3);
    assert((x1 * x2) * y3 == (x1 * x2) * y3);
    assert(x1 * (x2 * y3) == ((x1 * x2) * y3));
    rg_assoc(x1, x3, y0);
    assert(x1 * x3 == (x1 * x3));
    assert((x1 * x3) * y0 == (x1 * x3) * y0);
    assert(x1 * (x3 * y0) == ((x1 * x3) * y0));
    rg_assoc(x1, x3, y2);
    assert((x1 * x3) * y2 == (x1 * x3) * y2);
    assert(x1 * (x3 * y2) == ((x1 * x3) * y2));
    assert(x1 * (((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == (((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x1 * x2) * y0)) + ((x1 * x2) * y3)) + ((x1 * x3) * y0)) - ((x1 * x3) * y2)));
    rg_dist((x2 * y3), (x3 * y2), x1);
    assert(x1 * ((x2 * y3) - (x3 * y2)) == (((x1 * x2) * y3) - ((x1 * x3) * y2)));
    assert((-x2) * y3 == (0real - x2) * y3);
    rg_dist(0real, x2, y3); rg_zero(y3);
    assert((-x2) * y3 == (0real - (x2 * y3)));
    assert((((-x2) * y3) + (x3 * y2)) == ((0real - (x2 * y3)) + (x3 * y2)));
    assert(((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)) == ((((x2 * y1) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert(x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)) == x0 * ((((x2 * y1) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    rg_dist((((x2 * y1) - (x2 * y3)) - (x3 * y1)), (x3 * y2), x0);
    rg_dist(((x2 * y1) - (x2 * y3)), (x3 * y1), x0);
    rg_dist((x2 * y1), (x2 * y3), x0);
    rg_assoc(x0, x2, y1);
    assert(x0 * x2 == (x0 * x2));
    assert((x0 * x2) * y1 == (x0 * x2) * y1);
    assert(x0 * (x2 * y1) == ((x0 * x2) * y1));
    rg_assoc(x0, x2, y3);
    assert((x0 * x2) * y3 == (x0 * x2) * y3);
    assert(x0 * (x2 * y3) == ((x0 * x2) * y3));
    rg_assoc(x0, x3, y1);
    assert(x0 * x3 == (x0 * x3));
    assert((x0 * x3) * y1 == (x0 * x3) * y1);
    assert(x0 * (x3 * y1) == ((x0 * x3) * y1));
    rg_assoc(x0, x3, y2);
    assert((x0 * x3) * y2 == (x0 * x3) * y2);
    assert(x0 * (x3 * y2) == ((x0 * x3) * y2));
    assert(x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)) == (((((x0 * x2) * y1) - ((x0 * x2) * y3)) - ((x0 * x3) * y1)) + ((x0 * x3) * y2)));
    assert(((x1 * ((x2 * y3) - (x3 * y2))) + (x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)))) == (((((((x0 * x2) * y1) - ((x0 * x2) * y3)) - ((x0 * x3) * y1)) + ((x0 * x3) * y2)) + ((x1 * x2) * y3)) - ((x1 * x3) * y2)));
    assert(x1 * (x3 - x2) == x1 * ((0real - x2) + x3));
    rg_dist((0real - x2), x3, x1);
    rg_dist(0real, x2, x1); rg_zero(x1);
    assert(x1 * (x3 - x2) == ((0real - (x1 * x2)) + (x1 * x3)));
    assert((x1 * (x3 - x2)) * y0 == ((0real - (x1 * x2)) + (x1 * x3)) * y0);
    rg_dist((0real - (x1 * x2)), (x1 * x3), y0);
    rg_dist(0real, (x1 * x2), y0); rg_zero(y0);
    assert((x1 * x2) * y0 == ((x1 * x2) * y0));
    assert((x1 * x3) * y0 == ((x1 * x3) * y0));
    assert((x1 * (x3 - x2)) * y0 == ((0real - ((x1 * x2) * y0)) + ((x1 * x3) * y0)));
    assert((((x1 * ((x2 * y3) - (x3 * y2))) + (x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)))) + ((x1 * (x3 - x2)) * y0)) == (((((((((x0 * x2) * y1) - ((x0 * x2) * y3)) - ((x0 * x3) * y1)) + ((x0 * x3) * y2)) - ((x1 * x2) * y0)) + ((x1 * x2) * y3)) + ((x1 * x3) * y0)) - ((x1 * x3) * y2)));
    assert(x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == x0 * ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)), (x3 * y2), x0);
    rg_dist(((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)), (x3 * y1), x0);
    rg_dist((((x1 * y2) - (x1 * y3)) - (x2 * y1)), (x2 * y3), x0);
    rg_dist(((x1 * y2) - (x1 * y3)), (x2 * y1), x0);
    rg_dist((x1 * y2), (x1 * y3), x0);
    rg_assoc(x0, x1, y2);
    assert(x0 * x1 == (x0 * x1));
    assert((x0 * x1) * y2 == (x0 * x1) * y2);
    assert(x0 * (x1 * y2) == ((x0 * x1) * y2));
    rg_assoc(x0, x1, y3);
    assert((x0 * x1) * y3 == (x0 * x1) * y3);
    assert(x0 * (x1 * y3) == ((x0 * x1) * y3));
    assert(x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == (((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) + ((x0 * x3) * y1)) - ((x0 * x3) * y2)));
    assert(((((x1 * ((x2 * y3) - (x3 * y2))) + (x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)))) + ((x1 * (x3 - x2)) * y0)) + (x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))))) == (((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x1 * x2) * y0)) + ((x1 * x2) * y3)) + ((x1 * x3) * y0)) - ((x1 * x3) * y2)));
}
proof fn rg_d1(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures (x1 * (y3 - y2) + x0 * (y2 - y3) + (x2 - x3) * y1 + (x3 - x2) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3)) == (x2 * y3 - x3 * y2 + (x3 - x2) * y0 + x0 * (y2 - y3))
{
    assert((y3 - y2) == ((0real - y2) + y3));
    assert(x1 * (y3 - y2) == x1 * ((0real - y2) + y3));
    rg_dist((0real - y2), y3, x1);
    rg_dist(0real, y2, x1); rg_zero(x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * y3 == (x1 * y3));
    assert(x1 * (y3 - y2) == ((0real - (x1 * y2)) + (x1 * y3)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x0);
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * y3 == (x0 * y3));
    assert(x0 * (y2 - y3) == ((x0 * y2) - (x0 * y3)));
    assert(((x1 * (y3 - y2)) + (x0 * (y2 - y3))) == ((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)));
    assert((x2 - x3) == (x2 - x3));
    rg_dist(x2, x3, y1);
    assert(x2 * y1 == (x2 * y1));
    assert(x3 * y1 == (x3 * y1));
    assert((x2 - x3) * y1 == ((x2 * y1) - (x3 * y1)));
    assert((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) == ((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) + (x2 * y1)) - (x3 * y1)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y0 == ((0real - x2) + x3) * y0);
    rg_dist((0real - x2), x3, y0);
    rg_dist(0real, x2, y0); rg_zero(y0);
    assert(x2 * y0 == (x2 * y0));
    assert(x3 * y0 == (x3 * y0));
    assert((x3 - x2) * y0 == ((0real - (x2 * y0)) + (x3 * y0)));
    assert(((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) == ((((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) - (x2 * y0)) + (x2 * y1)) + (x3 * y0)) - (x3 * y1)));
    assert(x2 * y3 == (x2 * y3));
    assert(x3 * y2 == (x3 * y2));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist(y2, y3, x1);
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)) + (x3 * y0)) - (x3 * y2)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y0)) == ((((0real - (x2 * y0)) + (x2 * y3)) + (x3 * y0)) - (x3 * y2)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y0)) + (x0 * (y2 - y3))) == ((((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)) + (x3 * y0)) - (x3 * y2)));
}
proof fn rg_d2(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures (x1 * (y3 - y2) + x0 * (y2 - y3) + (x2 - x3) * y1 + (x3 - x2) * y0) + (-x2 * y3 + x1 * y3 + x3 * y2 + x0 * (y1 - y2) - x3 * y1 + (x2 - x1) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3)) == (x1 * y3 - x3 * y1 + (x3 - x1) * y0 + x0 * (y1 - y3))
{
    assert((y3 - y2) == ((0real - y2) + y3));
    assert(x1 * (y3 - y2) == x1 * ((0real - y2) + y3));
    rg_dist((0real - y2), y3, x1);
    rg_dist(0real, y2, x1); rg_zero(x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * y3 == (x1 * y3));
    assert(x1 * (y3 - y2) == ((0real - (x1 * y2)) + (x1 * y3)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x0);
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * y3 == (x0 * y3));
    assert(x0 * (y2 - y3) == ((x0 * y2) - (x0 * y3)));
    assert(((x1 * (y3 - y2)) + (x0 * (y2 - y3))) == ((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)));
    assert((x2 - x3) == (x2 - x3));
    rg_dist(x2, x3, y1);
    assert(x2 * y1 == (x2 * y1));
    assert(x3 * y1 == (x3 * y1));
    assert((x2 - x3) * y1 == ((x2 * y1) - (x3 * y1)));
    assert((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) == ((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) + (x2 * y1)) - (x3 * y1)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y0 == ((0real - x2) + x3) * y0);
    rg_dist((0real - x2), x3, y0);
    rg_dist(0real, x2, y0); rg_zero(y0);
    assert(x2 * y0 == (x2 * y0));
    assert(x3 * y0 == (x3 * y0));
    assert((x3 - x2) * y0 == ((0real - (x2 * y0)) + (x3 * y0)));
    assert(((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) == ((((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) - (x2 * y0)) + (x2 * y1)) + (x3 * y0)) - (x3 * y1)));
    assert((-x2) * y3 == (0real - x2) * y3);
    rg_dist(0real, x2, y3); rg_zero(y3);
    assert(x2 * y3 == (x2 * y3));
    assert((-x2) * y3 == (0real - (x2 * y3)));
    assert((((-x2) * y3) + (x1 * y3)) == ((x1 * y3) - (x2 * y3)));
    assert(x3 * y2 == (x3 * y2));
    assert(((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) == (((x1 * y3) - (x2 * y3)) + (x3 * y2)));
    assert((y1 - y2) == (y1 - y2));
    rg_dist(y1, y2, x0);
    assert(x0 * y1 == (x0 * y1));
    assert(x0 * (y1 - y2) == ((x0 * y1) - (x0 * y2)));
    assert((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) == (((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    assert(((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) == ((((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((x2 - x1) == ((0real - x1) + x2));
    assert((x2 - x1) * y0 == ((0real - x1) + x2) * y0);
    rg_dist((0real - x1), x2, y0);
    rg_dist(0real, x1, y0); rg_zero(y0);
    assert(x1 * y0 == (x1 * y0));
    assert((x2 - x1) * y0 == ((0real - (x1 * y0)) + (x2 * y0)));
    assert((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) == ((((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y3)) + (x2 * y0)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) == ((((((((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) - (x1 * y2)) + (x1 * y3)) + (x1 * y3)) + (x2 * y1)) - (x2 * y3)) + (x3 * y0)) - (x3 * y1)) - (x3 * y1)) + (x3 * y2)));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist(y2, y3, x1);
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert(((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)) + (x3 * y0)) - (x3 * y1)));
    assert(((x1 * y3) - (x3 * y1)) == ((x1 * y3) - (x3 * y1)));
    assert((x3 - x1) == ((0real - x1) + x3));
    assert((x3 - x1) * y0 == ((0real - x1) + x3) * y0);
    rg_dist((0real - x1), x3, y0);
    assert((x3 - x1) * y0 == ((0real - (x1 * y0)) + (x3 * y0)));
    assert((((x1 * y3) - (x3 * y1)) + ((x3 - x1) * y0)) == ((((0real - (x1 * y0)) + (x1 * y3)) + (x3 * y0)) - (x3 * y1)));
    assert((y1 - y3) == (y1 - y3));
    rg_dist(y1, y3, x0);
    assert(x0 * (y1 - y3) == ((x0 * y1) - (x0 * y3)));
    assert(((((x1 * y3) - (x3 * y1)) + ((x3 - x1) * y0)) + (x0 * (y1 - y3))) == ((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)) + (x3 * y0)) - (x3 * y1)));
}
proof fn rg_d3(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures (-x2 * y3 + x1 * y3 + x3 * y2 + x0 * (y1 - y2) - x3 * y1 + (x2 - x1) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3)) == (x1 * y2 - x2 * y1 + (x2 - x1) * y0 + x0 * (y1 - y2))
{
    assert((-x2) * y3 == (0real - x2) * y3);
    rg_dist(0real, x2, y3); rg_zero(y3);
    assert(x2 * y3 == (x2 * y3));
    assert((-x2) * y3 == (0real - (x2 * y3)));
    assert(x1 * y3 == (x1 * y3));
    assert((((-x2) * y3) + (x1 * y3)) == ((x1 * y3) - (x2 * y3)));
    assert(x3 * y2 == (x3 * y2));
    assert(((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) == (((x1 * y3) - (x2 * y3)) + (x3 * y2)));
    assert((y1 - y2) == (y1 - y2));
    rg_dist(y1, y2, x0);
    assert(x0 * y1 == (x0 * y1));
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * (y1 - y2) == ((x0 * y1) - (x0 * y2)));
    assert((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) == (((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    assert(x3 * y1 == (x3 * y1));
    assert(((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) == ((((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((x2 - x1) == ((0real - x1) + x2));
    assert((x2 - x1) * y0 == ((0real - x1) + x2) * y0);
    rg_dist((0real - x1), x2, y0);
    rg_dist(0real, x1, y0); rg_zero(y0);
    assert(x1 * y0 == (x1 * y0));
    assert(x2 * y0 == (x2 * y0));
    assert((x2 - x1) * y0 == ((0real - (x1 * y0)) + (x2 * y0)));
    assert((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) == ((((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y3)) + (x2 * y0)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert(x2 * y1 == (x2 * y1));
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert(((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)) + (x2 * y0)) - (x2 * y1)));
    assert(((x1 * y2) - (x2 * y1)) == ((x1 * y2) - (x2 * y1)));
    assert((((x1 * y2) - (x2 * y1)) + ((x2 - x1) * y0)) == ((((0real - (x1 * y0)) + (x1 * y2)) + (x2 * y0)) - (x2 * y1)));
    assert(((((x1 * y2) - (x2 * y1)) + ((x2 - x1) * y0)) + (x0 * (y1 - y2))) == ((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)) + (x2 * y0)) - (x2 * y1)));
}
proof fn rg_y1(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures y1 * ((x1 * (y3 - y2) + x0 * (y2 - y3) + (x2 - x3) * y1 + (x3 - x2) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))) == (y0 * (x1 * (y3 - y2) - x2 * y3 + x3 * y2) + y1 * (x2 * y3 - x3 * y2) + x0 * y1 * (y2 - y3)) + y0 * (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))
{
    assert((y3 - y2) == ((0real - y2) + y3));
    assert(x1 * (y3 - y2) == x1 * ((0real - y2) + y3));
    rg_dist((0real - y2), y3, x1);
    rg_dist(0real, y2, x1); rg_zero(x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * y3 == (x1 * y3));
    assert(x1 * (y3 - y2) == ((0real - (x1 * y2)) + (x1 * y3)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x0);
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * y3 == (x0 * y3));
    assert(x0 * (y2 - y3) == ((x0 * y2) - (x0 * y3)));
    assert(((x1 * (y3 - y2)) + (x0 * (y2 - y3))) == ((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)));
    assert((x2 - x3) == (x2 - x3));
    rg_dist(x2, x3, y1);
    assert(x2 * y1 == (x2 * y1));
    assert(x3 * y1 == (x3 * y1));
    assert((x2 - x3) * y1 == ((x2 * y1) - (x3 * y1)));
    assert((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) == ((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) + (x2 * y1)) - (x3 * y1)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y0 == ((0real - x2) + x3) * y0);
    rg_dist((0real - x2), x3, y0);
    rg_dist(0real, x2, y0); rg_zero(y0);
    assert(x2 * y0 == (x2 * y0));
    assert(x3 * y0 == (x3 * y0));
    assert((x3 - x2) * y0 == ((0real - (x2 * y0)) + (x3 * y0)));
    assert(((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) == ((((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) - (x2 * y0)) + (x2 * y1)) + (x3 * y0)) - (x3 * y1)));
    assert(x2 * y3 == (x2 * y3));
    assert(x3 * y2 == (x3 * y2));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist(y2, y3, x1);
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)) + (x3 * y0)) - (x3 * y2)));
    assert(y1 * (((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == y1 * ((((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)) + (x3 * y0)) - (x3 * y2)));
    rg_dist((((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)) + (x3 * y0)), (x3 * y2), y1);
    rg_dist(((((x0 * y2) - (x0 * y3)) - (x2 * y0)) + (x2 * y3)), (x3 * y0), y1);
    rg_dist((((x0 * y2) - (x0 * y3)) - (x2 * y0)), (x2 * y3), y1);
    rg_dist(((x0 * y2) - (x0 * y3)), (x2 * y0), y1);
    rg_dist((x0 * y2), (x0 * y3), y1);
    rg_assoc(y1, x0, y2);
    rg_comm(y1, x0);
    assert(y1 * x0 == (x0 * y1));
    assert((y1 * x0) * y2 == (x0 * y1) * y2);
    assert(y1 * (x0 * y2) == ((x0 * y1) * y2));
    rg_assoc(y1, x0, y3);
    assert((y1 * x0) * y3 == (x0 * y1) * y3);
    assert(y1 * (x0 * y3) == ((x0 * y1) * y3));
    rg_assoc(y1, x2, y0);
    rg_comm(y1, x2);
    assert(y1 * x2 == (x2 * y1));
    assert((y1 * x2) * y0 == (x2 * y1) * y0);
    rg_swap(x2, y1, y0);
    assert((x2 * y0) * y1 == ((x2 * y0) * y1));
    assert(y1 * (x2 * y0) == ((x2 * y0) * y1));
    rg_assoc(y1, x2, y3);
    assert((y1 * x2) * y3 == (x2 * y1) * y3);
    assert(y1 * (x2 * y3) == ((x2 * y1) * y3));
    rg_assoc(y1, x3, y0);
    rg_comm(y1, x3);
    assert(y1 * x3 == (x3 * y1));
    assert((y1 * x3) * y0 == (x3 * y1) * y0);
    rg_swap(x3, y1, y0);
    assert((x3 * y0) * y1 == ((x3 * y0) * y1));
    assert(y1 * (x3 * y0) == ((x3 * y0) * y1));
    rg_assoc(y1, x3, y2);
    assert((y1 * x3) * y2 == (x3 * y1) * y2);
    assert(y1 * (x3 * y2) == ((x3 * y1) * y2));
    assert(y1 * (((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == (((((((x0 * y1) * y2) - ((x0 * y1) * y3)) - ((x2 * y0) * y1)) + ((x2 * y1) * y3)) + ((x3 * y0) * y1)) - ((x3 * y1) * y2)));
    assert(((x1 * (y3 - y2)) - (x2 * y3)) == (((0real - (x1 * y2)) + (x1 * y3)) - (x2 * y3)));
    assert((((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2)) == ((((0real - (x1 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    assert(y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2)) == y0 * ((((0real - (x1 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    rg_dist((((0real - (x1 * y2)) + (x1 * y3)) - (x2 * y3)), (x3 * y2), y0);
    rg_dist(((0real - (x1 * y2)) + (x1 * y3)), (x2 * y3), y0);
    rg_dist((0real - (x1 * y2)), (x1 * y3), y0);
    rg_dist(0real, (x1 * y2), y0); rg_zero(y0);
    rg_assoc(y0, x1, y2);
    rg_comm(y0, x1);
    assert(y0 * x1 == (x1 * y0));
    assert((y0 * x1) * y2 == (x1 * y0) * y2);
    assert(y0 * (x1 * y2) == ((x1 * y0) * y2));
    rg_assoc(y0, x1, y3);
    assert((y0 * x1) * y3 == (x1 * y0) * y3);
    assert(y0 * (x1 * y3) == ((x1 * y0) * y3));
    rg_assoc(y0, x2, y3);
    rg_comm(y0, x2);
    assert(y0 * x2 == (x2 * y0));
    assert((y0 * x2) * y3 == (x2 * y0) * y3);
    assert(y0 * (x2 * y3) == ((x2 * y0) * y3));
    rg_assoc(y0, x3, y2);
    rg_comm(y0, x3);
    assert(y0 * x3 == (x3 * y0));
    assert((y0 * x3) * y2 == (x3 * y0) * y2);
    assert(y0 * (x3 * y2) == ((x3 * y0) * y2));
    assert(y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2)) == ((((0real - ((x1 * y0) * y2)) + ((x1 * y0) * y3)) - ((x2 * y0) * y3)) + ((x3 * y0) * y2)));
    rg_dist((x2 * y3), (x3 * y2), y1);
    assert(y1 * ((x2 * y3) - (x3 * y2)) == (((x2 * y1) * y3) - ((x3 * y1) * y2)));
    assert(((y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2))) + (y1 * ((x2 * y3) - (x3 * y2)))) == ((((((0real - ((x1 * y0) * y2)) + ((x1 * y0) * y3)) - ((x2 * y0) * y3)) + ((x2 * y1) * y3)) + ((x3 * y0) * y2)) - ((x3 * y1) * y2)));
    assert(x0 * y1 == (x0 * y1));
    rg_dist(y2, y3, (x0 * y1));
    assert((x0 * y1) * y2 == ((x0 * y1) * y2));
    assert((x0 * y1) * y3 == ((x0 * y1) * y3));
    assert((x0 * y1) * (y2 - y3) == (((x0 * y1) * y2) - ((x0 * y1) * y3)));
    assert((((y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2))) + (y1 * ((x2 * y3) - (x3 * y2)))) + ((x0 * y1) * (y2 - y3))) == (((((((((x0 * y1) * y2) - ((x0 * y1) * y3)) - ((x1 * y0) * y2)) + ((x1 * y0) * y3)) - ((x2 * y0) * y3)) + ((x2 * y1) * y3)) + ((x3 * y0) * y2)) - ((x3 * y1) * y2)));
    assert(y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == y0 * ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)), (x3 * y2), y0);
    rg_dist(((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)), (x3 * y1), y0);
    rg_dist((((x1 * y2) - (x1 * y3)) - (x2 * y1)), (x2 * y3), y0);
    rg_dist(((x1 * y2) - (x1 * y3)), (x2 * y1), y0);
    rg_dist((x1 * y2), (x1 * y3), y0);
    rg_assoc(y0, x2, y1);
    assert((y0 * x2) * y1 == (x2 * y0) * y1);
    assert(y0 * (x2 * y1) == ((x2 * y0) * y1));
    rg_assoc(y0, x3, y1);
    assert((y0 * x3) * y1 == (x3 * y0) * y1);
    assert(y0 * (x3 * y1) == ((x3 * y0) * y1));
    assert(y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == (((((((x1 * y0) * y2) - ((x1 * y0) * y3)) - ((x2 * y0) * y1)) + ((x2 * y0) * y3)) + ((x3 * y0) * y1)) - ((x3 * y0) * y2)));
    assert(((((y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2))) + (y1 * ((x2 * y3) - (x3 * y2)))) + ((x0 * y1) * (y2 - y3))) + (y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))))) == (((((((x0 * y1) * y2) - ((x0 * y1) * y3)) - ((x2 * y0) * y1)) + ((x2 * y1) * y3)) + ((x3 * y0) * y1)) - ((x3 * y1) * y2)));
}
proof fn rg_x3(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures x3 * ((-x2 * y3 + x1 * y3 + x3 * y2 + x0 * (y1 - y2) - x3 * y1 + (x2 - x1) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))) == -(x0 * (x2 * y3 + x1 * (y2 - y3) - x2 * y1) - x1 * x3 * y2 + x2 * x3 * y1 + (x1 * x3 - x2 * x3) * y0) + x0 * (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))
{
    assert((-x2) * y3 == (0real - x2) * y3);
    rg_dist(0real, x2, y3); rg_zero(y3);
    assert(x2 * y3 == (x2 * y3));
    assert((-x2) * y3 == (0real - (x2 * y3)));
    assert(x1 * y3 == (x1 * y3));
    assert((((-x2) * y3) + (x1 * y3)) == ((x1 * y3) - (x2 * y3)));
    assert(x3 * y2 == (x3 * y2));
    assert(((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) == (((x1 * y3) - (x2 * y3)) + (x3 * y2)));
    assert((y1 - y2) == (y1 - y2));
    rg_dist(y1, y2, x0);
    assert(x0 * y1 == (x0 * y1));
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * (y1 - y2) == ((x0 * y1) - (x0 * y2)));
    assert((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) == (((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    assert(x3 * y1 == (x3 * y1));
    assert(((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) == ((((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((x2 - x1) == ((0real - x1) + x2));
    assert((x2 - x1) * y0 == ((0real - x1) + x2) * y0);
    rg_dist((0real - x1), x2, y0);
    rg_dist(0real, x1, y0); rg_zero(y0);
    assert(x1 * y0 == (x1 * y0));
    assert(x2 * y0 == (x2 * y0));
    assert((x2 - x1) * y0 == ((0real - (x1 * y0)) + (x2 * y0)));
    assert((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) == ((((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y3)) + (x2 * y0)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert(x2 * y1 == (x2 * y1));
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert(((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)) + (x2 * y0)) - (x2 * y1)));
    assert(x3 * ((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == x3 * ((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)) + (x2 * y0)) - (x2 * y1)));
    rg_dist((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)) + (x2 * y0)), (x2 * y1), x3);
    rg_dist(((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)), (x2 * y0), x3);
    rg_dist((((x0 * y1) - (x0 * y2)) - (x1 * y0)), (x1 * y2), x3);
    rg_dist(((x0 * y1) - (x0 * y2)), (x1 * y0), x3);
    rg_dist((x0 * y1), (x0 * y2), x3);
    rg_assoc(x3, x0, y1);
    rg_comm(x3, x0);
    assert(x3 * x0 == (x0 * x3));
    assert((x3 * x0) * y1 == (x0 * x3) * y1);
    assert(x3 * (x0 * y1) == ((x0 * x3) * y1));
    rg_assoc(x3, x0, y2);
    assert((x3 * x0) * y2 == (x0 * x3) * y2);
    assert(x3 * (x0 * y2) == ((x0 * x3) * y2));
    rg_assoc(x3, x1, y0);
    rg_comm(x3, x1);
    assert(x3 * x1 == (x1 * x3));
    assert((x3 * x1) * y0 == (x1 * x3) * y0);
    assert(x3 * (x1 * y0) == ((x1 * x3) * y0));
    rg_assoc(x3, x1, y2);
    assert((x3 * x1) * y2 == (x1 * x3) * y2);
    assert(x3 * (x1 * y2) == ((x1 * x3) * y2));
    rg_assoc(x3, x2, y0);
    rg_comm(x3, x2);
    assert(x3 * x2 == (x2 * x3));
    assert((x3 * x2) * y0 == (x2 * x3) * y0);
    assert(x3 * (x2 * y0) == ((x2 * x3) * y0));
    rg_assoc(x3, x2, y1);
    assert((x3 * x2) * y1 == (x2 * x3) * y1);
    assert(x3 * (x2 * y1) == ((x2 * x3) * y1));
    assert(x3 * ((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == (((((((x0 * x3) * y1) - ((x0 * x3) * y2)) - ((x1 * x3) * y0)) + ((x1 * x3) * y2)) + ((x2 * x3) * y0)) - ((x2 * x3) * y1)));
    assert(((x2 * y3) + (x1 * (y2 - y3))) == (((x1 * y2) - (x1 * y3)) + (x2 * y3)));
    assert((((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1)) == ((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)));
    assert(x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1)) == x0 * ((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)));
    rg_dist((((x1 * y2) - (x1 * y3)) - (x2 * y1)), (x2 * y3), x0);
    rg_dist(((x1 * y2) - (x1 * y3)), (x2 * y1), x0);
    rg_dist((x1 * y2), (x1 * y3), x0);
    rg_assoc(x0, x1, y2);
    assert(x0 * x1 == (x0 * x1));
    assert((x0 * x1) * y2 == (x0 * x1) * y2);
    assert(x0 * (x1 * y2) == ((x0 * x1) * y2));
    rg_assoc(x0, x1, y3);
    assert((x0 * x1) * y3 == (x0 * x1) * y3);
    assert(x0 * (x1 * y3) == ((x0 * x1) * y3));
    rg_assoc(x0, x2, y1);
    assert(x0 * x2 == (x0 * x2));
    assert((x0 * x2) * y1 == (x0 * x2) * y1);
    assert(x0 * (x2 * y1) == ((x0 * x2) * y1));
    rg_assoc(x0, x2, y3);
    assert((x0 * x2) * y3 == (x0 * x2) * y3);
    assert(x0 * (x2 * y3) == ((x0 * x2) * y3));
    assert(x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1)) == (((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)));
    assert(x1 * x3 == (x1 * x3));
    assert((x1 * x3) * y2 == ((x1 * x3) * y2));
    assert(((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) == ((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) - ((x1 * x3) * y2)));
    assert(x2 * x3 == (x2 * x3));
    assert((x2 * x3) * y1 == ((x2 * x3) * y1));
    assert((((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)) == (((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)));
    assert(((x1 * x3) - (x2 * x3)) == ((x1 * x3) - (x2 * x3)));
    rg_dist((x1 * x3), (x2 * x3), y0);
    assert((x1 * x3) * y0 == ((x1 * x3) * y0));
    assert((x2 * x3) * y0 == ((x2 * x3) * y0));
    assert(((x1 * x3) - (x2 * x3)) * y0 == (((x1 * x3) * y0) - ((x2 * x3) * y0)));
    assert(((((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)) + (((x1 * x3) - (x2 * x3)) * y0)) == (((((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) + ((x1 * x3) * y0)) - ((x1 * x3) * y2)) - ((x2 * x3) * y0)) + ((x2 * x3) * y1)));
    assert(x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == x0 * ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)), (x3 * y2), x0);
    rg_dist(((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)), (x3 * y1), x0);
    rg_assoc(x0, x3, y1);
    assert(x0 * x3 == (x0 * x3));
    assert((x0 * x3) * y1 == (x0 * x3) * y1);
    assert(x0 * (x3 * y1) == ((x0 * x3) * y1));
    rg_assoc(x0, x3, y2);
    assert((x0 * x3) * y2 == (x0 * x3) * y2);
    assert(x0 * (x3 * y2) == ((x0 * x3) * y2));
    assert(x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == (((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) + ((x0 * x3) * y1)) - ((x0 * x3) * y2)));
    assert(((-((((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)) + (((x1 * x3) - (x2 * x3)) * y0))) + (x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))))) == (((((((x0 * x3) * y1) - ((x0 * x3) * y2)) - ((x1 * x3) * y0)) + ((x1 * x3) * y2)) + ((x2 * x3) * y0)) - ((x2 * x3) * y1)));
}
proof fn rg_y3(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures y3 * ((-x2 * y3 + x1 * y3 + x3 * y2 + x0 * (y1 - y2) - x3 * y1 + (x2 - x1) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))) == (x0 * (y1 * y3 - y2 * y3) + x1 * y2 * y3 - x2 * y1 * y3 + y0 * (x3 * y2 - x1 * y2 + (x2 - x3) * y1)) + y0 * (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))
{
    assert((-x2) * y3 == (0real - x2) * y3);
    rg_dist(0real, x2, y3); rg_zero(y3);
    assert(x2 * y3 == (x2 * y3));
    assert((-x2) * y3 == (0real - (x2 * y3)));
    assert(x1 * y3 == (x1 * y3));
    assert((((-x2) * y3) + (x1 * y3)) == ((x1 * y3) - (x2 * y3)));
    assert(x3 * y2 == (x3 * y2));
    assert(((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) == (((x1 * y3) - (x2 * y3)) + (x3 * y2)));
    assert((y1 - y2) == (y1 - y2));
    rg_dist(y1, y2, x0);
    assert(x0 * y1 == (x0 * y1));
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * (y1 - y2) == ((x0 * y1) - (x0 * y2)));
    assert((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) == (((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    assert(x3 * y1 == (x3 * y1));
    assert(((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) == ((((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((x2 - x1) == ((0real - x1) + x2));
    assert((x2 - x1) * y0 == ((0real - x1) + x2) * y0);
    rg_dist((0real - x1), x2, y0);
    rg_dist(0real, x1, y0); rg_zero(y0);
    assert(x1 * y0 == (x1 * y0));
    assert(x2 * y0 == (x2 * y0));
    assert((x2 - x1) * y0 == ((0real - (x1 * y0)) + (x2 * y0)));
    assert((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) == ((((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y3)) + (x2 * y0)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert(x2 * y1 == (x2 * y1));
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert(((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)) + (x2 * y0)) - (x2 * y1)));
    assert(y3 * ((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == y3 * ((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)) + (x2 * y0)) - (x2 * y1)));
    rg_dist((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)) + (x2 * y0)), (x2 * y1), y3);
    rg_dist(((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y2)), (x2 * y0), y3);
    rg_dist((((x0 * y1) - (x0 * y2)) - (x1 * y0)), (x1 * y2), y3);
    rg_dist(((x0 * y1) - (x0 * y2)), (x1 * y0), y3);
    rg_dist((x0 * y1), (x0 * y2), y3);
    rg_assoc(y3, x0, y1);
    rg_comm(y3, x0);
    assert(y3 * x0 == (x0 * y3));
    assert((y3 * x0) * y1 == (x0 * y3) * y1);
    rg_swap(x0, y3, y1);
    assert((x0 * y1) * y3 == ((x0 * y1) * y3));
    assert(y3 * (x0 * y1) == ((x0 * y1) * y3));
    rg_assoc(y3, x0, y2);
    assert((y3 * x0) * y2 == (x0 * y3) * y2);
    rg_swap(x0, y3, y2);
    assert((x0 * y2) * y3 == ((x0 * y2) * y3));
    assert(y3 * (x0 * y2) == ((x0 * y2) * y3));
    rg_assoc(y3, x1, y0);
    rg_comm(y3, x1);
    assert(y3 * x1 == (x1 * y3));
    assert((y3 * x1) * y0 == (x1 * y3) * y0);
    rg_swap(x1, y3, y0);
    assert((x1 * y0) * y3 == ((x1 * y0) * y3));
    assert(y3 * (x1 * y0) == ((x1 * y0) * y3));
    rg_assoc(y3, x1, y2);
    assert((y3 * x1) * y2 == (x1 * y3) * y2);
    rg_swap(x1, y3, y2);
    assert((x1 * y2) * y3 == ((x1 * y2) * y3));
    assert(y3 * (x1 * y2) == ((x1 * y2) * y3));
    rg_assoc(y3, x2, y0);
    rg_comm(y3, x2);
    assert(y3 * x2 == (x2 * y3));
    assert((y3 * x2) * y0 == (x2 * y3) * y0);
    rg_swap(x2, y3, y0);
    assert((x2 * y0) * y3 == ((x2 * y0) * y3));
    assert(y3 * (x2 * y0) == ((x2 * y0) * y3));
    rg_assoc(y3, x2, y1);
    assert((y3 * x2) * y1 == (x2 * y3) * y1);
    rg_swap(x2, y3, y1);
    assert((x2 * y1) * y3 == ((x2 * y1) * y3));
    assert(y3 * (x2 * y1) == ((x2 * y1) * y3));
    assert(y3 * ((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == (((((((x0 * y1) * y3) - ((x0 * y2) * y3)) - ((x1 * y0) * y3)) + ((x1 * y2) * y3)) + ((x2 * y0) * y3)) - ((x2 * y1) * y3)));
    assert(y1 * y3 == (y1 * y3));
    assert(y2 * y3 == (y2 * y3));
    assert(((y1 * y3) - (y2 * y3)) == ((y1 * y3) - (y2 * y3)));
    rg_dist((y1 * y3), (y2 * y3), x0);
    rg_assoc(x0, y1, y3);
    assert((x0 * y1) * y3 == (x0 * y1) * y3);
    assert(x0 * (y1 * y3) == ((x0 * y1) * y3));
    rg_assoc(x0, y2, y3);
    assert((x0 * y2) * y3 == (x0 * y2) * y3);
    assert(x0 * (y2 * y3) == ((x0 * y2) * y3));
    assert(x0 * ((y1 * y3) - (y2 * y3)) == (((x0 * y1) * y3) - ((x0 * y2) * y3)));
    assert(((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) == ((((x0 * y1) * y3) - ((x0 * y2) * y3)) + ((x1 * y2) * y3)));
    assert((((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)) == (((((x0 * y1) * y3) - ((x0 * y2) * y3)) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)));
    assert(((x3 * y2) - (x1 * y2)) == ((0real - (x1 * y2)) + (x3 * y2)));
    assert((x2 - x3) == (x2 - x3));
    rg_dist(x2, x3, y1);
    assert((x2 - x3) * y1 == ((x2 * y1) - (x3 * y1)));
    assert((((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)) == ((((0real - (x1 * y2)) + (x2 * y1)) - (x3 * y1)) + (x3 * y2)));
    assert(y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)) == y0 * ((((0real - (x1 * y2)) + (x2 * y1)) - (x3 * y1)) + (x3 * y2)));
    rg_dist((((0real - (x1 * y2)) + (x2 * y1)) - (x3 * y1)), (x3 * y2), y0);
    rg_dist(((0real - (x1 * y2)) + (x2 * y1)), (x3 * y1), y0);
    rg_dist((0real - (x1 * y2)), (x2 * y1), y0);
    rg_dist(0real, (x1 * y2), y0); rg_zero(y0);
    rg_assoc(y0, x1, y2);
    rg_comm(y0, x1);
    assert(y0 * x1 == (x1 * y0));
    assert((y0 * x1) * y2 == (x1 * y0) * y2);
    assert(y0 * (x1 * y2) == ((x1 * y0) * y2));
    rg_assoc(y0, x2, y1);
    rg_comm(y0, x2);
    assert(y0 * x2 == (x2 * y0));
    assert((y0 * x2) * y1 == (x2 * y0) * y1);
    assert(y0 * (x2 * y1) == ((x2 * y0) * y1));
    rg_assoc(y0, x3, y1);
    rg_comm(y0, x3);
    assert(y0 * x3 == (x3 * y0));
    assert((y0 * x3) * y1 == (x3 * y0) * y1);
    assert(y0 * (x3 * y1) == ((x3 * y0) * y1));
    rg_assoc(y0, x3, y2);
    assert((y0 * x3) * y2 == (x3 * y0) * y2);
    assert(y0 * (x3 * y2) == ((x3 * y0) * y2));
    assert(y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)) == ((((0real - ((x1 * y0) * y2)) + ((x2 * y0) * y1)) - ((x3 * y0) * y1)) + ((x3 * y0) * y2)));
    assert(((((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)) + (y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)))) == (((((((((x0 * y1) * y3) - ((x0 * y2) * y3)) - ((x1 * y0) * y2)) + ((x1 * y2) * y3)) + ((x2 * y0) * y1)) - ((x2 * y1) * y3)) - ((x3 * y0) * y1)) + ((x3 * y0) * y2)));
    assert(y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == y0 * ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)), (x3 * y2), y0);
    rg_dist(((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)), (x3 * y1), y0);
    rg_dist((((x1 * y2) - (x1 * y3)) - (x2 * y1)), (x2 * y3), y0);
    rg_dist(((x1 * y2) - (x1 * y3)), (x2 * y1), y0);
    rg_dist((x1 * y2), (x1 * y3), y0);
    rg_assoc(y0, x1, y3);
    assert((y0 * x1) * y3 == (x1 * y0) * y3);
    assert(y0 * (x1 * y3) == ((x1 * y0) * y3));
    rg_assoc(y0, x2, y3);
    assert((y0 * x2) * y3 == (x2 * y0) * y3);
    assert(y0 * (x2 * y3) == ((x2 * y0) * y3));
    assert(y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == (((((((x1 * y0) * y2) - ((x1 * y0) * y3)) - ((x2 * y0) * y1)) + ((x2 * y0) * y3)) + ((x3 * y0) * y1)) - ((x3 * y0) * y2)));
    assert((((((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)) + (y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)))) + (y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))))) == (((((((x0 * y1) * y3) - ((x0 * y2) * y3)) - ((x1 * y0) * y3)) + ((x1 * y2) * y3)) + ((x2 * y0) * y3)) - ((x2 * y1) * y3)));
}
proof fn rg_x2(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures x2 * ((x1 * (y3 - y2) + x0 * (y2 - y3) + (x2 - x3) * y1 + (x3 - x2) * y0) + (-x2 * y3 + x1 * y3 + x3 * y2 + x0 * (y1 - y2) - x3 * y1 + (x2 - x1) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))) == (x1 * (x2 * y3 - x3 * y2) + x0 * (-x2 * y3 + x3 * y2 + (x2 - x3) * y1) + x1 * (x3 - x2) * y0) + -(x0 * (x2 * y3 + x1 * (y2 - y3) - x2 * y1) - x1 * x3 * y2 + x2 * x3 * y1 + (x1 * x3 - x2 * x3) * y0) + x0 * (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))
{
    assert((y3 - y2) == ((0real - y2) + y3));
    assert(x1 * (y3 - y2) == x1 * ((0real - y2) + y3));
    rg_dist((0real - y2), y3, x1);
    rg_dist(0real, y2, x1); rg_zero(x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * y3 == (x1 * y3));
    assert(x1 * (y3 - y2) == ((0real - (x1 * y2)) + (x1 * y3)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x0);
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * y3 == (x0 * y3));
    assert(x0 * (y2 - y3) == ((x0 * y2) - (x0 * y3)));
    assert(((x1 * (y3 - y2)) + (x0 * (y2 - y3))) == ((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)));
    assert((x2 - x3) == (x2 - x3));
    rg_dist(x2, x3, y1);
    assert(x2 * y1 == (x2 * y1));
    assert(x3 * y1 == (x3 * y1));
    assert((x2 - x3) * y1 == ((x2 * y1) - (x3 * y1)));
    assert((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) == ((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) + (x2 * y1)) - (x3 * y1)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y0 == ((0real - x2) + x3) * y0);
    rg_dist((0real - x2), x3, y0);
    rg_dist(0real, x2, y0); rg_zero(y0);
    assert(x2 * y0 == (x2 * y0));
    assert(x3 * y0 == (x3 * y0));
    assert((x3 - x2) * y0 == ((0real - (x2 * y0)) + (x3 * y0)));
    assert(((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) == ((((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) - (x2 * y0)) + (x2 * y1)) + (x3 * y0)) - (x3 * y1)));
    assert((-x2) * y3 == (0real - x2) * y3);
    rg_dist(0real, x2, y3); rg_zero(y3);
    assert(x2 * y3 == (x2 * y3));
    assert((-x2) * y3 == (0real - (x2 * y3)));
    assert((((-x2) * y3) + (x1 * y3)) == ((x1 * y3) - (x2 * y3)));
    assert(x3 * y2 == (x3 * y2));
    assert(((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) == (((x1 * y3) - (x2 * y3)) + (x3 * y2)));
    assert((y1 - y2) == (y1 - y2));
    rg_dist(y1, y2, x0);
    assert(x0 * y1 == (x0 * y1));
    assert(x0 * (y1 - y2) == ((x0 * y1) - (x0 * y2)));
    assert((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) == (((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    assert(((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) == ((((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((x2 - x1) == ((0real - x1) + x2));
    assert((x2 - x1) * y0 == ((0real - x1) + x2) * y0);
    rg_dist((0real - x1), x2, y0);
    rg_dist(0real, x1, y0); rg_zero(y0);
    assert(x1 * y0 == (x1 * y0));
    assert((x2 - x1) * y0 == ((0real - (x1 * y0)) + (x2 * y0)));
    assert((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) == ((((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y3)) + (x2 * y0)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) == ((((((((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) - (x1 * y2)) + (x1 * y3)) + (x1 * y3)) + (x2 * y1)) - (x2 * y3)) + (x3 * y0)) - (x3 * y1)) - (x3 * y1)) + (x3 * y2)));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist(y2, y3, x1);
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert(((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)) + (x3 * y0)) - (x3 * y1)));
    assert(x2 * ((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == x2 * ((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)) + (x3 * y0)) - (x3 * y1)));
    rg_dist((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)) + (x3 * y0)), (x3 * y1), x2);
    rg_dist(((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)), (x3 * y0), x2);
    rg_dist((((x0 * y1) - (x0 * y3)) - (x1 * y0)), (x1 * y3), x2);
    rg_dist(((x0 * y1) - (x0 * y3)), (x1 * y0), x2);
    rg_dist((x0 * y1), (x0 * y3), x2);
    rg_assoc(x2, x0, y1);
    rg_comm(x2, x0);
    assert(x2 * x0 == (x0 * x2));
    assert((x2 * x0) * y1 == (x0 * x2) * y1);
    assert(x2 * (x0 * y1) == ((x0 * x2) * y1));
    rg_assoc(x2, x0, y3);
    assert((x2 * x0) * y3 == (x0 * x2) * y3);
    assert(x2 * (x0 * y3) == ((x0 * x2) * y3));
    rg_assoc(x2, x1, y0);
    rg_comm(x2, x1);
    assert(x2 * x1 == (x1 * x2));
    assert((x2 * x1) * y0 == (x1 * x2) * y0);
    assert(x2 * (x1 * y0) == ((x1 * x2) * y0));
    rg_assoc(x2, x1, y3);
    assert((x2 * x1) * y3 == (x1 * x2) * y3);
    assert(x2 * (x1 * y3) == ((x1 * x2) * y3));
    rg_assoc(x2, x3, y0);
    assert(x2 * x3 == (x2 * x3));
    assert((x2 * x3) * y0 == (x2 * x3) * y0);
    assert(x2 * (x3 * y0) == ((x2 * x3) * y0));
    rg_assoc(x2, x3, y1);
    assert((x2 * x3) * y1 == (x2 * x3) * y1);
    assert(x2 * (x3 * y1) == ((x2 * x3) * y1));
    assert(x2 * ((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == (((((((x0 * x2) * y1) - ((x0 * x2) * y3)) - ((x1 * x2) * y0)) + ((x1 * x2) * y3)) + ((x2 * x3) * y0)) - ((x2 * x3) * y1)));
    rg_dist((x2 * y3), (x3 * y2), x1);
    rg_assoc(x1, x2, y3);
    assert(x1 * x2 == (x1 * x2));
    assert((x1 * x2) * y3 == (x1 * x2) * y3);
    assert(x1 * (x2 * y3) == ((x1 * x2) * y3));
    rg_assoc(x1, x3, y2);
    assert(x1 * x3 == (x1 * x3));
    assert((x1 * x3) * y2 == (x1 * x3) * y2);
    assert(x1 * (x3 * y2) == ((x1 * x3) * y2));
    assert(x1 * ((x2 * y3) - (x3 * y2)) == (((x1 * x2) * y3) - ((x1 * x3) * y2)));
    assert((((-x2) * y3) + (x3 * y2)) == ((0real - (x2 * y3)) + (x3 * y2)));
    assert(((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)) == ((((x2 * y1) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert(x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)) == x0 * ((((x2 * y1) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    rg_dist((((x2 * y1) - (x2 * y3)) - (x3 * y1)), (x3 * y2), x0);
    rg_dist(((x2 * y1) - (x2 * y3)), (x3 * y1), x0);
    rg_dist((x2 * y1), (x2 * y3), x0);
    rg_assoc(x0, x2, y1);
    assert(x0 * x2 == (x0 * x2));
    assert((x0 * x2) * y1 == (x0 * x2) * y1);
    assert(x0 * (x2 * y1) == ((x0 * x2) * y1));
    rg_assoc(x0, x2, y3);
    assert((x0 * x2) * y3 == (x0 * x2) * y3);
    assert(x0 * (x2 * y3) == ((x0 * x2) * y3));
    rg_assoc(x0, x3, y1);
    assert(x0 * x3 == (x0 * x3));
    assert((x0 * x3) * y1 == (x0 * x3) * y1);
    assert(x0 * (x3 * y1) == ((x0 * x3) * y1));
    rg_assoc(x0, x3, y2);
    assert((x0 * x3) * y2 == (x0 * x3) * y2);
    assert(x0 * (x3 * y2) == ((x0 * x3) * y2));
    assert(x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)) == (((((x0 * x2) * y1) - ((x0 * x2) * y3)) - ((x0 * x3) * y1)) + ((x0 * x3) * y2)));
    assert(((x1 * ((x2 * y3) - (x3 * y2))) + (x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)))) == (((((((x0 * x2) * y1) - ((x0 * x2) * y3)) - ((x0 * x3) * y1)) + ((x0 * x3) * y2)) + ((x1 * x2) * y3)) - ((x1 * x3) * y2)));
    assert(x1 * (x3 - x2) == x1 * ((0real - x2) + x3));
    rg_dist((0real - x2), x3, x1);
    rg_dist(0real, x2, x1); rg_zero(x1);
    assert(x1 * (x3 - x2) == ((0real - (x1 * x2)) + (x1 * x3)));
    assert((x1 * (x3 - x2)) * y0 == ((0real - (x1 * x2)) + (x1 * x3)) * y0);
    rg_dist((0real - (x1 * x2)), (x1 * x3), y0);
    rg_dist(0real, (x1 * x2), y0); rg_zero(y0);
    assert((x1 * x2) * y0 == ((x1 * x2) * y0));
    assert((x1 * x3) * y0 == ((x1 * x3) * y0));
    assert((x1 * (x3 - x2)) * y0 == ((0real - ((x1 * x2) * y0)) + ((x1 * x3) * y0)));
    assert((((x1 * ((x2 * y3) - (x3 * y2))) + (x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)))) + ((x1 * (x3 - x2)) * y0)) == (((((((((x0 * x2) * y1) - ((x0 * x2) * y3)) - ((x0 * x3) * y1)) + ((x0 * x3) * y2)) - ((x1 * x2) * y0)) + ((x1 * x2) * y3)) + ((x1 * x3) * y0)) - ((x1 * x3) * y2)));
    assert(((x2 * y3) + (x1 * (y2 - y3))) == (((x1 * y2) - (x1 * y3)) + (x2 * y3)));
    assert((((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1)) == ((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)));
    assert(x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1)) == x0 * ((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)));
    rg_dist((((x1 * y2) - (x1 * y3)) - (x2 * y1)), (x2 * y3), x0);
    rg_dist(((x1 * y2) - (x1 * y3)), (x2 * y1), x0);
    rg_dist((x1 * y2), (x1 * y3), x0);
    rg_assoc(x0, x1, y2);
    assert(x0 * x1 == (x0 * x1));
    assert((x0 * x1) * y2 == (x0 * x1) * y2);
    assert(x0 * (x1 * y2) == ((x0 * x1) * y2));
    rg_assoc(x0, x1, y3);
    assert((x0 * x1) * y3 == (x0 * x1) * y3);
    assert(x0 * (x1 * y3) == ((x0 * x1) * y3));
    assert(x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1)) == (((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)));
    assert((x1 * x3) * y2 == ((x1 * x3) * y2));
    assert(((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) == ((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) - ((x1 * x3) * y2)));
    assert((x2 * x3) * y1 == ((x2 * x3) * y1));
    assert((((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)) == (((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)));
    assert(((x1 * x3) - (x2 * x3)) == ((x1 * x3) - (x2 * x3)));
    rg_dist((x1 * x3), (x2 * x3), y0);
    assert((x2 * x3) * y0 == ((x2 * x3) * y0));
    assert(((x1 * x3) - (x2 * x3)) * y0 == (((x1 * x3) * y0) - ((x2 * x3) * y0)));
    assert(((((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)) + (((x1 * x3) - (x2 * x3)) * y0)) == (((((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) + ((x1 * x3) * y0)) - ((x1 * x3) * y2)) - ((x2 * x3) * y0)) + ((x2 * x3) * y1)));
    assert(((((x1 * ((x2 * y3) - (x3 * y2))) + (x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)))) + ((x1 * (x3 - x2)) * y0)) + (-((((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)) + (((x1 * x3) - (x2 * x3)) * y0)))) == ((((((((((((0real - ((x0 * x1) * y2)) + ((x0 * x1) * y3)) + ((x0 * x2) * y1)) + ((x0 * x2) * y1)) - ((x0 * x2) * y3)) - ((x0 * x2) * y3)) - ((x0 * x3) * y1)) + ((x0 * x3) * y2)) - ((x1 * x2) * y0)) + ((x1 * x2) * y3)) + ((x2 * x3) * y0)) - ((x2 * x3) * y1)));
    assert(x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == x0 * ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)), (x3 * y2), x0);
    rg_dist(((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)), (x3 * y1), x0);
    assert(x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == (((((((x0 * x1) * y2) - ((x0 * x1) * y3)) - ((x0 * x2) * y1)) + ((x0 * x2) * y3)) + ((x0 * x3) * y1)) - ((x0 * x3) * y2)));
    assert((((((x1 * ((x2 * y3) - (x3 * y2))) + (x0 * ((((-x2) * y3) + (x3 * y2)) + ((x2 - x3) * y1)))) + ((x1 * (x3 - x2)) * y0)) + (-((((x0 * (((x2 * y3) + (x1 * (y2 - y3))) - (x2 * y1))) - ((x1 * x3) * y2)) + ((x2 * x3) * y1)) + (((x1 * x3) - (x2 * x3)) * y0)))) + (x0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))))) == (((((((x0 * x2) * y1) - ((x0 * x2) * y3)) - ((x1 * x2) * y0)) + ((x1 * x2) * y3)) + ((x2 * x3) * y0)) - ((x2 * x3) * y1)));
}
proof fn rg_y2(x0: real, y0: real, x1: real, y1: real, x2: real, y2: real, x3: real, y3: real)
    ensures y2 * ((x1 * (y3 - y2) + x0 * (y2 - y3) + (x2 - x3) * y1 + (x3 - x2) * y0) + (-x2 * y3 + x1 * y3 + x3 * y2 + x0 * (y1 - y2) - x3 * y1 + (x2 - x1) * y0) + (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))) == (y0 * (x1 * (y3 - y2) - x2 * y3 + x3 * y2) + y1 * (x2 * y3 - x3 * y2) + x0 * y1 * (y2 - y3)) + (x0 * (y1 * y3 - y2 * y3) + x1 * y2 * y3 - x2 * y1 * y3 + y0 * (x3 * y2 - x1 * y2 + (x2 - x3) * y1)) + y0 * (x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))
{
    assert((y3 - y2) == ((0real - y2) + y3));
    assert(x1 * (y3 - y2) == x1 * ((0real - y2) + y3));
    rg_dist((0real - y2), y3, x1);
    rg_dist(0real, y2, x1); rg_zero(x1);
    assert(x1 * y2 == (x1 * y2));
    assert(x1 * y3 == (x1 * y3));
    assert(x1 * (y3 - y2) == ((0real - (x1 * y2)) + (x1 * y3)));
    assert((y2 - y3) == (y2 - y3));
    rg_dist(y2, y3, x0);
    assert(x0 * y2 == (x0 * y2));
    assert(x0 * y3 == (x0 * y3));
    assert(x0 * (y2 - y3) == ((x0 * y2) - (x0 * y3)));
    assert(((x1 * (y3 - y2)) + (x0 * (y2 - y3))) == ((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)));
    assert((x2 - x3) == (x2 - x3));
    rg_dist(x2, x3, y1);
    assert(x2 * y1 == (x2 * y1));
    assert(x3 * y1 == (x3 * y1));
    assert((x2 - x3) * y1 == ((x2 * y1) - (x3 * y1)));
    assert((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) == ((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) + (x2 * y1)) - (x3 * y1)));
    assert((x3 - x2) == ((0real - x2) + x3));
    assert((x3 - x2) * y0 == ((0real - x2) + x3) * y0);
    rg_dist((0real - x2), x3, y0);
    rg_dist(0real, x2, y0); rg_zero(y0);
    assert(x2 * y0 == (x2 * y0));
    assert(x3 * y0 == (x3 * y0));
    assert((x3 - x2) * y0 == ((0real - (x2 * y0)) + (x3 * y0)));
    assert(((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) == ((((((((x0 * y2) - (x0 * y3)) - (x1 * y2)) + (x1 * y3)) - (x2 * y0)) + (x2 * y1)) + (x3 * y0)) - (x3 * y1)));
    assert((-x2) * y3 == (0real - x2) * y3);
    rg_dist(0real, x2, y3); rg_zero(y3);
    assert(x2 * y3 == (x2 * y3));
    assert((-x2) * y3 == (0real - (x2 * y3)));
    assert((((-x2) * y3) + (x1 * y3)) == ((x1 * y3) - (x2 * y3)));
    assert(x3 * y2 == (x3 * y2));
    assert(((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) == (((x1 * y3) - (x2 * y3)) + (x3 * y2)));
    assert((y1 - y2) == (y1 - y2));
    rg_dist(y1, y2, x0);
    assert(x0 * y1 == (x0 * y1));
    assert(x0 * (y1 - y2) == ((x0 * y1) - (x0 * y2)));
    assert((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) == (((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    assert(((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) == ((((((x0 * y1) - (x0 * y2)) + (x1 * y3)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((x2 - x1) == ((0real - x1) + x2));
    assert((x2 - x1) * y0 == ((0real - x1) + x2) * y0);
    rg_dist((0real - x1), x2, y0);
    rg_dist(0real, x1, y0); rg_zero(y0);
    assert(x1 * y0 == (x1 * y0));
    assert((x2 - x1) * y0 == ((0real - (x1 * y0)) + (x2 * y0)));
    assert((((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0)) == ((((((((x0 * y1) - (x0 * y2)) - (x1 * y0)) + (x1 * y3)) + (x2 * y0)) - (x2 * y3)) - (x3 * y1)) + (x3 * y2)));
    assert((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) == ((((((((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) - (x1 * y2)) + (x1 * y3)) + (x1 * y3)) + (x2 * y1)) - (x2 * y3)) + (x3 * y0)) - (x3 * y1)) - (x3 * y1)) + (x3 * y2)));
    assert(((x2 * y3) - (x3 * y2)) == ((x2 * y3) - (x3 * y2)));
    assert((x3 - x2) * y1 == ((0real - x2) + x3) * y1);
    rg_dist((0real - x2), x3, y1);
    rg_dist(0real, x2, y1); rg_zero(y1);
    assert((x3 - x2) * y1 == ((0real - (x2 * y1)) + (x3 * y1)));
    assert((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) == ((((0real - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist(y2, y3, x1);
    assert(x1 * (y2 - y3) == ((x1 * y2) - (x1 * y3)));
    assert(((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    assert(((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == ((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)) + (x3 * y0)) - (x3 * y1)));
    assert(y2 * ((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == y2 * ((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)) + (x3 * y0)) - (x3 * y1)));
    rg_dist((((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)) + (x3 * y0)), (x3 * y1), y2);
    rg_dist(((((x0 * y1) - (x0 * y3)) - (x1 * y0)) + (x1 * y3)), (x3 * y0), y2);
    rg_dist((((x0 * y1) - (x0 * y3)) - (x1 * y0)), (x1 * y3), y2);
    rg_dist(((x0 * y1) - (x0 * y3)), (x1 * y0), y2);
    rg_dist((x0 * y1), (x0 * y3), y2);
    rg_assoc(y2, x0, y1);
    rg_comm(y2, x0);
    assert(y2 * x0 == (x0 * y2));
    assert((y2 * x0) * y1 == (x0 * y2) * y1);
    rg_swap(x0, y2, y1);
    assert((x0 * y1) * y2 == ((x0 * y1) * y2));
    assert(y2 * (x0 * y1) == ((x0 * y1) * y2));
    rg_assoc(y2, x0, y3);
    assert((y2 * x0) * y3 == (x0 * y2) * y3);
    assert(y2 * (x0 * y3) == ((x0 * y2) * y3));
    rg_assoc(y2, x1, y0);
    rg_comm(y2, x1);
    assert(y2 * x1 == (x1 * y2));
    assert((y2 * x1) * y0 == (x1 * y2) * y0);
    rg_swap(x1, y2, y0);
    assert((x1 * y0) * y2 == ((x1 * y0) * y2));
    assert(y2 * (x1 * y0) == ((x1 * y0) * y2));
    rg_assoc(y2, x1, y3);
    assert((y2 * x1) * y3 == (x1 * y2) * y3);
    assert(y2 * (x1 * y3) == ((x1 * y2) * y3));
    rg_assoc(y2, x3, y0);
    rg_comm(y2, x3);
    assert(y2 * x3 == (x3 * y2));
    assert((y2 * x3) * y0 == (x3 * y2) * y0);
    rg_swap(x3, y2, y0);
    assert((x3 * y0) * y2 == ((x3 * y0) * y2));
    assert(y2 * (x3 * y0) == ((x3 * y0) * y2));
    rg_assoc(y2, x3, y1);
    assert((y2 * x3) * y1 == (x3 * y2) * y1);
    rg_swap(x3, y2, y1);
    assert((x3 * y1) * y2 == ((x3 * y1) * y2));
    assert(y2 * (x3 * y1) == ((x3 * y1) * y2));
    assert(y2 * ((((((x1 * (y3 - y2)) + (x0 * (y2 - y3))) + ((x2 - x3) * y1)) + ((x3 - x2) * y0)) + (((((((-x2) * y3) + (x1 * y3)) + (x3 * y2)) + (x0 * (y1 - y2))) - (x3 * y1)) + ((x2 - x1) * y0))) + ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3)))) == (((((((x0 * y1) * y2) - ((x0 * y2) * y3)) - ((x1 * y0) * y2)) + ((x1 * y2) * y3)) + ((x3 * y0) * y2)) - ((x3 * y1) * y2)));
    assert(((x1 * (y3 - y2)) - (x2 * y3)) == (((0real - (x1 * y2)) + (x1 * y3)) - (x2 * y3)));
    assert((((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2)) == ((((0real - (x1 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    assert(y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2)) == y0 * ((((0real - (x1 * y2)) + (x1 * y3)) - (x2 * y3)) + (x3 * y2)));
    rg_dist((((0real - (x1 * y2)) + (x1 * y3)) - (x2 * y3)), (x3 * y2), y0);
    rg_dist(((0real - (x1 * y2)) + (x1 * y3)), (x2 * y3), y0);
    rg_dist((0real - (x1 * y2)), (x1 * y3), y0);
    rg_dist(0real, (x1 * y2), y0); rg_zero(y0);
    rg_assoc(y0, x1, y2);
    rg_comm(y0, x1);
    assert(y0 * x1 == (x1 * y0));
    assert((y0 * x1) * y2 == (x1 * y0) * y2);
    assert(y0 * (x1 * y2) == ((x1 * y0) * y2));
    rg_assoc(y0, x1, y3);
    assert((y0 * x1) * y3 == (x1 * y0) * y3);
    assert(y0 * (x1 * y3) == ((x1 * y0) * y3));
    rg_assoc(y0, x2, y3);
    rg_comm(y0, x2);
    assert(y0 * x2 == (x2 * y0));
    assert((y0 * x2) * y3 == (x2 * y0) * y3);
    assert(y0 * (x2 * y3) == ((x2 * y0) * y3));
    rg_assoc(y0, x3, y2);
    rg_comm(y0, x3);
    assert(y0 * x3 == (x3 * y0));
    assert((y0 * x3) * y2 == (x3 * y0) * y2);
    assert(y0 * (x3 * y2) == ((x3 * y0) * y2));
    assert(y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2)) == ((((0real - ((x1 * y0) * y2)) + ((x1 * y0) * y3)) - ((x2 * y0) * y3)) + ((x3 * y0) * y2)));
    rg_dist((x2 * y3), (x3 * y2), y1);
    rg_assoc(y1, x2, y3);
    rg_comm(y1, x2);
    assert(y1 * x2 == (x2 * y1));
    assert((y1 * x2) * y3 == (x2 * y1) * y3);
    assert(y1 * (x2 * y3) == ((x2 * y1) * y3));
    rg_assoc(y1, x3, y2);
    rg_comm(y1, x3);
    assert(y1 * x3 == (x3 * y1));
    assert((y1 * x3) * y2 == (x3 * y1) * y2);
    assert(y1 * (x3 * y2) == ((x3 * y1) * y2));
    assert(y1 * ((x2 * y3) - (x3 * y2)) == (((x2 * y1) * y3) - ((x3 * y1) * y2)));
    assert(((y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2))) + (y1 * ((x2 * y3) - (x3 * y2)))) == ((((((0real - ((x1 * y0) * y2)) + ((x1 * y0) * y3)) - ((x2 * y0) * y3)) + ((x2 * y1) * y3)) + ((x3 * y0) * y2)) - ((x3 * y1) * y2)));
    rg_dist(y2, y3, (x0 * y1));
    assert((x0 * y1) * y3 == ((x0 * y1) * y3));
    assert((x0 * y1) * (y2 - y3) == (((x0 * y1) * y2) - ((x0 * y1) * y3)));
    assert((((y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2))) + (y1 * ((x2 * y3) - (x3 * y2)))) + ((x0 * y1) * (y2 - y3))) == (((((((((x0 * y1) * y2) - ((x0 * y1) * y3)) - ((x1 * y0) * y2)) + ((x1 * y0) * y3)) - ((x2 * y0) * y3)) + ((x2 * y1) * y3)) + ((x3 * y0) * y2)) - ((x3 * y1) * y2)));
    assert(y1 * y3 == (y1 * y3));
    assert(y2 * y3 == (y2 * y3));
    assert(((y1 * y3) - (y2 * y3)) == ((y1 * y3) - (y2 * y3)));
    rg_dist((y1 * y3), (y2 * y3), x0);
    rg_assoc(x0, y1, y3);
    assert((x0 * y1) * y3 == (x0 * y1) * y3);
    assert(x0 * (y1 * y3) == ((x0 * y1) * y3));
    rg_assoc(x0, y2, y3);
    assert((x0 * y2) * y3 == (x0 * y2) * y3);
    assert(x0 * (y2 * y3) == ((x0 * y2) * y3));
    assert(x0 * ((y1 * y3) - (y2 * y3)) == (((x0 * y1) * y3) - ((x0 * y2) * y3)));
    assert((x1 * y2) * y3 == ((x1 * y2) * y3));
    assert(((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) == ((((x0 * y1) * y3) - ((x0 * y2) * y3)) + ((x1 * y2) * y3)));
    assert((x2 * y1) * y3 == ((x2 * y1) * y3));
    assert((((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)) == (((((x0 * y1) * y3) - ((x0 * y2) * y3)) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)));
    assert(((x3 * y2) - (x1 * y2)) == ((0real - (x1 * y2)) + (x3 * y2)));
    assert((((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)) == ((((0real - (x1 * y2)) + (x2 * y1)) - (x3 * y1)) + (x3 * y2)));
    assert(y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)) == y0 * ((((0real - (x1 * y2)) + (x2 * y1)) - (x3 * y1)) + (x3 * y2)));
    rg_dist((((0real - (x1 * y2)) + (x2 * y1)) - (x3 * y1)), (x3 * y2), y0);
    rg_dist(((0real - (x1 * y2)) + (x2 * y1)), (x3 * y1), y0);
    rg_dist((0real - (x1 * y2)), (x2 * y1), y0);
    rg_assoc(y0, x2, y1);
    assert((y0 * x2) * y1 == (x2 * y0) * y1);
    assert(y0 * (x2 * y1) == ((x2 * y0) * y1));
    rg_assoc(y0, x3, y1);
    assert((y0 * x3) * y1 == (x3 * y0) * y1);
    assert(y0 * (x3 * y1) == ((x3 * y0) * y1));
    assert(y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)) == ((((0real - ((x1 * y0) * y2)) + ((x2 * y0) * y1)) - ((x3 * y0) * y1)) + ((x3 * y0) * y2)));
    assert(((((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)) + (y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1)))) == (((((((((x0 * y1) * y3) - ((x0 * y2) * y3)) - ((x1 * y0) * y2)) + ((x1 * y2) * y3)) + ((x2 * y0) * y1)) - ((x2 * y1) * y3)) - ((x3 * y0) * y1)) + ((x3 * y0) * y2)));
    assert(((((y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2))) + (y1 * ((x2 * y3) - (x3 * y2)))) + ((x0 * y1) * (y2 - y3))) + ((((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)) + (y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1))))) == (((((((((((((x0 * y1) * y2) - ((x0 * y2) * y3)) - ((x1 * y0) * y2)) - ((x1 * y0) * y2)) + ((x1 * y0) * y3)) + ((x1 * y2) * y3)) + ((x2 * y0) * y1)) - ((x2 * y0) * y3)) - ((x3 * y0) * y1)) + ((x3 * y0) * y2)) + ((x3 * y0) * y2)) - ((x3 * y1) * y2)));
    assert(y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == y0 * ((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)) - (x3 * y2)));
    rg_dist((((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)) + (x3 * y1)), (x3 * y2), y0);
    rg_dist(((((x1 * y2) - (x1 * y3)) - (x2 * y1)) + (x2 * y3)), (x3 * y1), y0);
    rg_dist((((x1 * y2) - (x1 * y3)) - (x2 * y1)), (x2 * y3), y0);
    rg_dist(((x1 * y2) - (x1 * y3)), (x2 * y1), y0);
    rg_dist((x1 * y2), (x1 * y3), y0);
    assert(y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))) == (((((((x1 * y0) * y2) - ((x1 * y0) * y3)) - ((x2 * y0) * y1)) + ((x2 * y0) * y3)) + ((x3 * y0) * y1)) - ((x3 * y0) * y2)));
    assert((((((y0 * (((x1 * (y3 - y2)) - (x2 * y3)) + (x3 * y2))) + (y1 * ((x2 * y3) - (x3 * y2)))) + ((x0 * y1) * (y2 - y3))) + ((((x0 * ((y1 * y3) - (y2 * y3))) + ((x1 * y2) * y3)) - ((x2 * y1) * y3)) + (y0 * (((x3 * y2) - (x1 * y2)) + ((x2 - x3) * y1))))) + (y0 * ((((x2 * y3) - (x3 * y2)) + ((x3 - x2) * y1)) + (x1 * (y2 - y3))))) == (((((((x0 * y1) * y2) - ((x0 * y2) * y3)) - ((x1 * y0) * y2)) + ((x1 * y2) * y3)) + ((x3 * y0) * y2)) - ((x3 * y1) * y2)));
}
proof fn rg_u(c0: real, c1: real, c2: real, c3: real, c4: real, c5: real, c6: real, c7: real, u: real, v: real, x: real, y: real)
    ensures u * (-c0 * c7 * y + c1 * c6 * y + (c3 * c7 - c4 * c6) * x + c0 * c4 - c1 * c3) - -(c1 * (y - c5) - c2 * c7 * y + (c5 * c7 - c4) * x + c2 * c4) == (c0 * u + c1 * v + c2 - (x * (c6 * u + c7 * v) + x)) * (c4 - y * c7) - (c3 * u + c4 * v + c5 - (y * (c6 * u + c7 * v) + y)) * (c1 - x * c7)
{
    assert((-c0) * c7 == (0real - c0) * c7);
    rg_dist(0real, c0, c7); rg_zero(c7);
    assert(c0 * c7 == (c0 * c7));
    assert((-c0) * c7 == (0real - (c0 * c7)));
    assert(((-c0) * c7) * y == (0real - (c0 * c7)) * y);
    rg_dist(0real, (c0 * c7), y); rg_zero(y);
    assert((c0 * c7) * y == ((c0 * c7) * y));
    assert(((-c0) * c7) * y == (0real - ((c0 * c7) * y)));
    assert(c1 * c6 == (c1 * c6));
    assert((c1 * c6) * y == ((c1 * c6) * y));
    assert(((((-c0) * c7) * y) + ((c1 * c6) * y)) == ((0real - ((c0 * c7) * y)) + ((c1 * c6) * y)));
    assert(c3 * c7 == (c3 * c7));
    assert(c4 * c6 == (c4 * c6));
    assert(((c3 * c7) - (c4 * c6)) == ((c3 * c7) - (c4 * c6)));
    rg_dist((c3 * c7), (c4 * c6), x);
    assert((c3 * c7) * x == ((c3 * c7) * x));
    assert((c4 * c6) * x == ((c4 * c6) * x));
    assert(((c3 * c7) - (c4 * c6)) * x == (((c3 * c7) * x) - ((c4 * c6) * x)));
    assert((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) == ((((0real - ((c0 * c7) * y)) + ((c1 * c6) * y)) + ((c3 * c7) * x)) - ((c4 * c6) * x)));
    assert(c0 * c4 == (c0 * c4));
    assert(((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) == (((((c0 * c4) - ((c0 * c7) * y)) + ((c1 * c6) * y)) + ((c3 * c7) * x)) - ((c4 * c6) * x)));
    assert(c1 * c3 == (c1 * c3));
    assert((((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) - (c1 * c3)) == ((((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)) + ((c1 * c6) * y)) + ((c3 * c7) * x)) - ((c4 * c6) * x)));
    assert(u * (((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) - (c1 * c3)) == u * ((((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)) + ((c1 * c6) * y)) + ((c3 * c7) * x)) - ((c4 * c6) * x)));
    rg_dist((((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)) + ((c1 * c6) * y)) + ((c3 * c7) * x)), ((c4 * c6) * x), u);
    rg_dist(((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)) + ((c1 * c6) * y)), ((c3 * c7) * x), u);
    rg_dist((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)), ((c1 * c6) * y), u);
    rg_dist(((c0 * c4) - ((c0 * c7) * y)), (c1 * c3), u);
    rg_dist((c0 * c4), ((c0 * c7) * y), u);
    rg_assoc(u, c0, c4);
    rg_comm(u, c0);
    assert(u * c0 == (c0 * u));
    assert((u * c0) * c4 == (c0 * u) * c4);
    rg_swap(c0, u, c4);
    assert((c0 * c4) * u == ((c0 * c4) * u));
    assert(u * (c0 * c4) == ((c0 * c4) * u));
    rg_assoc(u, (c0 * c7), y);
    rg_assoc(u, c0, c7);
    assert((u * c0) * c7 == (c0 * u) * c7);
    rg_swap(c0, u, c7);
    assert((c0 * c7) * u == ((c0 * c7) * u));
    assert(u * (c0 * c7) == ((c0 * c7) * u));
    assert((u * (c0 * c7)) * y == ((c0 * c7) * u) * y);
    assert(u * ((c0 * c7) * y) == (((c0 * c7) * u) * y));
    rg_assoc(u, c1, c3);
    rg_comm(u, c1);
    assert(u * c1 == (c1 * u));
    assert((u * c1) * c3 == (c1 * u) * c3);
    rg_swap(c1, u, c3);
    assert((c1 * c3) * u == ((c1 * c3) * u));
    assert(u * (c1 * c3) == ((c1 * c3) * u));
    rg_assoc(u, (c1 * c6), y);
    rg_assoc(u, c1, c6);
    assert((u * c1) * c6 == (c1 * u) * c6);
    rg_swap(c1, u, c6);
    assert((c1 * c6) * u == ((c1 * c6) * u));
    assert(u * (c1 * c6) == ((c1 * c6) * u));
    assert((u * (c1 * c6)) * y == ((c1 * c6) * u) * y);
    assert(u * ((c1 * c6) * y) == (((c1 * c6) * u) * y));
    rg_assoc(u, (c3 * c7), x);
    rg_assoc(u, c3, c7);
    rg_comm(u, c3);
    assert(u * c3 == (c3 * u));
    assert((u * c3) * c7 == (c3 * u) * c7);
    rg_swap(c3, u, c7);
    assert((c3 * c7) * u == ((c3 * c7) * u));
    assert(u * (c3 * c7) == ((c3 * c7) * u));
    assert((u * (c3 * c7)) * x == ((c3 * c7) * u) * x);
    assert(u * ((c3 * c7) * x) == (((c3 * c7) * u) * x));
    rg_assoc(u, (c4 * c6), x);
    rg_assoc(u, c4, c6);
    rg_comm(u, c4);
    assert(u * c4 == (c4 * u));
    assert((u * c4) * c6 == (c4 * u) * c6);
    rg_swap(c4, u, c6);
    assert((c4 * c6) * u == ((c4 * c6) * u));
    assert(u * (c4 * c6) == ((c4 * c6) * u));
    assert((u * (c4 * c6)) * x == ((c4 * c6) * u) * x);
    assert(u * ((c4 * c6) * x) == (((c4 * c6) * u) * x));
    assert(u * (((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) - (c1 * c3)) == (((((((c0 * c4) * u) - (((c0 * c7) * u) * y)) - ((c1 * c3) * u)) + (((c1 * c6) * u) * y)) + (((c3 * c7) * u) * x)) - (((c4 * c6) * u) * x)));
    assert((y - c5) == ((0real - c5) + y));
    assert(c1 * (y - c5) == c1 * ((0real - c5) + y));
    rg_dist((0real - c5), y, c1);
    rg_dist(0real, c5, c1); rg_zero(c1);
    assert(c1 * c5 == (c1 * c5));
    assert(c1 * y == (c1 * y));
    assert(c1 * (y - c5) == ((0real - (c1 * c5)) + (c1 * y)));
    assert(c2 * c7 == (c2 * c7));
    assert((c2 * c7) * y == ((c2 * c7) * y));
    assert(((c1 * (y - c5)) - ((c2 * c7) * y)) == (((0real - (c1 * c5)) + (c1 * y)) - ((c2 * c7) * y)));
    assert(c5 * c7 == (c5 * c7));
    assert(((c5 * c7) - c4) == ((0real - c4) + (c5 * c7)));
    assert(((c5 * c7) - c4) * x == ((0real - c4) + (c5 * c7)) * x);
    rg_dist((0real - c4), (c5 * c7), x);
    rg_dist(0real, c4, x); rg_zero(x);
    assert(c4 * x == (c4 * x));
    assert((c5 * c7) * x == ((c5 * c7) * x));
    assert(((c5 * c7) - c4) * x == ((0real - (c4 * x)) + ((c5 * c7) * x)));
    assert((((c1 * (y - c5)) - ((c2 * c7) * y)) + (((c5 * c7) - c4) * x)) == (((((0real - (c1 * c5)) + (c1 * y)) - ((c2 * c7) * y)) - (c4 * x)) + ((c5 * c7) * x)));
    assert(c2 * c4 == (c2 * c4));
    assert(((((c1 * (y - c5)) - ((c2 * c7) * y)) + (((c5 * c7) - c4) * x)) + (c2 * c4)) == ((((((0real - (c1 * c5)) + (c1 * y)) + (c2 * c4)) - ((c2 * c7) * y)) - (c4 * x)) + ((c5 * c7) * x)));
    assert(((u * (((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) - (c1 * c3))) - (-((((c1 * (y - c5)) - ((c2 * c7) * y)) + (((c5 * c7) - c4) * x)) + (c2 * c4)))) == (((((((((((((c0 * c4) * u) - (((c0 * c7) * u) * y)) - ((c1 * c3) * u)) - (c1 * c5)) + (((c1 * c6) * u) * y)) + (c1 * y)) + (c2 * c4)) - ((c2 * c7) * y)) + (((c3 * c7) * u) * x)) - (((c4 * c6) * u) * x)) - (c4 * x)) + ((c5 * c7) * x)));
    assert(c0 * u == (c0 * u));
    assert(c1 * v == (c1 * v));
    assert(((c0 * u) + (c1 * v)) == ((c0 * u) + (c1 * v)));
    assert((((c0 * u) + (c1 * v)) + c2) == (((c0 * u) + (c1 * v)) + c2));
    assert(c6 * u == (c6 * u));
    assert(c7 * v == (c7 * v));
    assert(((c6 * u) + (c7 * v)) == ((c6 * u) + (c7 * v)));
    rg_dist((c6 * u), (c7 * v), x);
    rg_assoc(x, c6, u);
    rg_comm(x, c6);
    assert(x * c6 == (c6 * x));
    assert((x * c6) * u == (c6 * x) * u);
    rg_swap(c6, x, u);
    assert((c6 * u) * x == ((c6 * u) * x));
    assert(x * (c6 * u) == ((c6 * u) * x));
    rg_assoc(x, c7, v);
    rg_comm(x, c7);
    assert(x * c7 == (c7 * x));
    assert((x * c7) * v == (c7 * x) * v);
    rg_swap(c7, x, v);
    assert((c7 * v) * x == ((c7 * v) * x));
    assert(x * (c7 * v) == ((c7 * v) * x));
    assert(x * ((c6 * u) + (c7 * v)) == (((c6 * u) * x) + ((c7 * v) * x)));
    assert(((x * ((c6 * u) + (c7 * v))) + x) == ((((c6 * u) * x) + ((c7 * v) * x)) + x));
    assert(((((c0 * u) + (c1 * v)) + c2) - ((x * ((c6 * u) + (c7 * v))) + x)) == ((((((c0 * u) + (c1 * v)) + c2) - ((c6 * u) * x)) - ((c7 * v) * x)) - x));
    rg_comm(y, c7);
    assert(y * c7 == (c7 * y));
    assert((c4 - (y * c7)) == (c4 - (c7 * y)));
    assert(((((c0 * u) + (c1 * v)) + c2) - ((x * ((c6 * u) + (c7 * v))) + x)) * (c4 - (y * c7)) == ((((((c0 * u) + (c1 * v)) + c2) - ((c6 * u) * x)) - ((c7 * v) * x)) - x) * (c4 - (c7 * y)));
    rg_dist((((((c0 * u) + (c1 * v)) + c2) - ((c6 * u) * x)) - ((c7 * v) * x)), x, (c4 - (c7 * y)));
    rg_dist(((((c0 * u) + (c1 * v)) + c2) - ((c6 * u) * x)), ((c7 * v) * x), (c4 - (c7 * y)));
    rg_dist((((c0 * u) + (c1 * v)) + c2), ((c6 * u) * x), (c4 - (c7 * y)));
    rg_dist(((c0 * u) + (c1 * v)), c2, (c4 - (c7 * y)));
    rg_dist((c0 * u), (c1 * v), (c4 - (c7 * y)));
    rg_dist(c4, (c7 * y), (c0 * u));
    assert((c0 * u) * c4 == ((c0 * c4) * u));
    rg_assoc((c0 * u), c7, y);
    assert((c0 * u) * c7 == ((c0 * c7) * u));
    assert(((c0 * u) * c7) * y == ((c0 * c7) * u) * y);
    assert((c0 * u) * (c7 * y) == (((c0 * c7) * u) * y));
    rg_dist(c4, (c7 * y), (c1 * v));
    rg_swap(c1, v, c4);
    assert((c1 * c4) * v == ((c1 * c4) * v));
    assert((c1 * v) * c4 == ((c1 * c4) * v));
    rg_assoc((c1 * v), c7, y);
    rg_swap(c1, v, c7);
    assert((c1 * c7) * v == ((c1 * c7) * v));
    assert((c1 * v) * c7 == ((c1 * c7) * v));
    assert(((c1 * v) * c7) * y == ((c1 * c7) * v) * y);
    assert((c1 * v) * (c7 * y) == (((c1 * c7) * v) * y));
    rg_dist(c4, (c7 * y), c2);
    rg_assoc(c2, c7, y);
    assert((c2 * c7) * y == (c2 * c7) * y);
    assert(c2 * (c7 * y) == ((c2 * c7) * y));
    rg_dist(c4, (c7 * y), ((c6 * u) * x));
    rg_swap((c6 * u), x, c4);
    rg_swap(c6, u, c4);
    rg_comm(c6, c4);
    assert((c6 * c4) * u == ((c4 * c6) * u));
    assert(((c6 * u) * c4) * x == (((c4 * c6) * u) * x));
    assert(((c6 * u) * x) * c4 == (((c4 * c6) * u) * x));
    rg_assoc(((c6 * u) * x), c7, y);
    rg_swap((c6 * u), x, c7);
    rg_swap(c6, u, c7);
    assert((c6 * c7) * u == ((c6 * c7) * u));
    assert(((c6 * u) * c7) * x == (((c6 * c7) * u) * x));
    assert(((c6 * u) * x) * c7 == (((c6 * c7) * u) * x));
    assert((((c6 * u) * x) * c7) * y == (((c6 * c7) * u) * x) * y);
    assert(((c6 * u) * x) * (c7 * y) == ((((c6 * c7) * u) * x) * y));
    rg_dist(c4, (c7 * y), ((c7 * v) * x));
    rg_swap((c7 * v), x, c4);
    rg_swap(c7, v, c4);
    rg_comm(c7, c4);
    assert((c7 * c4) * v == ((c4 * c7) * v));
    assert(((c7 * v) * c4) * x == (((c4 * c7) * v) * x));
    assert(((c7 * v) * x) * c4 == (((c4 * c7) * v) * x));
    rg_assoc(((c7 * v) * x), c7, y);
    rg_swap((c7 * v), x, c7);
    rg_swap(c7, v, c7);
    assert((c7 * c7) * v == ((c7 * c7) * v));
    assert(((c7 * v) * c7) * x == (((c7 * c7) * v) * x));
    assert(((c7 * v) * x) * c7 == (((c7 * c7) * v) * x));
    assert((((c7 * v) * x) * c7) * y == (((c7 * c7) * v) * x) * y);
    assert(((c7 * v) * x) * (c7 * y) == ((((c7 * c7) * v) * x) * y));
    rg_dist(c4, (c7 * y), x);
    rg_comm(x, c4);
    assert(x * c4 == (c4 * x));
    rg_assoc(x, c7, y);
    assert((x * c7) * y == (c7 * x) * y);
    assert(x * (c7 * y) == ((c7 * x) * y));
    assert(((((c0 * u) + (c1 * v)) + c2) - ((x * ((c6 * u) + (c7 * v))) + x)) * (c4 - (y * c7)) == (((((((((((((c0 * c4) * u) - (((c0 * c7) * u) * y)) + ((c1 * c4) * v)) - (((c1 * c7) * v) * y)) + (c2 * c4)) - ((c2 * c7) * y)) - (((c4 * c6) * u) * x)) - (((c4 * c7) * v) * x)) - (c4 * x)) + ((((c6 * c7) * u) * x) * y)) + ((((c7 * c7) * v) * x) * y)) + ((c7 * x) * y)));
    assert(c3 * u == (c3 * u));
    assert(c4 * v == (c4 * v));
    assert(((c3 * u) + (c4 * v)) == ((c3 * u) + (c4 * v)));
    assert((((c3 * u) + (c4 * v)) + c5) == (((c3 * u) + (c4 * v)) + c5));
    rg_dist((c6 * u), (c7 * v), y);
    rg_assoc(y, c6, u);
    rg_comm(y, c6);
    assert(y * c6 == (c6 * y));
    assert((y * c6) * u == (c6 * y) * u);
    rg_swap(c6, y, u);
    assert((c6 * u) * y == ((c6 * u) * y));
    assert(y * (c6 * u) == ((c6 * u) * y));
    rg_assoc(y, c7, v);
    assert((y * c7) * v == (c7 * y) * v);
    rg_swap(c7, y, v);
    assert((c7 * v) * y == ((c7 * v) * y));
    assert(y * (c7 * v) == ((c7 * v) * y));
    assert(y * ((c6 * u) + (c7 * v)) == (((c6 * u) * y) + ((c7 * v) * y)));
    assert(((y * ((c6 * u) + (c7 * v))) + y) == ((((c6 * u) * y) + ((c7 * v) * y)) + y));
    assert(((((c3 * u) + (c4 * v)) + c5) - ((y * ((c6 * u) + (c7 * v))) + y)) == ((((((c3 * u) + (c4 * v)) + c5) - ((c6 * u) * y)) - ((c7 * v) * y)) - y));
    assert((c1 - (x * c7)) == (c1 - (c7 * x)));
    assert(((((c3 * u) + (c4 * v)) + c5) - ((y * ((c6 * u) + (c7 * v))) + y)) * (c1 - (x * c7)) == ((((((c3 * u) + (c4 * v)) + c5) - ((c6 * u) * y)) - ((c7 * v) * y)) - y) * (c1 - (c7 * x)));
    rg_dist((((((c3 * u) + (c4 * v)) + c5) - ((c6 * u) * y)) - ((c7 * v) * y)), y, (c1 - (c7 * x)));
    rg_dist(((((c3 * u) + (c4 * v)) + c5) - ((c6 * u) * y)), ((c7 * v) * y), (c1 - (c7 * x)));
    rg_dist((((c3 * u) + (c4 * v)) + c5), ((c6 * u) * y), (c1 - (c7 * x)));
    rg_dist(((c3 * u) + (c4 * v)), c5, (c1 - (c7 * x)));
    rg_dist((c3 * u), (c4 * v), (c1 - (c7 * x)));
    rg_dist(c1, (c7 * x), (c3 * u));
    rg_swap(c3, u, c1);
    rg_comm(c3, c1);
    assert((c3 * c1) * u == ((c1 * c3) * u));
    assert((c3 * u) * c1 == ((c1 * c3) * u));
    rg_assoc((c3 * u), c7, x);
    assert((c3 * u) * c7 == ((c3 * c7) * u));
    assert(((c3 * u) * c7) * x == ((c3 * c7) * u) * x);
    assert((c3 * u) * (c7 * x) == (((c3 * c7) * u) * x));
    rg_dist(c1, (c7 * x), (c4 * v));
    rg_swap(c4, v, c1);
    rg_comm(c4, c1);
    assert((c4 * c1) * v == ((c1 * c4) * v));
    assert((c4 * v) * c1 == ((c1 * c4) * v));
    rg_assoc((c4 * v), c7, x);
    rg_swap(c4, v, c7);
    assert((c4 * c7) * v == ((c4 * c7) * v));
    assert((c4 * v) * c7 == ((c4 * c7) * v));
    assert(((c4 * v) * c7) * x == ((c4 * c7) * v) * x);
    assert((c4 * v) * (c7 * x) == (((c4 * c7) * v) * x));
    rg_dist(c1, (c7 * x), c5);
    rg_comm(c5, c1);
    assert(c5 * c1 == (c1 * c5));
    rg_assoc(c5, c7, x);
    assert((c5 * c7) * x == (c5 * c7) * x);
    assert(c5 * (c7 * x) == ((c5 * c7) * x));
    rg_dist(c1, (c7 * x), ((c6 * u) * y));
    rg_swap((c6 * u), y, c1);
    rg_swap(c6, u, c1);
    rg_comm(c6, c1);
    assert((c6 * c1) * u == ((c1 * c6) * u));
    assert(((c6 * u) * c1) * y == (((c1 * c6) * u) * y));
    assert(((c6 * u) * y) * c1 == (((c1 * c6) * u) * y));
    rg_assoc(((c6 * u) * y), c7, x);
    rg_swap((c6 * u), y, c7);
    assert(((c6 * u) * c7) * y == (((c6 * c7) * u) * y));
    assert(((c6 * u) * y) * c7 == (((c6 * c7) * u) * y));
    assert((((c6 * u) * y) * c7) * x == (((c6 * c7) * u) * y) * x);
    rg_swap(((c6 * c7) * u), y, x);
    assert((((c6 * c7) * u) * x) * y == ((((c6 * c7) * u) * x) * y));
    assert(((c6 * u) * y) * (c7 * x) == ((((c6 * c7) * u) * x) * y));
    rg_dist(c1, (c7 * x), ((c7 * v) * y));
    rg_swap((c7 * v), y, c1);
    rg_swap(c7, v, c1);
    rg_comm(c7, c1);
    assert((c7 * c1) * v == ((c1 * c7) * v));
    assert(((c7 * v) * c1) * y == (((c1 * c7) * v) * y));
    assert(((c7 * v) * y) * c1 == (((c1 * c7) * v) * y));
    rg_assoc(((c7 * v) * y), c7, x);
    rg_swap((c7 * v), y, c7);
    assert(((c7 * v) * c7) * y == (((c7 * c7) * v) * y));
    assert(((c7 * v) * y) * c7 == (((c7 * c7) * v) * y));
    assert((((c7 * v) * y) * c7) * x == (((c7 * c7) * v) * y) * x);
    rg_swap(((c7 * c7) * v), y, x);
    assert((((c7 * c7) * v) * x) * y == ((((c7 * c7) * v) * x) * y));
    assert(((c7 * v) * y) * (c7 * x) == ((((c7 * c7) * v) * x) * y));
    rg_dist(c1, (c7 * x), y);
    rg_comm(y, c1);
    assert(y * c1 == (c1 * y));
    rg_assoc(y, c7, x);
    assert((y * c7) * x == (c7 * y) * x);
    rg_swap(c7, y, x);
    assert((c7 * x) * y == ((c7 * x) * y));
    assert(y * (c7 * x) == ((c7 * x) * y));
    assert(((((c3 * u) + (c4 * v)) + c5) - ((y * ((c6 * u) + (c7 * v))) + y)) * (c1 - (x * c7)) == (((((((((((((c1 * c3) * u) + ((c1 * c4) * v)) + (c1 * c5)) - (((c1 * c6) * u) * y)) - (((c1 * c7) * v) * y)) - (c1 * y)) - (((c3 * c7) * u) * x)) - (((c4 * c7) * v) * x)) - ((c5 * c7) * x)) + ((((c6 * c7) * u) * x) * y)) + ((((c7 * c7) * v) * x) * y)) + ((c7 * x) * y)));
    assert(((((((c0 * u) + (c1 * v)) + c2) - ((x * ((c6 * u) + (c7 * v))) + x)) * (c4 - (y * c7))) - (((((c3 * u) + (c4 * v)) + c5) - ((y * ((c6 * u) + (c7 * v))) + y)) * (c1 - (x * c7)))) == (((((((((((((c0 * c4) * u) - (((c0 * c7) * u) * y)) - ((c1 * c3) * u)) - (c1 * c5)) + (((c1 * c6) * u) * y)) + (c1 * y)) + (c2 * c4)) - ((c2 * c7) * y)) + (((c3 * c7) * u) * x)) - (((c4 * c6) * u) * x)) - (c4 * x)) + ((c5 * c7) * x)));
}
proof fn rg_v(c0: real, c1: real, c2: real, c3: real, c4: real, c5: real, c6: real, c7: real, u: real, v: real, x: real, y: real)
    ensures v * (-c0 * c7 * y + c1 * c6 * y + (c3 * c7 - c4 * c6) * x + c0 * c4 - c1 * c3) - (c0 * (y - c5) - c2 * c6 * y + (c5 * c6 - c3) * x + c2 * c3) == (c3 * u + c4 * v + c5 - (y * (c6 * u + c7 * v) + y)) * (c0 - x * c6) - (c0 * u + c1 * v + c2 - (x * (c6 * u + c7 * v) + x)) * (c3 - y * c6)
{
    assert((-c0) * c7 == (0real - c0) * c7);
    rg_dist(0real, c0, c7); rg_zero(c7);
    assert(c0 * c7 == (c0 * c7));
    assert((-c0) * c7 == (0real - (c0 * c7)));
    assert(((-c0) * c7) * y == (0real - (c0 * c7)) * y);
    rg_dist(0real, (c0 * c7), y); rg_zero(y);
    assert((c0 * c7) * y == ((c0 * c7) * y));
    assert(((-c0) * c7) * y == (0real - ((c0 * c7) * y)));
    assert(c1 * c6 == (c1 * c6));
    assert((c1 * c6) * y == ((c1 * c6) * y));
    assert(((((-c0) * c7) * y) + ((c1 * c6) * y)) == ((0real - ((c0 * c7) * y)) + ((c1 * c6) * y)));
    assert(c3 * c7 == (c3 * c7));
    assert(c4 * c6 == (c4 * c6));
    assert(((c3 * c7) - (c4 * c6)) == ((c3 * c7) - (c4 * c6)));
    rg_dist((c3 * c7), (c4 * c6), x);
    assert((c3 * c7) * x == ((c3 * c7) * x));
    assert((c4 * c6) * x == ((c4 * c6) * x));
    assert(((c3 * c7) - (c4 * c6)) * x == (((c3 * c7) * x) - ((c4 * c6) * x)));
    assert((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) == ((((0real - ((c0 * c7) * y)) + ((c1 * c6) * y)) + ((c3 * c7) * x)) - ((c4 * c6) * x)));
    assert(c0 * c4 == (c0 * c4));
    assert(((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) == (((((c0 * c4) - ((c0 * c7) * y)) + ((c1 * c6) * y)) + ((c3 * c7) * x)) - ((c4 * c6) * x)));
    assert(c1 * c3 == (c1 * c3));
    assert((((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) - (c1 * c3)) == ((((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)) + ((c1 * c6) * y)) + ((c3 * c7) * x)) - ((c4 * c6) * x)));
    assert(v * (((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) - (c1 * c3)) == v * ((((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)) + ((c1 * c6) * y)) + ((c3 * c7) * x)) - ((c4 * c6) * x)));
    rg_dist((((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)) + ((c1 * c6) * y)) + ((c3 * c7) * x)), ((c4 * c6) * x), v);
    rg_dist(((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)) + ((c1 * c6) * y)), ((c3 * c7) * x), v);
    rg_dist((((c0 * c4) - ((c0 * c7) * y)) - (c1 * c3)), ((c1 * c6) * y), v);
    rg_dist(((c0 * c4) - ((c0 * c7) * y)), (c1 * c3), v);
    rg_dist((c0 * c4), ((c0 * c7) * y), v);
    rg_assoc(v, c0, c4);
    rg_comm(v, c0);
    assert(v * c0 == (c0 * v));
    assert((v * c0) * c4 == (c0 * v) * c4);
    rg_swap(c0, v, c4);
    assert((c0 * c4) * v == ((c0 * c4) * v));
    assert(v * (c0 * c4) == ((c0 * c4) * v));
    rg_assoc(v, (c0 * c7), y);
    rg_assoc(v, c0, c7);
    assert((v * c0) * c7 == (c0 * v) * c7);
    rg_swap(c0, v, c7);
    assert((c0 * c7) * v == ((c0 * c7) * v));
    assert(v * (c0 * c7) == ((c0 * c7) * v));
    assert((v * (c0 * c7)) * y == ((c0 * c7) * v) * y);
    assert(v * ((c0 * c7) * y) == (((c0 * c7) * v) * y));
    rg_assoc(v, c1, c3);
    rg_comm(v, c1);
    assert(v * c1 == (c1 * v));
    assert((v * c1) * c3 == (c1 * v) * c3);
    rg_swap(c1, v, c3);
    assert((c1 * c3) * v == ((c1 * c3) * v));
    assert(v * (c1 * c3) == ((c1 * c3) * v));
    rg_assoc(v, (c1 * c6), y);
    rg_assoc(v, c1, c6);
    assert((v * c1) * c6 == (c1 * v) * c6);
    rg_swap(c1, v, c6);
    assert((c1 * c6) * v == ((c1 * c6) * v));
    assert(v * (c1 * c6) == ((c1 * c6) * v));
    assert((v * (c1 * c6)) * y == ((c1 * c6) * v) * y);
    assert(v * ((c1 * c6) * y) == (((c1 * c6) * v) * y));
    rg_assoc(v, (c3 * c7), x);
    rg_assoc(v, c3, c7);
    rg_comm(v, c3);
    assert(v * c3 == (c3 * v));
    assert((v * c3) * c7 == (c3 * v) * c7);
    rg_swap(c3, v, c7);
    assert((c3 * c7) * v == ((c3 * c7) * v));
    assert(v * (c3 * c7) == ((c3 * c7) * v));
    assert((v * (c3 * c7)) * x == ((c3 * c7) * v) * x);
    assert(v * ((c3 * c7) * x) == (((c3 * c7) * v) * x));
    rg_assoc(v, (c4 * c6), x);
    rg_assoc(v, c4, c6);
    rg_comm(v, c4);
    assert(v * c4 == (c4 * v));
    assert((v * c4) * c6 == (c4 * v) * c6);
    rg_swap(c4, v, c6);
    assert((c4 * c6) * v == ((c4 * c6) * v));
    assert(v * (c4 * c6) == ((c4 * c6) * v));
    assert((v * (c4 * c6)) * x == ((c4 * c6) * v) * x);
    assert(v * ((c4 * c6) * x) == (((c4 * c6) * v) * x));
    assert(v * (((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) - (c1 * c3)) == (((((((c0 * c4) * v) - (((c0 * c7) * v) * y)) - ((c1 * c3) * v)) + (((c1 * c6) * v) * y)) + (((c3 * c7) * v) * x)) - (((c4 * c6) * v) * x)));
    assert((y - c5) == ((0real - c5) + y));
    assert(c0 * (y - c5) == c0 * ((0real - c5) + y));
    rg_dist((0real - c5), y, c0);
    rg_dist(0real, c5, c0); rg_zero(c0);
    assert(c0 * c5 == (c0 * c5));
    assert(c0 * y == (c0 * y));
    assert(c0 * (y - c5) == ((0real - (c0 * c5)) + (c0 * y)));
    assert(c2 * c6 == (c2 * c6));
    assert((c2 * c6) * y == ((c2 * c6) * y));
    assert(((c0 * (y - c5)) - ((c2 * c6) * y)) == (((0real - (c0 * c5)) + (c0 * y)) - ((c2 * c6) * y)));
    assert(c5 * c6 == (c5 * c6));
    assert(((c5 * c6) - c3) == ((0real - c3) + (c5 * c6)));
    assert(((c5 * c6) - c3) * x == ((0real - c3) + (c5 * c6)) * x);
    rg_dist((0real - c3), (c5 * c6), x);
    rg_dist(0real, c3, x); rg_zero(x);
    assert(c3 * x == (c3 * x));
    assert((c5 * c6) * x == ((c5 * c6) * x));
    assert(((c5 * c6) - c3) * x == ((0real - (c3 * x)) + ((c5 * c6) * x)));
    assert((((c0 * (y - c5)) - ((c2 * c6) * y)) + (((c5 * c6) - c3) * x)) == (((((0real - (c0 * c5)) + (c0 * y)) - ((c2 * c6) * y)) - (c3 * x)) + ((c5 * c6) * x)));
    assert(c2 * c3 == (c2 * c3));
    assert(((((c0 * (y - c5)) - ((c2 * c6) * y)) + (((c5 * c6) - c3) * x)) + (c2 * c3)) == ((((((0real - (c0 * c5)) + (c0 * y)) + (c2 * c3)) - ((c2 * c6) * y)) - (c3 * x)) + ((c5 * c6) * x)));
    assert(((v * (((((((-c0) * c7) * y) + ((c1 * c6) * y)) + (((c3 * c7) - (c4 * c6)) * x)) + (c0 * c4)) - (c1 * c3))) - ((((c0 * (y - c5)) - ((c2 * c6) * y)) + (((c5 * c6) - c3) * x)) + (c2 * c3))) == (((((((((((((c0 * c4) * v) + (c0 * c5)) - (((c0 * c7) * v) * y)) - (c0 * y)) - ((c1 * c3) * v)) + (((c1 * c6) * v) * y)) - (c2 * c3)) + ((c2 * c6) * y)) + (((c3 * c7) * v) * x)) + (c3 * x)) - (((c4 * c6) * v) * x)) - ((c5 * c6) * x)));
    assert(c3 * u == (c3 * u));
    assert(c4 * v == (c4 * v));
    assert(((c3 * u) + (c4 * v)) == ((c3 * u) + (c4 * v)));
    assert((((c3 * u) + (c4 * v)) + c5) == (((c3 * u) + (c4 * v)) + c5));
    assert(c6 * u == (c6 * u));
    assert(c7 * v == (c7 * v));
    assert(((c6 * u) + (c7 * v)) == ((c6 * u) + (c7 * v)));
    rg_dist((c6 * u), (c7 * v), y);
    rg_assoc(y, c6, u);
    rg_comm(y, c6);
    assert(y * c6 == (c6 * y));
    assert((y * c6) * u == (c6 * y) * u);
    rg_swap(c6, y, u);
    assert((c6 * u) * y == ((c6 * u) * y));
    assert(y * (c6 * u) == ((c6 * u) * y));
    rg_assoc(y, c7, v);
    rg_comm(y, c7);
    assert(y * c7 == (c7 * y));
    assert((y * c7) * v == (c7 * y) * v);
    rg_swap(c7, y, v);
    assert((c7 * v) * y == ((c7 * v) * y));
    assert(y * (c7 * v) == ((c7 * v) * y));
    assert(y * ((c6 * u) + (c7 * v)) == (((c6 * u) * y) + ((c7 * v) * y)));
    assert(((y * ((c6 * u) + (c7 * v))) + y) == ((((c6 * u) * y) + ((c7 * v) * y)) + y));
    assert(((((c3 * u) + (c4 * v)) + c5) - ((y * ((c6 * u) + (c7 * v))) + y)) == ((((((c3 * u) + (c4 * v)) + c5) - ((c6 * u) * y)) - ((c7 * v) * y)) - y));
    rg_comm(x, c6);
    assert(x * c6 == (c6 * x));
    assert((c0 - (x * c6)) == (c0 - (c6 * x)));
    assert(((((c3 * u) + (c4 * v)) + c5) - ((y * ((c6 * u) + (c7 * v))) + y)) * (c0 - (x * c6)) == ((((((c3 * u) + (c4 * v)) + c5) - ((c6 * u) * y)) - ((c7 * v) * y)) - y) * (c0 - (c6 * x)));
    rg_dist((((((c3 * u) + (c4 * v)) + c5) - ((c6 * u) * y)) - ((c7 * v) * y)), y, (c0 - (c6 * x)));
    rg_dist(((((c3 * u) + (c4 * v)) + c5) - ((c6 * u) * y)), ((c7 * v) * y), (c0 - (c6 * x)));
    rg_dist((((c3 * u) + (c4 * v)) + c5), ((c6 * u) * y), (c0 - (c6 * x)));
    rg_dist(((c3 * u) + (c4 * v)), c5, (c0 - (c6 * x)));
    rg_dist((c3 * u), (c4 * v), (c0 - (c6 * x)));
    rg_dist(c0, (c6 * x), (c3 * u));
    rg_swap(c3, u, c0);
    rg_comm(c3, c0);
    assert((c3 * c0) * u == ((c0 * c3) * u));
    assert((c3 * u) * c0 == ((c0 * c3) * u));
    rg_assoc((c3 * u), c6, x);
    rg_swap(c3, u, c6);
    assert((c3 * c6) * u == ((c3 * c6) * u));
    assert((c3 * u) * c6 == ((c3 * c6) * u));
    assert(((c3 * u) * c6) * x == ((c3 * c6) * u) * x);
    assert((c3 * u) * (c6 * x) == (((c3 * c6) * u) * x));
    rg_dist(c0, (c6 * x), (c4 * v));
    rg_swap(c4, v, c0);
    rg_comm(c4, c0);
    assert((c4 * c0) * v == ((c0 * c4) * v));
    assert((c4 * v) * c0 == ((c0 * c4) * v));
    rg_assoc((c4 * v), c6, x);
    assert((c4 * v) * c6 == ((c4 * c6) * v));
    assert(((c4 * v) * c6) * x == ((c4 * c6) * v) * x);
    assert((c4 * v) * (c6 * x) == (((c4 * c6) * v) * x));
    rg_dist(c0, (c6 * x), c5);
    rg_comm(c5, c0);
    assert(c5 * c0 == (c0 * c5));
    rg_assoc(c5, c6, x);
    assert((c5 * c6) * x == (c5 * c6) * x);
    assert(c5 * (c6 * x) == ((c5 * c6) * x));
    rg_dist(c0, (c6 * x), ((c6 * u) * y));
    rg_swap((c6 * u), y, c0);
    rg_swap(c6, u, c0);
    rg_comm(c6, c0);
    assert((c6 * c0) * u == ((c0 * c6) * u));
    assert(((c6 * u) * c0) * y == (((c0 * c6) * u) * y));
    assert(((c6 * u) * y) * c0 == (((c0 * c6) * u) * y));
    rg_assoc(((c6 * u) * y), c6, x);
    rg_swap((c6 * u), y, c6);
    rg_swap(c6, u, c6);
    assert((c6 * c6) * u == ((c6 * c6) * u));
    assert(((c6 * u) * c6) * y == (((c6 * c6) * u) * y));
    assert(((c6 * u) * y) * c6 == (((c6 * c6) * u) * y));
    assert((((c6 * u) * y) * c6) * x == (((c6 * c6) * u) * y) * x);
    rg_swap(((c6 * c6) * u), y, x);
    assert((((c6 * c6) * u) * x) * y == ((((c6 * c6) * u) * x) * y));
    assert(((c6 * u) * y) * (c6 * x) == ((((c6 * c6) * u) * x) * y));
    rg_dist(c0, (c6 * x), ((c7 * v) * y));
    rg_swap((c7 * v), y, c0);
    rg_swap(c7, v, c0);
    rg_comm(c7, c0);
    assert((c7 * c0) * v == ((c0 * c7) * v));
    assert(((c7 * v) * c0) * y == (((c0 * c7) * v) * y));
    assert(((c7 * v) * y) * c0 == (((c0 * c7) * v) * y));
    rg_assoc(((c7 * v) * y), c6, x);
    rg_swap((c7 * v), y, c6);
    rg_swap(c7, v, c6);
    rg_comm(c7, c6);
    assert((c7 * c6) * v == ((c6 * c7) * v));
    assert(((c7 * v) * c6) * y == (((c6 * c7) * v) * y));
    assert(((c7 * v) * y) * c6 == (((c6 * c7) * v) * y));
    assert((((c7 * v) * y) * c6) * x == (((c6 * c7) * v) * y) * x);
    rg_swap(((c6 * c7) * v), y, x);
    assert((((c6 * c7) * v) * x) * y == ((((c6 * c7) * v) * x) * y));
    assert(((c7 * v) * y) * (c6 * x) == ((((c6 * c7) * v) * x) * y));
    rg_dist(c0, (c6 * x), y);
    rg_comm(y, c0);
    assert(y * c0 == (c0 * y));
    rg_assoc(y, c6, x);
    assert((y * c6) * x == (c6 * y) * x);
    rg_swap(c6, y, x);
    assert((c6 * x) * y == ((c6 * x) * y));
    assert(y * (c6 * x) == ((c6 * x) * y));
    assert(((((c3 * u) + (c4 * v)) + c5) - ((y * ((c6 * u) + (c7 * v))) + y)) * (c0 - (x * c6)) == (((((((((((((c0 * c3) * u) + ((c0 * c4) * v)) + (c0 * c5)) - (((c0 * c6) * u) * y)) - (((c0 * c7) * v) * y)) - (c0 * y)) - (((c3 * c6) * u) * x)) - (((c4 * c6) * v) * x)) - ((c5 * c6) * x)) + ((((c6 * c6) * u) * x) * y)) + ((((c6 * c7) * v) * x) * y)) + ((c6 * x) * y)));
    assert(c0 * u == (c0 * u));
    assert(c1 * v == (c1 * v));
    assert(((c0 * u) + (c1 * v)) == ((c0 * u) + (c1 * v)));
    assert((((c0 * u) + (c1 * v)) + c2) == (((c0 * u) + (c1 * v)) + c2));
    rg_dist((c6 * u), (c7 * v), x);
    rg_assoc(x, c6, u);
    assert((x * c6) * u == (c6 * x) * u);
    rg_swap(c6, x, u);
    assert((c6 * u) * x == ((c6 * u) * x));
    assert(x * (c6 * u) == ((c6 * u) * x));
    rg_assoc(x, c7, v);
    rg_comm(x, c7);
    assert(x * c7 == (c7 * x));
    assert((x * c7) * v == (c7 * x) * v);
    rg_swap(c7, x, v);
    assert((c7 * v) * x == ((c7 * v) * x));
    assert(x * (c7 * v) == ((c7 * v) * x));
    assert(x * ((c6 * u) + (c7 * v)) == (((c6 * u) * x) + ((c7 * v) * x)));
    assert(((x * ((c6 * u) + (c7 * v))) + x) == ((((c6 * u) * x) + ((c7 * v) * x)) + x));
    assert(((((c0 * u) + (c1 * v)) + c2) - ((x * ((c6 * u) + (c7 * v))) + x)) == ((((((c0 * u) + (c1 * v)) + c2) - ((c6 * u) * x)) - ((c7 * v) * x)) - x));
    assert((c3 - (y * c6)) == (c3 - (c6 * y)));
    assert(((((c0 * u) + (c1 * v)) + c2) - ((x * ((c6 * u) + (c7 * v))) + x)) * (c3 - (y * c6)) == ((((((c0 * u) + (c1 * v)) + c2) - ((c6 * u) * x)) - ((c7 * v) * x)) - x) * (c3 - (c6 * y)));
    rg_dist((((((c0 * u) + (c1 * v)) + c2) - ((c6 * u) * x)) - ((c7 * v) * x)), x, (c3 - (c6 * y)));
    rg_dist(((((c0 * u) + (c1 * v)) + c2) - ((c6 * u) * x)), ((c7 * v) * x), (c3 - (c6 * y)));
    rg_dist((((c0 * u) + (c1 * v)) + c2), ((c6 * u) * x), (c3 - (c6 * y)));
    rg_dist(((c0 * u) + (c1 * v)), c2, (c3 - (c6 * y)));
    rg_dist((c0 * u), (c1 * v), (c3 - (c6 * y)));
    rg_dist(c3, (c6 * y), (c0 * u));
    rg_swap(c0, u, c3);
    assert((c0 * c3) * u == ((c0 * c3) * u));
    assert((c0 * u) * c3 == ((c0 * c3) * u));
    rg_assoc((c0 * u), c6, y);
    rg_swap(c0, u, c6);
    assert((c0 * c6) * u == ((c0 * c6) * u));
    assert((c0 * u) * c6 == ((c0 * c6) * u));
    assert(((c0 * u) * c6) * y == ((c0 * c6) * u) * y);
    assert((c0 * u) * (c6 * y) == (((c0 * c6) * u) * y));
    rg_dist(c3, (c6 * y), (c1 * v));
    assert((c1 * v) * c3 == ((c1 * c3) * v));
    rg_assoc((c1 * v), c6, y);
    assert((c1 * v) * c6 == ((c1 * c6) * v));
    assert(((c1 * v) * c6) * y == ((c1 * c6) * v) * y);
    assert((c1 * v) * (c6 * y) == (((c1 * c6) * v) * y));
    rg_dist(c3, (c6 * y), c2);
    rg_assoc(c2, c6, y);
    assert((c2 * c6) * y == (c2 * c6) * y);
    assert(c2 * (c6 * y) == ((c2 * c6) * y));
    rg_dist(c3, (c6 * y), ((c6 * u) * x));
    rg_swap((c6 * u), x, c3);
    rg_swap(c6, u, c3);
    rg_comm(c6, c3);
    assert((c6 * c3) * u == ((c3 * c6) * u));
    assert(((c6 * u) * c3) * x == (((c3 * c6) * u) * x));
    assert(((c6 * u) * x) * c3 == (((c3 * c6) * u) * x));
    rg_assoc(((c6 * u) * x), c6, y);
    rg_swap((c6 * u), x, c6);
    assert(((c6 * u) * c6) * x == (((c6 * c6) * u) * x));
    assert(((c6 * u) * x) * c6 == (((c6 * c6) * u) * x));
    assert((((c6 * u) * x) * c6) * y == (((c6 * c6) * u) * x) * y);
    assert(((c6 * u) * x) * (c6 * y) == ((((c6 * c6) * u) * x) * y));
    rg_dist(c3, (c6 * y), ((c7 * v) * x));
    rg_swap((c7 * v), x, c3);
    rg_swap(c7, v, c3);
    rg_comm(c7, c3);
    assert((c7 * c3) * v == ((c3 * c7) * v));
    assert(((c7 * v) * c3) * x == (((c3 * c7) * v) * x));
    assert(((c7 * v) * x) * c3 == (((c3 * c7) * v) * x));
    rg_assoc(((c7 * v) * x), c6, y);
    rg_swap((c7 * v), x, c6);
    assert(((c7 * v) * c6) * x == (((c6 * c7) * v) * x));
    assert(((c7 * v) * x) * c6 == (((c6 * c7) * v) * x));
    assert((((c7 * v) * x) * c6) * y == (((c6 * c7) * v) * x) * y);
    assert(((c7 * v) * x) * (c6 * y) == ((((c6 * c7) * v) * x) * y));
    rg_dist(c3, (c6 * y), x);
    rg_comm(x, c3);
    assert(x * c3 == (c3 * x));
    rg_assoc(x, c6, y);
    assert((x * c6) * y == (c6 * x) * y);
    assert(x * (c6 * y) == ((c6 * x) * y));
    assert(((((c0 * u) + (c1 * v)) + c2) - ((x * ((c6 * u) + (c7 * v))) + x)) * (c3 - (y * c6)) == (((((((((((((c0 * c3) * u) - (((c0 * c6) * u) * y)) + ((c1 * c3) * v)) - (((c1 * c6) * v) * y)) + (c2 * c3)) - ((c2 * c6) * y)) - (((c3 * c6) * u) * x)) - (((c3 * c7) * v) * x)) - (c3 * x)) + ((((c6 * c6) * u) * x) * y)) + ((((c6 * c7) * v) * x) * y)) + ((c6 * x) * y)));
    assert(((((((c3 * u) + (c4 * v)) + c5) - ((y * ((c6 * u) + (c7 * v))) + y)) * (c0 - (x * c6))) - (((((c0 * u) + (c1 * v)) + c2) - ((x * ((c6 * u) + (c7 * v))) + x)) * (c3 - (y * c6)))) == (((((((((((((c0 * c4) * v) + (c0 * c5)) - (((c0 * c7) * v) * y)) - (c0 * y)) - ((c1 * c3) * v)) + (((c1 * c6) * v) * y)) - (c2 * c3)) + ((c2 * c6) * y)) + (((c3 * c7) * v) * x)) + (c3 * x)) - (((c4 * c6) * v) * x)) - ((c5 * c6) * x)));
}

