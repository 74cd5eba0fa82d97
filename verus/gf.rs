// ------------------------------------------------------------------ the two fields: powers of x in GF(2)[x]/modulus
/// what it takes for iterated multiplication by x to give a field of n + 1 elements
trait Xt0: Copy + Sized {
    spec fn zero() -> Self;
    spec fn one() -> Self;
    spec fn xor(self, o: Self) -> Self;
    /// times x
    spec fn xt(self) -> Self;
    spec fn n() -> nat;
    /// discrete logarithm to base x
    spec fn lg(self) -> nat;
}
spec fn xtn<X: Xt0>(k: nat, a: X) -> X decreases k { if k == 0 { a } else { xtn((k - 1) as nat, a).xt() } }
trait Xt: Xt0 {
    proof fn xor_ax(a: Self, b: Self, c: Self)
        ensures a.xor(b) == b.xor(a), a.xor(b).xor(c) == a.xor(b.xor(c)), a.xor(Self::zero()) == a, a.xor(a) == Self::zero(),
            a.xor(b).xt() == a.xt().xor(b.xt()), Self::zero().xt() == Self::zero(), Self::zero() != Self::one(), Self::n() > 1;
    proof fn log_ax(a: Self, k: nat)
        ensures
            a != Self::zero() ==> a.lg() < Self::n() && xtn(a.lg(), Self::one()) == a,
            k < Self::n() ==> xtn(k, Self::one()).lg() == k,
            xtn(Self::n(), Self::one()) == Self::one();
}
spec fn xmul<X: Xt>(a: X, b: X) -> X { if a == X::zero() { X::zero() } else { xtn(a.lg(), b) } }
spec fn xinv<X: Xt>(a: X) -> X { xtn((X::n() - a.lg()) as nat, X::one()) }

proof fn xtn_add<X: Xt>(j: nat, k: nat, a: X) ensures xtn(j + k, a) == xtn(j, xtn(k, a)) decreases j
{ if j > 0 { xtn_add((j - 1) as nat, k, a); assert((j + k - 1) as nat == (j - 1) as nat + k); } }
proof fn xtn_xor<X: Xt>(k: nat, a: X, b: X) ensures xtn(k, a.xor(b)) == xtn(k, a).xor(xtn(k, b)), xtn(k, X::zero()) == X::zero() decreases k
{ if k > 0 { xtn_xor((k - 1) as nat, a, b); X::xor_ax(xtn((k - 1) as nat, a), xtn((k - 1) as nat, b), a); X::xor_ax(a, a, a); } }
proof fn xtn_period<X: Xt>(a: X) ensures xtn(X::n(), a) == a
{
    if a == X::zero() { xtn_xor(X::n(), a, a); } else {
        X::log_ax(a, 0);
        xtn_add(X::n(), a.lg(), X::one()); xtn_add(a.lg(), X::n(), X::one());
        assert(X::n() + a.lg() == a.lg() + X::n());
    }
}
proof fn xtn_periods<X: Xt>(q: nat, k: nat, a: X) ensures xtn(k + q * X::n(), a) == xtn(k, a) decreases q
{
    if q > 0 {
        xtn_periods((q - 1) as nat, k, a);
        assert(k + q * X::n() == X::n() + (k + (q - 1) * X::n())) by (nonlinear_arith);
        xtn_add(X::n(), (k + (q - 1) * X::n()) as nat, a);
        xtn_period(xtn((k + (q - 1) * X::n()) as nat, a));
    } else { assert(q * X::n() == 0) by (nonlinear_arith) requires q == 0; }
}
/// powers of x are not zero, and their logarithm is the exponent modulo n
proof fn xtn_log<X: Xt>(k: nat, c: X)
    ensures xtn(k, X::one()) != X::zero(), xtn(xtn(k, X::one()).lg(), c) == xtn(k, c)
{
    X::xor_ax(c, c, c);
    let n = X::n(); let r = k % n; let q = k / n;
    assert(k == r + q * n) by (nonlinear_arith) requires n > 0, r == k % n, q == k / n;
    assert(0 <= r < n);
    xtn_periods(q, r, X::one()); xtn_periods(q, r, c);
    X::log_ax(c, r);
    if xtn(r, X::one()) == X::zero() {
        xtn_add((n - r) as nat, r, X::one());
        xtn_xor((n - r) as nat, X::zero(), X::zero());
    }
}
proof fn xfield<X: Xt>(a: X, b: X, c: X)
    ensures
        xmul(a, b) == xmul(b, a), xmul(xmul(a, b), c) == xmul(a, xmul(b, c)), xmul(a, X::one()) == a, xmul(a, X::zero()) == X::zero(), xmul(X::zero(), a) == X::zero(), xmul(X::one(), a) == a,
        xmul(a, b.xor(c)) == xmul(a, b).xor(xmul(a, c)), xmul(a.xor(b), c) == xmul(a, c).xor(xmul(b, c)),
        a != X::zero() ==> xmul(a, xinv(a)) == X::one(),
{
    xcomm(a, b); xcomm(a, c); xcomm(b, c); xcomm(a, X::one()); xcomm(a, X::zero()); xcomm(a.xor(b), c);
    xassoc(a, b, c);
    xdist(a, b, c); xdist(c, a, b);
    X::log_ax(a, 0); X::log_ax(X::one(), 0); X::xor_ax(a, b, c);
    xtn_xor(a.lg(), X::zero(), X::zero());
    if a != X::zero() {
        xtn_add(a.lg(), (X::n() - a.lg()) as nat, X::one());
    }
}
proof fn xcomm<X: Xt>(a: X, b: X) ensures xmul(a, b) == xmul(b, a)
{
    X::log_ax(a, 0); X::log_ax(b, 0);
    xtn_xor(a.lg(), X::zero(), X::zero()); xtn_xor(b.lg(), X::zero(), X::zero());
    if a != X::zero() && b != X::zero() {
        xtn_add(a.lg(), b.lg(), X::one()); xtn_add(b.lg(), a.lg(), X::one());
        assert(a.lg() + b.lg() == b.lg() + a.lg());
    }
}
proof fn xdist<X: Xt>(a: X, b: X, c: X) ensures xmul(a, b.xor(c)) == xmul(a, b).xor(xmul(a, c))
{ X::xor_ax(X::zero(), b, c); xtn_xor(a.lg(), b, c); }
proof fn xassoc<X: Xt>(a: X, b: X, c: X) ensures xmul(xmul(a, b), c) == xmul(a, xmul(b, c))
{
    xtn_xor(a.lg(), X::zero(), X::zero());
    if a != X::zero() && b != X::zero() {
        X::log_ax(a, 0); X::log_ax(b, 0);
        xtn_add(a.lg(), b.lg(), X::one());
        assert(xmul(a, b) == xtn(a.lg() + b.lg(), X::one()));
        xtn_log(a.lg() + b.lg(), c);
        xtn_add(a.lg(), b.lg(), c);
    }
}

// ------------------------------------------------------------------ GF(256), modulus x^8 + x^4 + x^3 + x^2 + 1
#[verifier::opaque]
spec fn xt8(a: u8) -> u8 { if a >= 128 { (((a - 128) * 2) as u8) ^ 0x1d } else { (a * 2) as u8 } }
spec fn pw8(k: nat, a: u8) -> u8 decreases k { if k == 0 { a } else { xt8(pw8((k - 1) as nat, a)) } }
spec fn log8_table() -> Seq<nat> { seq![0nat, 0, 1, 25, 2, 50, 26, 198, 3, 223, 51, 238, 27, 104, 199, 75, 4, 100, 224, 14, 52, 141, 239, 129, 28, 193, 105, 248, 200, 8, 76, 113, 5, 138, 101, 47, 225, 36, 15, 33, 53, 147, 142, 218, 240, 18, 130, 69, 29, 181, 194, 125, 106, 39, 249, 185, 201, 154, 9, 120, 77, 228, 114, 166, 6, 191, 139, 98, 102, 221, 48, 253, 226, 152, 37, 179, 16, 145, 34, 136, 54, 208, 148, 206, 143, 150, 219, 189, 241, 210, 19, 92, 131, 56, 70, 64, 30, 66, 182, 163, 195, 72, 126, 110, 107, 58, 40, 84, 250, 133, 186, 61, 202, 94, 155, 159, 10, 21, 121, 43, 78, 212, 229, 172, 115, 243, 167, 87, 7, 112, 192, 247, 140, 128, 99, 13, 103, 74, 222, 237, 49, 197, 254, 24, 227, 165, 153, 119, 38, 184, 180, 124, 17, 68, 146, 217, 35, 32, 137, 46, 55, 63, 209, 91, 149, 188, 207, 205, 144, 135, 151, 178, 220, 252, 190, 97, 242, 86, 211, 171, 20, 42, 93, 158, 132, 60, 57, 83, 71, 109, 65, 162, 31, 45, 67, 216, 183, 123, 164, 118, 196, 23, 73, 236, 127, 12, 111, 246, 108, 161, 59, 82, 41, 157, 85, 170, 251, 96, 134, 177, 187, 204, 62, 90, 203, 89, 95, 176, 156, 169, 160, 81, 11, 245, 22, 235, 122, 117, 44, 215, 79, 174, 213, 233, 230, 231, 173, 232, 116, 214, 244, 234, 168, 80, 88, 175] }
#[verifier::opaque]
spec fn lg8(a: u8) -> nat { log8_table()[a as int] }
/// walking the powers from x^k = a on, all have the right logarithm, and x^255 = 1
spec fn walk8(k: nat, a: u8) -> bool decreases 255 - k { if k >= 255 { a == 1 } else { lg8(a) == k && walk8(k + 1, xt8(a)) } }
spec fn logs8(a: nat) -> bool decreases 256 - a { if a >= 256 { true } else { lg8(a as u8) < 255 && pw8(lg8(a as u8), 1) == a as u8 && logs8(a + 1) } }
proof fn walk8_from(k: nat, a: u8, j: nat)
    requires walk8(k, a), k <= j <= 255
    ensures ({ let b = pw8((j - k) as nat, a); (j < 255 ==> lg8(b) == j) && (j == 255 ==> b == 1) })
    decreases j - k
{
    if k < j { walk8_from(k + 1, xt8(a), j); pw8_in((j - k - 1) as nat, a); }
}
proof fn pw8_in(k: nat, a: u8) ensures pw8(k, xt8(a)) == pw8(k + 1, a) decreases k { reveal_with_fuel(pw8, 2); if k > 0 { pw8_in((k - 1) as nat, a); } }
proof fn logs8_at(a: nat, b: nat) requires logs8(a), a <= b < 256 ensures lg8(b as u8) < 255 && pw8(lg8(b as u8), 1) == b as u8 decreases b - a { if a < b { logs8_at(a + 1, b); } }
proof fn walk8_ok() ensures walk8(0, 1) { assert(walk8(0, 1)) by (compute_only); }
proof fn logs8_ok() ensures logs8(1) { assert(logs8(1)) by (compute_only); }
proof fn xt8_lin(a: u8, b: u8) ensures xt8(a ^ b) == xt8(a) ^ xt8(b), xt8(0) == 0
{
    reveal(xt8);
    xt8_bits(a); xt8_bits(b); xt8_bits(a ^ b); xt8_bits(0);
    assert(((a ^ b) << 1) ^ (if (a ^ b) & 0x80 != 0 { 0x1du8 } else { 0u8 }) == ((a << 1) ^ (if a & 0x80 != 0 { 0x1du8 } else { 0u8 })) ^ ((b << 1) ^ (if b & 0x80 != 0 { 0x1du8 } else { 0u8 }))) by (bit_vector);
    assert((0u8 << 1) ^ 0u8 == 0u8) by (bit_vector);
    assert(0u8 & 0x80 == 0) by (bit_vector);
}
proof fn xt8_bits(a: u8) ensures xt8(a) == (a << 1) ^ (if a & 0x80 != 0 { 0x1du8 } else { 0u8 })
{
    reveal(xt8);
    assert((a & 0x80 != 0) == (a >= 128)) by (bit_vector);
    assert(a < 128 ==> (a << 1) ^ 0u8 == a * 2) by (bit_vector);
    assert(a >= 128 ==> (a << 1) == (a - 128) * 2) by (bit_vector);
}

struct GF256(u8);
impl Clone for GF256 { fn clone(&self) -> (r: GF256) ensures r == *self { GF256(self.0) } }
impl Copy for GF256 {}
impl Xt0 for GF256 {
    spec fn zero() -> GF256 { GF256(0) }
    spec fn one() -> GF256 { GF256(1) }
    spec fn xor(self, o: GF256) -> GF256 { GF256(self.0 ^ o.0) }
    spec fn xt(self) -> GF256 { GF256(xt8(self.0)) }
    spec fn n() -> nat { 255 }
    spec fn lg(self) -> nat { lg8(self.0) }
}
impl Xt for GF256 {
    proof fn xor_ax(a: GF256, b: GF256, c: GF256) {
        let (x, y, z) = (a.0, b.0, c.0);
        assert(x ^ y == y ^ x && (x ^ y) ^ z == x ^ (y ^ z) && x ^ 0 == x && x ^ x == 0) by (bit_vector);
        xt8_lin(x, y);
    }
    proof fn log_ax(a: GF256, k: nat) {
        if a.0 != 0 { logs8_ok(); logs8_at(1, a.0 as nat); xtn8(lg8(a.0), GF256(1)); }
        walk8_ok();
        if k < 255 { walk8_from(0, 1, k); xtn8(k, GF256(1)); }
        walk8_from(0, 1, 255); xtn8(255, GF256(1));
    }
}
proof fn xtn8(k: nat, a: GF256) ensures xtn(k, a).0 == pw8(k, a.0) decreases k { if k > 0 { xtn8((k - 1) as nat, a); } }

// ------------------------------------------------------------------ GF(16), modulus x^4 + x + 1; the bits of an element (g2p keeps them in the low half of a u8)
struct GF16 { b0: bool, b1: bool, b2: bool, b3: bool }
impl Clone for GF16 { fn clone(&self) -> (r: GF16) ensures r == *self { GF16 { b0: self.b0, b1: self.b1, b2: self.b2, b3: self.b3 } } }
impl Copy for GF16 {}
spec fn nib(a: GF16) -> int { (if a.b0 { 1int } else { 0 }) + (if a.b1 { 2int } else { 0 }) + (if a.b2 { 4int } else { 0 }) + (if a.b3 { 8int } else { 0 }) }
spec fn xt4(a: GF16) -> GF16 { GF16 { b0: a.b3, b1: a.b0 != a.b3, b2: a.b1, b3: a.b2 } }
spec fn log4_table() -> Seq<nat> { seq![0nat, 0, 1, 4, 2, 8, 5, 10, 3, 14, 9, 7, 6, 13, 11, 12] }
spec fn of_nib(v: int) -> GF16 { GF16 { b0: v % 2 == 1, b1: (v / 2) % 2 == 1, b2: (v / 4) % 2 == 1, b3: (v / 8) % 2 == 1 } }
spec fn pw4(k: nat, a: GF16) -> GF16 decreases k { if k == 0 { a } else { xt4(pw4((k - 1) as nat, a)) } }
spec fn logs4(a: int) -> bool decreases 16 - a { if a >= 16 { true } else { log4_table()[a] < 15 && pw4(log4_table()[a], of_nib(1)) == of_nib(a) && nib(of_nib(a)) == a && logs4(a + 1) } }
spec fn walk4(k: nat) -> bool decreases k { if k == 0 { true } else { log4_table()[nib(pw4((k - 1) as nat, of_nib(1)))] == k - 1 && walk4((k - 1) as nat) } }
proof fn logs4_ok() ensures logs4(1), walk4(15), pw4(15, of_nib(1)) == of_nib(1) { assert(logs4(1)) by (compute_only); assert(walk4(15)) by (compute_only); assert(pw4(15, of_nib(1)) == of_nib(1)) by (compute_only); }
proof fn logs4_at(a: int, b: int) requires logs4(a), a <= b < 16 ensures log4_table()[b] < 15 && pw4(log4_table()[b], of_nib(1)) == of_nib(b) decreases b - a { if a < b { logs4_at(a + 1, b); } }
proof fn walk4_at(k: nat, j: nat) requires walk4(k), j < k ensures log4_table()[nib(pw4(j, of_nib(1)))] == j decreases k { if j < k - 1 { walk4_at((k - 1) as nat, j); } }
proof fn xtn4(k: nat, a: GF16) ensures xtn(k, a) == pw4(k, a) decreases k { if k > 0 { xtn4((k - 1) as nat, a); } }
impl Xt0 for GF16 {
    spec fn zero() -> GF16 { of_nib(0) }
    spec fn one() -> GF16 { of_nib(1) }
    spec fn xor(self, o: GF16) -> GF16 { GF16 { b0: self.b0 != o.b0, b1: self.b1 != o.b1, b2: self.b2 != o.b2, b3: self.b3 != o.b3 } }
    spec fn xt(self) -> GF16 { xt4(self) }
    spec fn n() -> nat { 15 }
    spec fn lg(self) -> nat { log4_table()[nib(self)] }
}
impl Xt for GF16 {
    proof fn xor_ax(a: GF16, b: GF16, c: GF16) {}
    proof fn log_ax(a: GF16, k: nat) {
        logs4_ok();
        assert(of_nib(nib(a)) == a);
        if a != of_nib(0) { assert(nib(a) != 0); logs4_at(1, nib(a)); xtn4(log4_table()[nib(a)], of_nib(1)); }
        if k < 15 { walk4_at(15, k); xtn4(k, of_nib(1)); }
        xtn4(15, of_nib(1));
    }
}
