// ------------------------------------------------------------------ Galois fields of characteristic 2
// The trait g2p::GaloisField, with the field axioms as proof obligations of its instances.
trait GaloisField: Copy + Sized + Add<Output = Self> + AddAssign + Mul<Output = Self> + MulAssign + Div<Output = Self> + PartialEq
    + AddSpec<Self> + MulSpec<Self> + DivSpec<Self> + AddAssignSpec<Self> + MulAssignSpec<Self> + PartialEqSpec<Self>
{
    const ZERO: Self;
    const ONE: Self;
    const GENERATOR: Self;
    spec fn plus(self, o: Self) -> Self;
    spec fn times(self, o: Self) -> Self;
    spec fn inv(self) -> Self;
    spec fn over(self, o: Self) -> Self;

    /// the operators compute plus, times and over (assumed of g2p, checked exhaustively against the crate)
    proof fn ops(a: Self, b: Self)
        ensures
            Self::obeys_add_spec(), a.add_req(b), a.add_spec(b) == a.plus(b),
            Self::obeys_add_assign_spec(), (&a).add_assign_req(b), *((&a).add_assign_spec(b)) == a.plus(b),
            Self::obeys_mul_spec(), a.mul_req(b), a.mul_spec(b) == a.times(b),
            Self::obeys_mul_assign_spec(), (&a).mul_assign_req(b), *((&a).mul_assign_spec(b)) == a.times(b),
            Self::obeys_div_spec(), b != Self::ZERO ==> a.div_req(b), a.div_spec(b) == a.over(b),
            Self::obeys_eq_spec(), (&a).eq_spec(&b) == (a == b),
    ;
    proof fn ax(a: Self, b: Self, c: Self)
        ensures
            Self::ZERO != Self::ONE,
            a.plus(b) == b.plus(a), a.plus(b).plus(c) == a.plus(b.plus(c)), a.plus(Self::ZERO) == a, Self::ZERO.plus(a) == a, a.plus(a) == Self::ZERO,
            a.times(b) == b.times(a), a.times(b).times(c) == a.times(b.times(c)), a.times(Self::ONE) == a, Self::ONE.times(a) == a,
            a.times(Self::ZERO) == Self::ZERO, Self::ZERO.times(a) == Self::ZERO,
            a.times(b.plus(c)) == a.times(b).plus(a.times(c)), a.plus(b).times(c) == a.times(c).plus(b.times(c)),
            a != Self::ZERO ==> a.times(a.inv()) == Self::ONE,
            b != Self::ZERO ==> a.over(b) == a.times(b.inv()),
    ;
}

/// the operators on any operands, in any order
proof fn any_ops<G: GaloisField>()
    ensures
        G::obeys_add_spec(), G::obeys_add_assign_spec(), G::obeys_mul_spec(), G::obeys_mul_assign_spec(), G::obeys_div_spec(), G::obeys_eq_spec(),
        forall|a: G, b: G| (#[trigger] a.add_spec(b)) == a.plus(b), forall|a: G, b: G| (#[trigger] a.mul_spec(b)) == a.times(b), forall|a: G, b: G| (#[trigger] a.div_spec(b)) == a.over(b),
        forall|a: G, b: G| #[trigger] a.add_req(b), forall|a: G, b: G| #[trigger] a.mul_req(b), forall|a: G, b: G| b != G::ZERO ==> #[trigger] a.div_req(b),
        forall|a: G, b: G| #[trigger] (&a).add_assign_req(b), forall|a: G, b: G| *(#[trigger] (&a).add_assign_spec(b)) == a.plus(b),
        forall|a: G, b: G| #[trigger] (&a).mul_assign_req(b), forall|a: G, b: G| *(#[trigger] (&a).mul_assign_spec(b)) == a.times(b),
        forall|a: G, b: G| (#[trigger] (&a).eq_spec(&b)) == (a == b),
        forall|a: G, b: G| (#[trigger] a.times(b)) == b.times(a), forall|a: G, b: G| (#[trigger] a.plus(b)) == b.plus(a),
{
    G::ops(G::ONE, G::ONE);
    assert forall|a: G, b: G| (#[trigger] a.add_spec(b)) == a.plus(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| (#[trigger] a.mul_spec(b)) == a.times(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| (#[trigger] a.div_spec(b)) == a.over(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| #[trigger] a.add_req(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| #[trigger] a.mul_req(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| b != G::ZERO implies #[trigger] a.div_req(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| #[trigger] (&a).add_assign_req(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| *(#[trigger] (&a).add_assign_spec(b)) == a.plus(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| #[trigger] (&a).mul_assign_req(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| *(#[trigger] (&a).mul_assign_spec(b)) == a.times(b) by { G::ops(a, b); }
    assert forall|a: G, b: G| (#[trigger] (&a).eq_spec(&b)) == (a == b) by { G::ops(a, b); }
    assert forall|a: G, b: G| (#[trigger] a.times(b)) == b.times(a) by { G::ax(a, b, b); }
    assert forall|a: G, b: G| (#[trigger] a.plus(b)) == b.plus(a) by { G::ax(a, b, b); }
}
spec fn pw<G: GaloisField>(x: G, n: nat) -> G decreases n { if n == 0 { G::ONE } else { x.times(pw(x, (n - 1) as nat)) } }
spec fn sum<G: GaloisField>(f: spec_fn(int) -> G, n: int) -> G decreases n { if n <= 0 { G::ZERO } else { sum(f, n - 1).plus(f(n - 1)) } }

proof fn no_zero_div<G: GaloisField>(a: G, b: G)
    requires a.times(b) == G::ZERO, a != G::ZERO
    ensures b == G::ZERO
{
    G::ax(a.inv(), a, b); G::ax(a, a.inv(), b); G::ax(b, a, a); G::ax(a.inv(), a, a);
}
proof fn plus_eq_zero<G: GaloisField>(a: G, b: G)
    ensures (a.plus(b) == G::ZERO) == (a == b)
{
    G::ax(a, b, b); G::ax(b, a, a);
}
/// (a+b)+(c+d) == (a+c)+(b+d)
proof fn plus4<G: GaloisField>(a: G, b: G, c: G, d: G)
    ensures a.plus(b).plus(c.plus(d)) == a.plus(c).plus(b.plus(d))
{
    G::ax(a, b, c.plus(d)); G::ax(b, c, d); G::ax(c, b, d); G::ax(a, c, b.plus(d));
}
/// (a+b)+c == (a+c)+b
proof fn plus3<G: GaloisField>(a: G, b: G, c: G)
    ensures a.plus(b).plus(c) == a.plus(c).plus(b)
{
    G::ax(a, b, c); G::ax(a, c, b); G::ax(b, c, c);
}
/// (a+b)+b == a
proof fn plus_cancel<G: GaloisField>(a: G, b: G)
    ensures a.plus(b).plus(b) == a
{
    G::ax(a, b, b); G::ax(b, a, a);
}
/// (a*b)*c == (a*c)*b
proof fn times3<G: GaloisField>(a: G, b: G, c: G)
    ensures a.times(b).times(c) == a.times(c).times(b), a.times(b.times(c)) == b.times(a.times(c)), a.times(b.times(c)) == a.times(b).times(c)
{
    G::ax(a, b, c); G::ax(a, c, b); G::ax(b, c, c); G::ax(b, a, c);
}
/// (a*b)*(c*d) == (a*c)*(b*d)
proof fn times4<G: GaloisField>(a: G, b: G, c: G, d: G)
    ensures a.times(b).times(c.times(d)) == a.times(c).times(b.times(d))
{
    G::ax(a, b, c.times(d)); G::ax(b, c, d); G::ax(c, b, d); G::ax(a, c, b.times(d));
}

proof fn sum_congr<G: GaloisField>(f: spec_fn(int) -> G, g: spec_fn(int) -> G, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == g(i)
    ensures sum(f, n) == sum(g, n)
    decreases n
{
    if n > 0 { sum_congr(f, g, n - 1); assert(f(n - 1) == g(n - 1)); }
}
proof fn sum_plus<G: GaloisField>(f: spec_fn(int) -> G, g: spec_fn(int) -> G, h: spec_fn(int) -> G, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == f(i).plus(g(i))
    ensures sum(h, n) == sum(f, n).plus(sum(g, n))
    decreases n
{
    if n > 0 {
        sum_plus(f, g, h, n - 1); assert(h(n - 1) == f(n - 1).plus(g(n - 1)));
        plus4(sum(f, n - 1), sum(g, n - 1), f(n - 1), g(n - 1));
    } else { G::ax(G::ZERO, G::ZERO, G::ZERO); }
}
proof fn sum_scale<G: GaloisField>(c: G, f: spec_fn(int) -> G, h: spec_fn(int) -> G, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] h(i) == c.times(f(i))
    ensures sum(h, n) == c.times(sum(f, n))
    decreases n
{
    if n > 0 {
        sum_scale(c, f, h, n - 1); assert(h(n - 1) == c.times(f(n - 1)));
        G::ax(c, sum(f, n - 1), f(n - 1));
    } else { G::ax(c, c, c); }
}
proof fn sum_zero<G: GaloisField>(f: spec_fn(int) -> G, n: int)
    requires forall|i: int| 0 <= i < n ==> #[trigger] f(i) == G::ZERO
    ensures sum(f, n) == G::ZERO
    decreases n
{
    if n > 0 { sum_zero(f, n - 1); assert(f(n - 1) == G::ZERO); G::ax(G::ZERO, G::ZERO, G::ZERO); }
}
/// all terms zero but the one at k
proof fn sum_single<G: GaloisField>(f: spec_fn(int) -> G, n: int, k: int)
    requires 0 <= k < n, forall|i: int| 0 <= i < n && i != k ==> #[trigger] f(i) == G::ZERO
    ensures sum(f, n) == f(k)
    decreases n
{
    if k == n - 1 { sum_zero(f, n - 1); G::ax(f(k), f(k), f(k)); }
    else { sum_single(f, n - 1, k); assert(f(n - 1) == G::ZERO); G::ax(f(k), f(k), f(k)); }
}

proof fn pw_add<G: GaloisField>(x: G, a: nat, b: nat)
    ensures pw(x, a + b) == pw(x, a).times(pw(x, b))
    decreases a
{
    G::ax(pw(x, b), x, x);
    if a > 0 {
        pw_add(x, (a - 1) as nat, b);
        assert(pw(x, a + b) == x.times(pw(x, (a + b - 1) as nat)));
        G::ax(x, pw(x, (a - 1) as nat), pw(x, b));
    }
}
proof fn pw_mul<G: GaloisField>(x: G, a: nat, b: nat)
    ensures pw(pw(x, a), b) == pw(x, a * b)
    decreases b
{
    if b > 0 {
        pw_mul(x, a, (b - 1) as nat);
        pw_add(x, a, a * ((b - 1) as nat));
        assert(a + a * (b - 1) == a * b) by (nonlinear_arith);
    } else { assert(a * b == 0) by (nonlinear_arith) requires b == 0; }
}
proof fn pw_one<G: GaloisField>(n: nat)
    ensures pw(G::ONE, n) == G::ONE
    decreases n
{
    if n > 0 { pw_one::<G>((n - 1) as nat); G::ax(G::ONE, G::ONE, G::ONE); }
}
proof fn pw_nonzero<G: GaloisField>(x: G, n: nat)
    requires x != G::ZERO
    ensures pw(x, n) != G::ZERO
    decreases n
{
    G::ax(x, x, x);
    if n > 0 {
        pw_nonzero(x, (n - 1) as nat);
        if pw(x, n) == G::ZERO { no_zero_div(x, pw(x, (n - 1) as nat)); }
    }
}
/// x y = 1 gives x^n y^n = 1
proof fn pw_inv<G: GaloisField>(x: G, y: G, n: nat)
    requires x.times(y) == G::ONE
    ensures pw(x, n).times(pw(y, n)) == G::ONE
    decreases n
{
    G::ax(G::ONE, G::ONE, G::ONE);
    if n > 0 {
        pw_inv(x, y, (n - 1) as nat);
        times4(x, pw(x, (n - 1) as nat), y, pw(y, (n - 1) as nat));
    }
}

// ------------------------------------------------------------------ sums of powers: the Vandermonde argument
/// sum over k < nu of v[k] x[k]^j
spec fn psum<G: GaloisField>(v: Seq<G>, x: Seq<G>, nu: int, j: nat) -> G { sum(|k: int| v[k].times(pw(x[k], j)), nu) }
spec fn distinct<G: GaloisField>(x: Seq<G>, nu: int) -> bool {
    &&& nu <= x.len()
    &&& forall|a: int| 0 <= a < nu ==> #[trigger] x[a] != G::ZERO
    &&& forall|a: int, b: int| 0 <= a < b < nu ==> #[trigger] x[a] != #[trigger] x[b]
}
proof fn vandermonde<G: GaloisField>(v: Seq<G>, x: Seq<G>, nu: int)
    requires 0 <= nu <= v.len(), distinct(x, nu), forall|j: nat| j < nu ==> #[trigger] psum(v, x, nu, j) == G::ZERO
    ensures forall|k: int| 0 <= k < nu ==> #[trigger] v[k] == G::ZERO
    decreases nu
{
    if nu > 0 {
        let l = nu - 1;
        let w = Seq::new(v.len(), |k: int| v[k].times(x[k].plus(x[l])));
        assert forall|j: nat| j < l implies #[trigger] psum(w, x, l, j) == G::ZERO by {
            // w[k] x[k]^j = v[k] x[k]^(j+1) + x[l] v[k] x[k]^j, also (with 0) for k = l
            let fa = |k: int| v[k].times(pw(x[k], j + 1));
            let fb = |k: int| v[k].times(pw(x[k], j));
            let fc = |k: int| x[l].times(v[k].times(pw(x[k], j)));
            let fw = |k: int| w[k].times(pw(x[k], j));
            assert forall|k: int| 0 <= k < nu implies #[trigger] fw(k) == fa(k).plus(fc(k)) by {
                let p = pw(x[k], j);
                assert(pw(x[k], j + 1) == x[k].times(p));
                times3(v[k], x[k].plus(x[l]), p);
                G::ax(x[k], x[l], p);
                G::ax(v[k], x[k].times(p), x[l].times(p));
                times3(v[k], x[l], p);
            }
            sum_plus(fa, fc, fw, nu);
            sum_scale(x[l], fb, fc, nu);
            assert(psum(v, x, nu, j + 1) == G::ZERO); assert(psum(v, x, nu, j) == G::ZERO);
            G::ax(x[l], x[l], x[l]); G::ax(G::ZERO, G::ZERO, G::ZERO);
            assert(sum(fw, nu) == G::ZERO);
            G::ax(v[l], v[l], v[l]); G::ax(pw(x[l], j), v[l], v[l]);
            assert(fw(l) == G::ZERO);
            assert(sum(fw, nu) == sum(fw, l).plus(fw(l)));
            G::ax(sum(fw, l), v[l], v[l]);
            sum_congr(fw, |k: int| w[k].times(pw(x[k], j)), l);
        }
        vandermonde(w, x, l);
        assert forall|k: int| 0 <= k < l implies #[trigger] v[k] == G::ZERO by {
            assert(w[k] == G::ZERO);
            plus_eq_zero(x[k], x[l]);
            G::ax(v[k], x[k].plus(x[l]), v[k]);
            no_zero_div(x[k].plus(x[l]), v[k]);
        }
        let f0 = |k: int| v[k].times(pw(x[k], 0));
        assert(psum(v, x, nu, 0) == G::ZERO);
        assert forall|k: int| 0 <= k < l implies #[trigger] f0(k) == G::ZERO by { G::ax(pw(x[k], 0), v[k], v[k]); }
        sum_zero(f0, l);
        G::ax(v[l], v[l], v[l]);
        assert(sum(f0, nu) == sum(f0, l).plus(f0(l)));
    }
}
