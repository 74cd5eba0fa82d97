// ------------------------------------------------------------------ polynomials: evaluation, roots, Forney
/// sum over i < n of c[i] x^i
spec fn ev<G: GaloisField>(c: Seq<G>, n: int, x: G) -> G
    decreases n
{
    if n <= 0 { G::ZERO } else { ev(c, n - 1, x).plus(c[n - 1].times(pw(x, (n - 1) as nat))) }
}
/// sum over odd i < n of c[i] x^i
spec fn odd<G: GaloisField>(c: Seq<G>, n: int, x: G) -> G
    decreases n
{
    if n <= 0 { G::ZERO } else if n % 2 == 0 { odd(c, n - 1, x).plus(c[n - 1].times(pw(x, (n - 1) as nat))) } else { odd(c, n - 1, x) }
}
proof fn ev_extend<G: GaloisField>(c: Seq<G>, n: int, n2: int, x: G)
    requires 0 <= n <= n2 <= c.len(), forall|i: int| n <= i < n2 ==> #[trigger] c[i] == G::ZERO
    ensures ev(c, n2, x) == ev(c, n, x)
    decreases n2 - n
{
    if n < n2 {
        ev_extend(c, n, n2 - 1, x);
        assert(c[n2 - 1] == G::ZERO);
        G::ax(pw(x, (n2 - 1) as nat), ev(c, n, x), x); G::ax(ev(c, n, x), x, x);
    }
}
proof fn odd_extend<G: GaloisField>(c: Seq<G>, n: int, n2: int, x: G)
    requires 0 <= n <= n2 <= c.len(), forall|i: int| n <= i < n2 ==> #[trigger] c[i] == G::ZERO
    ensures odd(c, n2, x) == odd(c, n, x)
    decreases n2 - n
{
    if n < n2 {
        odd_extend(c, n, n2 - 1, x);
        assert(c[n2 - 1] == G::ZERO);
        G::ax(pw(x, (n2 - 1) as nat), odd(c, n, x), x); G::ax(odd(c, n, x), x, x);
    }
}
/// X^l c(x) = reversed polynomial at X, for x X = 1
proof fn ev_rev<G: GaloisField>(c: Seq<G>, l: int, x: G, xx: G)
    requires 0 <= l < c.len(), x.times(xx) == G::ONE
    ensures pw(xx, l as nat).times(ev(c, l + 1, x)) == rev(c, l, xx)
    decreases l
{
    let e = ev(c, l, x); let p = pw(xx, l as nat);
    G::ax(p, e, c[l].times(pw(x, l as nat)));
    // X^l c_l x^l = c_l
    pw_inv(x, xx, l as nat);
    times3(p, c[l], pw(x, l as nat)); G::ax(p, pw(x, l as nat), c[l]); G::ax(c[l], c[l], c[l]);
    assert(p.times(c[l].times(pw(x, l as nat))) == c[l]);
    if l == 0 {
        G::ax(G::ONE, G::ZERO, c[0]); G::ax(c[0], G::ZERO, G::ZERO);
        assert(e == G::ZERO); assert(p == G::ONE);
    } else {
        ev_rev(c, l - 1, x, xx);
        G::ax(xx, pw(xx, (l - 1) as nat), e);
    }
}
/// coefficients of the quotient by (X + x0)
spec fn quot<G: GaloisField>(c: Seq<G>, x0: G) -> Seq<G> { Seq::new(c.len(), |i: int| rev(c, i, x0)) }
proof fn horner<G: GaloisField>(c: Seq<G>, l: int, x0: G, x: G)
    requires 1 <= l < c.len()
    ensures rev(c, l, x).plus(rev(c, l, x0)) == x.plus(x0).times(rev(quot(c, x0), l - 1, x))
    decreases l
{
    let q = quot(c, x0);
    let a = rev(c, l - 1, x); let b = rev(c, l - 1, x0);
    // (x a + c) + (x0 b + c) = x a + x0 b
    plus4(x.times(a), c[l], x0.times(b), c[l]); G::ax(c[l], c[l], c[l]); G::ax(x.times(a).plus(x0.times(b)), c[l], c[l]);
    assert(rev(c, l, x).plus(rev(c, l, x0)) == x.times(a).plus(x0.times(b)));
    if l == 1 {
        G::ax(x, x0, c[0]);
        assert(q[0] == c[0]);
    } else {
        horner(c, l - 1, x0, x);
        let r = rev(q, l - 2, x);
        assert(q[l - 1] == b);
        // x a + x0 b = x (a + b) + (x + x0) b
        G::ax(x, a, b); G::ax(x, x0, b);
        plus4(x.times(a), x.times(b), x.times(b), x0.times(b));
        plus3(x.times(a), x.times(b), x.times(b)); plus_cancel(x.times(a), x.times(b));
        G::ax(x.times(a), x.times(b), x.times(b).plus(x0.times(b))); G::ax(x.times(b), x.times(b), x0.times(b)); G::ax(x.times(b), x0.times(b), x0.times(b)); G::ax(x0.times(b), x0.times(b), x0.times(b));
        assert(x.times(a).plus(x0.times(b)) == x.times(a.plus(b)).plus(x.plus(x0).times(b)));
        // = (x + x0) (x r + b)
        let s = x.plus(x0);
        times3(x, s, r); G::ax(s, x.times(r), b); times3(s, x, r);
    }
}
/// a polynomial of degree l with leading coefficient c[0] has at most l roots
proof fn few_roots<G: GaloisField>(c: Seq<G>, l: int, x: Seq<G>, nu: int)
    requires 0 <= l < c.len(), c[0] != G::ZERO, 0 <= nu, distinct(x, nu), forall|k: int| 0 <= k < nu ==> rev(c, l, #[trigger] x[k]) == G::ZERO
    ensures nu <= l
    decreases l
{
    if nu > 0 {
        let x0 = x[nu - 1];
        assert(rev(c, l, x0) == G::ZERO);
        if l > 0 {
            let q = quot(c, x0);
            assert(q[0] == c[0]);
            assert forall|k: int| 0 <= k < nu - 1 implies rev(q, l - 1, #[trigger] x[k]) == G::ZERO by {
                assert(x[k] != x0);
                horner(c, l, x0, x[k]);
                assert(rev(c, l, x[k]) == G::ZERO);
                G::ax(G::ZERO, G::ZERO, G::ZERO);
                plus_eq_zero(x[k], x0);
                no_zero_div(x[k].plus(x0), rev(q, l - 1, x[k]));
            }
            few_roots(q, l - 1, x, nu - 1);
        }
    }
}
/// rev stays zero once it is a root and the coefficients are used up
proof fn rev_zero<G: GaloisField>(c: Seq<G>, l: int, m: int, x: G)
    requires 0 <= l <= m < c.len(), rev(c, l, x) == G::ZERO, forall|i: int| l < i < c.len() ==> #[trigger] c[i] == G::ZERO
    ensures rev(c, m, x) == G::ZERO
    decreases m
{
    if l < m { rev_zero(c, l, m - 1, x); assert(c[m] == G::ZERO); G::ax(x, x, x); G::ax(G::ZERO, G::ZERO, G::ZERO); }
}
/// n even: c', n odd: c(z) + z c'(z)
proof fn quot_ev<G: GaloisField>(c: Seq<G>, n: int, z: G, zz: G)
    requires 0 <= n <= c.len(), z.times(zz) == G::ONE
    ensures ev(quot(c, zz), n, z) == (if n % 2 == 0 { odd(c, n, z) } else { ev(c, n, z).plus(odd(c, n, z)) })
    decreases n
{
    if n > 0 {
        let q = quot(c, zz);
        let m = n - 1;
        quot_ev(c, m, z, zz);
        // q[m] z^m = c_0 + .. + c_m z^m
        ev_rev(c, m, z, zz);
        pw_inv(z, zz, m as nat);
        let e = ev(c, n, z); let pz = pw(z, m as nat); let pzz = pw(zz, m as nat);
        assert(q[m] == pzz.times(e));
        times3(pzz, e, pz); G::ax(pzz, pz, e); G::ax(pz, pzz, e); G::ax(e, e, e);
        assert(q[m].times(pz) == e);
        let t = c[m].times(pz); let o = odd(c, m, z); let e0 = ev(c, m, z);
        if n % 2 == 0 {
            // (e0 + o) + (e0 + t) = o + t
            plus4(e0, o, e0, t); G::ax(e0, e0, e0); G::ax(o.plus(t), o, o);
        } else {
            G::ax(o, e, e);
        }
    } else { G::ax(G::ZERO, G::ZERO, G::ZERO); }
}

/// the error evaluator: coefficient m is the sum over i <= m of c[i] s[m + 1 - i], for m < n
spec fn is_omega<G: GaloisField>(om: Seq<G>, c: Seq<G>, s: Seq<G>, n: int) -> bool {
    om.len() == 64 && (forall|m: int| 0 <= m < n ==> #[trigger] om[m] == conv(c, s, m, m + 1)) && (forall|m: int| n <= m < 64 ==> #[trigger] om[m] == G::ZERO)
}
/// omega is the sum over the errors of w[k] x[k] quot_k
proof fn omega_sum<G: GaloisField>(om: Seq<G>, c: Seq<G>, s: Seq<G>, npar: int, nu: int, x: Seq<G>, w: Seq<G>, n: int, z: G)
    requires 0 <= n <= npar - 1, npar <= 62, is_omega(om, c, s, npar - 1), model(s, npar, nu, x, w), c.len() == 64, s.len() == 64
    ensures ev(om, n, z) == sum(|k: int| w[k].times(x[k]).times(ev(quot(c, x[k]), n, z)), nu)
    decreases n
{
    let f = |k: int| w[k].times(x[k]).times(ev(quot(c, x[k]), n, z));
    if n == 0 {
        assert forall|k: int| 0 <= k < nu implies #[trigger] f(k) == G::ZERO by { G::ax(w[k].times(x[k]), z, z); }
        sum_zero(f, nu);
    } else {
        let m = n - 1;
        omega_sum(om, c, s, npar, nu, x, w, m, z);
        let g = |k: int| w[k].times(x[k]).times(ev(quot(c, x[k]), m, z));
        conv_power(c, s, npar, nu, x, w, m, m + 1);
        let v = Seq::new(nu as nat, |k: int| w[k].times(rev(c, m, x[k])));
        let pz = pw(z, m as nat);
        let h0 = |k: int| v[k].times(pw(x[k], 1));
        let h = |k: int| pz.times(v[k].times(pw(x[k], 1)));
        assert((m + 1 - m) as nat == 1nat);
        assert(om[m] == sum(h0, nu)) by { sum_congr(h0, |k: int| v[k].times(pw(x[k], 1)), nu); }
        sum_scale(pz, h0, h, nu);
        G::ax(pz, om[m], z);
        assert forall|k: int| 0 <= k < nu implies #[trigger] f(k) == g(k).plus(h(k)) by {
            let q = quot(c, x[k]); let a = w[k].times(x[k]); let r = rev(c, m, x[k]);
            assert(q[m] == r);
            G::ax(a, ev(q, m, z), r.times(pz));
            assert(pw(x[k], 1) == x[k]) by { reveal_with_fuel(pw, 2); G::ax(x[k], x[k], x[k]); }
            // a (r pz) = pz ((w r) x)
            times3(w[k], r, x[k]);
            times3(a, r, pz);
            G::ax(a.times(r), pz, pz);
        }
        sum_plus(g, h, f, nu);
    }
}
/// everything the decoder needs to know about one position: z is the inverse of xx
proof fn forney<G: GaloisField>(c: Seq<G>, s: Seq<G>, npar: int, l: int, nu: int, x: Seq<G>, w: Seq<G>, om: Seq<G>, z: G, xx: G)
    requires
        npar <= 62, s.len() == 64, c.len() == 64, locator(s, npar, c, l), model(s, npar, nu, x, w), 1 <= nu, 2 * nu <= npar, is_omega(om, c, s, npar - 1),
        z.times(xx) == G::ONE,
    ensures
        (forall|k: int| 0 <= k < nu ==> #[trigger] x[k] != xx) ==> ev(c, 64, z) != G::ZERO,
        forall|k: int| 0 <= k < nu && #[trigger] x[k] == xx ==> ev(c, 64, z) == G::ZERO && odd(c, 64, z) != G::ZERO && ev(om, 64, z) == w[k].times(xx).times(odd(c, 64, z)),
{
    all_roots(c, s, npar, nu, x, w, l, npar);
    G::ax(xx, xx, z); G::ax(z, z, z); G::ax(G::ZERO, G::ONE, G::ONE);
    assert(xx != G::ZERO);
    few_roots(c, l, x, nu);
    assert(l == nu);
    assert forall|i: int| l + 1 <= i < 64 implies #[trigger] c[i] == G::ZERO by { }
    ev_extend(c, l + 1, 64, z); odd_extend(c, l + 1, 64, z);
    ev_rev(c, l, z, xx); pw_nonzero(xx, l as nat);
    G::ax(pw(xx, l as nat), z, z);
    if forall|k: int| 0 <= k < nu ==> #[trigger] x[k] != xx {
        if ev(c, 64, z) == G::ZERO {
            let y = x.take(nu).push(xx);
            assert(distinct(y, nu + 1));
            assert forall|k: int| 0 <= k < nu + 1 implies rev(c, l, #[trigger] y[k]) == G::ZERO by { if k < nu { assert(y[k] == x[k]); } }
            few_roots(c, l, y, nu + 1);
        }
    }
    assert forall|k: int| 0 <= k < nu && #[trigger] x[k] == xx implies ev(c, 64, z) == G::ZERO && odd(c, 64, z) != G::ZERO && ev(om, 64, z) == w[k].times(xx).times(odd(c, 64, z)) by {
        assert(rev(c, l, x[k]) == G::ZERO);
        no_zero_div(pw(xx, l as nat), ev(c, 64, z));
        let q = quot(c, xx);
        assert(q[0] == c[0]);
        // quotient at z
        quot_ev(c, l + 1, z, xx);
        assert(ev(c, l + 1, z) == G::ZERO);
        G::ax(odd(c, l + 1, z), G::ZERO, G::ZERO);
        assert(ev(q, l + 1, z) == odd(c, 64, z));
        assert(q[l] == G::ZERO);
        ev_extend(q, l, l + 1, z);
        // it is not zero: xx would be a double root
        if odd(c, 64, z) == G::ZERO {
            ev_rev(q, l - 1, z, xx);
            G::ax(pw(xx, (l - 1) as nat), z, z);
            assert(rev(q, l - 1, xx) == G::ZERO);
            assert forall|j: int| 0 <= j < nu implies rev(q, l - 1, #[trigger] x[j]) == G::ZERO by {
                if x[j] != xx { quot_root(c, l, xx, x[j]); }
            }
            few_roots(q, l - 1, x, nu);
        }
        // omega at z: only the k-th term is left
        omega_sum(om, c, s, npar, nu, x, w, npar - 1, z);
        ev_extend(om, npar - 1, 64, z);
        let f = |j: int| w[j].times(x[j]).times(ev(quot(c, x[j]), npar - 1, z));
        assert forall|j: int| 0 <= j < nu && j != k implies #[trigger] f(j) == G::ZERO by {
            if j < k { assert(x[j] != x[k]); } else { assert(x[k] != x[j]); }
            let r = quot(c, x[j]);
            assert(rev(c, l, x[j]) == G::ZERO);
            quot_tail(c, l, x[j], npar - 1, z);
            assert(x[j] != G::ZERO);
            quot_root(c, l, x[j], xx);
            ev_rev(r, l - 1, z, xx);
            pw_nonzero(xx, (l - 1) as nat);
            no_zero_div(pw(xx, (l - 1) as nat), ev(r, l, z));
            G::ax(w[j].times(x[j]), z, z);
        }
        sum_single(f, nu, k);
        quot_tail(c, l, xx, npar - 1, z);
    }
}
/// other roots of c are roots of the quotient by one
proof fn quot_root<G: GaloisField>(c: Seq<G>, l: int, x0: G, x: G)
    requires 1 <= l < c.len(), rev(c, l, x0) == G::ZERO, rev(c, l, x) == G::ZERO, x != x0
    ensures rev(quot(c, x0), l - 1, x) == G::ZERO
{
    horner(c, l, x0, x);
    G::ax(G::ZERO, G::ZERO, G::ZERO);
    plus_eq_zero(x, x0);
    no_zero_div(x.plus(x0), rev(quot(c, x0), l - 1, x));
}
/// the quotient by a root has no coefficients from l on
proof fn quot_tail<G: GaloisField>(c: Seq<G>, l: int, x0: G, n: int, z: G)
    requires 0 <= l <= n <= c.len(), rev(c, l, x0) == G::ZERO, forall|i: int| l < i < c.len() ==> #[trigger] c[i] == G::ZERO
    ensures ev(quot(c, x0), n, z) == ev(quot(c, x0), l, z)
{
    let q = quot(c, x0);
    assert forall|i: int| l <= i < n implies #[trigger] q[i] == G::ZERO by { rev_zero(c, l, i, x0); }
    ev_extend(q, l, n, z);
}
