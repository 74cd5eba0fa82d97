// ------------------------------------------------------------------ Berlekamp-Massey
/// sum over i <= l of c[i] s[j - i]
spec fn conv<G: GaloisField>(c: Seq<G>, s: Seq<G>, l: int, j: int) -> G
    decreases l
{
    if l <= 0 { c[0].times(s[j]) } else { conv(c, s, l - 1, j).plus(c[l].times(s[j - l])) }
}
/// sum over i <= l of c[i] x^(l - i)
spec fn rev<G: GaloisField>(c: Seq<G>, l: int, x: G) -> G
    decreases l
{
    if l <= 0 { c[0] } else { x.times(rev(c, l - 1, x)).plus(c[l]) }
}
/// s is (up to n) a sum of nu powers: the syndromes of an error pattern with nu errors
spec fn model<G: GaloisField>(s: Seq<G>, n: int, nu: int, x: Seq<G>, w: Seq<G>) -> bool {
    &&& 0 <= nu <= w.len() && distinct(x, nu)
    &&& forall|k: int| 0 <= k < nu ==> #[trigger] w[k] != G::ZERO
    &&& forall|j: int| 0 <= j < n ==> #[trigger] s[j] == psum(w, x, nu, j as nat)
}

proof fn conv_power<G: GaloisField>(c: Seq<G>, s: Seq<G>, n: int, nu: int, x: Seq<G>, w: Seq<G>, l: int, j: int)
    requires model(s, n, nu, x, w), 0 <= l <= j < n, l < c.len()
    ensures conv(c, s, l, j) == psum(Seq::new(nu as nat, |k: int| w[k].times(rev(c, l, x[k]))), x, nu, (j - l) as nat)
    decreases l
{
    let v = Seq::new(nu as nat, |k: int| w[k].times(rev(c, l, x[k])));
    let h = |k: int| v[k].times(pw(x[k], (j - l) as nat));
    if l == 0 {
        let f = |k: int| w[k].times(pw(x[k], j as nat));
        assert forall|k: int| 0 <= k < nu implies #[trigger] h(k) == c[0].times(f(k)) by { times3(w[k], c[0], pw(x[k], j as nat)); times3(c[0], w[k], pw(x[k], j as nat)); }
        sum_scale(c[0], f, h, nu);
        assert(s[j] == psum(w, x, nu, j as nat));
    } else {
        conv_power(c, s, n, nu, x, w, l - 1, j);
        let v1 = Seq::new(nu as nat, |k: int| w[k].times(rev(c, l - 1, x[k])));
        let f = |k: int| v1[k].times(pw(x[k], (j - l + 1) as nat));
        let g = |k: int| w[k].times(pw(x[k], (j - l) as nat));
        let gg = |k: int| c[l].times(w[k].times(pw(x[k], (j - l) as nat)));
        assert forall|k: int| 0 <= k < nu implies #[trigger] h(k) == f(k).plus(gg(k)) by {
            let q = pw(x[k], (j - l) as nat); let r = rev(c, l - 1, x[k]);
            assert(pw(x[k], (j - l + 1) as nat) == x[k].times(q));
            // w (x r + c) q = (w r)(x q) + c (w q)
            G::ax(w[k], x[k].times(r), c[l]);
            G::ax(w[k].times(x[k].times(r)), w[k].times(c[l]), q);
            G::ax(x[k], r, r);
            times3(w[k], r, x[k]); times4(w[k], r, x[k], q); times4(w[k], x[k], r, q); times3(w[k], x[k], r);
            assert(w[k].times(x[k].times(r)).times(q) == w[k].times(r).times(x[k].times(q))) by {
                G::ax(w[k].times(r), x[k], q);
                assert(w[k].times(x[k].times(r)) == w[k].times(r).times(x[k]));
            }
            times3(w[k], c[l], q); times3(c[l], w[k], q);
        }
        sum_plus(f, gg, h, nu);
        sum_scale(c[l], g, gg, nu);
        assert(s[j - l] == psum(w, x, nu, (j - l) as nat));
    }
}

/// when enough convolutions vanish, every error location is a root, and the next convolution vanishes too
proof fn all_roots<G: GaloisField>(c: Seq<G>, s: Seq<G>, n: int, nu: int, x: Seq<G>, w: Seq<G>, l: int, big: int)
    requires model(s, n, nu, x, w), 0 <= l < c.len(), big <= n, big - l >= nu, forall|j: int| l <= j < big ==> #[trigger] conv(c, s, l, j) == G::ZERO
    ensures
        forall|k: int| 0 <= k < nu ==> #[trigger] rev(c, l, x[k]) == G::ZERO,
        l <= big < n ==> conv(c, s, l, big) == G::ZERO,
{
    let v = Seq::new(nu as nat, |k: int| w[k].times(rev(c, l, x[k])));
    assert forall|j: nat| j < nu implies #[trigger] psum(v, x, nu, j) == G::ZERO by {
        conv_power(c, s, n, nu, x, w, l, l + j);
        assert(conv(c, s, l, l + j) == G::ZERO);
        assert(l + j - l == j);
    }
    vandermonde(v, x, nu);
    assert forall|k: int| 0 <= k < nu implies #[trigger] rev(c, l, x[k]) == G::ZERO by {
        assert(v[k] == G::ZERO);
        no_zero_div(w[k], rev(c, l, x[k]));
    }
    if l <= big < n {
        conv_power(c, s, n, nu, x, w, l, big);
        let f = |k: int| v[k].times(pw(x[k], (big - l) as nat));
        assert forall|k: int| 0 <= k < nu implies #[trigger] f(k) == G::ZERO by { G::ax(pw(x[k], (big - l) as nat), v[k], v[k]); }
        sum_zero(f, nu);
    }
}

proof fn conv_extend<G: GaloisField>(c: Seq<G>, s: Seq<G>, l: int, l2: int, j: int)
    requires 0 <= l <= l2 < c.len(), forall|i: int| l < i <= l2 ==> #[trigger] c[i] == G::ZERO
    ensures conv(c, s, l2, j) == conv(c, s, l, j)
    decreases l2 - l
{
    if l < l2 {
        conv_extend(c, s, l, l2 - 1, j);
        assert(c[l2] == G::ZERO);
        G::ax(s[j - l2], conv(c, s, l, j), c[l2]); G::ax(conv(c, s, l, j), c[l2], c[l2]);
    }
}
/// c[i + m] for i, i.e. x^m times the polynomial
spec fn shifted<G: GaloisField>(b: Seq<G>, m: int) -> Seq<G> { Seq::new(b.len(), |i: int| if i >= m { b[i - m] } else { G::ZERO }) }
proof fn conv_shift<G: GaloisField>(b: Seq<G>, s: Seq<G>, m: int, l: int, j: int)
    requires 0 <= m, 0 <= l < b.len(), l <= j < s.len()
    ensures conv(shifted(b, m), s, l, j) == (if l < m { G::ZERO } else { conv(b, s, l - m, j - m) })
    decreases l
{
    let t = shifted(b, m);
    if l == 0 { G::ax(s[j], s[j], s[j]); }
    else {
        conv_shift(b, s, m, l - 1, j);
        G::ax(s[j - l], s[j - l], s[j - l]); G::ax(G::ZERO, G::ZERO, G::ZERO);
        if l >= m { assert(t[l] == b[l - m]); assert(j - l == (j - m) - (l - m)); G::ax(b[0].times(s[j - m]), G::ZERO, G::ZERO); }
    }
}
proof fn conv_linear<G: GaloisField>(a: Seq<G>, b: Seq<G>, c: Seq<G>, q: G, s: Seq<G>, l: int, j: int)
    requires 0 <= l, l < a.len(), a.len() == b.len() == c.len(), forall|i: int| 0 <= i <= l ==> #[trigger] c[i] == a[i].plus(b[i].times(q))
    ensures conv(c, s, l, j) == conv(a, s, l, j).plus(q.times(conv(b, s, l, j)))
    decreases l
{
    let z = s[j - l];
    assert(c[l] == a[l].plus(b[l].times(q)));
    G::ax(a[l], b[l].times(q), z);
    times3(b[l], q, z); times3(q, b[l], z);
    assert(b[l].times(q).times(z) == q.times(b[l].times(z)));
    if l > 0 {
        conv_linear(a, b, c, q, s, l - 1, j);
        plus4(conv(a, s, l - 1, j), q.times(conv(b, s, l - 1, j)), a[l].times(z), q.times(b[l].times(z)));
        G::ax(q, conv(b, s, l - 1, j), b[l].times(z));
    }
}

/// connection polynomial of length l for s[..n]
spec fn connects<G: GaloisField>(c: Seq<G>, s: Seq<G>, l: int, n: int) -> bool {
    &&& 0 <= l < 64 && c.len() == 64
    &&& forall|i: int| l < i < 64 ==> #[trigger] c[i] == G::ZERO
    &&& forall|j: int| l <= j < n ==> #[trigger] conv(c, s, l, j) == G::ZERO
}
/// what Berlekamp-Massey promises: c is monic, connects s[..n] with length l, and l is at most the number of errors
spec fn locator<G: GaloisField>(s: Seq<G>, n: int, c: Seq<G>, l: int) -> bool {
    &&& connects(c, s, l, n) && c[0] == G::ONE && l <= n
    &&& forall|nu: int, x: Seq<G>, w: Seq<G>| #[trigger] model(s, n, nu, x, w) ==> l <= nu
}
/// the auxiliary polynomial: the last one before the length changed (at n0, or nowhere yet)
spec fn aux<G: GaloisField>(bs: Seq<G>, s: Seq<G>, lb: int, n0: int, b: G, l: int, n: int, m: int) -> bool {
    &&& b != G::ZERO && bs.len() == 64 && m == n - n0 && l == n0 + 1 - lb
    &&& n0 == -1 ==> lb == 0 && b == G::ONE && bs[0] == G::ONE && (forall|i: int| 0 < i < 64 ==> #[trigger] bs[i] == G::ZERO)
    &&& n0 != -1 ==> 0 <= lb <= n0 < n && connects(bs, s, lb, n0) && conv(bs, s, lb, n0) == b
}

proof fn bm_step<G: GaloisField>(s: Seq<G>, n: int, cs: Seq<G>, l: int, bs: Seq<G>, lb: int, n0: int, b: G, m: int, d: G, q: G, c2: Seq<G>)
    requires
        0 <= n < 62, s.len() == 64, connects(cs, s, l, n), cs[0] == G::ONE, l <= n, aux(bs, s, lb, n0, b, l, n, m), d == conv(cs, s, l, n), q == d.over(b), c2.len() == 64,
        d != G::ZERO,
        forall|i: int| 0 <= i < 64 ==> #[trigger] c2[i] == (if i >= m { cs[i].plus(bs[i - m].times(q)) } else { cs[i] }),
    ensures
        ({ let l2 = if 2 * l <= n { n + 1 - l } else { l }; connects(c2, s, l2, n + 1) && c2[0] == G::ONE }),
{
    let l2 = if 2 * l <= n { n + 1 - l } else { l };
    let t = shifted(bs, m);
    assert(m >= 1 && m + lb <= l2);
    assert forall|i: int| 0 <= i < 64 implies #[trigger] c2[i] == cs[i].plus(t[i].times(q)) by { G::ax(cs[i], q, q); G::ax(q, q, q); }
    assert forall|i: int| l2 < i < 64 implies #[trigger] c2[i] == G::ZERO by {
        assert(cs[i] == G::ZERO);
        assert(t[i] == G::ZERO) by { if i >= m { assert(bs[i - m] == G::ZERO); } }
        G::ax(q, q, q); G::ax(G::ZERO, G::ZERO, G::ZERO);
    }
    G::ax(d, b, b.inv()); G::ax(b, b.inv(), d); G::ax(b.inv(), b, b); times3(d, b.inv(), b); G::ax(d, d, d);
    assert(q.times(b) == d);
    assert forall|j: int| l2 <= j < n + 1 implies #[trigger] conv(c2, s, l2, j) == G::ZERO by {
        conv_linear(cs, t, c2, q, s, l2, j);
        conv_extend(cs, s, l, l2, j);
        conv_shift(bs, s, m, l2, j);
        assert(n0 != -1);
        conv_extend(bs, s, lb, l2 - m, j - m);
        if j < n {
            assert(conv(cs, s, l, j) == G::ZERO);
            assert(conv(bs, s, lb, j - m) == G::ZERO);
            G::ax(q, q, q); G::ax(G::ZERO, G::ZERO, G::ZERO);
        } else {
            assert(j - m == n0);
        }
    }
}

//@fn src/decode.rs poly_add
//@sig
    requires shift <= 64
    ensures forall|i: int| 0 <= i < 64 ==> #[trigger] final(dst)@[i] == (if i >= shift { old(dst)@[i].plus(src@[i - shift].times(c)) } else { old(dst)@[i] }),
//@start
    let ghost d0 = dst@;
    proof {
        G::ops(c, G::ZERO);
        assert forall|i: int| c == G::ZERO && 0 <= i < 64 implies #[trigger] d0[i] == (if i >= shift { d0[i].plus(src@[i - shift].times(c)) } else { d0[i] }) by {
            if i >= shift { G::ax(src@[i - shift], d0[i], d0[i]); G::ax(d0[i], d0[i], d0[i]); }
        }
    }
//@loop 0
    invariant
        0 <= i <= 64,
        forall|k: int| 0 <= k < 64 ==> #[trigger] dst@[k] == (if shift as int <= k < (i as int) + (shift as int) { d0[k].plus(src@[k - shift].times(c)) } else { d0[k] }),
    ensures
        (i as int) + (shift as int) >= 64 || (i as int) == 64,
//@loop 0 begin
    proof {
        any_ops::<G>(); G::ops(src@[i as int], c);
        if (i as int) + (shift as int) < 64 { G::ops(dst@[(i as int) + (shift as int)], src@[i as int].times(c)); }
    }
//@endfn

//@fn src/decode.rs berlekamp_massey
//@ret r
//@sig
    requires n <= 62
    ensures exists|l: int| locator(s@, n as int, r@, l)
//@start
    let ghost nn = n as int;
    let ghost mut lb = 0int; let ghost mut n0 = -1int;
    proof { G::ax(G::ZERO, G::ZERO, G::ZERO); }
//@loop 0
    invariant
        0 <= n <= _hi0, _hi0 == nn, l <= n, connects(cs@, s@, l as int, n as int), cs@[0] == G::ONE,
        aux(bs@, s@, lb, n0, b, l as int, n as int, m as int),
        forall|nu: int, x: Seq<G>, w: Seq<G>| #[trigger] model(s@, nn, nu, x, w) ==> l <= nu,
//@loop 0 begin
    proof { G::ax(s@[n as int], s@[n as int], s@[n as int]); }
    let ghost cs0 = cs@; let ghost l0 = l as int;
//@loop 1
    invariant
        1 <= i <= l + 1, _hi1 == l, n < nn,
        d == conv(cs@, s@, i - 1, n as int),
//@loop 1 begin
    proof { any_ops::<G>(); G::ops(cs@[i as int], s@[n - i]); G::ops(d, cs@[i as int].times(s@[n - i])); }
//@loop 1 after
    proof { any_ops::<G>(); G::ops(d, b); G::ops(d, G::ZERO); assert(d == conv(cs@, s@, l as int, n as int)); }
//@loop 0 end
    proof {
        if d == G::ZERO {
            assert forall|j: int| l <= j < n + 1 implies #[trigger] conv(cs@, s@, l as int, j) == G::ZERO by {}
        } else {
            bm_step(s@, n as int, cs0, l0, old_bs, lb, n0, old_b, old_m, d, mult, cs@);
            if 2 * l0 <= n {
                lb = l0; n0 = n as int;
                assert forall|nu: int, x: Seq<G>, w: Seq<G>| #[trigger] model(s@, nn, nu, x, w) implies l <= nu by {
                    if n - l0 >= nu { all_roots(cs0, s@, nn, nu, x, w, l0, n as int); }
                }
            }
        }
    }
//@after "let mut d" 0
    let ghost old_bs = bs@; let ghost old_b = b; let ghost old_m = m as int;
//@tail
    proof { assert(locator(s@, nn, cs@, l as int)); }
//@endfn
