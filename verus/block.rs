// ------------------------------------------------------------------ Reed-Solomon blocks
spec fn alpha() -> GF256 { GF256::GENERATOR }
/// sum over t < k of b[n - 1 - t] alpha^(j t)
spec fn syn(b: Seq<u8>, j: nat, k: int) -> GF256
    decreases k
{
    if k <= 0 { GF256::ZERO } else { syn(b, j, k - 1).plus(GF256(b[b.len() - k]).times(pw(alpha(), j * ((k - 1) as nat)))) }
}
/// b is a codeword: all npar syndromes vanish
spec fn codeword(b: Seq<u8>, npar: int) -> bool { forall|j: int| 0 <= j < npar ==> #[trigger] syn(b, j as nat, b.len() as int) == GF256::ZERO }
/// positions (from the end) below k where r and c differ
spec fn locs(r: Seq<u8>, c: Seq<u8>, k: int) -> Seq<int>
    decreases k
{
    if k <= 0 { seq![] } else if r[r.len() - k] != c[c.len() - k] { locs(r, c, k - 1).push(k - 1) } else { locs(r, c, k - 1) }
}
spec fn distance(r: Seq<u8>, c: Seq<u8>) -> nat { locs(r, c, r.len() as int).len() }
/// c is a codeword the block r can be corrected to
spec fn fixable(r: Seq<u8>, c: Seq<u8>, npar: int) -> bool { c.len() == r.len() && codeword(c, npar) && 2 * distance(r, c) <= npar }
spec fn exs(p: Seq<int>) -> Seq<GF256> { Seq::new(p.len(), |k: int| pw(alpha(), p[k] as nat)) }
spec fn ews(r: Seq<u8>, c: Seq<u8>, p: Seq<int>) -> Seq<GF256> { Seq::new(p.len(), |k: int| GF256(r[r.len() - 1 - p[k]]).plus(GF256(c[c.len() - 1 - p[k]]))) }

proof fn locs_range(r: Seq<u8>, c: Seq<u8>, k: int)
    requires 0 <= k <= r.len(), r.len() == c.len()
    ensures
        forall|i: int| 0 <= i < locs(r, c, k).len() ==> 0 <= #[trigger] locs(r, c, k)[i] < k && r[r.len() - 1 - locs(r, c, k)[i]] != c[r.len() - 1 - locs(r, c, k)[i]],
        forall|a: int, b: int| 0 <= a < b < locs(r, c, k).len() ==> #[trigger] locs(r, c, k)[a] < #[trigger] locs(r, c, k)[b],
        forall|t: int| 0 <= t < k && r[r.len() - 1 - t] != #[trigger] c[r.len() - 1 - t] ==> locs(r, c, k).contains(t),
    decreases k
{
    if k > 0 {
        locs_range(r, c, k - 1);
        let p = locs(r, c, k - 1); let q = locs(r, c, k);
        assert forall|t: int| 0 <= t < k && r[r.len() - 1 - t] != #[trigger] c[r.len() - 1 - t] implies q.contains(t) by {
            if t == k - 1 { assert(q[q.len() - 1] == t); } else { let i = choose|i: int| 0 <= i < p.len() && p[i] == t; assert(q[i] == t); }
        }
    }
}
/// the syndromes of the received block are sums of powers over the errors
proof fn syn_errors(r: Seq<u8>, c: Seq<u8>, j: nat, k: int)
    requires 0 <= k <= r.len(), r.len() == c.len()
    ensures ({ let p = locs(r, c, k); syn(r, j, k) == syn(c, j, k).plus(psum(ews(r, c, p), exs(p), p.len() as int, j)) })
    decreases k
{
    let p = locs(r, c, k);
    let f = |i: int| ews(r, c, p)[i].times(pw(exs(p)[i], j));
    if k == 0 {
        GF256::ax(GF256::ZERO, GF256::ZERO, GF256::ZERO);
        assert(sum(f, 0) == GF256::ZERO);
    } else {
        syn_errors(r, c, j, k - 1);
        let p0 = locs(r, c, k - 1);
        let g = |i: int| ews(r, c, p0)[i].times(pw(exs(p0)[i], j));
        let n = p0.len() as int;
        let a = GF256(r[r.len() - k]); let b = GF256(c[c.len() - k]); let m = pw(alpha(), j * ((k - 1) as nat));
        let s0 = syn(c, j, k - 1); let e0 = sum(g, n);
        assert(psum(ews(r, c, p0), exs(p0), n, j) == e0) by { sum_congr(g, |i: int| ews(r, c, p0)[i].times(pw(exs(p0)[i], j)), n); }
        if r[r.len() - k] != c[c.len() - k] {
            assert(p == p0.push(k - 1));
            assert forall|i: int| 0 <= i < n implies #[trigger] f(i) == g(i) by { assert(p[i] == p0[i]); }
            sum_congr(f, g, n);
            assert(p[n] == k - 1);
            pw_mul(alpha(), (k - 1) as nat, j);
            assert(((k - 1) as nat) * j == j * ((k - 1) as nat)) by (nonlinear_arith);
            assert(f(n) == a.plus(b).times(m));
            assert(sum(f, n + 1) == sum(f, n).plus(f(n)));
            // (s0 + e0) + a m = (s0 + b m) + (e0 + (a + b) m)
            GF256::ax(a, b, m);
            plus4(s0, b.times(m), e0, a.times(m).plus(b.times(m)));
            GF256::ax(a.times(m), b.times(m), b.times(m)); plus_cancel(a.times(m), b.times(m)); GF256::ax(b.times(m), a.times(m), b.times(m)); plus3(b.times(m), a.times(m), b.times(m));
            GF256::ax(b.times(m), b.times(m), a.times(m)); GF256::ax(a.times(m), a.times(m), a.times(m));
            assert(b.times(m).plus(a.times(m).plus(b.times(m))) == a.times(m));
        } else {
            assert(f == g) by { assert(p =~= p0); }
            plus3(s0, e0, a.times(m));
        }
    }
}
proof fn errors_model(r: Seq<u8>, c: Seq<u8>, npar: int, s: Seq<GF256>)
    requires r.len() == c.len(), r.len() <= 255, codeword(c, npar), forall|j: int| 0 <= j < npar ==> #[trigger] s[j] == syn(r, j as nat, r.len() as int)
    ensures ({ let p = locs(r, c, r.len() as int); model(s, npar, p.len() as int, exs(p), ews(r, c, p)) })
{
    let n = r.len() as int; let p = locs(r, c, n);
    locs_range(r, c, n);
    let x = exs(p); let w = ews(r, c, p);
    assert forall|a: int| 0 <= a < p.len() implies #[trigger] x[a] != GF256::ZERO by { gen_order_GF256(p[a] as nat, 0); }
    assert forall|a: int, b: int| 0 <= a < b < p.len() implies #[trigger] x[a] != #[trigger] x[b] by { gen_order_GF256(p[a] as nat, p[b] as nat); }
    assert forall|k: int| 0 <= k < p.len() implies #[trigger] w[k] != GF256::ZERO by {
        plus_eq_zero(GF256(r[n - 1 - p[k]]), GF256(c[n - 1 - p[k]]));
    }
    assert forall|j: int| 0 <= j < npar implies #[trigger] s[j] == psum(w, x, p.len() as int, j as nat) by {
        syn_errors(r, c, j as nat, n);
        assert(syn(c, j as nat, n) == GF256::ZERO);
        GF256::ax(psum(w, x, p.len() as int, j as nat), GF256::ZERO, GF256::ZERO);
    }
}
/// a correctable block with vanishing syndromes is the codeword
proof fn no_errors(r: Seq<u8>, c: Seq<u8>, npar: int)
    requires r.len() <= 255, fixable(r, c, npar), codeword(r, npar)
    ensures r == c
{
    let n = r.len() as int; let p = locs(r, c, n); let nu = p.len() as int;
    let s = Seq::new(npar as nat, |j: int| syn(r, j as nat, n));
    errors_model(r, c, npar, s);
    let x = exs(p); let w = ews(r, c, p);
    assert forall|j: nat| j < nu implies #[trigger] psum(w, x, nu, j) == GF256::ZERO by { assert(s[j as int] == psum(w, x, nu, j)); assert(syn(r, j, n) == GF256::ZERO) by { assert(syn(r, (j as int) as nat, n) == GF256::ZERO); } }
    vandermonde(w, x, nu);
    if nu > 0 { assert(w[0] == GF256::ZERO); }
    locs_range(r, c, n);
    assert forall|i: int| 0 <= i < n implies r[i] == c[i] by {
        if r[i] != c[i] { let t = n - 1 - i; assert(c[n - 1 - t] == c[i]); assert(p.contains(t)); }
    }
    assert(r =~= c);
}
/// what the decoder finds at position t from the end
proof fn position(r: Seq<u8>, c: Seq<u8>, npar: int, s: Seq<GF256>, sigma: Seq<GF256>, om: Seq<GF256>, t: int)
    requires
        0 <= t < r.len() <= 255, 0 < npar <= 62, fixable(r, c, npar), !codeword(r, npar), s.len() == 64, sigma.len() == 64,
        forall|j: int| 0 <= j < npar ==> #[trigger] s[j] == syn(r, j as nat, r.len() as int),
        exists|l: int| locator(s, npar, sigma, l), is_omega(om, sigma, s, npar - 1),
    ensures ({
        let z = pw(alpha(), (255 - t) as nat); let xx = pw(alpha(), t as nat); let n = r.len() as int;
        &&& z.times(xx) == GF256::ONE
        &&& r[n - 1 - t] == c[n - 1 - t] ==> ev(sigma, 64, z) != GF256::ZERO
        &&& r[n - 1 - t] != c[n - 1 - t] ==> ev(sigma, 64, z) == GF256::ZERO && odd(sigma, 64, z) != GF256::ZERO
            && ev(om, 64, z) == GF256(r[n - 1 - t]).plus(GF256(c[n - 1 - t])).times(xx).times(odd(sigma, 64, z))
    })
{
    let z = pw(alpha(), (255 - t) as nat); let xx = pw(alpha(), t as nat); let n = r.len() as int;
    pw_add(alpha(), (255 - t) as nat, t as nat); gen_order_GF256(0, 0);
    assert((255 - t) as nat + t as nat == 255nat);
    let p = locs(r, c, n); let nu = p.len() as int; let x = exs(p); let w = ews(r, c, p);
    errors_model(r, c, npar, s);
    locs_range(r, c, n);
    if nu == 0 {
        assert forall|i: int| 0 <= i < n implies r[i] == c[i] by { if r[i] != c[i] { let u = n - 1 - i; assert(c[n - 1 - u] == c[i]); assert(p.contains(u)); } }
        assert(r =~= c);
        assert(false);
    }
    let l = choose|l: int| locator(s, npar, sigma, l);
    forney(sigma, s, npar, l, nu, x, w, om, z, xx);
    if r[n - 1 - t] != c[n - 1 - t] {
        assert(p.contains(t));
        let k = choose|k: int| 0 <= k < p.len() && p[k] == t;
        assert(x[k] == xx);
    } else {
        assert forall|k: int| 0 <= k < nu implies #[trigger] x[k] != xx by { assert(p[k] != t); gen_order_GF256(p[k] as nat, t as nat); }
    }
}
/// the derivative
spec fn is_deriv(d: Seq<GF256>, c: Seq<GF256>) -> bool { d.len() == 64 && c.len() == 64 && forall|k: int| 0 <= k < 64 ==> #[trigger] d[k] == (if k % 2 == 0 { c[k + 1] } else { GF256::ZERO }) }
proof fn deriv_ev(d: Seq<GF256>, c: Seq<GF256>, n: int, z: GF256)
    requires is_deriv(d, c), 0 <= n <= 63
    ensures z.times(ev(d, n, z)) == odd(c, n + 1, z)
    decreases n
{
    if n == 0 { GF256::ax(z, z, z); assert(odd(c, 1, z) == odd(c, 0, z)); }
    else {
        deriv_ev(d, c, n - 1, z);
        let p = pw(z, (n - 1) as nat);
        GF256::ax(z, ev(d, n - 1, z), d[n - 1].times(p));
        times3(z, d[n - 1], p); times3(d[n - 1], z, p);
        assert(pw(z, n as nat) == z.times(p));
        GF256::ax(pw(z, n as nat), odd(c, n, z), z); GF256::ax(odd(c, n, z), z, z);
    }
}

//@fn src/decode.rs eloc_poly
//@ret r
//@sig
    requires npar < 62
    ensures is_omega(r@, sigma@, s@, npar as int)
//@loop 0
    invariant
        0 <= i <= npar, npar < 62, omega@.len() == 64,
        forall|m: int| 0 <= m < npar ==> #[trigger] omega@[m] == (if i == 0 { GF256::ZERO } else { conv(sigma@, s@, if m < i { m } else { i - 1 }, m + 1) }),
        forall|m: int| npar <= m < 64 ==> #[trigger] omega@[m] == GF256::ZERO,
//@loop 0 begin
    let ghost om0 = omega@;
//@loop 1
    invariant
        0 <= j <= npar - i, 0 <= i < npar < 62, omega@.len() == 64, a == sigma@[i as int],
        forall|m: int| 0 <= m < npar ==> #[trigger] omega@[m] == (if i <= m < i + j { om0[m].plus(a.times(s@[m + 1 - i])) } else { om0[m] }),
        forall|m: int| npar <= m < 64 ==> #[trigger] omega@[m] == GF256::ZERO,
//@loop 1 begin
    proof { any_ops::<GF256>(); GF256::ops(a, s@[j + 1]); GF256::ops(omega@[i + j], a.times(s@[j + 1])); }
//@loop 1 after
    proof {
        assert forall|m: int| 0 <= m < npar implies #[trigger] omega@[m] == conv(sigma@, s@, if m < i + 1 { m } else { i as int }, m + 1) by {
            if m >= i && i == 0 { GF256::ax(a.times(s@[m + 1]), a, a); }
        }
    }
//@endfn

//@fn src/decode.rs block_syndromes
//@ret r
//@sig
    requires npar <= 62, block.len() <= 255
    ensures
        r matches Err(s) ==> forall|j: int| 0 <= j < npar ==> #[trigger] s@[j] == syn(block@, j as nat, block@.len() as int),
        r matches Ok(s) ==> forall|j: int| 0 <= j < npar ==> #[trigger] s@[j] == syn(block@, j as nat, block@.len() as int),
        r is Ok <==> codeword(block@, npar as int)
//@loop 0
    invariant
        0 <= i <= npar, npar <= 62, block.len() <= 255,
        forall|j: int| 0 <= j < i ==> #[trigger] s@[j] == syn(block@, j as nat, block@.len() as int),
        forall|j: int| i <= j < 64 ==> #[trigger] s@[j] == GF256::ZERO,
        nonzero ==> exists|j: int| 0 <= j < i && #[trigger] s@[j] != GF256::ZERO,
        !nonzero ==> forall|j: int| 0 <= j < i ==> #[trigger] s@[j] == GF256::ZERO,
//@loop 0 begin
    let ghost s0 = s@;
//@loop 1
    invariant
        0 <= j <= block.len() <= 255, 0 <= i < npar <= 62, s@[i as int] == syn(block@, i as nat, j as int),
        forall|k: int| #![trigger s@[k]] #![trigger s0[k]] 0 <= k < 64 && k != i ==> s@[k] == s0[k],
        forall|k: int| 0 <= k < i ==> #[trigger] s@[k] == syn(block@, k as nat, block@.len() as int),
        forall|k: int| i < k < 64 ==> #[trigger] s@[k] == GF256::ZERO,
//@loop 1 begin
    proof {
        assert(0 <= i * j < 62 * 255) by (nonlinear_arith) requires 0 <= i < 62, 0 <= j < 255;
        let cc = GF256(block@[block.len() - 1 - j]); let m = pw(alpha(), (i * j) as nat);
        any_ops::<GF256>(); GF256::ops(cc, m); GF256::ops(s@[i as int], cc.times(m));
    }
//@loop 1 after
    proof {
        GF256::ops(s@[i as int], GF256::ZERO);
        if nonzero { let k = choose|k: int| 0 <= k < i && #[trigger] s0[k] != GF256::ZERO; assert(s@[k] == s0[k]); }
    }
//@loop 0 end
    proof { if nonzero && s@[i as int] != GF256::ZERO { assert(s@[i as int] != GF256::ZERO); } }
//@loop 0 after
    proof {
        if nonzero { let j = choose|j: int| 0 <= j < npar && s@[j] != GF256::ZERO; assert(syn(block@, j as nat, block@.len() as int) != GF256::ZERO); }
        else { assert forall|j: int| 0 <= j < npar implies #[trigger] syn(block@, j as nat, block@.len() as int) == GF256::ZERO by { assert(s@[j] == GF256::ZERO); } }
    }
//@endfn

//@fn src/decode.rs correct_block
//@ret r
//@sig
    requires 0 < ecc.dw < ecc.bs <= 255, ecc.bs - ecc.dw <= 62, ecc.bs <= old(block).len()
    ensures
        final(block).len() == old(block).len(),
        forall|i: int| ecc.bs <= i < old(block).len() ==> final(block)@[i] == old(block)@[i],
        r is Ok ==> codeword(final(block)@.take(ecc.bs as int), ecc.bs - ecc.dw),
        r matches Err(e) ==> e == DeQRError::DataEcc,
        forall|c: Seq<u8>| #[trigger] fixable(old(block)@.take(ecc.bs as int), c, ecc.bs - ecc.dw) ==> r is Ok && final(block)@.take(ecc.bs as int) == c,
//@start
    let ghost r0 = block@.take(ecc.bs as int); let ghost b0 = block@; let ghost n = ecc.bs as int; let ghost np = ecc.bs - ecc.dw;
    proof {
        assert forall|c: Seq<u8>| codeword(r0, np) && #[trigger] fixable(r0, c, np) implies r0 == c by { no_errors(r0, c, np); }
    }
//@before "berlekamp_massey" 0
    proof {
        assert(block@.take(n) == r0); assert(block@.subrange(0, n) =~= r0); assert(!codeword(r0, np));
        assert forall|j: int| 0 <= j < np implies #[trigger] s@[j] == syn(r0, j as nat, r0.len() as int) by {}
    }
//@loop 0
    invariant
        1 <= i <= 65, i % 2 == 1, sigma_deriv@.len() == 64,
        forall|k: int| 0 <= k < 64 ==> #[trigger] sigma_deriv@[k] == (if k % 2 == 0 && k + 1 < i { sigma@[k + 1] } else { GF256::ZERO }),
//@loop 1 before
    proof { assert(is_deriv(sigma_deriv@, sigma@)); assert(is_omega(omega@, sigma@, s@, np - 1)); }
//@loop 1
    invariant
        0 <= i <= ecc.bs, block@.len() == b0.len(),
        forall|k: int| n <= k < b0.len() ==> #[trigger] block@[k] == b0[k],
        forall|k: int| 0 <= k < n - i ==> #[trigger] block@[k] == b0[k],
        forall|c: Seq<u8>, k: int| #[trigger] fixable(r0, c, np) && n - i <= k < n ==> #[trigger] block@[k] == c[k],
//@loop 1 begin
    let ghost before = block@;
    proof {
        let z = pw(alpha(), (255 - i) as nat);
        assert(before[n - 1 - i] == r0[n - 1 - i]);
        assert(sigma_deriv@[63] == GF256::ZERO);
        deriv_ev(sigma_deriv@, sigma@, 63, z);
        ev_extend(sigma_deriv@, 63, 64, z);
        let sd = ev(sigma_deriv@, 64, z); let ox = ev(omega@, 64, z); let q = ox.over(sd);
        any_ops::<GF256>();
        GF256::ax(z, z, z);
        GF256::ops(ev(sigma@, 64, z), GF256::ZERO); GF256::ops(sd, GF256::ZERO); GF256::ops(ox, sd); GF256::ops(GF256(r0[n - 1 - i]), q);
        assert forall|c: Seq<u8>| #[trigger] fixable(r0, c, np) && sd != GF256::ZERO && ev(sigma@, 64, z) == GF256::ZERO implies GF256(r0[n - 1 - i]).plus(q) == GF256(c[n - 1 - i]) by {
            position(r0, c, np, s@, sigma@, omega@, i as int);
            fix_value(GF256(r0[n - 1 - i]), GF256(c[n - 1 - i]), z, pw(alpha(), i as nat), sd, ox);
        }
        assert forall|c: Seq<u8>| #[trigger] fixable(r0, c, np) implies (ev(sigma@, 64, z) == GF256::ZERO ==> sd != GF256::ZERO) && (ev(sigma@, 64, z) != GF256::ZERO ==> r0[n - 1 - i] == c[n - 1 - i]) by {
            position(r0, c, np, s@, sigma@, omega@, i as int);
        }
    }
//@loop 1 after
    proof {
        assert forall|c: Seq<u8>| #[trigger] fixable(r0, c, np) implies block@.take(n) == c by {
            assert forall|k: int| 0 <= k < n implies #[trigger] block@.take(n)[k] == c[k] by { assert(block@[k] == c[k]); }
            assert(block@.take(n) =~= c);
        }
    }
//@endfn
/// r + omega / sigma' is the right value
proof fn fix_value(r: GF256, c: GF256, z: GF256, xx: GF256, sd: GF256, ox: GF256)
    requires z.times(xx) == GF256::ONE, sd != GF256::ZERO, ox == r.plus(c).times(xx).times(z.times(sd))
    ensures r.plus(ox.over(sd)) == c
{
    let e = r.plus(c);
    times4(e, xx, z, sd); GF256::ax(xx, z, sd); GF256::ax(e, xx, z.times(sd)); GF256::ax(e, sd, sd); GF256::ax(z, xx, sd);
    times3(xx, z, sd); GF256::ax(sd, sd, sd);
    assert(xx.times(z.times(sd)) == sd);
    assert(ox == e.times(sd));
    GF256::ax(ox, sd, sd); GF256::ax(e, sd, sd.inv()); GF256::ax(sd, sd.inv(), e); GF256::ax(e, e, e);
    assert(ox.over(sd) == e);
    GF256::ax(r, r, c); GF256::ax(c, r, r);
}
