// ------------------------------------------------------------------ blocks and interleaving (ISO/IEC 18004 7.5.1, 7.6)
/// data codewords of block i: n - t % n short blocks first, then the long ones
spec fn short_len(v: int, l: int) -> int { iso_total(v) / iso_nb(v, l) - iso_ecc(v, l) }
spec fn nshort(v: int, l: int) -> int { iso_nb(v, l) - iso_total(v) % iso_nb(v, l) }
spec fn block_len(v: int, l: int, i: int) -> int { short_len(v, l) + (if i < nshort(v, l) { 0int } else { 1 }) }
/// total data capacity in codewords
spec fn iso_capacity(v: int, l: int) -> int { iso_total(v) - iso_ecc(v, l) * iso_nb(v, l) }
/// where codeword j of block i lies among the raw codewords
spec fn raw_pos(v: int, l: int, i: int, j: int) -> int {
    if j < short_len(v, l) { j * iso_nb(v, l) + i }
    else if j < block_len(v, l, i) { short_len(v, l) * iso_nb(v, l) + i - nshort(v, l) }
    else { iso_capacity(v, l) + (j - block_len(v, l, i)) * iso_nb(v, l) + i }
}
spec fn raw_block(raw: Seq<u8>, v: int, l: int, i: int) -> Seq<u8> { Seq::new((block_len(v, l, i) + iso_ecc(v, l)) as nat, |j: int| raw[raw_pos(v, l, i, j)]) }
/// where the data of block i begin in the data stream
spec fn data_start(v: int, l: int, i: int) -> int { short_len(v, l) * i + (if i <= nshort(v, l) { 0 } else { i - nshort(v, l) }) }
/// the data of block i are c's
spec fn block_out(out: Seq<u8>, v: int, l: int, i: int, c: Seq<u8>) -> bool {
    forall|j: int| 0 <= j < block_len(v, l, i) ==> out[data_start(v, l, i) + j] == #[trigger] c[j]
}
/// the data of block i are those of a codeword
spec fn accepted(out: Seq<u8>, v: int, l: int, i: int) -> bool {
    exists|c: Seq<u8>| c.len() == block_len(v, l, i) + iso_ecc(v, l) && codeword(c, iso_ecc(v, l)) && #[trigger] block_out(out, v, l, i, c)
}
spec fn all_fixable(raw: Seq<u8>, v: int, l: int, cs: Seq<Seq<u8>>) -> bool {
    cs.len() == iso_nb(v, l) && forall|i: int| 0 <= i < cs.len() ==> fixable(raw_block(raw, v, l, i), #[trigger] cs[i], iso_ecc(v, l))
}
proof fn mul_bound(j: int, n: int, i: int, k: int)
    requires 0 <= i < n, 0 <= j < k
    ensures 0 <= j * n + i < k * n
{
    assert(0 <= j * n) by (nonlinear_arith) requires 0 <= j, 0 <= n;
    assert(j * n + n <= k * n) by (nonlinear_arith) requires j + 1 <= k, 0 <= n;
}
/// arithmetic of the block structure
proof fn structure(v: int, l: int)
    requires 1 <= v <= 40, 0 <= l < 4
    ensures ({
        let t = iso_total(v); let n = iso_nb(v, l); let e = iso_ecc(v, l); let d = short_len(v, l); let q = t / n; let m = t % n;
        let p = VERSION_DATA_BASE@[v].ecc@[l];
        &&& 0 < n <= 81 && 0 < e <= 30 && 0 < d && q == d + e < 255 && 0 <= m < n && t == q * n + m && t <= 3706
        &&& p.bs == q && p.dw == d && p.ns == n - m && VERSION_DATA_BASE@[v].data_bytes == t
        &&& nshort(v, l) == n - m && iso_capacity(v, l) == d * n + m
        &&& q * (n - m) == t - (q + 1) * m && ((q + 1) * m) / (q + 1) == m && q * n <= 3706 && d * n <= 3706 && 0 <= q * (n - m) <= t
    })
{
    ecc_row(v, l);
    let t = iso_total(v); let n = iso_nb(v, l); let e = iso_ecc(v, l); let q = t / n; let m = t % n; let d = q - e;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(t, n);
    assert(n * q == q * n) by (nonlinear_arith);
    assert(d * n == q * n - e * n) by (nonlinear_arith) requires d == q - e;
    assert(q * (n - m) == q * n - q * m) by (nonlinear_arith);
    assert((q + 1) * m == q * m + m) by (nonlinear_arith);
    assert(0 <= e * n) by (nonlinear_arith) requires 0 <= e, 0 <= n;
    assert(0 <= q * (n - m)) by (nonlinear_arith) requires 0 <= q, 0 <= n - m;
    assert(0 <= q * m) by (nonlinear_arith) requires 0 <= q, 0 <= m;
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(m, q + 1);
}

proof fn positions(v: int, l: int, i: int)
    requires 1 <= v <= 40, 0 <= l < 4, 0 <= i < iso_nb(v, l)
    ensures
        forall|j: int| 0 <= j < short_len(v, l) ==> #[trigger] raw_pos(v, l, i, j) == j * iso_nb(v, l) + i,
        i >= nshort(v, l) ==> raw_pos(v, l, i, short_len(v, l)) == short_len(v, l) * iso_nb(v, l) + i - nshort(v, l),
        forall|j: int| block_len(v, l, i) <= j < block_len(v, l, i) + iso_ecc(v, l) ==> #[trigger] raw_pos(v, l, i, j) == iso_capacity(v, l) + (j - block_len(v, l, i)) * iso_nb(v, l) + i,
{
}
proof fn keep(out0: Seq<u8>, out1: Seq<u8>, v: int, l: int, i: int, k: int, c: Seq<u8>)
    requires 1 <= v <= 40, 0 <= l < 4, 0 <= k < i < iso_nb(v, l), block_out(out0, v, l, k, c), forall|q: int| 0 <= q < data_start(v, l, i) ==> #[trigger] out1[q] == out0[q]
    ensures block_out(out1, v, l, k, c)
{
    structure(v, l);
    let d = short_len(v, l);
    assert forall|j: int| 0 <= j < block_len(v, l, k) implies out1[data_start(v, l, k) + j] == #[trigger] c[j] by {
        assert(d * k + d <= d * i) by (nonlinear_arith) requires k + 1 <= i, 0 <= d;
        assert(0 <= d * k) by (nonlinear_arith) requires 0 <= k, 0 <= d;
        assert(data_start(v, l, k) + j < data_start(v, l, i as int));
    }
}
proof fn block_is(out: Seq<u8>, v: int, l: int, i: int, c: Seq<u8>)
    requires c == out.subrange(data_start(v, l, i), data_start(v, l, i) + block_len(v, l, i) + iso_ecc(v, l)), c.len() == block_len(v, l, i) + iso_ecc(v, l), 0 <= iso_ecc(v, l), 0 <= data_start(v, l, i), data_start(v, l, i) + c.len() <= out.len()
    ensures block_out(out, v, l, i, c)
{ }
proof fn accept(out: Seq<u8>, v: int, l: int, i: int, c: Seq<u8>)
    requires c.len() == block_len(v, l, i) + iso_ecc(v, l), codeword(c, iso_ecc(v, l)), block_out(out, v, l, i, c)
    ensures accepted(out, v, l, i)
{ }

/// what correcting the raw bits may give
spec fn corrected(meta: MetaData, raw: RawData, r: DeQRResult<CorrectedDataStream>) -> bool {
    let v = meta.version.0 as int; let l = meta.ecc_level as int;
    &&& r matches Err(x) ==> x == DeQRError::DataEcc
    &&& r matches Ok(out) ==> out.ptr == 0 && out.bit_len == 8 * iso_capacity(v, l) <= 8 * MAX_PAYLOAD_SIZE && forall|i: int| 0 <= i < iso_nb(v, l) ==> #[trigger] accepted(out.data@, v, l, i)
    &&& forall|cs: Seq<Seq<u8>>| #[trigger] all_fixable(raw.data@, v, l, cs) ==> (r matches Ok(out) && forall|i: int| 0 <= i < cs.len() ==> block_out(out.data@, v, l, i, #[trigger] cs[i]))
}
//@fn src/decode.rs codestream_ecc
//@ret r
//@sig
    requires meta.wf()
    ensures corrected(*meta, ds, r)
//@start
    hide(codeword); hide(fixable); hide(iso_nb); hide(iso_ecc); hide(iso_total); hide(raw_pos); hide(block_out); hide(short_len); hide(nshort); hide(iso_capacity); hide(accepted);
    let ghost v = meta.version.0 as int; let ghost l = meta.ecc_level as int; let ghost n = iso_nb(v, l); let ghost e = iso_ecc(v, l);
    let ghost d = short_len(v, l); let ghost m = iso_total(v) % n; let ghost raw = ds.data@; let ghost mut got: Seq<Seq<u8>> = seq![];
    proof { structure(v, l); }
//@loop 0
    invariant
        0 <= i <= n, got.len() == i, dst_offset == data_start(v, l, i as int),
        forall|k: int| 0 <= k < i ==> (#[trigger] got[k]).len() == block_len(v, l, k) + e && codeword(got[k], e) && block_out(out.data@, v, l, k, got[k]),
        forall|cs: Seq<Seq<u8>>, k: int| #[trigger] all_fixable(raw, v, l, cs) && 0 <= k < i ==> #[trigger] got[k] == cs[k],
        out.ptr == 0,
//@loop 0 begin
    let ghost out0 = out.data@;
    proof {
        positions(v, l, i as int);
        assert(0 <= d * i) by (nonlinear_arith) requires 0 <= d, 0 <= i;
        assert(d * (i + 1) == d * i + d) by (nonlinear_arith);
        assert(d * i <= d * n) by (nonlinear_arith) requires 0 <= d, i <= n;
    }
//@loop 1
    invariant 0 <= j <= d, dst@.len() == ecc.bs, forall|k: int| 0 <= k < j ==> dst@[k] == raw[raw_pos(v, l, i as int, k)],
//@loop 1 begin
    proof { mul_bound(j as int, n, i as int, d); assert(bc == n); assert(j * bc == j * n); assert(j * bc + i < d * n); }
//@loop 2
    invariant 0 <= j <= num_ec, dst@.len() == ecc.bs, forall|k: int| 0 <= k < ecc.dw + j ==> dst@[k] == raw[raw_pos(v, l, i as int, k)],
//@loop 2 begin
    proof { mul_bound(j as int, n, i as int, e); assert(bc == n); assert(j * bc == j * n); assert(num_ec == e); assert(ecc_offset == d * n + m); assert(e * n + d * n + m == iso_total(v)) by { assert((d + e) * n == d * n + e * n) by (nonlinear_arith); }  assert(ecc_offset + j * bc + i < iso_total(v)); }
//@loop 2 after
    proof {
        assert(dst@.take(ecc.bs as int) =~= dst@);
        assert(dst@ =~= raw_block(raw, v, l, i as int));
        assert forall|cs: Seq<Seq<u8>>| #[trigger] all_fixable(raw, v, l, cs) implies fixable(dst@.take(ecc.bs as int), cs[i as int], ecc.bs - ecc.dw) by {
            assert(fixable(raw_block(raw, v, l, i as int), cs[i as int], e));
        }
    }
//@after "correct_block" 0
    proof {
        let c = out.data@.subrange(dst_offset as int, dst_offset + ecc.bs);
        assert(c.take(ecc.bs as int) =~= c);
        block_is(out.data@, v, l, i as int, c);
        assert forall|k: int| 0 <= k < i implies block_out(out.data@, v, l, k, #[trigger] got[k]) by {
            keep(out0, out.data@, v, l, i as int, k, got[k]);
        }
        got = got.push(c);
    }
//@loop 0 after
    proof {
        assert forall|k: int| 0 <= k < n implies #[trigger] accepted(out.data@, v, l, k) by { accept(out.data@, v, l, k, got[k]); }
        assert forall|cs: Seq<Seq<u8>>, k: int| #[trigger] all_fixable(raw, v, l, cs) && 0 <= k < cs.len() implies block_out(out.data@, v, l, k, #[trigger] cs[k]) by { assert(got[k] == cs[k]); }
    }
//@endfn
