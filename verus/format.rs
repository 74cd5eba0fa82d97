// ------------------------------------------------------------------ format information
spec fn alpha16() -> GF16 { GF16::GENERATOR }
/// bit j of a word
spec fn wb(w: u16, j: int) -> bool { w & (1u16 << (j as usize)) != 0 }
spec fn fterm(w: u16, i: int, j: int) -> GF16 { if wb(w, j) { pw(alpha16(), ((i + 1) * j) as nat) } else { GF16::ZERO } }
/// sum over j < k of bit j times alpha^((i + 1) j)
spec fn fsyn(w: u16, i: int, k: int) -> GF16 decreases k { if k <= 0 { GF16::ZERO } else { fsyn(w, i, k - 1).plus(fterm(w, i, k - 1)) } }
/// the BCH(15, 5) words of ISO/IEC 18004 annex C: five data bits and the remainder of dividing them, times x^10, by x^10 + x^8 + x^5 + x^4 + x^2 + x + 1
spec fn bch_step(r: u16, top: u16, g: u16) -> u16 { if r & top != 0 { r ^ g } else { r } }
spec fn bch_rem(d: u16) -> u16 {
    let r = d << 10;
    bch_step(bch_step(bch_step(bch_step(bch_step(r, 0x4000, 0x5370), 0x2000, 0x29b8), 0x1000, 0x14dc), 0x800, 0xa6e), 0x400, 0x537)
}
spec fn fvalid(w: u16) -> bool { w < 0x8000 && w == ((w >> 10) << 10) | bch_rem(w >> 10) }
/// positions below k where two words differ
spec fn flocs(r: u16, c: u16, k: int) -> Seq<int> decreases k { if k <= 0 { seq![] } else if wb(r, k - 1) != wb(c, k - 1) { flocs(r, c, k - 1).push(k - 1) } else { flocs(r, c, k - 1) } }
spec fn fdist(r: u16, c: u16) -> nat { flocs(r, c, 15).len() }
spec fn fxs(p: Seq<int>) -> Seq<GF16> { Seq::new(p.len(), |k: int| pw(alpha16(), p[k] as nat)) }

// the syndromes as bit vectors
spec fn unib(a: GF16) -> u16 { (if a.b0 { 1u16 } else { 0 }) | (if a.b1 { 2u16 } else { 0 }) | (if a.b2 { 4u16 } else { 0 }) | (if a.b3 { 8u16 } else { 0 }) }
spec fn antilog4() -> Seq<u16> { seq![1u16, 2, 4, 8, 3, 6, 12, 11, 5, 10, 7, 14, 15, 13, 9] }
spec fn bsyn(w: u16, i: int, k: int) -> u16 decreases k { if k <= 0 { 0 } else { bsyn(w, i, k - 1) ^ (if wb(w, k - 1) { antilog4()[((i + 1) * (k - 1)) % 15] } else { 0 }) } }
proof fn unib_xor(a: GF16, b: GF16) ensures unib(a.plus(b)) == unib(a) ^ unib(b), unib(a) == 0 <==> a == GF16::ZERO
{
    let (a0, a1, a2, a3, b0, b1, b2, b3) = (a.b0, a.b1, a.b2, a.b3, b.b0, b.b1, b.b2, b.b3);
    assert(((if a0 { 1u16 } else { 0 }) | (if a1 { 2u16 } else { 0 }) | (if a2 { 4u16 } else { 0 }) | (if a3 { 8u16 } else { 0 })) ^ ((if b0 { 1u16 } else { 0 }) | (if b1 { 2u16 } else { 0 }) | (if b2 { 4u16 } else { 0 }) | (if b3 { 8u16 } else { 0 }))
        == ((if a0 != b0 { 1u16 } else { 0 }) | (if a1 != b1 { 2u16 } else { 0 }) | (if a2 != b2 { 4u16 } else { 0 }) | (if a3 != b3 { 8u16 } else { 0 }))) by (bit_vector);
    assert((((if a0 { 1u16 } else { 0 }) | (if a1 { 2u16 } else { 0 }) | (if a2 { 4u16 } else { 0 }) | (if a3 { 8u16 } else { 0 })) == 0) == (!a0 && !a1 && !a2 && !a3)) by (bit_vector);
}
spec fn antilogs(k: nat) -> bool decreases k { if k == 0 { true } else { unib(pw4((k - 1) as nat, of_nib(1))) == antilog4()[k - 1] && antilogs((k - 1) as nat) } }
proof fn antilogs_at(k: nat, j: nat) requires antilogs(k), j < k ensures unib(pw4(j, of_nib(1))) == antilog4()[j as int] decreases k { if j < k - 1 { antilogs_at((k - 1) as nat, j); } }
proof fn antilog(k: nat) ensures unib(pw(alpha16(), k)) == antilog4()[(k % 15) as int]
{
    gen_pw_GF16(k);
    let q = k / 15; let r = k % 15;
    xtn_periods::<GF16>(q, r, of_nib(1));
    assert(k == r + q * 15);
    xtn4(r, of_nib(1));
    assert(antilogs(15)) by (compute_only);
    antilogs_at(15, r);
}
proof fn bsyn_is(w: u16, i: int, k: int)
    requires 0 <= i, 0 <= k <= 15
    ensures unib(fsyn(w, i, k)) == bsyn(w, i, k)
    decreases k
{
    if k > 0 {
        bsyn_is(w, i, k - 1);
        unib_xor(fsyn(w, i, k - 1), fterm(w, i, k - 1));
        assert(0 <= (i + 1) * (k - 1)) by (nonlinear_arith) requires 0 <= i, 1 <= k;
        antilog(((i + 1) * (k - 1)) as nat);
        unib_xor(GF16::ZERO, GF16::ZERO);
    } else { unib_xor(GF16::ZERO, GF16::ZERO); }
}

proof fn bsyn_0(w: u16) ensures bsyn(w, 0, 15) == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 14u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 13u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 9u16 } else { 0u16 })
{
    reveal_with_fuel(bsyn, 16);
    assert(1u16 << 0usize == 1u16 && 1u16 << 1usize == 2u16 && 1u16 << 2usize == 4u16 && 1u16 << 3usize == 8u16 && 1u16 << 4usize == 16u16 && 1u16 << 5usize == 32u16 && 1u16 << 6usize == 64u16 && 1u16 << 7usize == 128u16 && 1u16 << 8usize == 256u16 && 1u16 << 9usize == 512u16 && 1u16 << 10usize == 1024u16 && 1u16 << 11usize == 2048u16 && 1u16 << 12usize == 4096u16 && 1u16 << 13usize == 8192u16 && 1u16 << 14usize == 16384u16) by (bit_vector);
    let z = 0u16; assert(forall|x: u16| #![auto] x ^ 0u16 == x && 0u16 ^ x == x) by (bit_vector);
}

proof fn bsyn_1(w: u16) ensures bsyn(w, 1, 15) == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 9u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 14u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 13u16 } else { 0u16 })
{
    reveal_with_fuel(bsyn, 16);
    assert(1u16 << 0usize == 1u16 && 1u16 << 1usize == 2u16 && 1u16 << 2usize == 4u16 && 1u16 << 3usize == 8u16 && 1u16 << 4usize == 16u16 && 1u16 << 5usize == 32u16 && 1u16 << 6usize == 64u16 && 1u16 << 7usize == 128u16 && 1u16 << 8usize == 256u16 && 1u16 << 9usize == 512u16 && 1u16 << 10usize == 1024u16 && 1u16 << 11usize == 2048u16 && 1u16 << 12usize == 4096u16 && 1u16 << 13usize == 8192u16 && 1u16 << 14usize == 16384u16) by (bit_vector);
    let z = 0u16; assert(forall|x: u16| #![auto] x ^ 0u16 == x && 0u16 ^ x == x) by (bit_vector);
}

proof fn bsyn_2(w: u16) ensures bsyn(w, 2, 15) == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 15u16 } else { 0u16 })
{
    reveal_with_fuel(bsyn, 16);
    assert(1u16 << 0usize == 1u16 && 1u16 << 1usize == 2u16 && 1u16 << 2usize == 4u16 && 1u16 << 3usize == 8u16 && 1u16 << 4usize == 16u16 && 1u16 << 5usize == 32u16 && 1u16 << 6usize == 64u16 && 1u16 << 7usize == 128u16 && 1u16 << 8usize == 256u16 && 1u16 << 9usize == 512u16 && 1u16 << 10usize == 1024u16 && 1u16 << 11usize == 2048u16 && 1u16 << 12usize == 4096u16 && 1u16 << 13usize == 8192u16 && 1u16 << 14usize == 16384u16) by (bit_vector);
    let z = 0u16; assert(forall|x: u16| #![auto] x ^ 0u16 == x && 0u16 ^ x == x) by (bit_vector);
}

proof fn bsyn_3(w: u16) ensures bsyn(w, 3, 15) == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 13u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 9u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 14u16 } else { 0u16 })
{
    reveal_with_fuel(bsyn, 16);
    assert(1u16 << 0usize == 1u16 && 1u16 << 1usize == 2u16 && 1u16 << 2usize == 4u16 && 1u16 << 3usize == 8u16 && 1u16 << 4usize == 16u16 && 1u16 << 5usize == 32u16 && 1u16 << 6usize == 64u16 && 1u16 << 7usize == 128u16 && 1u16 << 8usize == 256u16 && 1u16 << 9usize == 512u16 && 1u16 << 10usize == 1024u16 && 1u16 << 11usize == 2048u16 && 1u16 << 12usize == 4096u16 && 1u16 << 13usize == 8192u16 && 1u16 << 14usize == 16384u16) by (bit_vector);
    let z = 0u16; assert(forall|x: u16| #![auto] x ^ 0u16 == x && 0u16 ^ x == x) by (bit_vector);
}

proof fn bsyn_4(w: u16) ensures bsyn(w, 4, 15) == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 7u16 } else { 0u16 })
{
    reveal_with_fuel(bsyn, 16);
    assert(1u16 << 0usize == 1u16 && 1u16 << 1usize == 2u16 && 1u16 << 2usize == 4u16 && 1u16 << 3usize == 8u16 && 1u16 << 4usize == 16u16 && 1u16 << 5usize == 32u16 && 1u16 << 6usize == 64u16 && 1u16 << 7usize == 128u16 && 1u16 << 8usize == 256u16 && 1u16 << 9usize == 512u16 && 1u16 << 10usize == 1024u16 && 1u16 << 11usize == 2048u16 && 1u16 << 12usize == 4096u16 && 1u16 << 13usize == 8192u16 && 1u16 << 14usize == 16384u16) by (bit_vector);
    let z = 0u16; assert(forall|x: u16| #![auto] x ^ 0u16 == x && 0u16 ^ x == x) by (bit_vector);
}

proof fn bsyn_5(w: u16) ensures bsyn(w, 5, 15) == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 10u16 } else { 0u16 })
{
    reveal_with_fuel(bsyn, 16);
    assert(1u16 << 0usize == 1u16 && 1u16 << 1usize == 2u16 && 1u16 << 2usize == 4u16 && 1u16 << 3usize == 8u16 && 1u16 << 4usize == 16u16 && 1u16 << 5usize == 32u16 && 1u16 << 6usize == 64u16 && 1u16 << 7usize == 128u16 && 1u16 << 8usize == 256u16 && 1u16 << 9usize == 512u16 && 1u16 << 10usize == 1024u16 && 1u16 << 11usize == 2048u16 && 1u16 << 12usize == 4096u16 && 1u16 << 13usize == 8192u16 && 1u16 << 14usize == 16384u16) by (bit_vector);
    let z = 0u16; assert(forall|x: u16| #![auto] x ^ 0u16 == x && 0u16 ^ x == x) by (bit_vector);
}

/// dividing leaves no remainder exactly when the syndromes vanish
proof fn division(w: u16, r0: u16, r1: u16, r2: u16, r3: u16, r4: u16, r5: u16, s0: u16, s1: u16, s2: u16, s3: u16, s4: u16, s5: u16)
    requires w < 0x8000, r0 == (w >> 10) << 10,
            r1 == (if r0 & 0x4000 != 0 { r0 ^ 0x5370 } else { r0 }), r2 == (if r1 & 0x2000 != 0 { r1 ^ 0x29b8 } else { r1 }), r3 == (if r2 & 0x1000 != 0 { r2 ^ 0x14dc } else { r2 }),
            r4 == (if r3 & 0x800 != 0 { r3 ^ 0xa6e } else { r3 }), r5 == (if r4 & 0x400 != 0 { r4 ^ 0x537 } else { r4 }),
            s0 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 14u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 13u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 9u16 } else { 0u16 }),
            s1 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 9u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 14u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 13u16 } else { 0u16 }),
            s2 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 15u16 } else { 0u16 }),
            s3 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 13u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 9u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 14u16 } else { 0u16 }),
            s4 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 7u16 } else { 0u16 }),
            s5 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 10u16 } else { 0u16 })
    ensures (w == (r0 | r5)) == (s0 == 0 && s1 == 0 && s2 == 0 && s3 == 0 && s4 == 0 && s5 == 0)
{
    assert((w == (r0 | r5)) == (s0 == 0 && s1 == 0 && s2 == 0 && s3 == 0 && s4 == 0 && s5 == 0)) by (bit_vector)
        requires w < 0x8000, r0 == (w >> 10) << 10,
            r1 == (if r0 & 0x4000 != 0 { r0 ^ 0x5370 } else { r0 }), r2 == (if r1 & 0x2000 != 0 { r1 ^ 0x29b8 } else { r1 }), r3 == (if r2 & 0x1000 != 0 { r2 ^ 0x14dc } else { r2 }),
            r4 == (if r3 & 0x800 != 0 { r3 ^ 0xa6e } else { r3 }), r5 == (if r4 & 0x400 != 0 { r4 ^ 0x537 } else { r4 }),
            s0 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 14u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 13u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 9u16 } else { 0u16 }),
            s1 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 9u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 14u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 13u16 } else { 0u16 }),
            s2 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 15u16 } else { 0u16 }),
            s3 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 3u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 5u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 2u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 13u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 4u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 9u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 11u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 14u16 } else { 0u16 }),
            s4 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 7u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 6u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 7u16 } else { 0u16 }),
            s5 == (if w & 1u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 4u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 32u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 64u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 128u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 256u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 512u16 != 0 { 10u16 } else { 0u16 }) ^ (if w & 1024u16 != 0 { 1u16 } else { 0u16 }) ^ (if w & 2048u16 != 0 { 12u16 } else { 0u16 }) ^ (if w & 4096u16 != 0 { 15u16 } else { 0u16 }) ^ (if w & 8192u16 != 0 { 8u16 } else { 0u16 }) ^ (if w & 16384u16 != 0 { 10u16 } else { 0u16 });
}
proof fn valid_bsyn(w: u16)
    requires w < 0x8000
    ensures fvalid(w) == (bsyn(w, 0, 15) == 0 && bsyn(w, 1, 15) == 0 && bsyn(w, 2, 15) == 0 && bsyn(w, 3, 15) == 0 && bsyn(w, 4, 15) == 0 && bsyn(w, 5, 15) == 0)
{
    hide(bsyn);
    bsyn_0(w); bsyn_1(w); bsyn_2(w); bsyn_3(w); bsyn_4(w); bsyn_5(w);
    let d = w >> 10; let r0 = d << 10;
    let r1 = bch_step(r0, 0x4000, 0x5370); let r2 = bch_step(r1, 0x2000, 0x29b8); let r3 = bch_step(r2, 0x1000, 0x14dc); let r4 = bch_step(r3, 0x800, 0xa6e); let r5 = bch_step(r4, 0x400, 0x537);
    division(w, r0, r1, r2, r3, r4, r5, bsyn(w, 0, 15), bsyn(w, 1, 15), bsyn(w, 2, 15), bsyn(w, 3, 15), bsyn(w, 4, 15), bsyn(w, 5, 15));
}
/// the valid words are those whose syndromes vanish
proof fn valid_syn(w: u16)
    requires w < 0x8000
    ensures fvalid(w) <==> (forall|i: int| 0 <= i < 6 ==> #[trigger] fsyn(w, i, 15) == GF16::ZERO)
{
    hide(bsyn); hide(fsyn); hide(fvalid);
    assert forall|i: int| 0 <= i < 6 implies (#[trigger] fsyn(w, i, 15) == GF16::ZERO) == (bsyn(w, i, 15) == 0) by { bsyn_is(w, i, 15); unib_xor(fsyn(w, i, 15), GF16::ZERO); }
    valid_bsyn(w);
    assert((fsyn(w, 0, 15) == GF16::ZERO) == (bsyn(w, 0, 15) == 0) && (fsyn(w, 1, 15) == GF16::ZERO) == (bsyn(w, 1, 15) == 0) && (fsyn(w, 2, 15) == GF16::ZERO) == (bsyn(w, 2, 15) == 0)
        && (fsyn(w, 3, 15) == GF16::ZERO) == (bsyn(w, 3, 15) == 0) && (fsyn(w, 4, 15) == GF16::ZERO) == (bsyn(w, 4, 15) == 0) && (fsyn(w, 5, 15) == GF16::ZERO) == (bsyn(w, 5, 15) == 0));
}
proof fn flocs_range(r: u16, c: u16, k: int)
    requires 0 <= k <= 15
    ensures
        forall|i: int| 0 <= i < flocs(r, c, k).len() ==> 0 <= #[trigger] flocs(r, c, k)[i] < k && wb(r, flocs(r, c, k)[i]) != wb(c, flocs(r, c, k)[i]),
        forall|a: int, b: int| 0 <= a < b < flocs(r, c, k).len() ==> #[trigger] flocs(r, c, k)[a] < #[trigger] flocs(r, c, k)[b],
        forall|t: int| 0 <= t < k && wb(r, t) != #[trigger] wb(c, t) ==> flocs(r, c, k).contains(t),
    decreases k
{
    if k > 0 {
        flocs_range(r, c, k - 1);
        let p = flocs(r, c, k - 1); let q = flocs(r, c, k);
        assert forall|t: int| 0 <= t < k && wb(r, t) != #[trigger] wb(c, t) implies q.contains(t) by {
            if t == k - 1 { assert(q[q.len() - 1] == t); } else { let i = choose|i: int| 0 <= i < p.len() && p[i] == t; assert(q[i] == t); }
        }
    }
}
proof fn fsyn_errors(r: u16, c: u16, i: int, k: int)
    requires 0 <= k <= 15, 0 <= i
    ensures ({ let x = fxs(flocs(r, c, k)); fsyn(r, i, k) == fsyn(c, i, k).plus(psum(x, x, x.len() as int, i as nat)) })
    decreases k
{
    let p = flocs(r, c, k); let x = fxs(p);
    let f = |t: int| x[t].times(pw(x[t], i as nat));
    if k == 0 {
        GF16::ax(GF16::ZERO, GF16::ZERO, GF16::ZERO);
        assert(sum(f, 0) == GF16::ZERO);
    } else {
        fsyn_errors(r, c, i, k - 1);
        let p0 = flocs(r, c, k - 1); let x0 = fxs(p0);
        let g = |t: int| x0[t].times(pw(x0[t], i as nat));
        let n = p0.len() as int;
        let m = pw(alpha16(), ((i + 1) * (k - 1)) as nat);
        let r0 = fsyn(r, i, k - 1); let s0 = fsyn(c, i, k - 1); let e0 = sum(g, n);
        assert(psum(x0, x0, n, i as nat) == e0) by { sum_congr(g, |t: int| x0[t].times(pw(x0[t], i as nat)), n); }
        GF16::ax(r0, GF16::ZERO, GF16::ZERO); GF16::ax(s0, GF16::ZERO, GF16::ZERO); GF16::ax(e0, GF16::ZERO, GF16::ZERO);
        if wb(r, k - 1) != wb(c, k - 1) {
            assert(p == p0.push(k - 1));
            assert forall|t: int| 0 <= t < n implies #[trigger] f(t) == g(t) by { assert(p[t] == p0[t]); }
            sum_congr(f, g, n);
            assert(p[n] == k - 1);
            pw_mul(alpha16(), (k - 1) as nat, (i + 1) as nat);
            assert(((k - 1) as nat) * ((i + 1) as nat) == ((i + 1) * (k - 1)) as nat) by (nonlinear_arith) requires k >= 1, i >= 0;
            assert(pw(x[n], (i + 1) as nat) == x[n].times(pw(x[n], i as nat)));
            assert(f(n) == m);
            assert(sum(f, n + 1) == sum(f, n).plus(f(n)));
            GF16::ax(s0, e0, m); plus3(s0, m, e0); plus4(s0, m, e0, m); GF16::ax(m, m, m); GF16::ax(s0.plus(e0), m, m); GF16::ax(s0.plus(e0), GF16::ZERO, m);
        } else {
            assert(f == g) by { assert(p =~= p0); }
            plus3(s0, e0, m); plus3(s0, m, e0); GF16::ax(s0, e0, m);
        }
    }
}
/// x and its model of the differences of two words
proof fn fmodel(r: u16, c: u16, s: Seq<GF16>)
    requires fvalid(c), forall|i: int| 0 <= i < 6 ==> #[trigger] s[i] == fsyn(r, i, 15),
    ensures ({ let x = fxs(flocs(r, c, 15)); model(s, 6, x.len() as int, x, x) })
{
    let p = flocs(r, c, 15); let nu = p.len() as int; let x = fxs(p);
    flocs_range(r, c, 15);
    assert forall|a: int| 0 <= a < p.len() implies #[trigger] x[a] != GF16::ZERO by { gen_order_GF16(p[a] as nat, 0); }
    assert forall|a: int, b: int| 0 <= a < b < p.len() implies #[trigger] x[a] != #[trigger] x[b] by { gen_order_GF16(p[a] as nat, p[b] as nat); }
    valid_syn(c);
    assert forall|i: int| 0 <= i < 6 implies #[trigger] s[i] == psum(x, x, nu, i as nat) by {
        fsyn_errors(r, c, i, 15);
        assert(fsyn(c, i, 15) == GF16::ZERO);
        GF16::ax(psum(x, x, nu, i as nat), GF16::ZERO, GF16::ZERO);
    }
}
proof fn fsame(r: u16, c: u16)
    requires r < 0x8000, c < 0x8000, flocs(r, c, 15).len() == 0
    ensures r == c
{
    flocs_range(r, c, 15);
    assert forall|j: int| 0 <= j < 15 implies #[trigger] wb(r, j) == wb(c, j) by { if wb(r, j) != wb(c, j) { assert(flocs(r, c, 15).contains(j)); } }
    same_word(r, c);
}
/// valid words are far from each other
proof fn ffar(r: u16, c: u16)
    requires fvalid(r), fvalid(c), fdist(r, c) <= 3
    ensures r == c
{
    let p = flocs(r, c, 15); let nu = p.len() as int; let x = fxs(p);
    let s = Seq::new(6, |i: int| fsyn(r, i, 15));
    fmodel(r, c, s);
    valid_syn(r);
    assert forall|j: nat| j < nu implies #[trigger] psum(x, x, nu, j) == GF16::ZERO by { assert(s[j as int] == psum(x, x, nu, j)); assert(fsyn(r, j as int, 15) == GF16::ZERO); }
    vandermonde(x, x, nu);
    if nu > 0 { assert(x[0] == GF16::ZERO); }
    fsame(r, c);
}
/// what the decoder finds at bit t
proof fn fposition(r: u16, c: u16, s: Seq<GF16>, sigma: Seq<GF16>, t: int)
    requires
        0 <= t < 15, r < 0x8000, fvalid(c), fdist(r, c) <= 3, !fvalid(r), s.len() == 64, sigma.len() == 64,
        forall|i: int| 0 <= i < 6 ==> #[trigger] s[i] == fsyn(r, i, 15), exists|l: int| locator(s, 6, sigma, l),
    ensures (ev(sigma, 64, pw(alpha16(), (15 - t) as nat)) == GF16::ZERO) == (wb(r, t) != wb(c, t))
{
    let z = pw(alpha16(), (15 - t) as nat); let xx = pw(alpha16(), t as nat);
    pw_add(alpha16(), (15 - t) as nat, t as nat); gen_order_GF16(0, 0);
    assert((15 - t) as nat + t as nat == 15nat);
    let p = flocs(r, c, 15); let nu = p.len() as int; let x = fxs(p);
    flocs_range(r, c, 15);
    if nu == 0 { fsame(r, c); }
    fmodel(r, c, s);
    let l = choose|l: int| locator(s, 6, sigma, l);
    let om = Seq::new(64, |m: int| if m < 5 { conv(sigma, s, m, m + 1) } else { GF16::ZERO });
    forney(sigma, s, 6, l, nu, x, x, om, z, xx);
    if wb(r, t) != wb(c, t) {
        assert(p.contains(t));
        let k = choose|k: int| 0 <= k < p.len() && p[k] == t;
        assert(x[k] == xx);
    } else {
        assert forall|k: int| 0 <= k < nu implies #[trigger] x[k] != xx by { assert(p[k] != t); gen_order_GF16(p[k] as nat, t as nat); }
    }
}
proof fn same_word(r: u16, c: u16)
    requires r < 0x8000, c < 0x8000, forall|j: int| 0 <= j < 15 ==> #[trigger] wb(r, j) == wb(c, j)
    ensures r == c
{
    assert(wb(r, 0) == wb(c, 0) && wb(r, 1) == wb(c, 1) && wb(r, 2) == wb(c, 2) && wb(r, 3) == wb(c, 3) && wb(r, 4) == wb(c, 4) && wb(r, 5) == wb(c, 5) && wb(r, 6) == wb(c, 6) && wb(r, 7) == wb(c, 7)
        && wb(r, 8) == wb(c, 8) && wb(r, 9) == wb(c, 9) && wb(r, 10) == wb(c, 10) && wb(r, 11) == wb(c, 11) && wb(r, 12) == wb(c, 12) && wb(r, 13) == wb(c, 13) && wb(r, 14) == wb(c, 14));
    assert(r == c) by (bit_vector)
        requires r < 0x8000, c < 0x8000,
            (r & (1u16 << 0usize) != 0) == (c & (1u16 << 0usize) != 0), (r & (1u16 << 1usize) != 0) == (c & (1u16 << 1usize) != 0), (r & (1u16 << 2usize) != 0) == (c & (1u16 << 2usize) != 0),
            (r & (1u16 << 3usize) != 0) == (c & (1u16 << 3usize) != 0), (r & (1u16 << 4usize) != 0) == (c & (1u16 << 4usize) != 0), (r & (1u16 << 5usize) != 0) == (c & (1u16 << 5usize) != 0),
            (r & (1u16 << 6usize) != 0) == (c & (1u16 << 6usize) != 0), (r & (1u16 << 7usize) != 0) == (c & (1u16 << 7usize) != 0), (r & (1u16 << 8usize) != 0) == (c & (1u16 << 8usize) != 0),
            (r & (1u16 << 9usize) != 0) == (c & (1u16 << 9usize) != 0), (r & (1u16 << 10usize) != 0) == (c & (1u16 << 10usize) != 0), (r & (1u16 << 11usize) != 0) == (c & (1u16 << 11usize) != 0),
            (r & (1u16 << 12usize) != 0) == (c & (1u16 << 12usize) != 0), (r & (1u16 << 13usize) != 0) == (c & (1u16 << 13usize) != 0), (r & (1u16 << 14usize) != 0) == (c & (1u16 << 14usize) != 0);
}
proof fn flip(w: u16, i: usize)
    requires w < 0x8000, i < 15
    ensures (w ^ (1u16 << i)) < 0x8000, forall|j: int| 0 <= j < 15 ==> #[trigger] wb(w ^ (1u16 << i), j) == (wb(w, j) != (j == i))
{
    assert((w ^ (1u16 << i)) < 0x8000) by (bit_vector) requires w < 0x8000, i < 15;
    assert forall|j: int| 0 <= j < 15 implies #[trigger] wb(w ^ (1u16 << i), j) == (wb(w, j) != (j == i)) by {
        let k = j as usize;
        assert(((w ^ (1u16 << i)) & (1u16 << k) != 0) == ((w & (1u16 << k) != 0) != (k == i))) by (bit_vector) requires i < 15, k < 15;
    }
}

//@fn src/decode.rs format_syndromes
//@sub "GF16\(0\)" "GF16::ZERO"
//@sub "\.0 != 0" " != GF16::ZERO"
//@ret r
//@sig
    requires u < 0x8000
    ensures
        r matches Err(s) ==> forall|i: int| 0 <= i < 6 ==> #[trigger] s@[i] == fsyn(u, i, 15),
        r is Ok <==> fvalid(u)
//@loop 0
    invariant
        0 <= (i as int) <= 6, u < 0x8000, result@.len() == 64,
        forall|j: int| 0 <= j < (i as int) ==> #[trigger] result@[j] == fsyn(u, j, 15),
        forall|j: int| (i as int) <= j < 64 ==> #[trigger] result@[j] == GF16::ZERO,
        nonzero ==> exists|j: int| 0 <= j < (i as int) && #[trigger] result@[j] != GF16::ZERO,
        !nonzero ==> forall|j: int| 0 <= j < (i as int) ==> #[trigger] result@[j] == GF16::ZERO,
//@loop 0 begin
    let ghost s0 = result@;
//@loop 1
    invariant
        0 <= (j as int) <= 15, 0 <= (i as int) < 6, result@.len() == 64, result@[i as int] == fsyn(u, i as int, j as int),
        forall|k: int| #![trigger result@[k]] #![trigger s0[k]] 0 <= k < 64 && k != (i as int) ==> result@[k] == s0[k],
//@loop 1 begin
    proof {
        assert(0 <= ((i as int) + 1) * (j as int) <= 6 * 15) by (nonlinear_arith) requires 0 <= (i as int) < 6, 0 <= (j as int) < 15;
        any_ops::<GF16>(); GF16::ops(result@[i as int], pw(alpha16(), (((i as int) + 1) * (j as int)) as nat));
        GF16::ax(result@[i as int], GF16::ZERO, GF16::ZERO);
    }
//@loop 1 after
    proof {
        GF16::ops(result@[i as int], GF16::ZERO);
        if nonzero { let k = choose|k: int| 0 <= k < (i as int) && #[trigger] s0[k] != GF16::ZERO; assert(result@[k] == s0[k]); }
    }
//@loop 0 end
    proof { if nonzero && result@[i as int] != GF16::ZERO { assert(result@[i as int] != GF16::ZERO); } }
//@loop 0 after
    proof {
        valid_syn(u);
        if nonzero { let j = choose|j: int| 0 <= j < 6 && result@[j] != GF16::ZERO; assert(fsyn(u, j, 15) != GF16::ZERO); }
        else { assert forall|j: int| 0 <= j < 6 implies #[trigger] fsyn(u, j, 15) == GF16::ZERO by { assert(result@[j] == GF16::ZERO); } }
    }
//@endfn

/// what reading a copy may give: a word within three errors of a valid one is read as that, any other as a valid word or not at all
spec fn reads(u: u16, o: Option<u16>) -> bool {
    &&& o matches Some(c) ==> fvalid(c)
    &&& forall|c: u16| fvalid(c) && #[trigger] fdist(u, c) <= 3 ==> o == Some(c)
}
//@fn src/decode.rs correct_format
//@ret r
//@sig
    requires word < 0x8000
    ensures
        r matches Err(e) ==> e == DeQRError::FormatEcc,
        reads(word, match r { Ok(w) => Some(w), Err(_) => None }),
//@start
    let ghost w0 = word;
    proof { assert forall|c: u16| fvalid(w0) && fvalid(c) && #[trigger] fdist(w0, c) <= 3 implies w0 == c by { ffar(w0, c); } }
//@loop 0
    invariant
        0 <= (i as int) <= 15, word < 0x8000,
        forall|j: int| (i as int) <= j < 15 ==> #[trigger] wb(word, j) == wb(w0, j),
        forall|c: u16, j: int| fvalid(c) && #[trigger] fdist(w0, c) <= 3 && 0 <= j < (i as int) ==> #[trigger] wb(word, j) == wb(c, j),
//@loop 0 begin
    proof {
        flip(word, i as usize);
        GF16::ops(ev(sigma@, 64, pw(alpha16(), (15 - i) as nat)), GF16::ZERO);
        assert forall|c: u16| fvalid(c) && #[trigger] fdist(w0, c) <= 3 implies (ev(sigma@, 64, pw(alpha16(), (15 - i) as nat)) == GF16::ZERO) == (wb(w0, i as int) != wb(c, i as int)) by {
            fposition(w0, c, s@, sigma@, i as int);
        }
    }
//@loop 0 after
    proof {
        assert forall|c: u16| fvalid(c) && #[trigger] fdist(w0, c) <= 3 implies word == c by { same_word(word, c); }
    }
//@endfn

// ------------------------------------------------------------------ reading it (ISO/IEC 18004 7.9, figure 25)
impl Version {
    //@fn src/decode.rs Version::from_size
    //@ret r
    //@sig
        ensures r == (if 1 <= (b - 17) / 4 <= 40 { Ok::<Version, DeQRError>(Version(((b - 17) / 4) as usize)) } else { Err(DeQRError::InvalidVersion) })
    //@endfn
    //@fn src/decode.rs Version::to_size
    //@ret r
    //@sig
        requires self.0 <= 40
        ensures r == 4 * self.0 + 17
    //@start
        proof { assert forall|x: usize| x <= 40 implies #[trigger] (x << 2) == 4 * x by { assert(x <= 40 ==> x << 2 == 4 * x) by (bit_vector); } }
    //@endfn
}
/// module of bit b, least significant first: around the top left finder, and the second copy in a symbol of size n
spec fn first_copy(code: &dyn BitGrid) -> spec_fn(int) -> bool {
    |b: int| if b < 6 { code.at(b, 8) } else if b < 8 { code.at(b + 1, 8) } else if b == 8 { code.at(8, 7) } else { code.at(8, 14 - b) }
}
spec fn second_copy(code: &dyn BitGrid) -> spec_fn(int) -> bool {
    |b: int| if b < 8 { code.at(8, code.n() - 1 - b) } else { code.at(code.n() - 15 + b, 8) }
}
/// the number whose bit j is f(i + j)
spec fn word_from(f: spec_fn(int) -> bool, i: int) -> int decreases 15 - i { if i >= 15 { 0 } else { 2 * word_from(f, i + 1) + (if f(i) { 1int } else { 0 }) } }
proof fn word_small(f: spec_fn(int) -> bool, i: int)
    requires 0 <= i <= 15
    ensures 0 <= word_from(f, i), i > 0 ==> word_from(f, i) < 0x4000, word_from(f, i) < 0x8000
{
    reveal_with_fuel(word_from, 16);
}
spec fn unmasked(f: spec_fn(int) -> bool) -> u16 { (word_from(f, 0) as u16) ^ 0x5412 }
spec fn meta_of(v: int, c: u16) -> MetaData { MetaData { version: Version(v as usize), ecc_level: c >> 13, mask: (c >> 10) & 7 } }
/// the result is that of the first readable copy
spec fn second_read(code: &dyn BitGrid, v: int, r: DeQRResult<MetaData>) -> bool {
    exists|o: Option<u16>| #[trigger] reads(unmasked(second_copy(code)), o) && r == (match o { Some(c) => Ok(meta_of(v, c)), None => Err(DeQRError::FormatEcc) })
}
spec fn format_read(code: &dyn BitGrid, r: DeQRResult<MetaData>) -> bool {
    let v = (code.n() - 17) / 4;
    if 1 <= v <= 40 {
        exists|o: Option<u16>| #[trigger] reads(unmasked(first_copy(code)), o) && (match o { Some(c) => r == Ok::<MetaData, DeQRError>(meta_of(v, c)), None => second_read(code, v, r) })
    } else { r == Err::<MetaData, DeQRError>(DeQRError::InvalidVersion) }
}
proof fn shift_in(w: u16)
    requires w < 0x4000
    ensures (w << 1) | 0u16 == 2 * w, (w << 1) | 1u16 == 2 * w + 1
{
    assert(w < 0x4000 ==> (w << 1) | 0u16 == 2 * w && (w << 1) | 1u16 == 2 * w + 1) by (bit_vector);
}

//@fn src/decode.rs read_format
//@ret r
//@sig
    ensures format_read(code, r), r matches Ok(m) ==> m.wf()
//@loop 0
    invariant 0 <= (i as int) <= 15, format == word_from(first_copy(code), i as int),
//@loop 0 begin
    proof { word_small(first_copy(code), i + 1); shift_in(format); }
//@loop 0 after
    proof { word_small(first_copy(code), 0); let f = format; assert(f ^ 0x5412 == unmasked(first_copy(code))); assert(f < 0x8000 ==> f ^ 0x5412 < 0x8000) by (bit_vector); }
//@loop 1
    invariant 0 <= (i as int) <= 7, format == word_from(second_copy(code), 15 - i),
//@loop 1 begin
    proof { word_small(second_copy(code), 15 - i); shift_in(format); }
//@loop 2
    invariant 0 <= (i as int) <= 8, format == word_from(second_copy(code), 8 - i),
//@loop 2 begin
    proof { word_small(second_copy(code), 8 - i); shift_in(format); }
//@loop 2 after
    proof { word_small(second_copy(code), 0); let f = format; assert(f ^ 0x5412 == unmasked(second_copy(code))); assert(f < 0x8000 ==> f ^ 0x5412 < 0x8000) by (bit_vector); }
//@tail
    proof {
        let c = verified_format;
        assert(c < 0x8000 ==> (c >> 10) >> 3 == c >> 13 && c >> 13 < 4 && (c >> 10) & 7 < 8) by (bit_vector);
    }
//@endfn
