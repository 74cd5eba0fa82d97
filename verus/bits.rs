// ------------------------------------------------------------------ bit strings
spec fn bit_at(d: Seq<u8>, i: int) -> int { (d[i / 8] as int / pow2i(7 - i % 8)) % 2 }

spec fn pow2i(n: int) -> int {
    if n == 0 { 1 } else if n == 1 { 2 } else if n == 2 { 4 } else if n == 3 { 8 } else if n == 4 { 16 }
    else if n == 5 { 32 } else if n == 6 { 64 } else { 128 }
}

/// value of the n bits starting at p, most significant first
spec fn bits(d: Seq<u8>, p: int, n: nat) -> nat
    decreases n
{
    if n == 0 { 0 } else { 2 * bits(d, p, (n - 1) as nat) + bit_at(d, p + n - 1) as nat }
}

spec fn p2(n: nat) -> nat decreases n { if n == 0 { 1 } else { 2 * p2((n - 1) as nat) } }

proof fn bits_bound(d: Seq<u8>, p: int, n: nat)
    requires p >= 0
    ensures bits(d, p, n) < p2(n)
    decreases n
{
    if n > 0 { bits_bound(d, p, (n - 1) as nat); }
}

proof fn p2_vals()
    ensures p2(4) == 16, p2(6) == 64, p2(7) == 128, p2(8) == 256, p2(9) == 512, p2(10) == 1024, p2(11) == 2048, p2(12) == 4096,
        p2(13) == 8192, p2(14) == 16384, p2(16) == 65536
{
    reveal_with_fuel(p2, 17);
}

proof fn bit_mask(b: u8, k: usize)
    requires k < 8
    ensures (0 != (b << k) & 0x80) == ((b as int / pow2i(7 - k as int)) % 2 == 1)
{
    if k == 0 { assert((0 != (b << 0usize) & 0x80) == ((b / 128) % 2 == 1)) by (bit_vector); }
    else if k == 1 { assert((0 != (b << 1usize) & 0x80) == ((b / 64) % 2 == 1)) by (bit_vector); }
    else if k == 2 { assert((0 != (b << 2usize) & 0x80) == ((b / 32) % 2 == 1)) by (bit_vector); }
    else if k == 3 { assert((0 != (b << 3usize) & 0x80) == ((b / 16) % 2 == 1)) by (bit_vector); }
    else if k == 4 { assert((0 != (b << 4usize) & 0x80) == ((b / 8) % 2 == 1)) by (bit_vector); }
    else if k == 5 { assert((0 != (b << 5usize) & 0x80) == ((b / 4) % 2 == 1)) by (bit_vector); }
    else if k == 6 { assert((0 != (b << 6usize) & 0x80) == ((b / 2) % 2 == 1)) by (bit_vector); }
    else { assert((0 != (b << 7usize) & 0x80) == (b % 2 == 1)) by (bit_vector); }
}


proof fn bit_shr(b: u8, j: usize)
    requires j < 8
    ensures (b as int / pow2i(7 - j as int)) % 2 == ((b >> ((7 - j) as u8)) & 1) as int
{
    assert((b >> 7u8) & 1 == (b / 128) % 2 && (b >> 6u8) & 1 == (b / 64) % 2 && (b >> 5u8) & 1 == (b / 32) % 2 && (b >> 4u8) & 1 == (b / 16) % 2) by (bit_vector);
    assert((b >> 3u8) & 1 == (b / 8) % 2 && (b >> 2u8) & 1 == (b / 4) % 2 && (b >> 1u8) & 1 == (b / 2) % 2 && (b >> 0u8) & 1 == b % 2) by (bit_vector);
}

/// other ways to read bit k (from the top)
proof fn bit_forms(b: u8, k: usize)
    requires k < 8
    ensures
        ((b >> ((7 - k) as u8)) & 1) as int == (b as int / pow2i(7 - k as int)) % 2,
        (0 != b & (0x80u8 >> k)) == ((b as int / pow2i(7 - k as int)) % 2 == 1),
        (0 != b & (1u8 << ((7 - k) as u8))) == ((b as int / pow2i(7 - k as int)) % 2 == 1),
        ((b << k) >> 7u8) as int == (b as int / pow2i(7 - k as int)) % 2,
        ((b << k) >= 128) == ((b as int / pow2i(7 - k as int)) % 2 == 1),
{
    bit_shr(b, k);
    let j = (7 - k) as u8; let c = k as u8;
    assert(c < 8 && j == 7 - c ==> (0 != b & (0x80u8 >> c)) == ((b >> j) & 1 == 1)) by (bit_vector);
    assert(j < 8 ==> (0 != b & (1u8 << j)) == ((b >> j) & 1 == 1)) by (bit_vector);
    assert(c < 8 && j == 7 - c ==> ((b << c) >> 7u8) == ((b >> j) & 1)) by (bit_vector);
    assert(c < 8 && j == 7 - c ==> ((b << c) >= 128) == ((b >> j) & 1 == 1)) by (bit_vector);
}

/// setting bit k (from the top) of a byte
proof fn bit_or(b: u8, k: u8, j: usize)
    requires k < 8, j < 8
    ensures ((b | (0x80_u8 >> k)) as int / pow2i(7 - j as int)) % 2 == (if j == k { 1 } else { (b as int / pow2i(7 - j as int)) % 2 })
{
    bit_shr(b, j); bit_shr(b | (0x80_u8 >> k), j);
    let m = (7 - j) as u8; let n = (7 - k) as u8;
    assert(k < 8 && m < 8 ==> ((b | (0x80_u8 >> k)) >> m) & 1 == (if m == 7 - k { 1u8 } else { (b >> m) & 1 })) by (bit_vector);
}
