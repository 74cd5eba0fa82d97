// ------------------------------------------------------------------ grids from functions
pub assume_specification [usize::div_ceil] (a: usize, b: usize) -> (r: usize) requires b != 0 ensures r == (a + b - 1) / (b as int);
/// bit i of a packed bit field
spec fn bit_at(s: Seq<u8>, i: int) -> bool { s[i / 8] & (1u8 << ((i % 8) as u8)) != 0 }
proof fn set_bit(b: u8, k: u8, j: u8) requires k < 8, j < 8 ensures ((b | (1u8 << k)) & (1u8 << j) != 0) == (j == k || b & (1u8 << j) != 0)
{ assert(k < 8 && j < 8 ==> ((b | (1u8 << k)) & (1u8 << j) != 0) == (j == k || b & (1u8 << j) != 0)) by (bit_vector); }
proof fn split(c: usize) ensures c >> 3 == c / 8, c & 7 == c % 8, (c & 7) < 8
{ assert(c >> 3 == c / 8 && c & 7 == c % 8 && (c & 7) < 8) by (bit_vector); }
/// other ways to take a bit out of a byte or to set one
proof fn bit_forms()
    ensures
        forall|b: u8, k: u8| k < 8 ==> (#[trigger] (b >> k) & 1 == 1) == (b & (1u8 << k) != 0),
        forall|b: u8, k: usize| k < 8 ==> (#[trigger] (b >> k) & 1 == 1) == (b & (1u8 << (k as u8)) != 0),
        forall|k: usize| k < 8 ==> #[trigger] (1u8 << k) == 1u8 << (k as u8),
        forall|b: u8| #[trigger] (b & 1) == 0 || b & 1 == 1,
        forall|c: usize| #[trigger] (c >> 3) == c / 8, forall|c: usize| #[trigger] (c & 7) == c % 8,
{
    assert forall|b: u8, k: u8| k < 8 implies (#[trigger] (b >> k) & 1 == 1) == (b & (1u8 << k) != 0) by { assert(k < 8 ==> ((b >> k) & 1 == 1) == (b & (1u8 << k) != 0)) by (bit_vector); }
    assert forall|b: u8, k: usize| k < 8 implies (#[trigger] (b >> k) & 1 == 1) == (b & (1u8 << (k as u8)) != 0) by { assert(k < 8 ==> ((b >> k) & 1 == 1) == (b & (1u8 << (k as u8)) != 0)) by (bit_vector); }
    assert forall|k: usize| k < 8 implies #[trigger] (1u8 << k) == 1u8 << (k as u8) by { assert(k < 8 ==> (1u8 << k) == 1u8 << (k as u8)) by (bit_vector); }
    assert forall|b: u8| #[trigger] (b & 1) == 0 || b & 1 == 1 by { assert(b & 1 == 0 || b & 1 == 1) by (bit_vector); }
    assert forall|c: usize| #[trigger] (c >> 3) == c / 8 by { assert(c >> 3 == c / 8) by (bit_vector); }
    assert forall|c: usize| #[trigger] (c & 7) == c % 8 by { assert(c & 7 == c % 8) by (bit_vector); }
}
proof fn cell_index(n: int, y: int, x: int) requires 0 <= y < n, 0 <= x < n ensures 0 <= y * n + x < n * n, y * n + n == (y + 1) * n, y * n >= 0
{
    assert(y * n + n == (y + 1) * n) by (nonlinear_arith);
    assert((y + 1) * n <= n * n) by (nonlinear_arith) requires y + 1 <= n, n >= 0;
    assert(y * n >= 0) by (nonlinear_arith) requires y >= 0, n >= 0;
}
/// cells before (y, x) in reading order have smaller indices
proof fn earlier(n: int, y: int, x: int, v: int, u: int) requires 0 <= u < n, 0 <= x <= n, 0 <= v, v < y || (v == y && u < x) ensures v * n + u < y * n + x
{ if v < y { assert((v + 1) * n <= y * n) by (nonlinear_arith) requires v + 1 <= y, n >= 0; assert((v + 1) * n == v * n + n) by (nonlinear_arith); } }
proof fn no_bits(s: Seq<u8>, n: int) requires n <= s.len() * 8, forall|i: int| 0 <= i < s.len() ==> s[i] == 0 ensures forall|i: int| 0 <= i < n ==> !(#[trigger] bit_at(s, i))
{
    assert forall|i: int| 0 <= i < n implies !(#[trigger] bit_at(s, i)) by { let k = (i % 8) as u8; assert(0u8 & (1u8 << k) == 0) by (bit_vector); }
}
//@item src/lib.rs struct SimpleGrid
impl SimpleGrid {
    #[verifier::type_invariant]
    spec fn packed(self) -> bool { self.size * self.size <= usize::MAX && self.cell_bitmap@.len() * 8 >= self.size * self.size }
    //@fn src/lib.rs SimpleGrid::from_func
    //@ret r
    //@sig
        requires size * size <= usize::MAX, forall|x: usize, y: usize| x < size && y < size ==> fill_func.requires((x, y))
        ensures r.n() == size, forall|x: usize, y: usize| x < size && y < size ==> fill_func.ensures((x, y), #[trigger] r.at(y as int, x as int))
    //@start
        let ghost n = size as int;
        proof { bit_forms(); }
        proof { assert(n * n >= 0) by (nonlinear_arith); }
    //@loop 0 before
        proof { assert(n * n <= cell_bitmap@.len() * 8); no_bits(cell_bitmap@, n * n); }
    //@loop 0
        invariant
            c == y * n, //?c<y
            0 <= y <= n, n * n <= cell_bitmap@.len() * 8, n == size, n * n <= usize::MAX,
            forall|x: usize, y: usize| x < size && y < size ==> fill_func.requires((x, y)),
            forall|v: usize, u: usize| v < y && u < n ==> fill_func.ensures((u, v), #[trigger] bit_at(cell_bitmap@, v * n + u)),
            forall|i: int| y * n <= i < n * n ==> !(#[trigger] bit_at(cell_bitmap@, i)),
    //@loop 0 end
        proof { assert(y * n + n == (y + 1) * n) by (nonlinear_arith); }
    //@loop 1
        invariant
            c == y * n + x, //?c<y
            0 <= y < n, 0 <= x <= n, n * n <= cell_bitmap@.len() * 8, n == size, n * n <= usize::MAX,
            forall|x: usize, y: usize| x < size && y < size ==> fill_func.requires((x, y)),
            forall|v: usize, u: usize| u < n && (v < y || (v == y && u < x)) ==> fill_func.ensures((u, v), #[trigger] bit_at(cell_bitmap@, v * n + u)),
            forall|i: int| y * n + x <= i < n * n ==> !(#[trigger] bit_at(cell_bitmap@, i)),
    //@loop 1 begin
        let ghost s0 = cell_bitmap@; let ghost ci = y * n + x;
        proof { cell_index(n, y as int, x as int); split((y * n + x) as usize); bit_forms(); }
    //@loop 1 end
        proof {
            let s1 = cell_bitmap@;
            assert forall|i: int| 0 <= i < n * n && i != ci implies #[trigger] bit_at(s1, i) == bit_at(s0, i) by {
                set_bit(s0[ci / 8], (ci % 8) as u8, (i % 8) as u8);
                if i / 8 == ci / 8 { assert(i % 8 != ci % 8); }
            }
            set_bit(s0[ci / 8], (ci % 8) as u8, (ci % 8) as u8);
            assert forall|v: usize, u: usize| u < n && (v < y || (v == y && u < x + 1)) implies fill_func.ensures((u, v), #[trigger] bit_at(s1, v * n + u)) by {
                cell_index(n, v as int, u as int);
                if v < y || u < x { earlier(n, y as int, x as int, v as int, u as int); assert(fill_func.ensures((u, v), bit_at(s0, v * n + u))); }
                else { assert(v * n + u == ci); }
            }
        }
    //@endfn
}
impl BitGrid for SimpleGrid {
    spec fn n(&self) -> nat { self.size as nat }
    spec fn at(&self, y: int, x: int) -> bool { bit_at(self.cell_bitmap@, y * self.size + x) }
    //@fn src/lib.rs SimpleGrid::size
    //@endfn
    //@fn src/lib.rs SimpleGrid::bit
    //@start
        proof { use_type_invariant(self); cell_index(self.size as int, y as int, x as int); split((y * self.size + x) as usize); bit_forms(); }
    //@endfn
}
