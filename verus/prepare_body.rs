// ------------------------------------------------------------------ binarisation
pub assume_specification<T: Clone> [<[T]>::fill] (s: &mut [T], v: T) ensures final(s)@.len() == old(s)@.len(), forall|i: int| 0 <= i < old(s)@.len() ==> #[trigger] final(s)@[i] == v;
/// window of the averages
spec fn window(w: int) -> int { if w / 8 > 1 { w / 8 } else { 1 } }
/// columns visited in step x of line y by the two averages; they change direction from line to line
spec fn v_col(w: int, y: int, x: int) -> int { if y % 2 == 0 { w - 1 - x } else { x } }
spec fn u_col(w: int, y: int, x: int) -> int { if y % 2 == 0 { x } else { w - 1 - x } }
spec fn decay(a: int, s: int, p: int) -> int { a * (s - 1) / s + p }
/// the averages after x pixels of line y, carried over from line to line
spec fn v_avg<S: ImageBuffer>(b: S, y: int, x: int) -> int decreases y, x {
    if x > 0 { decay(v_avg(b, y, x - 1), window(b.w() as int), b.px(v_col(b.w() as int, y, x - 1), y) as int) } else if y > 0 { v_avg(b, y - 1, b.w() as int) } else { 0 }
}
spec fn u_avg<S: ImageBuffer>(b: S, y: int, x: int) -> int decreases y, x {
    if x > 0 { decay(u_avg(b, y, x - 1), window(b.w() as int), b.px(u_col(b.w() as int, y, x - 1), y) as int) } else if y > 0 { u_avg(b, y - 1, b.w() as int) } else { 0 }
}
/// sum of the two averages at column i of line y (each at the moment it passes there)
spec fn v_at<S: ImageBuffer>(b: S, y: int, i: int) -> int { v_avg(b, y, v_col(b.w() as int, y, i) + 1) }
spec fn u_at<S: ImageBuffer>(b: S, y: int, i: int) -> int { u_avg(b, y, u_col(b.w() as int, y, i) + 1) }
spec fn is_dark<S: ImageBuffer>(b: S, x: int, y: int) -> bool { b.px(x, y) < (v_at(b, y, x) + u_at(b, y, x)) * 95 / (200 * window(b.w() as int)) }
proof fn decay_bound(a: int, s: int, p: int) requires 1 <= s <= 0x1000_0000, 0 <= a <= 255 * s, 0 <= p <= 255 ensures 0 <= a * (s - 1) <= 0xff00_0000_0000_0000, 0 <= decay(a, s, p) <= 255 * s, 0 <= a * (s - 1) / s <= 255 * (s - 1)
{
    assert(0 <= a * (s - 1)) by (nonlinear_arith) requires a >= 0, s >= 1;
    assert(a * (s - 1) <= (255 * s) * (s - 1)) by (nonlinear_arith) requires a <= 255 * s, s >= 1;
    assert((255 * s) * (s - 1) == (255 * (s - 1)) * s) by (nonlinear_arith);
    assert((255 * (s - 1)) * s <= (255 * 0x1000_0000) * 0x1000_0000) by (nonlinear_arith) requires 1 <= s <= 0x1000_0000;
    vstd::arithmetic::div_mod::lemma_div_is_ordered(a * (s - 1), (255 * (s - 1)) * s, s);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(255 * (s - 1), s);
    assert((255 * (s - 1)) * s == s * (255 * (s - 1))) by (nonlinear_arith);
    assert(0 <= a * (s - 1) / s) by { vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a * (s - 1), s); }
}
proof fn avg_bound<S: ImageBuffer>(b: S, y: int, x: int) requires b.w() <= 0x8000_0000 ensures 0 <= v_avg(b, y, x) <= 255 * window(b.w() as int), 0 <= u_avg(b, y, x) <= 255 * window(b.w() as int) decreases y, x
{
    let w = b.w() as int; let s = window(w);
    if x > 0 { avg_bound(b, y, x - 1); decay_bound(v_avg(b, y, x - 1), s, b.px(v_col(w, y, x - 1), y) as int); decay_bound(u_avg(b, y, x - 1), s, b.px(u_col(w, y, x - 1), y) as int); }
    else if y > 0 { avg_bound(b, y - 1, w); }
}
spec fn part(c: bool, a: int) -> int { if c { a } else { 0 } }
/// b1 is b binarised up to (excluding) column x of line y
spec fn binarised<S: ImageBuffer>(b: S, b1: S, y: int, x: int) -> bool {
    &&& b1.w() == b.w() && b1.h() == b.h()
    &&& forall|i: int, j: int| 0 <= i < b.w() && 0 <= j < b.h() ==> #[trigger] b1.px(i, j) == (if j < y || (j == y && i < x) { if is_dark(b, i, j) { 1u8 } else { 0u8 } } else { b.px(i, j) })
}
impl<S> PreparedImage<S> where S: ImageBuffer {
    //@fn src/prepare.rs PreparedImage::prepare
    //@sub "\b(\w+)\s*\.into\(\)" "u8_of(\1)"
    //@ret r
    //@sig
        requires buf.w() <= 0x8000_0000
        ensures binarised(buf, r.buffer, buf.h() as int, 0), r.cache.wf(), r.cache.room() == 251, r.cache.order().len() == 0, r.cache.map() == Map::<u8, ColoredRegion>::empty()
    //@start
        let ghost b0 = buf; let ghost wi = buf.w() as int; let ghost hi = buf.h() as int; let ghost s = window(wi);
    //@loop 0
        invariant
            0 <= y <= hi, w == wi, h == hi, wi == b0.w(), hi == b0.h(), wi <= 0x8000_0000, s == window(wi), threshold_s == s, row_average@.len() == wi, binarised(b0, buf, y as int, 0),
            avg_v == v_avg(b0, y as int, 0), avg_u == u_avg(b0, y as int, 0), 0 <= avg_v <= 255 * s, 0 <= avg_u <= 255 * s,
    //@loop 1
        invariant
            0 <= y < hi, 0 <= x <= wi, w == wi, h == hi, wi == b0.w(), hi == b0.h(), wi <= 0x8000_0000, s == window(wi), threshold_s == s, row_average@.len() == wi, binarised(b0, buf, y as int, 0),
            avg_v == v_avg(b0, y as int, x as int), avg_u == u_avg(b0, y as int, x as int), 0 <= avg_v <= 255 * s, 0 <= avg_u <= 255 * s,
            forall|i: int| 0 <= i < wi ==> #[trigger] row_average@[i] == part(v_col(wi, y as int, i) < x, v_at(b0, y as int, i)) + part(u_col(wi, y as int, i) < x, u_at(b0, y as int, i)),
            forall|i: int| 0 <= i < wi ==> #[trigger] row_average@[i] <= 510 * s,
    //@loop 1 begin
        proof { assert(y & 1 == y % 2) by (bit_vector); assert(0 <= v_col(wi, y as int, x as int) < wi && 0 <= u_col(wi, y as int, x as int) < wi);
            decay_bound(avg_v as int, s, b0.px(v_col(wi, y as int, x as int), y as int) as int); decay_bound(avg_u as int, s, b0.px(u_col(wi, y as int, x as int), y as int) as int); }
    //@loop 1 end
        proof {
            assert forall|i: int| 0 <= i < wi implies #[trigger] row_average@[i] <= 510 * s by { avg_bound(b0, y as int, v_col(wi, y as int, i) + 1); avg_bound(b0, y as int, u_col(wi, y as int, i) + 1); }
        }
    //@loop 2
        invariant
            0 <= y < hi, 0 <= x <= wi, w == wi, h == hi, wi == b0.w(), hi == b0.h(), wi <= 0x8000_0000, s == window(wi), threshold_s == s, row_average@.len() == wi, binarised(b0, buf, y as int, x as int),
            avg_v == v_avg(b0, y + 1, 0), avg_u == u_avg(b0, y + 1, 0), 0 <= avg_v <= 255 * s, 0 <= avg_u <= 255 * s,
            forall|i: int| 0 <= i < wi ==> #[trigger] row_average@[i] == v_at(b0, y as int, i) + u_at(b0, y as int, i),
            forall|i: int| 0 <= i < wi ==> #[trigger] row_average@[i] <= 510 * s,
    //@endfn
}
impl PreparedImage<BasicImageBuffer> {
    //@fn src/prepare.rs PreparedImage::prepare_from_greyscale
    //@sub "let mut (\w+) = Vec::" "let mut \1: Vec<u8> = Vec::"
    //@ret r
    //@sig
        requires w * h <= usize::MAX, w <= 0x8000_0000, forall|x: usize, y: usize| x < w && y < h ==> call_requires(fill, (x, y))
        ensures exists|b: BasicImageBuffer| shows(b, w, h, fill) && #[trigger] binarised(b, r.buffer, h as int, 0),
            r.cache.wf(), r.cache.room() == 251, r.cache.order().len() == 0, r.cache.map() == Map::<u8, ColoredRegion>::empty()
    //@start
        let ghost wi = w as int; let ghost hi = h as int; let ghost f0 = fill;
    //@loop 0
        invariant
            fill == f0, 0 <= y <= hi, data@.len() == y * wi,
            forall|v: usize, u: usize| v < y && u < w ==> call_ensures(fill, (u, v), #[trigger] data@[v * wi + u]),
    //@loop 0 end
        proof { assert(y * wi + wi == (y + 1) * wi) by (nonlinear_arith); }
    //@loop 1
        invariant
            fill == f0, 0 <= y < hi, 0 <= x <= wi, data@.len() == y * wi + x,
            forall|v: usize, u: usize| u < w && (v < y || (v == y && u < x)) ==> call_ensures(fill, (u, v), #[trigger] data@[v * wi + u]),
    //@loop 1 begin
        let ghost s0 = data@;
    //@loop 1 end
        proof {
            let s1 = data@;
            assert forall|v: usize, u: usize| u < w && (v < y || (v == y && u < x + 1)) implies call_ensures(fill, (u, v), #[trigger] s1[v * wi + u]) by {
                px_index(wi, hi, v as int, u as int);
                if v < y || u < x { row_earlier(wi, y as int, x as int, v as int, u as int); assert(s1[v * wi + u] == s0[v * wi + u]); }
            }
        }
    //@loop 0 after
        proof { assert(wi * hi == hi * wi) by (nonlinear_arith); }
    //@before "PreparedImage::prepare(" 0
        proof { assert(shows(buffer, w, h, f0)); }
    //@endfn
}
/// the pixels of b are values of the function
spec fn shows<F: FnMut(usize, usize) -> u8>(b: BasicImageBuffer, w: usize, h: usize, f: F) -> bool {
    b.w() == w && b.h() == h && forall|x: usize, y: usize| x < w && y < h ==> call_ensures(f, (x, y), #[trigger] b.px(x as int, y as int))
}
