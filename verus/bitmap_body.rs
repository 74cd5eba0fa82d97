impl PreparedImage<BasicImageBuffer> {
    //@fn src/prepare.rs PreparedImage::prepare_from_bitmap
    //@sub "\b(\w+)\s*\.into\(\)" "u8_of(\1)"
    //@sub "let mut (\w+) = Vec::" "let mut \1: Vec<u8> = Vec::"
    //@ret r
    //@sig
        requires w * h <= usize::MAX, forall|x: usize, y: usize| x < w && y < h ==> call_requires(fill, (x, y))
        ensures r.buffer.w() == w, r.buffer.h() == h, forall|x: usize, y: usize| x < w && y < h ==> call_ensures(fill, (x, y), #[trigger] r.buffer.px(x as int, y as int) == 1) && r.buffer.px(x as int, y as int) < 2,
            r.cache.wf(), r.cache.room() == 251, r.cache.order().len() == 0, r.cache.map() == Map::<u8, ColoredRegion>::empty()
    //@start
        let ghost wi = w as int; let ghost hi = h as int; let ghost f0 = fill;
    //@loop 0
        invariant
            fill == f0,             0 <= y <= hi, pixels@.len() == y * wi, forall|i: int| 0 <= i < pixels@.len() ==> #[trigger] pixels@[i] < 2,
            forall|v: usize, u: usize| v < y && u < w ==> call_ensures(fill, (u, v), #[trigger] pixels@[v * wi + u] == 1),
    //@loop 0 end
        proof { assert(y * wi + wi == (y + 1) * wi) by (nonlinear_arith); }
    //@loop 1
        invariant
            fill == f0,             0 <= y < hi, 0 <= x <= wi, pixels@.len() == y * wi + x, forall|i: int| 0 <= i < pixels@.len() ==> #[trigger] pixels@[i] < 2,
            forall|v: usize, u: usize| u < w && (v < y || (v == y && u < x)) ==> call_ensures(fill, (u, v), #[trigger] pixels@[v * wi + u] == 1),
    //@loop 1 begin
        let ghost s0 = pixels@;
    //@loop 1 end
        proof {
            let s1 = pixels@;
            assert forall|v: usize, u: usize| u < w && (v < y || (v == y && u < x + 1)) implies call_ensures(fill, (u, v), #[trigger] s1[v * wi + u] == 1) by {
                px_index(wi, hi, v as int, u as int);
                if v < y || u < x { row_earlier(wi, y as int, x as int, v as int, u as int); assert(s1[v * wi + u] == s0[v * wi + u]); }
            }
        }
    //@loop 0 after
        proof { assert(wi * hi == hi * wi) by (nonlinear_arith); }
    //@before "PreparedImage::without_preparation" 0
        proof {
            assert forall|x: int, y: int| 0 <= x < buffer.w() && 0 <= y < buffer.h() implies #[trigger] buffer.px(x, y) < 2 by { px_index(wi, hi, y, x); }
        }
    //@endfn
}
