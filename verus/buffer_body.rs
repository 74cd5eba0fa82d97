// ------------------------------------------------------------------ the image buffer of the crate
pub assume_specification<T, A> [std::vec::Vec::<T, A>::into_boxed_slice] (v: std::vec::Vec<T, A>) -> (r: std::boxed::Box<[T], A>) where A: std::alloc::Allocator ensures r@ == v@;
proof fn px_index(w: int, h: int, y: int, x: int) requires 0 <= y < h, 0 <= x < w ensures 0 <= y * w + x < w * h, y * w >= 0, y * w + w == (y + 1) * w
{
    assert(y * w + w == (y + 1) * w) by (nonlinear_arith);
    assert((y + 1) * w <= h * w) by (nonlinear_arith) requires y + 1 <= h, w >= 0;
    assert(h * w == w * h) by (nonlinear_arith);
    assert(y * w >= 0) by (nonlinear_arith) requires y >= 0, w >= 0;
}
proof fn px_unique(w: int, y: int, x: int, v: int, u: int) requires 0 <= x < w, 0 <= u < w, y * w + x == v * w + u ensures x == u, y == v
{
    if y < v { assert((y + 1) * w <= v * w) by (nonlinear_arith) requires y + 1 <= v, w >= 0; assert((y + 1) * w == y * w + w) by (nonlinear_arith); }
    if v < y { assert((v + 1) * w <= y * w) by (nonlinear_arith) requires v + 1 <= y, w >= 0; assert((v + 1) * w == v * w + w) by (nonlinear_arith); }
}
//@item src/prepare.rs struct BasicImageBuffer
impl BasicImageBuffer {
    #[verifier::type_invariant]
    spec fn sized(self) -> bool { self.pixels@.len() == self.w * self.h && self.w * self.h <= usize::MAX }
}
impl ImageBuffer for BasicImageBuffer {
    spec fn w(&self) -> nat { self.w as nat }
    spec fn h(&self) -> nat { self.h as nat }
    spec fn px(&self, x: int, y: int) -> u8 { self.pixels@[y * self.w + x] }
    //@fn src/prepare.rs BasicImageBuffer::width
    //@endfn
    //@fn src/prepare.rs BasicImageBuffer::height
    //@endfn
    //@fn src/prepare.rs BasicImageBuffer::get_pixel
    //@start
        proof { use_type_invariant(self); px_index(self.w as int, self.h as int, y as int, x as int); }
    //@endfn
    //@fn src/prepare.rs BasicImageBuffer::set_pixel
    //@start
        let ghost p0 = self.pixels@; let ghost wi = self.w as int; let ghost hi = self.h as int;
        proof { use_type_invariant(&*self); px_index(wi, hi, y as int, x as int); }
    //@end
        proof {
            assert forall|i: int, j: int| 0 <= i < wi && 0 <= j < hi implies #[trigger] self.px(i, j) == (if i == x && j == y { val } else { p0[j * wi + i] }) by {
                px_index(wi, hi, j, i);
                if j * wi + i == y * wi + x { px_unique(wi, j, i, y as int, x as int); }
            }
        }
    //@endfn
}
impl<S> PreparedImage<S> where S: ImageBuffer {
    //@fn src/prepare.rs PreparedImage::get_pixel_at
    //@ret r
    //@sig
        requires x < self.buffer.w(), y < self.buffer.h()
        ensures r == color_of(self.buffer.px(x as int, y as int))
    //@endfn
    //@fn src/prepare.rs PreparedImage::without_preparation
    //@ret r
    //@sig
        requires forall|x: int, y: int| 0 <= x < buf.w() && 0 <= y < buf.h() ==> #[trigger] buf.px(x, y) < 2
        ensures r.buffer == buf, r.cache.wf(), r.cache.room() == 251, r.cache.order().len() == 0, r.cache.map() == Map::<u8, ColoredRegion>::empty()
    //@loop 0
        invariant true,
    //@loop 1
        invariant true,
    //@endfn
}
proof fn row_earlier(n: int, y: int, x: int, v: int, u: int) requires 0 <= u < n, 0 <= x <= n, 0 <= v, v < y || (v == y && u < x) ensures v * n + u < y * n + x
{ if v < y { assert((v + 1) * n <= y * n) by (nonlinear_arith) requires v + 1 <= y, n >= 0; assert((v + 1) * n == v * n + n) by (nonlinear_arith); } }
