// ------------------------------------------------------------------ colour changes along a line
spec fn clamp(v: int, n: int) -> int { if v < 0 { 0 } else if v > n - 1 { n - 1 } else { v } }
impl<S> PreparedImage<S> where S: ImageBuffer {
    /// colour at a point, points outside taken to the border
    spec fn color_at(&self, p: Point) -> PixelColor { color_of(self.buffer.px(clamp(p.x as int, self.buffer.w() as int), clamp(p.y as int, self.buffer.h() as int))) }
    spec fn scannable(&self) -> bool { 0 < self.buffer.w() <= 0x7fff_ffff && 0 < self.buffer.h() <= 0x7fff_ffff }
    //@fn src/prepare.rs PreparedImage::get_pixel_at_point
    //@ret r
    //@sig
        requires self.scannable()
        ensures r == self.color_at(p)
    //@endfn
}
/// colour changes among the first k + 1 points
spec fn changes<S: ImageBuffer>(img: &PreparedImage<S>, p: Point, q: Point, k: int) -> nat decreases k {
    if k <= 0 { 0 } else { changes(img, p, q, k - 1) + (if img.color_at(line_point(p, q, k)) != img.color_at(line_point(p, q, k - 1)) { 1nat } else { 0 }) }
}
//@fn src/identify/grid.rs timing_scan iter
//@ret r
//@sig
    requires img.scannable(), line_ok(*p0, *p1)
    ensures r == changes(img, *p0, *p1, steps(*p0, *p1))
//@loop 0
    invariant_except_break
        img.scannable(), _it0.at(*p0, *p1),
        previous is None <==> _it0.i == 0,
        previous matches Some(c) ==> c == img.color_at(line_point(*p0, *p1, _it0.i - 1)),
        count == changes(img, *p0, *p1, _it0.i - 1), 0 <= count <= _it0.i,
    ensures count == changes(img, *p0, *p1, steps(*p0, *p1)),
    decreases _it0.d + 1 - _it0.i,
//@endfn
