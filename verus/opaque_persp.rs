//@item src/geometry.rs struct Perspective derive=Clone,Copy reals=1
// ------------------------------------------------------------------ a perspective is a function from module coordinates to pixels (its values: C17)
uninterp spec fn mapped(p: Perspective, u: real, v: real) -> Point;
uninterp spec fn unmapped(p: Perspective, q: Point) -> (real, real);
uninterp spec fn created(c: Seq<Point>, w: real, h: real) -> Option<Perspective>;
impl Perspective {
    #[verifier::external_body]
    fn create(rect: &[Point; 4], w: Fl, h: Fl) -> (r: Option<Perspective>) ensures r == created(rect@, w.r(), h.r()) { unimplemented!() }
    #[verifier::external_body]
    fn map(&self, u: Fl, v: Fl) -> (r: Point) ensures r == mapped(*self, u.r(), v.r()) { unimplemented!() }
    #[verifier::external_body]
    fn unmap(&self, p: &Point) -> (r: (Fl, Fl)) ensures r.0.r() == unmapped(*self, *p).0, r.1.r() == unmapped(*self, *p).1 { unimplemented!() }
}
