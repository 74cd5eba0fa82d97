// ------------------------------------------------------------------ images
/// assumed contract of ImageBuffer implementations: fixed size, pixels independent of each other
trait ImageBuffer: Sized {
    spec fn w(&self) -> nat;
    spec fn h(&self) -> nat;
    spec fn px(&self, x: int, y: int) -> u8;
    fn width(&self) -> (r: usize) ensures r == self.w();
    fn height(&self) -> (r: usize) ensures r == self.h();
    fn get_pixel(&self, x: usize, y: usize) -> (r: u8)
        requires x < self.w(), y < self.h()
        ensures r == self.px(x as int, y as int);
    fn set_pixel(&mut self, x: usize, y: usize, val: u8)
        requires x < old(self).w(), y < old(self).h()
        ensures final(self).w() == old(self).w(), final(self).h() == old(self).h(),
            forall|i: int, j: int| 0 <= i < old(self).w() && 0 <= j < old(self).h() ==> #[trigger] final(self).px(i, j) == (if i == x && j == y { val } else { old(self).px(i, j) });
}
//@item src/prepare.rs enum PixelColor derive=Clone,Copy,PartialEq,Eq,Structural pub=1
//@item src/prepare.rs enum ColoredRegion derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/prepare.rs struct PreparedImage
//@item src/prepare.rs struct Row derive=Clone,Copy
spec fn color_of(v: u8) -> PixelColor {
    if v == 0 { PixelColor::White } else if v == 1 { PixelColor::Black } else if v == 2 { PixelColor::CapStone } else if v == 3 { PixelColor::Alignment }
    else if v == 4 { PixelColor::Tmp1 } else { PixelColor::Discarded((v - 5) as u8) }
}
spec fn value_of(c: PixelColor) -> int {
    match c { PixelColor::White => 0, PixelColor::Black => 1, PixelColor::CapStone => 2, PixelColor::Alignment => 3, PixelColor::Tmp1 => 4, PixelColor::Discarded(r) => 5 + r }
}
impl vstd::std_specs::convert::FromSpecImpl<u8> for PixelColor {
    open spec fn obeys_from_spec() -> bool { true }
    closed spec fn from_spec(v: u8) -> Self { color_of(v) }
}
impl From<u8> for PixelColor {
    //@fn src/prepare.rs PixelColor::u8::from
    //@endfn
}
impl<S> PreparedImage<S> where S: ImageBuffer {
    //@fn src/prepare.rs PreparedImage::width
    //@ret r
    //@sig
        ensures r == self.buffer.w()
    //@endfn
    //@fn src/prepare.rs PreparedImage::height
    //@ret r
    //@sig
        ensures r == self.buffer.h()
    //@endfn
}
/// colours that have a value (at most 251 numbered ones exist)
spec fn has_value(c: PixelColor) -> bool { value_of(c) <= 255 }
//@fn src/prepare.rs u8::PixelColor::from rename=u8_of
//@sub "\bSelf\b" "u8"
//@ret r
//@sig
    requires has_value(c)
    ensures r == value_of(c)
//@endfn
impl PixelColor {
    //@fn src/prepare.rs PixelColor::u8::eq rename=eq_u8
    //@sub "\(\*self\)\s*\.into\(\)" "u8_of(*self)"
    //@ret r
    //@sig
        requires has_value(*self)
        ensures r == (value_of(*self) == *other)
    //@endfn
}
