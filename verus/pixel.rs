impl<S> PreparedImage<S> where S: ImageBuffer {
    //@fn src/prepare.rs PreparedImage::get_pixel_at
    //@ret r
    //@sig
        requires x < self.buffer.w(), y < self.buffer.h()
        ensures r == color_of(self.buffer.px(x as int, y as int))
    //@endfn
}
