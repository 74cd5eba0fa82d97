// ------------------------------------------------------------------ images of the image crate
/// assumed contract of the image crate: fixed size, pixels independent of each other
mod image {
    use super::*;
    pub struct Luma<T>(pub [T; 1]);
    impl<T> Luma<T> {
        pub fn from(v: [T; 1]) -> (r: Self) ensures r.0 == v { Luma(v) }
    }
    pub trait GenericImageView: Sized {
        type Pixel;
        spec fn columns(&self) -> u32;
        spec fn lines(&self) -> u32;
        spec fn at(&self, x: u32, y: u32) -> Self::Pixel;
        fn width(&self) -> (r: u32) ensures r == self.columns();
        fn height(&self) -> (r: u32) ensures r == self.lines();
        fn get_pixel(&self, x: u32, y: u32) -> (r: Self::Pixel)
            requires x < self.columns(), y < self.lines()
            ensures r == self.at(x, y);
    }
    pub trait GenericImage: GenericImageView {
        fn put_pixel(&mut self, x: u32, y: u32, pixel: Self::Pixel)
            requires x < old(self).columns(), y < old(self).lines()
            ensures final(self).columns() == old(self).columns(), final(self).lines() == old(self).lines(),
                forall|i: u32, j: u32| i < old(self).columns() && j < old(self).lines() ==> #[trigger] final(self).at(i, j) == (if i == x && j == y { pixel } else { old(self).at(i, j) });
    }
}
impl<T: image::GenericImage<Pixel = image::Luma<u8>> + image::GenericImageView<Pixel = image::Luma<u8>>> ImageBuffer for T {
    spec fn w(&self) -> nat { self.columns() as nat }
    spec fn h(&self) -> nat { self.lines() as nat }
    spec fn px(&self, x: int, y: int) -> u8 { self.at(x as u32, y as u32).0@[0] }
    //@fn src/prepare.rs T::ImageBuffer::width
    //@endfn
    //@fn src/prepare.rs T::ImageBuffer::height
    //@endfn
    //@fn src/prepare.rs T::ImageBuffer::get_pixel
    //@endfn
    //@fn src/prepare.rs T::ImageBuffer::set_pixel
    //@endfn
}
