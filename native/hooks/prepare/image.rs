#[derive(Clone)]
pub struct VImg(pub super::PreparedImage<super::BasicImageBuffer>);
impl VImg {
    pub fn new(w: usize, h: usize, pixels: Vec<u8>) -> Self {
        let mut img = super::PreparedImage::prepare_from_bitmap(w, h, |_, _| false);
        use super::ImageBuffer;
        for y in 0..h {
            for x in 0..w {
                img.buffer.set_pixel(x, y, pixels[y * w + x]);
            }
        }
        VImg(img)
    }
    pub fn pixel(&self, x: usize, y: usize) -> u8 {
        self.0.get_pixel_at(x, y).into()
    }
}
