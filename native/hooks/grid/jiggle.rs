pub fn jiggle(img: &crate::prepare::verif::VImg, c: [f64; 8], size: usize) -> [f64; 8] {
    super::jiggle_perspective(&img.0, crate::geometry::Perspective(c), size).0
}
