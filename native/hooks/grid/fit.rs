pub fn fitness(img: &crate::prepare::verif::VImg, c: [f64; 8], size: usize) -> i32 {
    super::fitness_all(&img.0, &crate::geometry::Perspective(c), size)
}
