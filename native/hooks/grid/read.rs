/// size and all modules, row by row
pub fn read(img: &crate::prepare::verif::VImg, c: [f64; 8], size: usize) -> (usize, Vec<bool>) {
    use crate::BitGrid;
    let g = super::SkewedGridLocation { grid_size: size, c: crate::geometry::Perspective(c) }.into_grid_image(&img.0);
    (g.size(), (0..size * size).map(|k| g.bit(k / size, k % size)).collect())
}
