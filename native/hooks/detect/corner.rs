pub fn first_corner(sx: i32, sy: i32, rows: &[(usize, usize, usize)]) -> (i32, i32) {
    use super::AreaFiller;
    let mut f = super::FirstCornerFinder::new(crate::Point { x: sx, y: sy });
    for &(left, right, y) in rows {
        f.update(super::Row { left, right, y });
    }
    let b = f.best();
    (b.x, b.y)
}
pub fn all_corners(sx: i32, sy: i32, cx: i32, cy: i32, rows: &[(usize, usize, usize)]) -> [(i32, i32); 4] {
    use super::AreaFiller;
    let mut f = super::AllCornerFinder::new(crate::Point { x: sx, y: sy }, crate::Point { x: cx, y: cy });
    for &(left, right, y) in rows {
        f.update(super::Row { left, right, y });
    }
    f.best().map(|b| (b.x, b.y))
}
