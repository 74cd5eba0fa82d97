pub fn leftmost(line: (i32, i32), start: (i32, i32), score: i32, rows: &[(usize, usize, usize)]) -> (i32, i32) {
    use super::AreaFiller;
    let mut f = super::LeftMostFinder {
        line_p: crate::Point { x: line.0, y: line.1 },
        best: crate::Point { x: start.0, y: start.1 },
        score,
    };
    for &(left, right, y) in rows {
        f.update(super::Row { left, right, y });
    }
    (f.best.x, f.best.y)
}
