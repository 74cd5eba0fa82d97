pub fn line_intersect(p: [(i32, i32); 4]) -> Option<(i32, i32)> {
    let q = p.map(|(x, y)| crate::Point { x, y });
    super::line_intersect(&q[0], &q[1], &q[2], &q[3]).map(|r| (r.x, r.y))
}
pub fn bresenham(a: (i32, i32), b: (i32, i32), limit: usize) -> Vec<(i32, i32)> {
    super::BresenhamScan::new(&crate::Point { x: a.0, y: a.1 }, &crate::Point { x: b.0, y: b.1 })
        .take(limit)
        .map(|p| (p.x, p.y))
        .collect()
}
