/// corners and coefficients after turning; outer None: no local perspective before
pub fn rotate(q: [(i32, i32); 4], h: (i32, i32), d: (i32, i32)) -> Option<Option<([(i32, i32); 4], [f64; 8])>> {
    let corners = q.map(|(x, y)| crate::Point { x, y });
    let mut c = crate::CapStone { corners, center: corners[0], c: crate::geometry::Perspective::create(&corners, 7.0, 7.0)? };
    let pt = |p: (i32, i32)| crate::Point { x: p.0, y: p.1 };
    Some(super::rotate_capstone(&mut c, &pt(h), &pt(d)).map(|_| (c.corners.map(|p| (p.x, p.y)), c.c.0)))
}
