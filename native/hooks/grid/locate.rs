/// finders by corners and centre; None: no local perspective
pub fn locate(img: &mut crate::prepare::verif::VImg, g: [([(i32, i32); 4], (i32, i32)); 3]) -> Option<Option<(usize, [f64; 8])>> {
    let f = |(q, m): ([(i32, i32); 4], (i32, i32))| {
        let corners = q.map(|(x, y)| crate::Point { x, y });
        Some(crate::CapStone { corners, center: crate::Point { x: m.0, y: m.1 }, c: crate::geometry::Perspective::create(&corners, 7.0, 7.0)? })
    };
    let g = super::CapStoneGroup(f(g[0])?, f(g[1])?, f(g[2])?);
    Some(super::SkewedGridLocation::from_group(&mut img.0, g).map(|l| (l.grid_size, l.c.0)))
}
