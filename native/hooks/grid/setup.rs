/// finders by corners and centre; None: no local perspective
pub fn setup(img: &crate::prepare::verif::VImg, g: [([(i32, i32); 4], (i32, i32)); 3], align: (i32, i32), size: usize) -> Option<Option<[f64; 8]>> {
    let f = |(q, m): ([(i32, i32); 4], (i32, i32))| {
        let corners = q.map(|(x, y)| crate::Point { x, y });
        Some(crate::CapStone { corners, center: crate::Point { x: m.0, y: m.1 }, c: crate::geometry::Perspective::create(&corners, 7.0, 7.0)? })
    };
    let g = super::CapStoneGroup(f(g[0])?, f(g[1])?, f(g[2])?);
    Some(super::setup_perspective(&img.0, &g, crate::Point { x: align.0, y: align.1 }, size).map(|c| c.0))
}
