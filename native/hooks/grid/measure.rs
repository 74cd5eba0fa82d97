/// finders by corners; None: no local perspective
pub fn measure(img: &crate::prepare::verif::VImg, g: [[(i32, i32); 4]; 3]) -> Option<Option<usize>> {
    let f = |q: [(i32, i32); 4]| {
        let corners = q.map(|(x, y)| crate::Point { x, y });
        Some(crate::CapStone { corners, center: corners[0], c: crate::geometry::Perspective::create(&corners, 7.0, 7.0)? })
    };
    Some(super::measure_timing_pattern(&img.0, &super::CapStoneGroup(f(g[0])?, f(g[1])?, f(g[2])?)))
}
