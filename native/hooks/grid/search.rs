/// finders by corners; None: no local perspective
pub fn search(img: &mut crate::prepare::verif::VImg, seed: (i32, i32), g: [[(i32, i32); 4]; 2]) -> Option<Option<(i32, i32)>> {
    let f = |q: [(i32, i32); 4]| {
        let corners = q.map(|(x, y)| crate::Point { x, y });
        Some(crate::CapStone { corners, center: corners[0], c: crate::geometry::Perspective::create(&corners, 7.0, 7.0)? })
    };
    Some(super::find_alignment_pattern(&mut img.0, crate::Point { x: seed.0, y: seed.1 }, &f(g[0])?, &f(g[1])?).map(|p| (p.x, p.y)))
}
