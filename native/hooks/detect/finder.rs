/// corners and centre of a reported finder
pub type Found = ([(i32, i32); 4], (i32, i32));
pub fn finders(img: &mut crate::prepare::verif::VImg) -> Vec<Found> {
    super::capstones_from_image(&mut img.0)
        .into_iter()
        .map(|c| (c.corners.map(|p| (p.x, p.y)), (c.center.x, c.center.y)))
        .collect()
}
/// the centre that goes with these corners
pub fn centre(corners: [(i32, i32); 4]) -> Option<(i32, i32)> {
    let q = corners.map(|(x, y)| crate::Point { x, y });
    let c = crate::geometry::Perspective::create(&q, 7.0, 7.0)?.map(3.5, 3.5);
    Some((c.x, c.y))
}
