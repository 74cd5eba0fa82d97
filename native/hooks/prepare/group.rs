/// a finder by corners and centre
pub type Finder = ([(i32, i32); 4], (i32, i32));
fn stone(f: &Finder) -> Option<crate::CapStone> {
    let corners = f.0.map(|(x, y)| crate::Point { x, y });
    Some(crate::CapStone { corners, center: crate::Point { x: f.1 .0, y: f.1 .1 }, c: crate::geometry::Perspective::create(&corners, 7.0, 7.0)? })
}
/// None: no local perspective
pub fn neighbors(fs: &[Finder], idx: usize) -> Option<Vec<(usize, usize)>> {
    let cs = fs.iter().map(stone).collect::<Option<Vec<_>>>()?;
    Some(crate::identify::find_and_rank_possible_neighbors(&cs, idx))
}
pub fn groups(img: &mut VImg, fs: &[Finder]) -> Option<Vec<[Finder; 3]>> {
    let cs = fs.iter().map(stone).collect::<Option<Vec<_>>>()?;
    let of = |c: &crate::CapStone| (c.corners.map(|p| (p.x, p.y)), (c.center.x, c.center.y));
    Some(img.0.find_groupings(cs).iter().map(|g| [of(&g.0), of(&g.1), of(&g.2)]).collect())
}
/// size, bounds and modules of each grid
pub fn detect(img: &mut VImg) -> Vec<(usize, [(i32, i32); 4], Vec<bool>)> {
    use crate::BitGrid;
    let all = img.0.detect_grids();
    all.iter().map(|g| {
        let n = g.grid.size();
        (n, g.bounds.map(|p| (p.x, p.y)), (0..n * n).map(|k| g.grid.bit(k / n, k % n)).collect())
    }).collect()
}
