pub fn create(p: [(i32, i32); 4], w: f64, h: f64) -> Option<[f64; 8]> {
    let q = p.map(|(x, y)| crate::Point { x, y });
    super::Perspective::create(&q, w, h).map(|c| c.0)
}
pub fn map(c: [f64; 8], u: f64, v: f64) -> (i32, i32) {
    let p = super::Perspective(c).map(u, v);
    (p.x, p.y)
}
pub fn unmap(c: [f64; 8], x: i32, y: i32) -> (f64, f64) {
    super::Perspective(c).unmap(&crate::Point { x, y })
}
