pub fn timing_scan(img: &crate::prepare::verif::VImg, a: (i32, i32), b: (i32, i32)) -> usize {
    super::timing_scan(&img.0, &crate::Point { x: a.0, y: a.1 }, &crate::Point { x: b.0, y: b.1 })
}
