/// (index of the pixel at which it was reported, left, stone, right)
pub fn scan_line(line: &[u8]) -> Vec<(usize, usize, usize, usize)> {
    let mut res = Vec::new();
    if line.is_empty() {
        return res;
    }
    let mut f = super::LineScanner::new(super::PixelColor::from(line[0]));
    for (i, p) in line.iter().enumerate().skip(1) {
        if let Some(l) = f.advance(super::PixelColor::from(*p)) {
            res.push((i, l.left, l.stone, l.right));
        }
    }
    res
}
