impl VImg {
    pub fn flood_fill(&mut self, x: usize, y: usize, from: u8, to: u8) -> Vec<(usize, usize, usize)> {
        let mut rows = Vec::new();
        self.0.flood_fill(x, y, from, to, &mut |r: super::Row| rows.push((r.left, r.right, r.y)));
        rows
    }
}
