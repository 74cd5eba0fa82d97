impl VImg {
    /// (kind, colour, src_x, src_y, count); kind 0 unclaimed, 2 capstone, 3 alignment, 4 tmp1
    pub fn get_region(&mut self, x: usize, y: usize) -> (u8, u8, usize, usize, usize) {
        use super::ColoredRegion::*;
        match self.0.get_region((x, y)) {
            Unclaimed { color, src_x, src_y, pixel_count } => (0, color.into(), src_x, src_y, pixel_count),
            CapStone => (2, 2, 0, 0, 0),
            Alignment => (3, 3, 0, 0, 0),
            Tmp1 => (4, 4, 0, 0, 0),
        }
    }
    pub fn claim(&mut self, x: usize, y: usize, kind: u8) -> usize {
        let c = super::PixelColor::from(kind);
        self.0.repaint_and_apply((x, y), c, super::AreaCounter(0)).0
    }
}
