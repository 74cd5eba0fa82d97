pub fn mask_bit(mask: u16, y: usize, x: usize) -> bool {
    super::mask_bit(mask, y, x)
}
