pub fn correct_block(block: &mut [u8], bs: usize, dw: usize) -> Result<(), crate::DeQRError> {
    super::correct_block(block, &crate::version_db::RSParameters { bs, dw, ns: 1 })
}
