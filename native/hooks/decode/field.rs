pub fn gf256(a: u8, b: u8, n: usize) -> (u8, u8, u8, u8, u8, u8, u8, bool) {
    use g2p::GaloisField;
    let (x, y) = (super::GF256(a), super::GF256(b));
    let mut z = x;
    z += y;
    let mut w = x;
    w *= y;
    let q = if b == 0 { 0 } else { (x / y).0 };
    ((x + y).0, z.0, (x * y).0, w.0, q, super::GF256::GENERATOR.pow(n).0, super::GF256::ONE.0 ^ super::GF256::ZERO.0, x == y)
}
pub fn gf16(a: u8, b: u8, n: usize) -> (u8, u8, u8, u8, u8, u8, u8, bool) {
    use g2p::GaloisField;
    let (x, y) = (super::GF16(a), super::GF16(b));
    let mut z = x;
    z += y;
    let mut w = x;
    w *= y;
    let q = if b == 0 { 0 } else { (x / y).0 };
    ((x + y).0, z.0, (x * y).0, w.0, q, super::GF16::GENERATOR.pow(n).0, super::GF16::ONE.0 ^ super::GF16::ZERO.0, x == y)
}
