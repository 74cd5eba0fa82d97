// ------------------------------------------------------------------ GF256 and GF16 as the code uses them
// The operators and pow are generated by the g2p crate: their bodies are not verified, only their contracts are used.
// What is assumed (they compute xor and the product modulo the polynomial) is compared with the real crate for every
// pair of elements by the native stage of the checks that rest on it.
impl Add for GF256 { type Output = GF256; #[verifier::external_body] fn add(self, rhs: GF256) -> GF256 { unimplemented!() } }
impl AddSpecImpl<GF256> for GF256 {
    closed spec fn obeys_add_spec() -> bool { true }
    closed spec fn add_req(self, rhs: GF256) -> bool { true }
    closed spec fn add_spec(self, rhs: GF256) -> GF256 { <GF256 as Xt0>::xor(self, rhs) }
}
impl Mul for GF256 { type Output = GF256; #[verifier::external_body] fn mul(self, rhs: GF256) -> GF256 { unimplemented!() } }
impl MulSpecImpl<GF256> for GF256 {
    closed spec fn obeys_mul_spec() -> bool { true }
    closed spec fn mul_req(self, rhs: GF256) -> bool { true }
    closed spec fn mul_spec(self, rhs: GF256) -> GF256 { xmul(self, rhs) }
}
impl Div for GF256 { type Output = GF256; #[verifier::external_body] fn div(self, rhs: GF256) -> GF256 { unimplemented!() } }
impl DivSpecImpl<GF256> for GF256 {
    closed spec fn obeys_div_spec() -> bool { true }
    closed spec fn div_req(self, rhs: GF256) -> bool { rhs != <GF256 as Xt0>::zero() }
    closed spec fn div_spec(self, rhs: GF256) -> GF256 { xmul(self, xinv(rhs)) }
}
impl AddAssign for GF256 { #[verifier::external_body] fn add_assign(&mut self, rhs: GF256) { unimplemented!() } }
impl AddAssignSpecImpl<GF256> for GF256 {
    closed spec fn obeys_add_assign_spec() -> bool { true }
    closed spec fn add_assign_req(&self, rhs: GF256) -> bool { true }
    closed spec fn add_assign_spec(&self, rhs: GF256) -> &GF256 { &<GF256 as Xt0>::xor(*self, rhs) }
}
impl MulAssign for GF256 { #[verifier::external_body] fn mul_assign(&mut self, rhs: GF256) { unimplemented!() } }
impl MulAssignSpecImpl<GF256> for GF256 {
    closed spec fn obeys_mul_assign_spec() -> bool { true }
    closed spec fn mul_assign_req(&self, rhs: GF256) -> bool { true }
    closed spec fn mul_assign_spec(&self, rhs: GF256) -> &GF256 { &xmul(*self, rhs) }
}
impl PartialEq for GF256 { #[verifier::external_body] fn eq(&self, o: &GF256) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for GF256 {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &GF256) -> bool { *self == *o }
}
const GF256_ZERO: GF256 = GF256(0);
const GF256_ONE: GF256 = GF256(1);
const GF256_GENERATOR: GF256 = GF256(2);
impl GaloisField for GF256 {
    const ZERO: GF256 = GF256_ZERO;
    const ONE: GF256 = GF256_ONE;
    const GENERATOR: GF256 = GF256_GENERATOR;
    spec fn plus(self, o: GF256) -> GF256 { <GF256 as Xt0>::xor(self, o) }
    spec fn times(self, o: GF256) -> GF256 { xmul(self, o) }
    spec fn inv(self) -> GF256 { xinv(self) }
    spec fn over(self, o: GF256) -> GF256 { xmul(self, xinv(o)) }
    proof fn ops(a: GF256, b: GF256) {}
    proof fn ax(a: GF256, b: GF256, c: GF256) { <GF256 as Xt>::xor_ax(a, b, c); <GF256 as Xt>::xor_ax(<GF256 as Xt0>::zero(), a, c); xfield(a, b, c); }
}
impl GF256 { #[verifier::external_body] fn pow(self, p: usize) -> (r: GF256) ensures r == pw(self, p as nat) { unimplemented!() } }
/// powers of the generator are the powers of x
proof fn gen_pw_GF256(k: nat) ensures pw(GF256::GENERATOR, k) == xtn(k, <GF256 as Xt0>::one()) decreases k
{
    if k > 0 {
        gen_pw_GF256((k - 1) as nat);
        let a = xtn((k - 1) as nat, <GF256 as Xt0>::one());
        xt_gen_GF256(a);
    }
}
impl Add for GF16 { type Output = GF16; #[verifier::external_body] fn add(self, rhs: GF16) -> GF16 { unimplemented!() } }
impl AddSpecImpl<GF16> for GF16 {
    closed spec fn obeys_add_spec() -> bool { true }
    closed spec fn add_req(self, rhs: GF16) -> bool { true }
    closed spec fn add_spec(self, rhs: GF16) -> GF16 { <GF16 as Xt0>::xor(self, rhs) }
}
impl Mul for GF16 { type Output = GF16; #[verifier::external_body] fn mul(self, rhs: GF16) -> GF16 { unimplemented!() } }
impl MulSpecImpl<GF16> for GF16 {
    closed spec fn obeys_mul_spec() -> bool { true }
    closed spec fn mul_req(self, rhs: GF16) -> bool { true }
    closed spec fn mul_spec(self, rhs: GF16) -> GF16 { xmul(self, rhs) }
}
impl Div for GF16 { type Output = GF16; #[verifier::external_body] fn div(self, rhs: GF16) -> GF16 { unimplemented!() } }
impl DivSpecImpl<GF16> for GF16 {
    closed spec fn obeys_div_spec() -> bool { true }
    closed spec fn div_req(self, rhs: GF16) -> bool { rhs != <GF16 as Xt0>::zero() }
    closed spec fn div_spec(self, rhs: GF16) -> GF16 { xmul(self, xinv(rhs)) }
}
impl AddAssign for GF16 { #[verifier::external_body] fn add_assign(&mut self, rhs: GF16) { unimplemented!() } }
impl AddAssignSpecImpl<GF16> for GF16 {
    closed spec fn obeys_add_assign_spec() -> bool { true }
    closed spec fn add_assign_req(&self, rhs: GF16) -> bool { true }
    closed spec fn add_assign_spec(&self, rhs: GF16) -> &GF16 { &<GF16 as Xt0>::xor(*self, rhs) }
}
impl MulAssign for GF16 { #[verifier::external_body] fn mul_assign(&mut self, rhs: GF16) { unimplemented!() } }
impl MulAssignSpecImpl<GF16> for GF16 {
    closed spec fn obeys_mul_assign_spec() -> bool { true }
    closed spec fn mul_assign_req(&self, rhs: GF16) -> bool { true }
    closed spec fn mul_assign_spec(&self, rhs: GF16) -> &GF16 { &xmul(*self, rhs) }
}
impl PartialEq for GF16 { #[verifier::external_body] fn eq(&self, o: &GF16) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for GF16 {
    closed spec fn obeys_eq_spec() -> bool { true }
    closed spec fn eq_spec(&self, o: &GF16) -> bool { *self == *o }
}
const GF16_ZERO: GF16 = GF16 { b0: false, b1: false, b2: false, b3: false };
const GF16_ONE: GF16 = GF16 { b0: true, b1: false, b2: false, b3: false };
const GF16_GENERATOR: GF16 = GF16 { b0: false, b1: true, b2: false, b3: false };
impl GaloisField for GF16 {
    const ZERO: GF16 = GF16_ZERO;
    const ONE: GF16 = GF16_ONE;
    const GENERATOR: GF16 = GF16_GENERATOR;
    spec fn plus(self, o: GF16) -> GF16 { <GF16 as Xt0>::xor(self, o) }
    spec fn times(self, o: GF16) -> GF16 { xmul(self, o) }
    spec fn inv(self) -> GF16 { xinv(self) }
    spec fn over(self, o: GF16) -> GF16 { xmul(self, xinv(o)) }
    proof fn ops(a: GF16, b: GF16) {}
    proof fn ax(a: GF16, b: GF16, c: GF16) { <GF16 as Xt>::xor_ax(a, b, c); <GF16 as Xt>::xor_ax(<GF16 as Xt0>::zero(), a, c); xfield(a, b, c); }
}
impl GF16 { #[verifier::external_body] fn pow(self, p: usize) -> (r: GF16) ensures r == pw(self, p as nat) { unimplemented!() } }
/// powers of the generator are the powers of x
proof fn gen_pw_GF16(k: nat) ensures pw(GF16::GENERATOR, k) == xtn(k, <GF16 as Xt0>::one()) decreases k
{
    if k > 0 {
        gen_pw_GF16((k - 1) as nat);
        let a = xtn((k - 1) as nat, <GF16 as Xt0>::one());
        xt_gen_GF16(a);
    }
}

proof fn xt_gen_GF256(a: GF256) ensures xmul(GF256::GENERATOR, a) == a.xt()
{
    assert(lg8(2) == 1) by (compute_only);
    reveal_with_fuel(xtn, 2);
}
proof fn xt_gen_GF16(a: GF16) ensures xmul(GF16::GENERATOR, a) == a.xt()
{
    assert(nib(GF16::GENERATOR) == 2);
    assert(log4_table()[2] == 1);
    reveal_with_fuel(xtn, 2);
}
/// the powers of the generator below the order are distinct and not zero, and the order-th is one
proof fn gen_order_GF256(i: nat, j: nat)
    ensures pw(GF256::GENERATOR, i) != GF256::ZERO, i < 255 && j < 255 && i != j ==> pw(GF256::GENERATOR, i) != pw(GF256::GENERATOR, j), pw(GF256::GENERATOR, 255) == GF256::ONE
{
    gen_pw_GF256(i); gen_pw_GF256(j); gen_pw_GF256(255);
    GF256::log_ax(GF256(0), i); GF256::log_ax(GF256(0), j); xtn_log(i, GF256(0));
}
proof fn gen_order_GF16(i: nat, j: nat)
    ensures pw(GF16::GENERATOR, i) != GF16::ZERO, i < 15 && j < 15 && i != j ==> pw(GF16::GENERATOR, i) != pw(GF16::GENERATOR, j), pw(GF16::GENERATOR, 15) == GF16::ONE
{
    gen_pw_GF16(i); gen_pw_GF16(j); gen_pw_GF16(15);
    GF16::log_ax(of_nib(0), i); GF16::log_ax(of_nib(0), j); xtn_log(i, of_nib(0));
}
