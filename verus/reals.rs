// ------------------------------------------------------------------ f64 as exact real numbers (R14)
// Floating point values are represented by the real number they stand for and every operation is exact.
// This is the assumption "machine arithmetic treated as mathematical"; the native stage executes the real f64 code.
#[derive(Clone, Copy)]
pub struct Fl { pub g: Ghost<real> }
impl Fl { pub open spec fn r(self) -> real { self.g@ } }
pub open spec fn fl(x: real) -> Fl { Fl { g: Ghost(x) } }
impl Add for Fl { type Output = Fl; fn add(self, o: Fl) -> Fl { Fl { g: Ghost(self.g@ + o.g@) } } }
impl AddSpecImpl<Fl> for Fl { open spec fn obeys_add_spec() -> bool { true } open spec fn add_req(self, o: Fl) -> bool { true } open spec fn add_spec(self, o: Fl) -> Fl { fl(self.r() + o.r()) } }
impl Sub for Fl { type Output = Fl; fn sub(self, o: Fl) -> Fl { Fl { g: Ghost(self.g@ - o.g@) } } }
impl SubSpecImpl<Fl> for Fl { open spec fn obeys_sub_spec() -> bool { true } open spec fn sub_req(self, o: Fl) -> bool { true } open spec fn sub_spec(self, o: Fl) -> Fl { fl(self.r() - o.r()) } }
impl Mul for Fl { type Output = Fl; fn mul(self, o: Fl) -> Fl { Fl { g: Ghost(self.g@ * o.g@) } } }
impl MulSpecImpl<Fl> for Fl { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, o: Fl) -> bool { true } open spec fn mul_spec(self, o: Fl) -> Fl { fl(self.r() * o.r()) } }
impl Div for Fl { type Output = Fl; fn div(self, o: Fl) -> Fl { Fl { g: Ghost(self.g@ / o.g@) } } }
impl DivSpecImpl<Fl> for Fl { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, o: Fl) -> bool { o.r() != 0real } open spec fn div_spec(self, o: Fl) -> Fl { fl(self.r() / o.r()) } }
impl Neg for Fl { type Output = Fl; fn neg(self) -> Fl { Fl { g: Ghost(-self.g@) } } }
impl NegSpecImpl for Fl { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { true } open spec fn neg_spec(self) -> Fl { fl(-self.r()) } }
impl AddAssign for Fl { fn add_assign(&mut self, o: Fl) { *self = Fl { g: Ghost(self.g@ + o.g@) }; } }
impl AddAssignSpecImpl<Fl> for Fl { open spec fn obeys_add_assign_spec() -> bool { true } open spec fn add_assign_req(&self, o: Fl) -> bool { true } open spec fn add_assign_spec(&self, o: Fl) -> &Fl { &fl(self.r() + o.r()) } }
impl SubAssign for Fl { fn sub_assign(&mut self, o: Fl) { *self = Fl { g: Ghost(self.g@ - o.g@) }; } }
impl SubAssignSpecImpl<Fl> for Fl { open spec fn obeys_sub_assign_spec() -> bool { true } open spec fn sub_assign_req(&self, o: Fl) -> bool { true } open spec fn sub_assign_spec(&self, o: Fl) -> &Fl { &fl(self.r() - o.r()) } }
impl MulAssign for Fl { fn mul_assign(&mut self, o: Fl) { *self = Fl { g: Ghost(self.g@ * o.g@) }; } }
impl MulAssignSpecImpl<Fl> for Fl { open spec fn obeys_mul_assign_spec() -> bool { true } open spec fn mul_assign_req(&self, o: Fl) -> bool { true } open spec fn mul_assign_spec(&self, o: Fl) -> &Fl { &fl(self.r() * o.r()) } }
impl PartialEq for Fl { #[verifier::external_body] fn eq(&self, o: &Fl) -> bool { unimplemented!() } }
impl PartialEqSpecImpl for Fl { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Fl) -> bool { self.r() == o.r() } }
impl PartialOrd for Fl { #[verifier::external_body] fn partial_cmp(&self, o: &Fl) -> Option<core::cmp::Ordering> { unimplemented!() } }
impl PartialOrdSpecImpl for Fl {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &Fl) -> Option<core::cmp::Ordering> { if self.r() < o.r() { Some(core::cmp::Ordering::Less) } else if self.r() == o.r() { Some(core::cmp::Ordering::Equal) } else { Some(core::cmp::Ordering::Greater) } }
}
/// f64::EPSILON
pub open spec fn eps() -> real { 1real / 4503599627370496real }
pub proof fn eps_pos() ensures eps() > 0real { assert(1real / 4503599627370496real > 0real) by (nonlinear_arith); }
pub open spec fn re(k: int) -> real { k as real }
pub open spec fn whole(x: real) -> bool { exists|k: int| #[trigger] re(k) == x }
pub trait Num: Sized { spec fn v(self) -> int; }
impl Num for i32 { open spec fn v(self) -> int { self as int } }
impl Num for usize { open spec fn v(self) -> int { self as int } }
impl Fl {
    pub fn epsilon() -> (z: Fl) ensures z.r() == eps() { Fl { g: Ghost(eps()) } }
    fn zero() -> (z: Fl) ensures z.r() == 0real { Fl { g: Ghost(0real) } }
    fn one() -> (z: Fl) ensures z.r() == 1real { Fl { g: Ghost(1real) } }
    fn of<T: Num>(k: T) -> (z: Fl) ensures z.r() == k.v() as real { Fl { g: Ghost(k.v() as real) } }
    /// the decimal literal n / d
    fn lit(n: i32, d: i32) -> (z: Fl) ensures z.r() == n as int as real / d as int as real { Fl { g: Ghost(n as int as real / d as int as real) } }
    fn abs(self) -> (z: Fl) ensures z.r() == (if self.r() < 0real { -self.r() } else { self.r() }) { Fl { g: Ghost(if self.g@ < 0real { -self.g@ } else { self.g@ }) } }
    fn max(self, o: Fl) -> (z: Fl) ensures z.r() == (if self.r() < o.r() { o.r() } else { self.r() }) { Fl { g: Ghost(if self.g@ < o.g@ { o.g@ } else { self.g@ }) } }
    fn min(self, o: Fl) -> (z: Fl) ensures z.r() == (if self.r() < o.r() { self.r() } else { o.r() }) { Fl { g: Ghost(if self.g@ < o.g@ { self.g@ } else { o.g@ }) } }
    fn mul_add(self, a: Fl, b: Fl) -> (z: Fl) ensures z.r() == self.r() * a.r() + b.r() { Fl { g: Ghost(self.g@ * a.g@ + b.g@) } }
    /// f64::total_cmp (for real numbers the same as partial_cmp)
    #[verifier::external_body] fn total_cmp(&self, o: &Fl) -> (z: core::cmp::Ordering) ensures z == (if self.r() < o.r() { core::cmp::Ordering::Less } else if self.r() == o.r() { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }) { unimplemented!() }
    /// f64::floor
    #[verifier::external_body] fn floor(self) -> (z: Fl) ensures whole(z.r()), z.r() <= self.r() < z.r() + 1real { unimplemented!() }
    /// the cast of an integral value, negative ones become 0
    #[verifier::external_body] fn to_usize(self) -> (k: usize) requires whole(self.r()), self.r() <= usize::MAX as int as real ensures k as int as real == (if self.r() < 0real { 0real } else { self.r() }) { unimplemented!() }
    /// f64::round: a nearest integer
    #[verifier::external_body] fn round(self) -> (z: Fl) ensures whole(z.r()), z.r() - self.r() <= 1real / 2real, self.r() - z.r() <= 1real / 2real { unimplemented!() }
    /// the cast of an integral value in range
    #[verifier::external_body] fn to_i32(self) -> (k: i32) requires whole(self.r()), i32::MIN as int as real <= self.r() <= i32::MAX as int as real ensures k as int as real == self.r() { unimplemented!() }
}
