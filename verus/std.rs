// verified definitions of the std functions the code uses and vstd has no specification for (R8)
trait OrdInt: Copy {
    spec fn v(self) -> int;
    fn le_(self, o: Self) -> (r: bool) ensures r == (self.v() <= o.v());
}
impl OrdInt for usize { spec fn v(self) -> int { self as int } fn le_(self, o: usize) -> (r: bool) { self <= o } }
impl OrdInt for i32 { spec fn v(self) -> int { self as int } fn le_(self, o: i32) -> (r: bool) { self <= o } }
impl OrdInt for i64 { spec fn v(self) -> int { self as int } fn le_(self, o: i64) -> (r: bool) { self <= o } }
fn stdx_min<T: OrdInt>(a: T, b: T) -> (r: T) ensures r == (if a.v() <= b.v() { a } else { b }) { if a.le_(b) { a } else { b } }
fn stdx_max<T: OrdInt>(a: T, b: T) -> (r: T) ensures r == (if a.v() <= b.v() { b } else { a }) { if a.le_(b) { b } else { a } }
//@include shift.rs
