/// assumed contract of BitGrid implementations: size() and bit() are functions of the grid, bit() may only be asked inside
trait BitGrid {
    spec fn n(&self) -> nat;
    spec fn at(&self, y: int, x: int) -> bool;
    fn size(&self) -> (r: usize) ensures r == self.n();
    fn bit(&self, y: usize, x: usize) -> (r: bool) requires y < self.n(), x < self.n() ensures r == self.at(y as int, x as int);
}
