/// what receives the runs of a filled region; took relates the states before and after a run
trait AreaFiller: Sized {
    spec fn takes(&self, row: Row) -> bool;
    spec fn took(&self, row: Row, after: &Self) -> bool;
    fn update(&mut self, row: Row) requires old(self).takes(row) ensures old(self).took(row, final(self));
}
