//@item src/lib.rs struct Grid
// ------------------------------------------------------------------ from an image to its grids
impl SkewedGridLocation {
    //@fn src/identify/grid.rs SkewedGridLocation::into_grid_image
    //@ret r
    //@sig
        ensures r.grid == self, r.img == img
    //@endfn
}
/// the groups are located one after the other on the image itself
spec fn located_all<S: ImageBuffer>(i1: &PreparedImage<S>, gs: Seq<CapStoneGroup>, n: int, i2: &PreparedImage<S>, ls: Seq<SkewedGridLocation>) -> bool decreases n {
    if n <= 0 { *i2 == *i1 && ls.len() == 0 }
    else { exists|m: PreparedImage<S>, l0: Seq<SkewedGridLocation>, r: Option<SkewedGridLocation>| located_all(i1, gs, n - 1, &m, l0) && #[trigger] located(&m, gs[n - 1], i2, r) && ls == #[trigger] with_one(l0, r) }
}
spec fn with_one(l0: Seq<SkewedGridLocation>, r: Option<SkewedGridLocation>) -> Seq<SkewedGridLocation> { match r { Some(q) => l0.push(q), None => l0 } }
/// corners of a square of n + 1 modules, clockwise from the top left
spec fn bounds_of(p: Perspective, n: int) -> Seq<Point> { let e = n as real + 1real; seq![mapped(p, 0real, 0real), mapped(p, e, 0real), mapped(p, e, e), mapped(p, 0real, e)] }
/// one grid for each location, on the image as it is in the end
spec fn grid_is<S: ImageBuffer>(i2: &PreparedImage<S>, l: SkewedGridLocation, g: Grid<RefGridImage<S>>) -> bool { g.grid.grid == l && *g.grid.img == *i2 && g.bounds@ == bounds_of(l.c, l.grid_size as int) }
spec fn detected<S: ImageBuffer>(i0: &PreparedImage<S>, i2: &PreparedImage<S>, r: Seq<Grid<RefGridImage<S>>>) -> bool {
    let fs = finders(i0.buffer, i0.buffer.h() as int);
    exists|i1: PreparedImage<S>, cs: Seq<CapStone>, gs: Seq<CapStoneGroup>, ls: Seq<SkewedGridLocation>|
        #[trigger] claims(i0.buffer, i1.buffer, fs) && #[trigger] reported(i0.buffer, fs, cs) && #[trigger] grouped(&i1, cs, gs) && #[trigger] located_all(&i1, gs, gs.len() as int, i2, ls)
        && r.len() == ls.len() && forall|k: int| 0 <= k < r.len() ==> grid_is(i2, ls[k], #[trigger] r[k])
}
proof fn group_fits<S: ImageBuffer>(i0: &PreparedImage<S>, i1: &PreparedImage<S>, cs: Seq<CapStone>, gs: Seq<CapStoneGroup>, k: int)
    requires tame(i0, cs), grouped(i0, cs, gs), 0 <= k < gs.len()
    ensures fits(i1, gs[k])
{
    let st = choose|st: Seq<(usize, usize, usize)>| #[trigger] after_finders(i0, cs, cs.len() as int, st) && triples_in(st, cs.len() as int) && groups_are(cs, st, gs);
    assert(gs[k] == group_of(cs, st[k])); assert(fits(i0, group_of(cs, st[k])));
}
proof fn next_located<S: ImageBuffer>(i1: &PreparedImage<S>, gs: Seq<CapStoneGroup>, n: int, m: &PreparedImage<S>, l0: Seq<SkewedGridLocation>, i2: &PreparedImage<S>, r: Option<SkewedGridLocation>)
    requires n >= 1, located_all(i1, gs, n - 1, m, l0), located(m, gs[n - 1], i2, r)
    ensures located_all(i1, gs, n, i2, with_one(l0, r))
{ }
impl<S> PreparedImage<S> where S: ImageBuffer + Clone {
    //@fn src/prepare.rs PreparedImage::detect_grids iter=vec reals=2
    //@ret r
    //@sig
        requires in_order(old(self)), faithful::<S>(),
            forall|cs: Seq<CapStone>, i1: PreparedImage<S>| #[trigger] reported(old(self).buffer, finders(old(self).buffer, old(self).buffer.h() as int), cs) ==> #[trigger] tame(&i1, cs)
        ensures detected(old(self), final(self), r@)
    //@start
        let ghost i0 = *self; let ghost fs = finders(i0.buffer, i0.buffer.h() as int);
    //@before "find_groupings" 0
        let ghost i1 = *self; let ghost cs = stones@;
        proof { assert(reported(i0.buffer, fs, cs)); assert(tame(&i1, cs)); reveal(claims); }
    //@loop 0 before
        let ghost gs = _s0; let ghost n = gs.len() as int;
        proof { assert(located_all(&i1, gs, 0, &i1, seq![])); }
    //@loop 0
        invariant in_order(self), tame(&i1, cs), grouped(&i1, cs, gs), n == gs.len(), gs == _s0, located_all(&i1, gs, _n0, self, _c0@)
    //@loop 0 begin
        let ghost m = *self; let ghost l0 = _c0@; let ghost done = _n0 + 1;
        proof {
            assert forall|k: int| 0 <= k < n implies fits(&m, #[trigger] gs[k]) by { group_fits(&i1, &m, cs, gs, k); }
            assert forall|i2: PreparedImage<S>, r: Option<SkewedGridLocation>| #[trigger] located(&m, gs[done - 1], &i2, r) implies located_all(&i1, gs, done, &i2, with_one(l0, r)) by { next_located(&i1, gs, done, &m, l0, &i2, r); }
        }
    //@loop 1 before
        let ghost ls = _s1; let ghost nl = ls.len() as int; let ghost i2 = *self;
    //@loop 1
        invariant *self == i2, nl == ls.len(), ls == _s1, _c1@.len() == _n1, forall|k: int| 0 <= k < _c1@.len() ==> grid_is(&i2, ls[k], #[trigger] _c1@[k])
    //@endfn
}
