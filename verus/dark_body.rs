// ------------------------------------------------------------------ dark components
/// neighbouring pixels that are not white have the same value
spec fn flat<S: ImageBuffer>(b: S) -> bool { forall|x: int, y: int, u: int, v: int| #[trigger] next_to(x, y, u, v) && inside(b, x, y) && inside(b, u, v) && b.px(x, y) != 0 && b.px(u, v) != 0 ==> b.px(x, y) == b.px(u, v) }
/// same size, and the same pixels are white
spec fn same_dark<S: ImageBuffer>(b: S, b1: S) -> bool { b.w() == b1.w() && b.h() == b1.h() && forall|i: int, j: int| inside(b, i, j) ==> (b.px(i, j) == 0) == (#[trigger] b1.px(i, j) == 0) }
/// the same pixels are free
spec fn same_free<S: ImageBuffer>(b: S, b1: S) -> bool { b.w() == b1.w() && b.h() == b1.h() && forall|i: int, j: int| inside(b, i, j) ==> free(b.px(i, j)) == free(#[trigger] b1.px(i, j)) }
/// the state between queries
#[verifier::opaque]
spec fn ready<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>) -> bool { held(b, c) && flat(b) }
proof fn same_regions<S: ImageBuffer>(b: S, b1: S, ax: int, ay: int, x: int, y: int)
    requires same_free(b, b1)
    ensures same_region(b, ax, ay, x, y) == same_region(b1, ax, ay, x, y)
{
    assert forall|i: int, j: int| inside(b1, i, j) implies free(b1.px(i, j)) == free(#[trigger] b.px(i, j)) by { assert(inside(b, i, j)); assert(free(b.px(i, j)) == free(b1.px(i, j))); }
    if same_region(b, ax, ay, x, y) { region_keeps(b, b1, ax, ay, x, y); }
    if same_region(b1, ax, ay, x, y) { region_keeps(b1, b, ax, ay, x, y); }
}
spec fn size_of_region<S: ImageBuffer>(b: S, x: int, y: int) -> nat { cells(whole_region(b, x, y), b.w() as int, b.h() as int) }
proof fn same_size<S: ImageBuffer>(b: S, b1: S, x: int, y: int)
    requires same_free(b, b1)
    ensures size_of_region(b, x, y) == size_of_region(b1, x, y)
{
    assert forall|i: int, j: int| 0 <= i < b.w() && 0 <= j < b.h() implies #[trigger] whole_region(b, x, y)(i, j) == whole_region(b1, x, y)(i, j) by { same_regions(b, b1, x, y, i, j); }
    cells_same(whole_region(b, x, y), whole_region(b1, x, y), b.w() as int, b.h() as int);
}
proof fn region_self<S: ImageBuffer>(b: S, x: int, y: int) requires free_at(b, x, y) ensures same_region(b, x, y, x, y) { let p = seq![(x, y)]; assert(free_path(b, p)); }
/// a region takes in every free neighbour
proof fn region_step<S: ImageBuffer>(b: S, ax: int, ay: int, x: int, y: int, u: int, w: int)
    requires same_region(b, ax, ay, x, y), next_to(x, y, u, w), free_at(b, u, w)
    ensures same_region(b, ax, ay, u, w)
{
    let p = choose|p: Seq<(int, int)>| #[trigger] free_path(b, p) && p[0] == (ax, ay) && p.last() == (x, y);
    let q = p.push((u, w));
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] free_at(b, q[i].0, q[i].1) by { if i < p.len() { assert(free_at(b, p[i].0, p[i].1)); } }
    assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < q.len() implies #[trigger] next_to(q[i].0, q[i].1, q[j].0, q[j].1) by { if j < p.len() { assert(next_to(p[i].0, p[i].1, p[j].0, p[j].1)); } }
    assert(free_path(b, q));
}
proof fn region_free<S: ImageBuffer>(b: S, ax: int, ay: int, x: int, y: int)
    requires same_region(b, ax, ay, x, y)
    ensures free_at(b, x, y), free_at(b, ax, ay)
{ let p = choose|p: Seq<(int, int)>| #[trigger] free_path(b, p) && p[0] == (ax, ay) && p.last() == (x, y); assert(free_at(b, p[0].0, p[0].1)); assert(free_at(b, p[p.len() - 1].0, p[p.len() - 1].1)); }
/// what a query of a dark pixel does to the image
proof fn asked<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>, b1: S, c1: LruCache<u8, ColoredRegion>, x: int, y: int, r: ColoredRegion)
    requires ready(b, c), inside(b, x, y), b.px(x, y) != 0, answer(b, c, b1, c1, x, y, r)
    ensures ready(b1, c1), same_dark(b, b1), same_free(b, b1), free(b.px(x, y)) <==> r is Unclaimed
{ reveal(ready);
    if free(b.px(x, y)) {
        let k = match r { ColoredRegion::Unclaimed { color, .. } => match color { PixelColor::Discarded(k) => k, _ => 0u8 }, _ => 0u8 };
        assert(given(b, c, b1, c1, x, y, k));
        assert forall|i: int, j: int| inside(b, i, j) implies free(b.px(i, j)) == free(#[trigger] b1.px(i, j)) && (b.px(i, j) == 0) == (b1.px(i, j) == 0) by { if same_region(b, x, y, i, j) { region_free(b, x, y, i, j); } }
        assert forall|i: int, j: int, u: int, w: int| #[trigger] next_to(i, j, u, w) && inside(b1, i, j) && inside(b1, u, w) && b1.px(i, j) != 0 && b1.px(u, w) != 0 implies b1.px(i, j) == b1.px(u, w) by {
            assert(inside(b, i, j) && inside(b, u, w)); assert(b.px(i, j) != 0 && b.px(u, w) != 0); assert(b.px(i, j) == b.px(u, w)); assert(next_to(u, w, i, j));
            if same_region(b, x, y, i, j) { region_free(b, x, y, i, j); assert(free_at(b, u, w)); region_step(b, x, y, i, j, u, w); }
            if same_region(b, x, y, u, w) { region_free(b, x, y, u, w); assert(free_at(b, i, j)); region_step(b, x, y, u, w, i, j); }
        }
    }
}
/// claiming a region keeps the numbering and leaves connected dark pixels of one colour
proof fn claim_ready<S: ImageBuffer>(b: S, b1: S, c: LruCache<u8, ColoredRegion>, from: u8, to: u8, x: int, y: int)
    requires ready(b, c), inside(b, x, y), b.px(x, y) == from, from != 0, recolored(b, b1, from, to, x, y), !free(to), to != 0
    ensures ready(b1, c)
{ reveal(ready);
    claimed(b, b1, c, from, to, x, y);
    assert forall|i: int, j: int, u: int, w: int| #[trigger] next_to(i, j, u, w) && inside(b1, i, j) && inside(b1, u, w) && b1.px(i, j) != 0 && b1.px(u, w) != 0 implies b1.px(i, j) == b1.px(u, w) by {
        assert(inside(b, i, j) && inside(b, u, w)); assert(next_to(u, w, i, j));
        if conn(b, from, x, y, i, j) { conn_has(b, from, x, y, i, j); } if conn(b, from, x, y, u, w) { conn_has(b, from, x, y, u, w); }
        assert(b.px(i, j) != 0 && b.px(u, w) != 0); assert(b.px(i, j) == b.px(u, w));
        if conn(b, from, x, y, i, j) { conn_step(b, from, x, y, i, j, u, w); }
        if conn(b, from, x, y, u, w) { conn_step(b, from, x, y, u, w, i, j); }
    }
}
