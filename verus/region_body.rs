// ------------------------------------------------------------------ connectivity is an equivalence
proof fn conn_along<S: ImageBuffer>(b: S, v: u8, ax: int, ay: int, p: Seq<(int, int)>, n: int)
    requires path(b, v, p), conn(b, v, ax, ay, p[0].0, p[0].1), 0 <= n < p.len()
    ensures conn(b, v, ax, ay, p[n].0, p[n].1)
    decreases n
{
    if n > 0 { conn_along(b, v, ax, ay, p, n - 1); assert(has(b, v, p[n].0, p[n].1)); assert(next_to(p[n - 1].0, p[n - 1].1, p[n].0, p[n].1)); conn_step(b, v, ax, ay, p[n - 1].0, p[n - 1].1, p[n].0, p[n].1); }
}
proof fn conn_trans<S: ImageBuffer>(b: S, v: u8, ax: int, ay: int, x: int, y: int, u: int, w: int)
    requires conn(b, v, ax, ay, x, y), conn(b, v, x, y, u, w)
    ensures conn(b, v, ax, ay, u, w)
{
    let p = choose|p: Seq<(int, int)>| #[trigger] path(b, v, p) && p[0] == (x, y) && p.last() == (u, w);
    conn_along(b, v, ax, ay, p, p.len() - 1);
}
proof fn conn_back<S: ImageBuffer>(b: S, v: u8, p: Seq<(int, int)>, n: int)
    requires path(b, v, p), 0 <= n < p.len()
    ensures conn(b, v, p[p.len() - 1].0, p[p.len() - 1].1, p[n].0, p[n].1)
    decreases p.len() - n
{
    let l = p.len() - 1;
    assert(has(b, v, p[n].0, p[n].1));
    if n == l { conn_start(b, v, p[n].0, p[n].1); }
    else { conn_back(b, v, p, n + 1); assert(next_to(p[n].0, p[n].1, p[n + 1].0, p[n + 1].1)); conn_step(b, v, p[l].0, p[l].1, p[n + 1].0, p[n + 1].1, p[n].0, p[n].1); }
}
proof fn conn_sym<S: ImageBuffer>(b: S, v: u8, ax: int, ay: int, x: int, y: int)
    requires conn(b, v, ax, ay, x, y)
    ensures conn(b, v, x, y, ax, ay)
{
    let p = choose|p: Seq<(int, int)>| #[trigger] path(b, v, p) && p[0] == (ax, ay) && p.last() == (x, y);
    conn_back(b, v, p, 0);
}
/// connectivity depends on the cells of the value only
proof fn conn_same<S: ImageBuffer>(b: S, v: u8, b1: S, v1: u8, ax: int, ay: int, x: int, y: int)
    requires conn(b, v, ax, ay, x, y), forall|i: int, j: int| has(b, v, i, j) ==> #[trigger] has(b1, v1, i, j)
    ensures conn(b1, v1, ax, ay, x, y)
{
    let p = choose|p: Seq<(int, int)>| #[trigger] path(b, v, p) && p[0] == (ax, ay) && p.last() == (x, y);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] has(b1, v1, p[i].0, p[i].1) by { assert(has(b, v, p[i].0, p[i].1)); }
    assert(path(b1, v1, p));
}
// ------------------------------------------------------------------ the dark pixels nobody has claimed
/// black or numbered
spec fn free(v: u8) -> bool { v == 1 || v >= 5 }
spec fn free_at<S: ImageBuffer>(b: S, x: int, y: int) -> bool { inside(b, x, y) && free(b.px(x, y)) }
spec fn free_path<S: ImageBuffer>(b: S, p: Seq<(int, int)>) -> bool {
    &&& p.len() >= 1
    &&& forall|i: int| 0 <= i < p.len() ==> #[trigger] free_at(b, p[i].0, p[i].1)
    &&& forall|i: int, j: int| 0 <= i && j == i + 1 && j < p.len() ==> #[trigger] next_to(p[i].0, p[i].1, p[j].0, p[j].1)
}
/// (x, y) is in the region of (ax, ay): 4-connected through unclaimed dark pixels
spec fn same_region<S: ImageBuffer>(b: S, ax: int, ay: int, x: int, y: int) -> bool { exists|p: Seq<(int, int)>| #[trigger] free_path(b, p) && p[0] == (ax, ay) && p.last() == (x, y) }
/// neighbouring unclaimed dark pixels have the same value
spec fn uniform<S: ImageBuffer>(b: S) -> bool { forall|x: int, y: int, u: int, v: int| #[trigger] next_to(x, y, u, v) && free_at(b, x, y) && free_at(b, u, v) ==> b.px(x, y) == b.px(u, v) }
spec fn of_value<S: ImageBuffer>(b: S, v: u8) -> spec_fn(int, int) -> bool { |x: int, y: int| b.px(x, y) == v }
spec fn whole_region<S: ImageBuffer>(b: S, x: int, y: int) -> spec_fn(int, int) -> bool { |i: int, j: int| same_region(b, x, y, i, j) }
proof fn free_value<S: ImageBuffer>(b: S, p: Seq<(int, int)>, n: int)
    requires uniform(b), free_path(b, p), 0 <= n < p.len()
    ensures b.px(p[n].0, p[n].1) == b.px(p[0].0, p[0].1)
    decreases n
{
    if n > 0 { free_value(b, p, n - 1); assert(next_to(p[n - 1].0, p[n - 1].1, p[n].0, p[n].1)); assert(free_at(b, p[n].0, p[n].1)); assert(free_at(b, p[n - 1].0, p[n - 1].1)); }
}
/// when neighbours agree, a region is what is connected through pixels of its value
proof fn region_is<S: ImageBuffer>(b: S, ax: int, ay: int, x: int, y: int)
    requires uniform(b), free_at(b, ax, ay)
    ensures same_region(b, ax, ay, x, y) == conn(b, b.px(ax, ay), ax, ay, x, y)
{
    let v = b.px(ax, ay);
    if same_region(b, ax, ay, x, y) {
        let p = choose|p: Seq<(int, int)>| #[trigger] free_path(b, p) && p[0] == (ax, ay) && p.last() == (x, y);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] has(b, v, p[i].0, p[i].1) by { free_value(b, p, i); assert(free_at(b, p[i].0, p[i].1)); }
        assert(path(b, v, p));
    }
    if conn(b, v, ax, ay, x, y) {
        let p = choose|p: Seq<(int, int)>| #[trigger] path(b, v, p) && p[0] == (ax, ay) && p.last() == (x, y);
        assert forall|i: int| 0 <= i < p.len() implies #[trigger] free_at(b, p[i].0, p[i].1) by { assert(has(b, v, p[i].0, p[i].1)); }
        assert(free_path(b, p));
    }
}
proof fn region_keeps<S: ImageBuffer>(b: S, b1: S, ax: int, ay: int, x: int, y: int)
    requires b.w() == b1.w(), b.h() == b1.h(), forall|i: int, j: int| inside(b, i, j) ==> free(b.px(i, j)) == free(#[trigger] b1.px(i, j)), same_region(b, ax, ay, x, y)
    ensures same_region(b1, ax, ay, x, y)
{
    let p = choose|p: Seq<(int, int)>| #[trigger] free_path(b, p) && p[0] == (ax, ay) && p.last() == (x, y);
    assert forall|i: int| 0 <= i < p.len() implies #[trigger] free_at(b1, p[i].0, p[i].1) by { assert(free_at(b, p[i].0, p[i].1)); }
    assert(free_path(b1, p));
}
// ------------------------------------------------------------------ the numbered regions
/// the pixels numbered k are one region: that of the recorded source, of the recorded size
spec fn entry_ok<S: ImageBuffer>(b: S, k: u8, e: ColoredRegion) -> bool {
    match e {
        ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } => {
            &&& color == PixelColor::Discarded(k)
            &&& inside(b, src_x as int, src_y as int)
            &&& forall|x: int, y: int| #[trigger] has(b, (5 + k) as u8, x, y) ==> conn(b, (5 + k) as u8, src_x as int, src_y as int, x, y) && pixel_count == cells(of_value(b, (5 + k) as u8), b.w() as int, b.h() as int)
        },
        _ => false,
    }
}
spec fn table_ok<S: ImageBuffer>(b: S, m: Map<u8, ColoredRegion>) -> bool {
    &&& uniform(b)
    &&& forall|k: u8| #[trigger] m.contains_key(k) ==> k < 251 && entry_ok(b, k, m[k])
    &&& forall|x: int, y: int| inside(b, x, y) && #[trigger] b.px(x, y) >= 5 ==> m.contains_key((b.px(x, y) - 5) as u8)
}
/// the state of the regions between queries
spec fn held<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>) -> bool {
    &&& c.wf() && c.room() == 251 && b.w() * b.h() <= usize::MAX && table_ok(b, c.map())
    &&& forall|k: u8| #[trigger] c.map().contains_key(k) <==> k < c.order().len()
}
/// an entry stays right when the pixels of its number stay
proof fn entry_keeps<S: ImageBuffer>(b: S, b1: S, k: u8, e: ColoredRegion)
    requires b.w() == b1.w(), b.h() == b1.h(), entry_ok(b, k, e), k < 251, forall|x: int, y: int| inside(b, x, y) ==> (#[trigger] b.px(x, y) == 5 + k) == (b1.px(x, y) == 5 + k)
    ensures entry_ok(b1, k, e)
{
    let v = (5 + k) as u8;
    match e {
        ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } => {
            assert forall|x: int, y: int| #[trigger] has(b1, v, x, y) implies conn(b1, v, src_x as int, src_y as int, x, y) && pixel_count == cells(of_value(b1, v), b1.w() as int, b1.h() as int) by {
                assert(has(b, v, x, y));
                assert forall|i: int, j: int| has(b, v, i, j) implies #[trigger] has(b1, v, i, j) by { }
                conn_same(b, v, b1, v, src_x as int, src_y as int, x, y);
                assert forall|i: int, j: int| 0 <= i < b.w() && 0 <= j < b.h() implies #[trigger] of_value(b, v)(i, j) == of_value(b1, v)(i, j) by { assert(inside(b, i, j)); assert((b.px(i, j) == 5 + k) == (b1.px(i, j) == 5 + k)); }
                cells_same(of_value(b, v), of_value(b1, v), b.w() as int, b.h() as int);
            }
        },
        _ => { },
    }
}
/// the source of a numbered region is connected to all of its pixels, so recolouring from any of them takes all
proof fn takes_whole<S: ImageBuffer>(b: S, b1: S, k: u8, e: ColoredRegion, to: u8, x: int, y: int)
    requires entry_ok(b, k, e), k < 251, recolored(b, b1, (5 + k) as u8, to, x, y), has(b, (5 + k) as u8, x, y) || (e matches ColoredRegion::Unclaimed { src_x, src_y, .. } && src_x == x && src_y == y)
    ensures forall|i: int, j: int| inside(b, i, j) ==> #[trigger] b1.px(i, j) == (if b.px(i, j) == 5 + k { to } else { b.px(i, j) })
{
    let v = (5 + k) as u8;
    match e {
        ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } => {
            assert forall|i: int, j: int| inside(b, i, j) implies #[trigger] b1.px(i, j) == (if b.px(i, j) == 5 + k { to } else { b.px(i, j) }) by {
                if conn(b, v, x, y, i, j) { conn_has(b, v, x, y, i, j); }
                if b.px(i, j) == 5 + k {
                    assert(has(b, v, i, j));
                    if !(src_x == x && src_y == y) { assert(has(b, v, x, y)); conn_sym(b, v, src_x as int, src_y as int, x, y); conn_trans(b, v, x, y, src_x as int, src_y as int, i, j); }
                }
            }
        },
        _ => { },
    }
}
/// turning a numbered region back to black
proof fn evicted<S: ImageBuffer>(b: S, b1: S, m: Map<u8, ColoredRegion>, k: u8)
    requires table_ok(b, m), m.contains_key(k), b1.w() == b.w(), b1.h() == b.h(), forall|i: int, j: int| inside(b, i, j) ==> #[trigger] b1.px(i, j) == (if b.px(i, j) == 5 + k { 1u8 } else { b.px(i, j) })
    ensures table_ok(b1, m.remove(k))
{
    let m1 = m.remove(k);
    assert(k < 251);
    assert forall|i: u8| #[trigger] m1.contains_key(i) implies i < 251 && entry_ok(b1, i, m1[i]) by {
        assert(m.contains_key(i));
        assert forall|x: int, y: int| inside(b, x, y) implies (#[trigger] b.px(x, y) == 5 + i) == (b1.px(x, y) == 5 + i) by { }
        entry_keeps(b, b1, i, m[i]);
    }
    assert forall|x: int, y: int, u: int, v: int| #[trigger] next_to(x, y, u, v) && free_at(b1, x, y) && free_at(b1, u, v) implies b1.px(x, y) == b1.px(u, v) by { assert(free_at(b, x, y)); assert(free_at(b, u, v)); }
    assert forall|x: int, y: int| inside(b1, x, y) && #[trigger] b1.px(x, y) >= 5 implies m1.contains_key((b1.px(x, y) - 5) as u8) by { assert(inside(b, x, y)); assert(b.px(x, y) >= 5); }
}
/// numbering a black region with a free number
proof fn numbered<S: ImageBuffer>(b: S, b1: S, m: Map<u8, ColoredRegion>, k: u8, x: int, y: int, e: ColoredRegion)
    requires table_ok(b, m), !m.contains_key(k), k < 251, inside(b, x, y), b.px(x, y) == 1, recolored(b, b1, 1, (5 + k) as u8, x, y),
        e matches ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } && color == PixelColor::Discarded(k) && src_x == x && src_y == y && pixel_count == cells(region(b, 1, x, y), b.w() as int, b.h() as int)
    ensures table_ok(b1, m.insert(k, e)), forall|i: int, j: int| inside(b, i, j) ==> (#[trigger] b1.px(i, j) == 5 + k) == conn(b, 1, x, y, i, j)
{
    let m1 = m.insert(k, e); let v = (5 + k) as u8;
    assert forall|i: int, j: int| inside(b, i, j) implies (#[trigger] b1.px(i, j) == 5 + k) == conn(b, 1, x, y, i, j) by {
        if b.px(i, j) == v { assert(b.px(i, j) >= 5); assert(m.contains_key((b.px(i, j) - 5) as u8)); }
    }
    assert forall|i: int, j: int| 0 <= i < b.w() && 0 <= j < b.h() implies #[trigger] of_value(b1, v)(i, j) == region(b, 1, x, y)(i, j) by { assert(inside(b, i, j)); assert((b1.px(i, j) == 5 + k) == conn(b, 1, x, y, i, j)); }
    cells_same(of_value(b1, v), region(b, 1, x, y), b.w() as int, b.h() as int);
    assert forall|i: int, j: int| #[trigger] has(b1, v, i, j) implies conn(b1, v, x, y, i, j) by {
        assert(inside(b, i, j)); assert(conn(b, 1, x, y, i, j));
        // the path runs inside the region, all of whose cells have the new value
        let p = choose|p: Seq<(int, int)>| #[trigger] path(b, 1, p) && p[0] == (x, y) && p.last() == (i, j);
        conn_start(b, 1, x, y);
        assert forall|n: int| 0 <= n < p.len() implies #[trigger] has(b1, v, p[n].0, p[n].1) by { conn_along(b, 1, x, y, p, n); assert(has(b, 1, p[n].0, p[n].1)); assert(inside(b, p[n].0, p[n].1)); }
        assert(path(b1, v, p));
    }
    assert forall|i: u8| #[trigger] m1.contains_key(i) implies i < 251 && entry_ok(b1, i, m1[i]) by {
        if i != k {
            assert(m.contains_key(i));
            assert forall|a: int, c: int| inside(b, a, c) implies (#[trigger] b.px(a, c) == 5 + i) == (b1.px(a, c) == 5 + i) by { if conn(b, 1, x, y, a, c) { conn_has(b, 1, x, y, a, c); } }
            entry_keeps(b, b1, i, m[i]);
        }
    }
    assert forall|a: int, c: int, u: int, w: int| #[trigger] next_to(a, c, u, w) && free_at(b1, a, c) && free_at(b1, u, w) implies b1.px(a, c) == b1.px(u, w) by {
        if conn(b, 1, x, y, a, c) { conn_has(b, 1, x, y, a, c); } if conn(b, 1, x, y, u, w) { conn_has(b, 1, x, y, u, w); }
        assert(free_at(b, a, c)); assert(free_at(b, u, w));
        if conn(b, 1, x, y, a, c) && !conn(b, 1, x, y, u, w) { assert(has(b, 1, u, w)); conn_step(b, 1, x, y, a, c, u, w); }
        if conn(b, 1, x, y, u, w) && !conn(b, 1, x, y, a, c) { assert(has(b, 1, a, c)); assert(next_to(u, w, a, c)); conn_step(b, 1, x, y, u, w, a, c); }
    }
    assert forall|a: int, c: int| inside(b1, a, c) && #[trigger] b1.px(a, c) >= 5 implies m1.contains_key((b1.px(a, c) - 5) as u8) by { assert(inside(b, a, c)); if !conn(b, 1, x, y, a, c) { assert(b.px(a, c) >= 5); } }
}
/// claiming a region (recolouring it to a colour that is not free) keeps the state
proof fn claimed<S: ImageBuffer>(b: S, b1: S, c: LruCache<u8, ColoredRegion>, from: u8, to: u8, x: int, y: int)
    requires held(b, c), inside(b, x, y), b.px(x, y) == from, recolored(b, b1, from, to, x, y), !free(to)
    ensures held(b1, c)
{
    let m = c.map();
    assert forall|i: u8| #[trigger] m.contains_key(i) implies i < 251 && entry_ok(b1, i, m[i]) by {
        if from == 5 + i {
            takes_whole(b, b1, i, m[i], to, x, y);
            assert forall|u: int, w: int| !(#[trigger] has(b1, (5 + i) as u8, u, w)) by { if inside(b1, u, w) { assert(inside(b, u, w)); assert(b1.px(u, w) == b1.px(u, w)); } }
        } else {
            assert forall|a: int, d: int| inside(b, a, d) implies (#[trigger] b.px(a, d) == 5 + i) == (b1.px(a, d) == 5 + i) by { if conn(b, from, x, y, a, d) { conn_has(b, from, x, y, a, d); } }
            entry_keeps(b, b1, i, m[i]);
        }
    }
    assert forall|a: int, d: int, u: int, w: int| #[trigger] next_to(a, d, u, w) && free_at(b1, a, d) && free_at(b1, u, w) implies b1.px(a, d) == b1.px(u, w) by { assert(inside(b, a, d)); assert(inside(b, u, w)); assert(free_at(b, a, d)); assert(free_at(b, u, w)); }
    assert forall|a: int, d: int| inside(b1, a, d) && #[trigger] b1.px(a, d) >= 5 implies m.contains_key((b1.px(a, d) - 5) as u8) by { assert(inside(b, a, d)); assert(b.px(a, d) >= 5); }
}
/// a fresh image is in the state
proof fn fresh<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>)
    requires c.wf(), c.room() == 251, c.order().len() == 0, c.map() == Map::<u8, ColoredRegion>::empty(), b.w() * b.h() <= usize::MAX, forall|x: int, y: int| inside(b, x, y) ==> #[trigger] b.px(x, y) < 2
    ensures held(b, c)
{
    assert forall|x: int, y: int, u: int, v: int| #[trigger] next_to(x, y, u, v) && free_at(b, x, y) && free_at(b, u, v) implies b.px(x, y) == b.px(u, v) by { assert(b.px(x, y) < 2); assert(b.px(u, v) < 2); }
}
/// the answer to a query of a dark pixel
spec fn answer<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>, b1: S, c1: LruCache<u8, ColoredRegion>, x: int, y: int, r: ColoredRegion) -> bool {
    let v = b.px(x, y);
    &&& held(b1, c1) && b1.w() == b.w() && b1.h() == b.h()
    &&& v == 2 ==> r == ColoredRegion::CapStone && b1 == b && c1 == c
    &&& v == 3 ==> r == ColoredRegion::Alignment && b1 == b && c1 == c
    &&& v == 4 ==> r == ColoredRegion::Tmp1 && b1 == b && c1 == c
    &&& free(v) ==> (r matches ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } && pixel_count == cells(whole_region(b, x, y), b.w() as int, b.h() as int)
        && (color matches PixelColor::Discarded(k) && given(b, c, b1, c1, x, y, k)))
}
/// the region of (x, y) carries number k, and only it; the least recently used number was taken back if there was none left
spec fn given<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>, b1: S, c1: LruCache<u8, ColoredRegion>, x: int, y: int, k: u8) -> bool {
    &&& forall|i: int, j: int| inside(b, i, j) ==> #[trigger] b1.px(i, j) == (if same_region(b, x, y, i, j) { (5 + k) as u8 } else if b.px(i, j) == 5 + k { 1u8 } else { b.px(i, j) })
    &&& k < 251 && c1.order().last() == k
    &&& b.px(x, y) >= 5 ==> k == b.px(x, y) - 5 && b1 == b
    &&& b.px(x, y) == 1 ==> k == (if c.order().len() == 251 { c.order()[0] } else { c.order().len() as u8 })
}
proof fn known_region<S: ImageBuffer>(b: S, c: LruCache<u8, ColoredRegion>, x: int, y: int)
    requires held(b, c), inside(b, x, y), b.px(x, y) >= 5
    ensures c.map().contains_key((b.px(x, y) - 5) as u8), c.map()[(b.px(x, y) - 5) as u8] matches ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } && color == PixelColor::Discarded((b.px(x, y) - 5) as u8) && pixel_count == cells(whole_region(b, x, y), b.w() as int, b.h() as int),
        forall|i: int, j: int| inside(b, i, j) ==> (#[trigger] b.px(i, j) == b.px(x, y)) == same_region(b, x, y, i, j)
{
    let v = b.px(x, y); let k = (v - 5) as u8; assert((5 + k) as u8 == v);
    assert(c.map().contains_key(k)); assert(entry_ok(b, k, c.map()[k])); assert(has(b, v, x, y)); assert(free_at(b, x, y));
    match c.map()[k] {
        ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } => {
            assert forall|i: int, j: int| inside(b, i, j) implies (#[trigger] b.px(i, j) == v) == same_region(b, x, y, i, j) by {
                region_is(b, x, y, i, j);
                if b.px(i, j) == v { assert(has(b, v, i, j)); conn_sym(b, v, src_x as int, src_y as int, x, y); conn_trans(b, v, x, y, src_x as int, src_y as int, i, j); }
                if conn(b, v, x, y, i, j) { conn_has(b, v, x, y, i, j); }
            }
            assert forall|i: int, j: int| inside(b, i, j) implies #[trigger] of_value(b, v)(i, j) == whole_region(b, x, y)(i, j) by { assert((b.px(i, j) == v) == same_region(b, x, y, i, j)); }
            cells_same(of_value(b, v), whole_region(b, x, y), b.w() as int, b.h() as int);
        },
        _ => { },
    }
}
/// turning number k back to black does not change what the regions are
proof fn new_region<S: ImageBuffer>(b: S, b1: S, k: u8, x: int, y: int, i: int, j: int)
    requires b1.w() == b.w(), b1.h() == b.h(), uniform(b1), inside(b, x, y), b1.px(x, y) == 1, k < 251, forall|u: int, w: int| inside(b, u, w) ==> #[trigger] b1.px(u, w) == (if b.px(u, w) == 5 + k { 1u8 } else { b.px(u, w) })
    ensures same_region(b, x, y, i, j) == conn(b1, 1, x, y, i, j)
{
    assert forall|u: int, w: int| inside(b, u, w) implies free(b.px(u, w)) == free(#[trigger] b1.px(u, w)) by { }
    assert forall|u: int, w: int| inside(b1, u, w) implies free(b1.px(u, w)) == free(#[trigger] b.px(u, w)) by { assert(inside(b, u, w)); assert(b1.px(u, w) == b1.px(u, w)); }
    if same_region(b, x, y, i, j) { region_keeps(b, b1, x, y, i, j); }
    if same_region(b1, x, y, i, j) { region_keeps(b1, b, x, y, i, j); }
    assert(free_at(b1, x, y));
    region_is(b1, x, y, i, j);
}
impl<S> PreparedImage<S> where S: ImageBuffer {
    //@fn src/prepare.rs PreparedImage::repaint_and_apply
    //@sub "(\w+)\s*\.into\(\)" "u8_of(\1)"
    //@sub "PixelColor::White\s*==\s*(\w+)" "PixelColor::White.eq_u8(&\1)"
    //@sub "target_color\s*==\s*(\w+)" "target_color.eq_u8(&\1)"
    //@ret r
    //@sig
        requires inside(old(self).buffer, _p0.0 as int, _p0.1 as int), has_value(target_color), old(self).buffer.px(_p0.0 as int, _p0.1 as int) != 0, old(self).buffer.px(_p0.0 as int, _p0.1 as int) != value_of(target_color),
            takes_all(fill, old(self).buffer.w() as int, old(self).buffer.h() as int)
        ensures final(self).cache == old(self).cache, recolored(old(self).buffer, final(self).buffer, old(self).buffer.px(_p0.0 as int, _p0.1 as int), value_of(target_color) as u8, _p0.0 as int, _p0.1 as int),
            exists|rows: Seq<Row>| #[trigger] region_runs(old(self).buffer, old(self).buffer.px(_p0.0 as int, _p0.1 as int), _p0.0 as int, _p0.1 as int, rows) && fed(fill, rows, r)
    //@endfn
    //@fn src/prepare.rs PreparedImage::get_region
    //@sub "\|_(?:unused)?\|\s*\(\)" "NoFill"
    //@sub "((?:\w+::)?\b\w+)\s*\.into\(\)" "u8_of(\1)"
    //@ret r
    //@sig
        requires inside(old(self).buffer, _p0.0 as int, _p0.1 as int), held(old(self).buffer, old(self).cache), old(self).buffer.px(_p0.0 as int, _p0.1 as int) != 0
        ensures answer(old(self).buffer, old(self).cache, final(self).buffer, final(self).cache, _p0.0 as int, _p0.1 as int, r)
    //@start
        let ghost b0 = self.buffer; let ghost c0 = self.cache; let ghost xi = x as int; let ghost yi = y as int; let ghost v0 = b0.px(xi, yi);
        proof { if v0 >= 5 { known_region(b0, c0, xi, yi); } }
    //@before "let next_reg_color" 0
        let ghost b1 = self.buffer; let ghost c1 = self.cache;
        proof {
            if c0.order().len() == 251 {
                let e = c0.map()[reg_idx];
                assert(c0.map().contains_key(reg_idx)); assert(entry_ok(b0, reg_idx, e));
                match e { ColoredRegion::Unclaimed { color, src_x, src_y, pixel_count } => { takes_whole(b0, b1, reg_idx, e, 1, src_x as int, src_y as int); }, _ => { } }
                evicted(b0, b1, c0.map(), reg_idx);
            } else { assert forall|i: int, j: int| inside(b0, i, j) implies #[trigger] b0.px(i, j) != 5 + reg_idx by { if b0.px(i, j) >= 5 { assert(c0.map().contains_key((b0.px(i, j) - 5) as u8)); } } }
            assert(b1.px(xi, yi) == 1);
            counter_takes_all(AreaCounter(0), b1.w() as int, b1.h() as int);
        }
    //@after "self.cache.put" 0
        proof {
            let b2 = self.buffer;
            let rows = choose|rows: Seq<Row>| #[trigger] region_runs(b1, 1, xi, yi, rows) && fed(AreaCounter(0), rows, counter);
            counted(AreaCounter(0), rows, counter, b1.w() as int, b1.h() as int);
            numbered(b1, b2, c1.map(), reg_idx, xi, yi, new_reg);
            assert forall|i: int, j: int| inside(b0, i, j) implies #[trigger] whole_region(b0, xi, yi)(i, j) == region(b1, 1, xi, yi)(i, j) by { new_region(b0, b1, reg_idx, xi, yi, i, j); }
            cells_same(whole_region(b0, xi, yi), region(b1, 1, xi, yi), b0.w() as int, b0.h() as int);
            assert forall|i: int, j: int| inside(b0, i, j) implies #[trigger] b2.px(i, j) == (if same_region(b0, xi, yi, i, j) { (5 + reg_idx) as u8 } else if b0.px(i, j) == 5 + reg_idx { 1u8 } else { b0.px(i, j) }) by {
                assert(whole_region(b0, xi, yi)(i, j) == region(b1, 1, xi, yi)(i, j));
                assert(b1.px(i, j) == (if b0.px(i, j) == 5 + reg_idx { 1u8 } else { b0.px(i, j) }));
            }
        }
    //@endfn
}
