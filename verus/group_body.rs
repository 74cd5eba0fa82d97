//@item src/identify/match_capstones.rs struct Neighbor derive=Clone,Copy reals=1
// ------------------------------------------------------------------ definitions used by the rewrites
/// a for loop over a Vec takes its elements from the front (R15)
fn stdx_next<T>(v: &mut Vec<T>) -> (r: Option<T>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> r == Some(old(v)@[0]) && final(v)@ == old(v)@.skip(1)
{ if v.len() == 0 { None } else { let x = v.remove(0); proof { assert(v@ =~= old(v)@.skip(1)); } Some(x) } }
/// std: documented behaviour of sort_unstable_by (and sort_by) for a total order (assumed): the same elements, in order
#[verifier::external_body]
fn stdx_sort_by<T, F: Fn(&T, &T) -> core::cmp::Ordering>(v: &mut Vec<T>, f: F, Ghost(key): Ghost<spec_fn(T) -> real>)
    requires forall|a: &T, b: &T| f.requires((a, b)), forall|a: &T, b: &T, o: core::cmp::Ordering| #[trigger] f.ensures((a, b), o) ==> o == by_key(key(*a), key(*b))
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), forall|i: int, j: int| 0 <= i < j < final(v)@.len() ==> key(#[trigger] final(v)@[i]) <= key(#[trigger] final(v)@[j])
{ v.sort_by(f) }
spec fn by_key(x: real, y: real) -> core::cmp::Ordering { if x < y { core::cmp::Ordering::Less } else if x == y { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater } }
/// std: documented behaviour of <[usize]>::contains (assumed)
pub assume_specification<T: PartialEq> [<[T]>::contains] (s: &[T], x: &T) -> (r: bool) ensures T::obeys_eq_spec() ==> r == exists|k: int| 0 <= k < s@.len() && (#[trigger] s@[k]).eq_spec(x);
// ------------------------------------------------------------------ partners of a finder
spec fn size(x: real) -> real { if x < 0real { -x } else { x } }
/// distance of finder j from finder i, to the side and up or down, in modules of finder i
spec fn aside(cs: Seq<CapStone>, i: int, j: int) -> real { size(unmapped(cs[i].c, cs[j].center).0 - 7real / 2real) }
spec fn ahead(cs: Seq<CapStone>, i: int, j: int) -> real { size(unmapped(cs[i].c, cs[j].center).1 - 7real / 2real) }
/// j lies above or below i, j lies beside i
spec fn over(cs: Seq<CapStone>, i: int, j: int) -> bool { j != i && aside(cs, i, j) < ahead(cs, i, j) / 5real }
spec fn beside(cs: Seq<CapStone>, i: int, j: int) -> bool { j != i && ahead(cs, i, j) < aside(cs, i, j) / 5real }
spec fn columns(cs: Seq<CapStone>, i: int, n: int) -> Seq<Neighbor> decreases n {
    if n <= 0 { seq![] } else { let p = columns(cs, i, n - 1); if over(cs, i, n - 1) { p.push(Neighbor { index: (n - 1) as usize, distance: fl(ahead(cs, i, n - 1)) }) } else { p } }
}
spec fn lines(cs: Seq<CapStone>, i: int, n: int) -> Seq<Neighbor> decreases n {
    if n <= 0 { seq![] } else { let p = lines(cs, i, n - 1); if beside(cs, i, n - 1) { p.push(Neighbor { index: (n - 1) as usize, distance: fl(aside(cs, i, n - 1)) }) } else { p } }
}
//@fn src/identify/match_capstones.rs find_possible_neighbors reals=2
//@ret r
//@sig
    requires idx < capstones@.len()
    ensures r.0@ == columns(capstones@, idx as int, capstones@.len() as int), r.1@ == lines(capstones@, idx as int, capstones@.len() as int)
//@loop 0
    invariant 0 <= others_idx <= capstones@.len(), *cap == capstones@[idx as int], hlist@ == columns(capstones@, idx as int, others_idx as int), vlist@ == lines(capstones@, idx as int, others_idx as int)
//@endfn
// ------------------------------------------------------------------ pairs of partners
/// how much two distances differ, as a share of the larger one
spec fn uneven(x: real, y: real) -> real { if x < y { size(1real - x / y) } else { size(1real - y / x) } }
proof fn uneven_is(x: real, y: real)
    requires 0real < x, 0real < y
    ensures x <= y ==> uneven(x, y) * y == y - x && 0real <= uneven(x, y) < 1real, y <= x ==> uneven(x, y) * x == x - y && 0real <= uneven(x, y) < 1real
{
    let (a, b) = if x < y { (x, y) } else { (y, x) };
    let q = a / b;
    assert(q * b == a) by (nonlinear_arith) requires q == a / b, b > 0real;
    assert(0real < q <= 1real) by (nonlinear_arith) requires q * b == a, 0real < a <= b;
    assert((1real - q) * b == b - a) by (nonlinear_arith) requires q * b == a;
    if x == y { assert(uneven(x, y) == 1real - q); }
}
/// h above or below and v beside finder i at about the same distance: they differ by less than a quarter of the larger
spec fn partners(cs: Seq<CapStone>, i: int, h: int, v: int) -> bool { 0 <= h < cs.len() && 0 <= v < cs.len() && over(cs, i, h) && beside(cs, i, v) && uneven(ahead(cs, i, h), aside(cs, i, v)) < 1real / 4real }
spec fn skew(cs: Seq<CapStone>, i: int, p: (usize, usize)) -> real { uneven(ahead(cs, i, p.0 as int), aside(cs, i, p.1 as int)) }
/// all pairs of partners of finder i, each once, the most even ones first
spec fn ranked(cs: Seq<CapStone>, i: int, ps: Seq<(usize, usize)>) -> bool {
    &&& ps.no_duplicates()
    &&& forall|h: usize, v: usize| #[trigger] ps.contains((h, v)) <==> partners(cs, i, h as int, v as int)
    &&& forall|a: int, b: int| 0 <= a < b < ps.len() ==> skew(cs, i, #[trigger] ps[a]) <= skew(cs, i, #[trigger] ps[b])
}
spec fn columns_ok(cs: Seq<CapStone>, i: int, n: int, hs: Seq<Neighbor>) -> bool {
    &&& forall|k: int| 0 <= k < hs.len() ==> (#[trigger] hs[k]).index < n && over(cs, i, hs[k].index as int) && hs[k].distance == fl(ahead(cs, i, hs[k].index as int))
    &&& forall|j: int| 0 <= j < n && #[trigger] over(cs, i, j) ==> exists|k: int| 0 <= k < hs.len() && (#[trigger] hs[k]).index == j
    &&& forall|k: int, l: int| 0 <= k < l < hs.len() ==> (#[trigger] hs[k]).index != (#[trigger] hs[l]).index
}
spec fn lines_ok(cs: Seq<CapStone>, i: int, n: int, hs: Seq<Neighbor>) -> bool {
    &&& forall|k: int| 0 <= k < hs.len() ==> (#[trigger] hs[k]).index < n && beside(cs, i, hs[k].index as int) && hs[k].distance == fl(aside(cs, i, hs[k].index as int))
    &&& forall|j: int| 0 <= j < n && #[trigger] beside(cs, i, j) ==> exists|k: int| 0 <= k < hs.len() && (#[trigger] hs[k]).index == j
    &&& forall|k: int, l: int| 0 <= k < l < hs.len() ==> (#[trigger] hs[k]).index != (#[trigger] hs[l]).index
}
proof fn columns_are(cs: Seq<CapStone>, i: int, n: int)
    requires n <= usize::MAX
    ensures columns_ok(cs, i, n, columns(cs, i, n))
    decreases n
{
    if n > 0 {
        columns_are(cs, i, n - 1);
        let p = columns(cs, i, n - 1); let q = columns(cs, i, n);
        assert forall|j: int| 0 <= j < n && #[trigger] over(cs, i, j) implies exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).index == j by {
            if j == n - 1 { assert(q[q.len() - 1].index == j); } else { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).index == j; assert(q[k].index == j); }
        }
    }
}
proof fn lines_are(cs: Seq<CapStone>, i: int, n: int)
    requires n <= usize::MAX
    ensures lines_ok(cs, i, n, lines(cs, i, n))
    decreases n
{
    if n > 0 {
        lines_are(cs, i, n - 1);
        let p = lines(cs, i, n - 1); let q = lines(cs, i, n);
        assert forall|j: int| 0 <= j < n && #[trigger] beside(cs, i, j) implies exists|k: int| 0 <= k < q.len() && (#[trigger] q[k]).index == j by {
            if j == n - 1 { assert(q[q.len() - 1].index == j); } else { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).index == j; assert(q[k].index == j); }
        }
    }
}
/// the set made of column partner h and line partner v
spec fn set_of(h: Neighbor, v: Neighbor) -> NeighborSet { NeighborSet { score: fl(uneven(h.distance.r(), v.distance.r())), h_index: h.index, v_index: v.index } }
spec fn even(h: Neighbor, v: Neighbor) -> bool { uneven(h.distance.r(), v.distance.r()) < 1real / 4real }
/// res holds the even pairs of the first a columns with all lines, and of column a with the first b lines
spec fn sets_upto(hs: Seq<Neighbor>, vs: Seq<Neighbor>, a: int, b: int, res: Seq<NeighborSet>) -> bool {
    &&& forall|k: int| 0 <= k < res.len() ==> made_of(hs, vs, a, b, #[trigger] res[k])
    &&& forall|x: int, y: int| #[trigger] earlier(hs, vs, a, b, x, y) && even(hs[x], vs[y]) ==> res.contains(set_of(hs[x], vs[y]))
    &&& res.no_duplicates()
}
spec fn earlier(hs: Seq<Neighbor>, vs: Seq<Neighbor>, a: int, b: int, x: int, y: int) -> bool { 0 <= x < hs.len() && 0 <= y < vs.len() && (x < a || (x == a && y < b)) }
spec fn made_of(hs: Seq<Neighbor>, vs: Seq<Neighbor>, a: int, b: int, s: NeighborSet) -> bool { exists|x: int, y: int| #[trigger] earlier(hs, vs, a, b, x, y) && even(hs[x], vs[y]) && s == set_of(hs[x], vs[y]) }
proof fn one_set(cs: Seq<CapStone>, i: int, hs: Seq<Neighbor>, vs: Seq<Neighbor>, a: int, b: int, res: Seq<NeighborSet>, res1: Seq<NeighborSet>)
    requires columns_ok(cs, i, cs.len() as int, hs), lines_ok(cs, i, cs.len() as int, vs), sets_upto(hs, vs, a, b, res), 0 <= a < hs.len(), 0 <= b < vs.len(), res1 == (if even(hs[a], vs[b]) { res.push(set_of(hs[a], vs[b])) } else { res })
    ensures sets_upto(hs, vs, a, b + 1, res1)
{
    let s = set_of(hs[a], vs[b]);
    assert forall|k: int| 0 <= k < res1.len() implies made_of(hs, vs, a, b + 1, #[trigger] res1[k]) by {
        if k < res.len() { assert(made_of(hs, vs, a, b, res[k])); let (x, y) = choose|x: int, y: int| #[trigger] earlier(hs, vs, a, b, x, y) && even(hs[x], vs[y]) && res[k] == set_of(hs[x], vs[y]); assert(earlier(hs, vs, a, b + 1, x, y)); }
        else { assert(earlier(hs, vs, a, b + 1, a, b)); }
    }
    assert forall|x: int, y: int| #[trigger] earlier(hs, vs, a, b + 1, x, y) && even(hs[x], vs[y]) implies res1.contains(set_of(hs[x], vs[y])) by {
        if x == a && y == b { assert(res1[res1.len() - 1] == s); } else { assert(earlier(hs, vs, a, b, x, y)); let k = choose|k: int| 0 <= k < res.len() && res[k] == set_of(hs[x], vs[y]); assert(res1[k] == set_of(hs[x], vs[y])); }
    }
    if even(hs[a], vs[b]) {
        assert(!res.contains(s)) by {
            if res.contains(s) { let k = choose|k: int| 0 <= k < res.len() && res[k] == s; assert(made_of(hs, vs, a, b, res[k])); let (x, y) = choose|x: int, y: int| #[trigger] earlier(hs, vs, a, b, x, y) && even(hs[x], vs[y]) && res[k] == set_of(hs[x], vs[y]); assert(hs[x].index == hs[a].index && vs[y].index == vs[b].index); assert(x == a && y == b); }
        }
        assert(res1.no_duplicates());
    }
}
proof fn next_row(hs: Seq<Neighbor>, vs: Seq<Neighbor>, a: int, res: Seq<NeighborSet>)
    requires sets_upto(hs, vs, a, vs.len() as int, res), 0 <= a < hs.len()
    ensures sets_upto(hs, vs, a + 1, 0, res)
{
    assert forall|k: int| 0 <= k < res.len() implies made_of(hs, vs, a + 1, 0, #[trigger] res[k]) by {
        assert(made_of(hs, vs, a, vs.len() as int, res[k])); let (x, y) = choose|x: int, y: int| #[trigger] earlier(hs, vs, a, vs.len() as int, x, y) && even(hs[x], vs[y]) && res[k] == set_of(hs[x], vs[y]); assert(earlier(hs, vs, a + 1, 0, x, y));
    }
    assert forall|x: int, y: int| #[trigger] earlier(hs, vs, a + 1, 0, x, y) && even(hs[x], vs[y]) implies res.contains(set_of(hs[x], vs[y])) by { assert(earlier(hs, vs, a, vs.len() as int, x, y)); }
}
/// sets that cover all, in order of their score, taken as pairs
proof fn rank_is(cs: Seq<CapStone>, i: int, hs: Seq<Neighbor>, vs: Seq<Neighbor>, res: Seq<NeighborSet>, ord: Seq<NeighborSet>, ps: Seq<(usize, usize)>)
    requires columns_ok(cs, i, cs.len() as int, hs), lines_ok(cs, i, cs.len() as int, vs), cs.len() <= usize::MAX, sets_upto(hs, vs, hs.len() as int, 0, res), ord.to_multiset() == res.to_multiset(),
        forall|a: int, b: int| 0 <= a < b < ord.len() ==> (#[trigger] ord[a]).score.r() <= (#[trigger] ord[b]).score.r(),
        ps.len() == ord.len(), forall|k: int| 0 <= k < ps.len() ==> #[trigger] ps[k] == (ord[k].h_index, ord[k].v_index)
    ensures ranked(cs, i, ps)
{
    let hl = hs.len() as int;
    res.to_multiset_ensures(); ord.to_multiset_ensures();
    res.lemma_multiset_has_no_duplicates();
    assert forall|x: NeighborSet| ord.to_multiset().contains(x) implies ord.to_multiset().count(x) == 1 by { assert(res.to_multiset().contains(x)); }
    ord.lemma_multiset_has_no_duplicates_conv();
    assert forall|k: int| 0 <= k < ord.len() implies partners(cs, i, (#[trigger] ord[k]).h_index as int, ord[k].v_index as int) && ord[k].score == fl(uneven(ahead(cs, i, ord[k].h_index as int), aside(cs, i, ord[k].v_index as int))) by {
        assert(ord.contains(ord[k])); assert(ord.to_multiset().contains(ord[k])); assert(res.to_multiset().contains(ord[k])); assert(res.contains(ord[k]));
        let m = choose|m: int| 0 <= m < res.len() && res[m] == ord[k]; assert(made_of(hs, vs, hl, 0, res[m]));
        let (x, y) = choose|x: int, y: int| #[trigger] earlier(hs, vs, hl, 0, x, y) && even(hs[x], vs[y]) && res[m] == set_of(hs[x], vs[y]);
        assert(over(cs, i, hs[x].index as int) && beside(cs, i, vs[y].index as int));
    }
    assert forall|h: usize, v: usize| partners(cs, i, h as int, v as int) implies #[trigger] ps.contains((h, v)) by {
        let x = choose|x: int| 0 <= x < hs.len() && (#[trigger] hs[x]).index == h as int; let y = choose|y: int| 0 <= y < vs.len() && (#[trigger] vs[y]).index == v as int;
        assert(earlier(hs, vs, hl, 0, x, y)); assert(even(hs[x], vs[y])); assert(res.contains(set_of(hs[x], vs[y])));
        assert(res.to_multiset().contains(set_of(hs[x], vs[y]))); assert(ord.to_multiset().contains(set_of(hs[x], vs[y])));
        assert(ord.contains(set_of(hs[x], vs[y]))); let k = choose|k: int| 0 <= k < ord.len() && ord[k] == set_of(hs[x], vs[y]); assert(ps[k] == (h, v));
    }
    assert forall|a: int, b: int| 0 <= a < ps.len() && 0 <= b < ps.len() && a != b implies ps[a] != ps[b] by {
        if ps[a] == ps[b] { assert(ord[a] == ord[b]); }
    }
    assert forall|a: int, b: int| 0 <= a < b < ps.len() implies skew(cs, i, #[trigger] ps[a]) <= skew(cs, i, #[trigger] ps[b]) by { assert(ord[a].score.r() <= ord[b].score.r()); }
}
//@fn src/identify/match_capstones.rs find_and_rank_possible_neighbors reals=2 iter=vec sortkey=NeighborSet:score.r()
//@ret r
//@sig
    requires idx < capstones@.len()
    ensures ranked(capstones@, idx as int, r@)
//@start
    let ghost cs = capstones@; let ghost i = idx as int; let ghost n = cs.len() as int;
    let ghost hs = columns(cs, i, n); let ghost vs = lines(cs, i, n); let ghost mut all: Seq<NeighborSet> = seq![];
    proof { assert(capstones.len() <= usize::MAX); columns_are(cs, i, n); lines_are(cs, i, n); }
//@loop 0
    invariant n <= usize::MAX, _s0 == hs, vlist@ == vs, sets_upto(hs, vs, _n0, 0, res@)
//@loop 0 begin
    let ghost a = _n0;
//@loop 1
    invariant 0 <= a < hs.len(), _s1 == vs, sets_upto(hs, vs, a, _n1, res@)
//@loop 1 begin
    let ghost res0 = res@;
//@loop 1 end all
    proof { one_set(cs, i, hs, vs, a, _n1, res0, res@); }
//@loop 1 after
    proof { next_row(hs, vs, a, res@); }
//@loop 0 after
    proof { all = res@; }
//@loop 2
    invariant _c2@.len() == _n2, forall|k: int| 0 <= k < _n2 ==> #[trigger] _c2@[k] == (_s2[k].h_index, _s2[k].v_index)
//@loop 2 after
    proof { rank_is(cs, i, hs, vs, all, _s2, _c2@); }
//@endfn
// ------------------------------------------------------------------ choosing groups
spec fn group_of(cs: Seq<CapStone>, t: (usize, usize, usize)) -> CapStoneGroup { CapStoneGroup(cs[t.0 as int], cs[t.1 as int], cs[t.2 as int]) }
/// whether locating the group succeeds on a copy of the image
spec fn verdict<S: ImageBuffer>(i0: &PreparedImage<S>, g: CapStoneGroup, yes: bool) -> bool {
    exists|c: PreparedImage<S>, i1: PreparedImage<S>, r: Option<SkewedGridLocation>| same_state(i0, &c) && #[trigger] located(&c, g, &i1, r) && yes == (r is Some)
}
spec fn taken_by(st: Seq<(usize, usize, usize)>, k: usize) -> bool { exists|j: int| 0 <= j < st.len() && in_triple(#[trigger] st[j], k) }
spec fn in_triple(t: (usize, usize, usize), k: usize) -> bool { t.0 == k || t.1 == k || t.2 == k }
/// one pair of partners p of finder i, st are the groups so far
spec fn pair_step<S: ImageBuffer>(i0: &PreparedImage<S>, cs: Seq<CapStone>, i: usize, p: (usize, usize), st: Seq<(usize, usize, usize)>, st1: Seq<(usize, usize, usize)>) -> bool {
    if taken_by(st, p.0) || taken_by(st, p.1) { st1 == st }
    else { exists|yes: bool| #[trigger] verdict(i0, group_of(cs, (p.0, i, p.1)), yes) && st1 == (if yes { st.push((p.0, i, p.1)) } else { st }) }
}
/// the first n pairs of partners of finder i
spec fn after_pairs<S: ImageBuffer>(i0: &PreparedImage<S>, cs: Seq<CapStone>, i: usize, ps: Seq<(usize, usize)>, n: int, st: Seq<(usize, usize, usize)>, st1: Seq<(usize, usize, usize)>) -> bool decreases n {
    if n <= 0 { st1 == st } else { exists|m: Seq<(usize, usize, usize)>| after_pairs(i0, cs, i, ps, n - 1, st, m) && #[trigger] pair_step(i0, cs, i, ps[n - 1], m, st1) }
}
/// one finder: passed over if it is in a group, else its partners are tried, the most even first
spec fn finder_step<S: ImageBuffer>(i0: &PreparedImage<S>, cs: Seq<CapStone>, i: usize, st: Seq<(usize, usize, usize)>, st1: Seq<(usize, usize, usize)>) -> bool {
    if taken_by(st, i) { st1 == st } else { exists|ps: Seq<(usize, usize)>| #[trigger] ranked(cs, i as int, ps) && after_pairs(i0, cs, i, ps, ps.len() as int, st, st1) }
}
spec fn after_finders<S: ImageBuffer>(i0: &PreparedImage<S>, cs: Seq<CapStone>, n: int, st1: Seq<(usize, usize, usize)>) -> bool decreases n {
    if n <= 0 { st1.len() == 0 } else { exists|m: Seq<(usize, usize, usize)>| after_finders(i0, cs, n - 1, m) && #[trigger] finder_step(i0, cs, (n - 1) as usize, m, st1) }
}
spec fn triples_in(st: Seq<(usize, usize, usize)>, n: int) -> bool { forall|j: int| 0 <= j < st.len() ==> (#[trigger] st[j]).0 < n && st[j].1 < n && st[j].2 < n }
/// the groups of an image for these finders
spec fn grouped<S: ImageBuffer>(i0: &PreparedImage<S>, cs: Seq<CapStone>, r: Seq<CapStoneGroup>) -> bool {
    exists|st: Seq<(usize, usize, usize)>| #[trigger] after_finders(i0, cs, cs.len() as int, st) && triples_in(st, cs.len() as int) && groups_are(cs, st, r)
}
spec fn groups_are(cs: Seq<CapStone>, st: Seq<(usize, usize, usize)>, r: Seq<CapStoneGroup>) -> bool { r.len() == st.len() && forall|j: int| 0 <= j < r.len() ==> #[trigger] r[j] == group_of(cs, st[j]) }
spec fn fits<S: ImageBuffer>(i0: &PreparedImage<S>, g: CapStoneGroup) -> bool { corners_close(g.0) && corners_close(g.1) && corners_close(g.2) && forall|t: CapStoneGroup| #[trigger] oriented(g, t) ==> placeable(i0, t) }
/// not shown for every image (see C19): the coordinates that come out of the perspectives of any three finders stay in range
spec fn tame<S: ImageBuffer>(i0: &PreparedImage<S>, cs: Seq<CapStone>) -> bool {
    forall|t: (usize, usize, usize)| t.0 < cs.len() && t.1 < cs.len() && t.2 < cs.len() ==> fits(i0, #[trigger] group_of(cs, t))
}
spec fn in_order<S: ImageBuffer>(i: &PreparedImage<S>) -> bool { ready(i.buffer, i.cache) && i.scannable() && i.buffer.w() <= 16384 && i.buffer.h() <= 16384 }
spec fn marked(used: Seq<usize>, st: Seq<(usize, usize, usize)>) -> bool { forall|k: usize| #[trigger] used.contains(k) == taken_by(st, k) }
proof fn copy_ready<S: ImageBuffer>(a: &PreparedImage<S>, b: &PreparedImage<S>) requires ready(a.buffer, a.cache), same_state(a, b) ensures ready(b.buffer, b.cache) { reveal(ready); }
proof fn has_room<S: ImageBuffer>(a: &PreparedImage<S>) requires ready(a.buffer, a.cache) ensures a.cache.wf(), a.cache.room() > 0 { reveal(ready); }
proof fn takes_more(st: Seq<(usize, usize, usize)>, t: (usize, usize, usize))
    ensures forall|k: usize| #[trigger] taken_by(st.push(t), k) == (taken_by(st, k) || in_triple(t, k))
{
    let q = st.push(t);
    assert forall|k: usize| #[trigger] taken_by(q, k) == (taken_by(st, k) || in_triple(t, k)) by {
        if taken_by(q, k) { let j = choose|j: int| 0 <= j < q.len() && in_triple(#[trigger] q[j], k); if j < st.len() { assert(in_triple(st[j], k)); } }
        if taken_by(st, k) { let j = choose|j: int| 0 <= j < st.len() && in_triple(#[trigger] st[j], k); assert(in_triple(q[j], k)); }
        if in_triple(t, k) { assert(in_triple(q[st.len() as int], k)); }
    }
}
proof fn next_pair<S: ImageBuffer>(i0: &PreparedImage<S>, cs: Seq<CapStone>, i: usize, ps: Seq<(usize, usize)>, n: int, st0: Seq<(usize, usize, usize)>, m: Seq<(usize, usize, usize)>, st1: Seq<(usize, usize, usize)>)
    requires n >= 1, after_pairs(i0, cs, i, ps, n - 1, st0, m), pair_step(i0, cs, i, ps[n - 1], m, st1)
    ensures after_pairs(i0, cs, i, ps, n, st0, st1)
{ }
proof fn next_finder<S: ImageBuffer>(i0: &PreparedImage<S>, cs: Seq<CapStone>, n: int, m: Seq<(usize, usize, usize)>, st1: Seq<(usize, usize, usize)>)
    requires 1 <= n <= usize::MAX, after_finders(i0, cs, n - 1, m), finder_step(i0, cs, (n - 1) as usize, m, st1)
    ensures after_finders(i0, cs, n, st1)
{ }
/// three more are used
proof fn more_used(u: Seq<usize>, v: Seq<usize>, st: Seq<(usize, usize, usize)>, t: (usize, usize, usize))
    requires marked(u, st), v.len() == u.len() + 3, forall|j: int| 0 <= j < u.len() ==> #[trigger] v[j] == u[j], ({ let l = u.len() as int; let a = v[l]; let b = v[l + 1]; let c = v[l + 2]; forall|k: usize| #[trigger] in_triple((a, b, c), k) == in_triple(t, k) })
    ensures marked(v, st.push(t))
{
    takes_more(st, t);
    let l = u.len() as int;
    assert forall|k: usize| #[trigger] v.contains(k) == taken_by(st.push(t), k) by {
        assert(in_triple((v[l], v[l + 1], v[l + 2]), k) == in_triple(t, k)); assert(u.contains(k) == taken_by(st, k));
        if v.contains(k) { let j = choose|j: int| 0 <= j < v.len() && v[j] == k; if j < l { assert(u[j] == k); } }
        if u.contains(k) { let j = choose|j: int| 0 <= j < u.len() && u[j] == k; assert(v[j] == k); }
    }
}
proof fn has_it(s: Seq<usize>, x: usize) ensures (exists|k: int| 0 <= k < s.len() && PartialEqSpec::eq_spec(&(#[trigger] s[k]), &x)) == s.contains(x), <usize as PartialEqSpec>::obeys_eq_spec()
{ if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(PartialEqSpec::eq_spec(&s[k], &x)); } }
impl<S> PreparedImage<S> where S: ImageBuffer + Clone {
    //@fn src/prepare.rs PreparedImage::find_groupings iter=vec
    //@ret r
    //@sig
        requires in_order(old(self)), tame(old(self), capstones@), faithful::<S>()
        ensures *final(self) == *old(self), grouped(old(self), capstones@, r@)
    //@start
        let ghost i0 = *self; let ghost cs = capstones@; let ghost n = cs.len() as int; let ghost mut st: Seq<(usize, usize, usize)> = seq![];
        proof { has_room(self); assert(after_finders(&i0, cs, 0, st)); }
    //@loop 0
        invariant *self == i0, i0 == *old(self), in_order(&i0), tame(&i0, cs), faithful::<S>(), i0.cache.wf(), i0.cache.room() > 0, cs == capstones@, n == cs.len(), 0 <= idx <= n,
            after_finders(&i0, cs, idx as int, st), triples_in(st, n), groups_are(cs, st, groups@), marked(used_capstones@, st),
    //@loop 0 begin
        let ghost st0 = st;
        proof {
            has_it(used_capstones@, idx);
            assert forall|m: Seq<(usize, usize, usize)>| #![trigger finder_step(&i0, cs, idx, st0, m)] #![trigger after_finders(&i0, cs, idx + 1, m)] finder_step(&i0, cs, idx, st0, m) implies after_finders(&i0, cs, idx + 1, m) by { next_finder(&i0, cs, idx + 1, st0, m); }
        }
    //@loop 1 before
        let ghost ps = _s1; let ghost np = ps.len() as int; let ghost ix = idx;
        proof { assert(ranked(cs, ix as int, ps)); assert(after_pairs(&i0, cs, ix, ps, 0, st0, st)); }
    //@loop 1
        invariant *self == i0, i0 == *old(self), in_order(&i0), tame(&i0, cs), faithful::<S>(), i0.cache.wf(), i0.cache.room() > 0, cs == capstones@, n == cs.len(), idx == ix, ix < n, np == ps.len(), ranked(cs, ix as int, ps),
            ps == _s1, after_pairs(&i0, cs, ix, ps, _n1, st0, st), triples_in(st, n), groups_are(cs, st, groups@), marked(used_capstones@, st),
    //@loop 1 begin
        let ghost p = ps[_n1]; let ghost g = group_of(cs, (p.0, ix, p.1)); let ghost st1 = st; let ghost done = _n1 + 1;
        proof {
            assert(ps.contains(p)); assert(partners(cs, ix as int, p.0 as int, p.1 as int)); assert(fits(&i0, g));
            assert forall|m: Seq<(usize, usize, usize)>| #![trigger pair_step(&i0, cs, ix, p, st1, m)] #![trigger after_pairs(&i0, cs, ix, ps, done, st0, m)] pair_step(&i0, cs, ix, p, st1, m) implies after_pairs(&i0, cs, ix, ps, done, st0, m) by { next_pair(&i0, cs, ix, ps, done, st0, st1, m); }
            assert forall|c: PreparedImage<S>, i1: PreparedImage<S>, r: Option<SkewedGridLocation>| same_state(&i0, &c) && #[trigger] located(&c, g, &i1, r) implies verdict(&i0, g, r is Some) by { }
            assert forall|c: PreparedImage<S>| #[trigger] same_state(&i0, &c) implies ready(c.buffer, c.cache) && fits(&c, g) by { copy_ready(&i0, &c); }
            has_it(used_capstones@, p.0); has_it(used_capstones@, p.1);
        }
        let ghost used0 = used_capstones@;
    //@after "groups.push" 0
        proof { st = st1.push((p.0, ix, p.1)); assert(verdict(&i0, g, true)); assert(pair_step(&i0, cs, ix, p, st1, st)); }
    //@loop 1 end
        proof { if used_capstones@.len() != used0.len() { more_used(used0, used_capstones@, st1, (p.0, ix, p.1)); } }
    //@loop 1 after
        proof { assert(finder_step(&i0, cs, ix, st0, st)); }
    //@endfn
}
