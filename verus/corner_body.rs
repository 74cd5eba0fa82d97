//@item src/identify/mod.rs struct Point derive=Clone,Copy,PartialEq,Eq pub=1
//@item src/prepare.rs struct Row derive=Clone,Copy
//@item src/detect.rs struct FirstCornerFinder
//@item src/detect.rs struct AllCornerFinder
//@item src/identify/grid.rs struct LeftMostFinder
/// std: the derived Default of Point
impl Default for Point { fn default() -> (r: Point) ensures r == (Point { x: 0, y: 0 }) { Point { x: 0, y: 0 } } }
// ------------------------------------------------------------------ extremal points of a sequence of runs
spec fn left_end(r: Row) -> Point { Point { x: r.left as i32, y: r.y as i32 } }
spec fn right_end(r: Row) -> Point { Point { x: r.right as i32, y: r.y as i32 } }
/// the end points of the runs in order, left before right
spec fn ends(rows: Seq<Row>) -> Seq<Point> decreases rows.len() { if rows.len() == 0 { seq![] } else { ends(rows.drop_last()).push(left_end(rows.last())).push(right_end(rows.last())) } }
proof fn ends_push(rows: Seq<Row>, r: Row) ensures ends(rows.push(r)) == ends(rows).push(left_end(r)).push(right_end(r)) { assert(rows.push(r).drop_last() =~= rows); }
/// best is the earliest of the points with the greatest value of f, and score that value
spec fn earliest_max(f: spec_fn(Point) -> int, pts: Seq<Point>, best: Point, score: int) -> bool {
    exists|k: int| #![trigger pts[k]] 0 <= k < pts.len() && pts[k] == best && score == f(best)
        && (forall|j: int| 0 <= j < pts.len() ==> f(#[trigger] pts[j]) <= score) && (forall|j: int| 0 <= j < k ==> f(#[trigger] pts[j]) < score)
}
proof fn max_push(f: spec_fn(Point) -> int, pts: Seq<Point>, best: Point, score: int, p: Point)
    requires earliest_max(f, pts, best, score)
    ensures f(p) > score ==> earliest_max(f, pts.push(p), p, f(p)), f(p) <= score ==> earliest_max(f, pts.push(p), best, score)
{
    let k = choose|k: int| #![trigger pts[k]] 0 <= k < pts.len() && pts[k] == best && score == f(best)
        && (forall|j: int| 0 <= j < pts.len() ==> f(#[trigger] pts[j]) <= score) && (forall|j: int| 0 <= j < k ==> f(#[trigger] pts[j]) < score);
    let q = pts.push(p);
    assert forall|j: int| 0 <= j < pts.len() implies q[j] == pts[j] by { }
    if f(p) > score { assert(q[pts.len() as int] == p); } else { assert(q[k] == best); }
}
spec fn bounded(v: int) -> bool { 0 <= v <= 16384 }
spec fn row_in(r: Row) -> bool { r.left <= 16384 && r.right <= 16384 && r.y <= 16384 }
spec fn mulb(a: int, b: int) -> bool { -0x1000_0000 <= a * b <= 0x1000_0000 }
proof fn mul_in(a: int, b: int)
    requires -16384 <= a <= 16384, -16384 <= b <= 16384
    ensures mulb(a, b), (-a) * b == -(a * b), a * (-b) == -(a * b), a * b == b * a
{
    assert(-0x1000_0000 <= a * b <= 0x1000_0000) by (nonlinear_arith) requires -16384 <= a <= 16384, -16384 <= b <= 16384;
    assert((-a) * b == -(a * b) && a * (-b) == -(a * b) && a * b == b * a) by (nonlinear_arith);
}
// ------------------------------------------------------------------ farthest from the start
spec fn sq(a: int) -> int { a * a }
spec fn dist2(o: Point) -> spec_fn(Point) -> int { |p: Point| sq(p.x - o.x) + sq(p.y - o.y) }
impl FirstCornerFinder {
    /// the state after the runs rows
    spec fn seen(&self, initial: Point, rows: Seq<Row>) -> bool {
        &&& self.initial == initial
        &&& if rows.len() == 0 { self.score == -1 } else { earliest_max(dist2(initial), ends(rows), self.best, self.score as int) }
    }
    //@fn src/detect.rs FirstCornerFinder::new
    //@ret r
    //@sig
        ensures r.seen(initial, seq![])
    //@endfn
    //@fn src/detect.rs FirstCornerFinder::best
    //@ret r
    //@sig
        ensures r == self.best
    //@endfn
}
impl AreaFiller for FirstCornerFinder {
    spec fn takes(&self, row: Row) -> bool { row_in(row) && bounded(self.initial.x as int) && bounded(self.initial.y as int) }
    spec fn took(&self, row: Row, after: &Self) -> bool {
        forall|initial: Point, rows: Seq<Row>| #[trigger] self.seen(initial, rows) ==> after.seen(initial, rows.push(row))
    }
    //@fn src/detect.rs FirstCornerFinder::update
    //@start
        let ghost s0 = *self;
        proof { mul_in(row.y - self.initial.y, row.y - self.initial.y); mul_in(row.left - self.initial.x, row.left - self.initial.x); mul_in(row.right - self.initial.x, row.right - self.initial.x);
            let a = row.y - self.initial.y; let b = row.left - self.initial.x; let c = row.right - self.initial.x;
            assert(a * a >= 0 && b * b >= 0 && c * c >= 0) by (nonlinear_arith); }
    //@end
        proof {
            assert forall|initial: Point, rows: Seq<Row>| #[trigger] s0.seen(initial, rows) implies self.seen(initial, rows.push(row)) by {
                ends_push(rows, row);
                let f = dist2(initial); let l = left_end(row); let r = right_end(row);
                let e1 = ends(rows).push(l);
                if rows.len() == 0 { assert(e1[0] == l); assert(earliest_max(f, e1, l, f(l))); max_push(f, e1, l, f(l), r); }
                else { max_push(f, ends(rows), s0.best, s0.score as int, l); if f(l) > s0.score { max_push(f, e1, l, f(l), r); } else { max_push(f, e1, s0.best, s0.score as int, r); } }
            }
        }
    //@endfn
}
// ------------------------------------------------------------------ farthest in the four directions of a base line
/// value of a point in direction j: along, across, against, across the other way
spec fn along(b: Point, j: int) -> spec_fn(Point) -> int {
    |p: Point| if j == 0 { p.x * b.x + p.y * b.y } else if j == 1 { p.y * b.x - p.x * b.y } else if j == 2 { -(p.x * b.x + p.y * b.y) } else { -(p.y * b.x - p.x * b.y) }
}
impl AllCornerFinder {
    spec fn seen(&self, initial: Point, corner: Point, rows: Seq<Row>) -> bool {
        &&& self.baseline.x == corner.x - initial.x && self.baseline.y == corner.y - initial.y
        &&& forall|j: int| 0 <= j < 4 ==> earliest_max(along(self.baseline, j), seq![initial] + ends(rows), #[trigger] self.best@[j], self.scores@[j] as int)
    }
    //@fn src/detect.rs AllCornerFinder::new
    //@ret r
    //@sig
        requires bounded(initial.x as int), bounded(initial.y as int), bounded(corner.x as int), bounded(corner.y as int)
        ensures r.seen(initial, corner, seq![])
    //@start
        proof {
            let x = corner.x - initial.x; let y = corner.y - initial.y;
            mul_in(initial.x as int, x); mul_in(initial.y as int, y); mul_in(initial.x as int, y); mul_in(initial.y as int, x);
            assert((seq![initial] + ends(seq![]))[0] == initial);
        }
    //@endfn
    //@fn src/detect.rs AllCornerFinder::best
    //@ret r
    //@sig
        ensures r == self.best
    //@endfn
}
impl AreaFiller for AllCornerFinder {
    spec fn takes(&self, row: Row) -> bool { row_in(row) && -16384 <= self.baseline.x <= 16384 && -16384 <= self.baseline.y <= 16384 }
    spec fn took(&self, row: Row, after: &Self) -> bool {
        forall|initial: Point, corner: Point, rows: Seq<Row>| #[trigger] self.seen(initial, corner, rows) ==> after.seen(initial, corner, rows.push(row))
    }
    //@fn src/detect.rs AllCornerFinder::update
    //@start
        let ghost s0 = *self;
        proof {
            let x = self.baseline.x as int; let y = self.baseline.y as int;
            mul_in(row.left as int, x); mul_in(row.y as int, y); mul_in(row.left as int, y); mul_in(row.y as int, x); mul_in(row.right as int, x); mul_in(row.right as int, y);
        }
    //@loop 0
        invariant
            0 <= j <= 4, self.baseline == s0.baseline,
            forall|i: int| (j as int) <= i < 4 ==> self.best@[i] == s0.best@[i] && self.scores@[i] == s0.scores@[i],
            forall|i: int| 0 <= i < 4 ==> l_scores@[i] == along(s0.baseline, i)(left_end(row)) && r_scores@[i] == #[trigger] along(s0.baseline, i)(right_end(row)),
            forall|i: int| 0 <= i < (j as int) ==> #[trigger] picked(along(s0.baseline, i), s0.best@[i], s0.scores@[i] as int, left_end(row), right_end(row), self.best@[i], self.scores@[i] as int),
    //@end
        proof {
            assert forall|initial: Point, corner: Point, rows: Seq<Row>| #[trigger] s0.seen(initial, corner, rows) implies self.seen(initial, corner, rows.push(row)) by {
                ends_push(rows, row);
                let l = left_end(row); let r = right_end(row); let pts = seq![initial] + ends(rows);
                assert(seq![initial] + ends(rows.push(row)) =~= pts.push(l).push(r));
                assert forall|i: int| 0 <= i < 4 implies earliest_max(along(self.baseline, i), pts.push(l).push(r), #[trigger] self.best@[i], self.scores@[i] as int) by {
                    let f = along(s0.baseline, i);
                    assert(earliest_max(f, pts, s0.best@[i], s0.scores@[i] as int));
                    assert(picked(f, s0.best@[i], s0.scores@[i] as int, l, r, self.best@[i], self.scores@[i] as int));
                    max_push(f, pts, s0.best@[i], s0.scores@[i] as int, l);
                    if f(l) > s0.scores@[i] { max_push(f, pts.push(l), l, f(l), r); } else { max_push(f, pts.push(l), s0.best@[i], s0.scores@[i] as int, r); }
                }
            }
        }
    //@endfn
}
/// the outcome of comparing first l, then r, with the best so far
spec fn picked(f: spec_fn(Point) -> int, best: Point, score: int, l: Point, r: Point, nbest: Point, nscore: int) -> bool {
    let (b1, s1) = if f(l) > score { (l, f(l)) } else { (best, score) };
    if f(r) > s1 { nbest == r && nscore == f(r) } else { nbest == b1 && nscore == s1 }
}
// ------------------------------------------------------------------ farthest to the left of a line
spec fn left_of(d: Point) -> spec_fn(Point) -> int { |p: Point| -(d.x * p.y - d.y * p.x) }
impl LeftMostFinder {
    spec fn seen(&self, line: Point, start: Point, rows: Seq<Row>) -> bool {
        self.line_p == line && earliest_max(left_of(line), seq![start] + ends(rows), self.best, -self.score)
    }
}
impl AreaFiller for LeftMostFinder {
    spec fn takes(&self, row: Row) -> bool { row_in(row) && -16384 <= self.line_p.x <= 16384 && -16384 <= self.line_p.y <= 16384 }
    spec fn took(&self, row: Row, after: &Self) -> bool {
        forall|line: Point, start: Point, rows: Seq<Row>| #[trigger] self.seen(line, start, rows) ==> after.seen(line, start, rows.push(row))
    }
    //@fn src/identify/grid.rs LeftMostFinder::update
    //@start
        let ghost s0 = *self;
        proof {
            let x = self.line_p.x as int; let y = self.line_p.y as int;
            mul_in(y, row.left as int); mul_in(x, row.y as int); mul_in(y, row.right as int);
        }
    //@end
        proof {
            assert forall|line: Point, start: Point, rows: Seq<Row>| #[trigger] s0.seen(line, start, rows) implies self.seen(line, start, rows.push(row)) by {
                ends_push(rows, row);
                let f = left_of(line); let l = left_end(row); let r = right_end(row); let pts = seq![start] + ends(rows);
                assert(seq![start] + ends(rows.push(row)) =~= pts.push(l).push(r));
                max_push(f, pts, s0.best, -s0.score, l);
                if f(l) > -s0.score { max_push(f, pts.push(l), l, f(l), r); } else { max_push(f, pts.push(l), s0.best, -s0.score, r); }
            }
        }
    //@endfn
}
