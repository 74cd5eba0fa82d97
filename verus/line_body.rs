//@item src/prepare.rs enum PixelColor derive=Clone,Copy,PartialEq,Eq,Structural
//@item src/detect.rs struct LinePosition derive=Clone,Copy
//@item src/detect.rs struct LineScanner
// ------------------------------------------------------------------ runs of a line
type Line = Seq<PixelColor>;
/// length of the run that ends (so far) at pixel i; 0 before the line
spec fn run(l: Line, i: int) -> int decreases i { if i < 0 { 0 } else if i == 0 || l[i] != l[i - 1] { 1 } else { run(l, i - 1) + 1 } }
/// last pixel of the k-th run before the one that ends at pixel i; -1 if there is none
spec fn before(l: Line, i: int, k: nat) -> int decreases k { if k == 0 { i } else { let p = before(l, i, (k - 1) as nat); p - run(l, p) } }
/// colour changes up to pixel i
spec fn line_changes(l: Line, i: int) -> int decreases i { if i <= 0 { 0 } else { line_changes(l, i - 1) + (if l[i] != l[i - 1] { 1int } else { 0int }) } }
/// length of the j-th of the five runs before pixel i (0..4 from left to right)
spec fn r5(l: Line, i: int, j: int) -> int { run(l, before(l, i, (4 - j) as nat)) }
/// the five runs that end just before pixel i are there and have the lengths of a finder pattern
spec fn unit(l: Line, i: int) -> int { (r5(l, i - 1, 0) + r5(l, i - 1, 1) + r5(l, i - 1, 3) + r5(l, i - 1, 4)) / 4 }
spec fn near_len(len: int, want: int, tol: int) -> bool { want - tol <= len <= want + tol }
spec fn finder_runs(l: Line, i: int) -> bool {
    let u = unit(l, i); let tol = u * 3 / 4;
    &&& l[i] == PixelColor::White && i > 0 && l[i] != l[i - 1] && before(l, i - 1, 4) >= 0
    &&& near_len(r5(l, i - 1, 0), u, tol) && near_len(r5(l, i - 1, 1), u, tol) && near_len(r5(l, i - 1, 2), 3 * u, tol) && near_len(r5(l, i - 1, 3), u, tol) && near_len(r5(l, i - 1, 4), u, tol)
}
proof fn run_pos(l: Line, i: int) requires -1 <= i ensures 0 <= run(l, i) <= i + 1, i >= 0 ==> run(l, i) >= 1 decreases i { if i > 0 { run_pos(l, i - 1); } }
proof fn run_same(l: Line, m: Line, i: int)
    requires -1 <= i < l.len(), i < m.len(), forall|j: int| 0 <= j <= i ==> l[j] == m[j]
    ensures run(l, i) == run(m, i), line_changes(l, i) == line_changes(m, i) decreases i { if i > 0 { run_same(l, m, i - 1); } }
proof fn before_pos(l: Line, i: int, k: nat) requires -1 <= i ensures -1 <= before(l, i, k) <= i decreases k { if k > 0 { before_pos(l, i, (k - 1) as nat); run_pos(l, before(l, i, (k - 1) as nat)); } }
proof fn before_same(l: Line, m: Line, i: int, k: nat)
    requires -1 <= i < l.len(), i < m.len(), forall|j: int| 0 <= j <= i ==> l[j] == m[j]
    ensures before(l, i, k) == before(m, i, k) decreases k
{ if k > 0 { before_same(l, m, i, (k - 1) as nat); before_pos(l, i, (k - 1) as nat); run_same(l, m, before(l, i, (k - 1) as nat)); } }
proof fn before_add(l: Line, i: int, k: nat) ensures before(l, i, k + 1) == before(l, i - run(l, i), k) decreases k { if k > 0 { before_add(l, i, (k - 1) as nat); reveal_with_fuel(before, 3); } else { reveal_with_fuel(before, 3); } }
/// within a run the runs before it are the same, and changes counts the runs
proof fn run_start(l: Line, i: int)
    requires 0 <= i
    ensures line_changes(l, i) >= 0, line_changes(l, i) == 0 <==> i - run(l, i) == -1, i - run(l, i) >= 0 ==> line_changes(l, i - run(l, i)) == line_changes(l, i) - 1
    decreases i
{
    if i > 0 { run_start(l, i - 1); run_pos(l, i - 1);
        if l[i] != l[i - 1] { } else { assert(i - run(l, i) == (i - 1) - run(l, i - 1)); } }
}
proof fn before_changes(l: Line, i: int, k: nat)
    requires 0 <= i
    ensures before(l, i, k) >= 0 <==> line_changes(l, i) >= k, before(l, i, k) >= 0 ==> line_changes(l, before(l, i, k)) == line_changes(l, i) - k
    decreases k
{
    run_start(l, i);
    if k > 0 { before_changes(l, i, (k - 1) as nat); before_pos(l, i, (k - 1) as nat); let p = before(l, i, (k - 1) as nat);
        if p >= 0 { run_start(l, p); run_pos(l, p); before_pos(l, i, k); } else { before_pos(l, i, k); } }
}
/// sum of the lengths of the five runs up to pixel i
proof fn runs_sum(l: Line, i: int)
    requires -1 <= i
    ensures r5(l, i, 4) == i - before(l, i, 1), r5(l, i, 3) == before(l, i, 1) - before(l, i, 2), r5(l, i, 2) == before(l, i, 2) - before(l, i, 3),
        r5(l, i, 1) == before(l, i, 3) - before(l, i, 4), r5(l, i, 0) == before(l, i, 4) - before(l, i, 5), before(l, i, 5) >= -1,
        forall|j: int| 0 <= j < 5 ==> #[trigger] r5(l, i, j) >= 0
{
    reveal_with_fuel(before, 7);
    before_pos(l, i, 5);
    assert forall|j: int| 0 <= j < 5 implies #[trigger] r5(l, i, j) >= 0 by { before_pos(l, i, (4 - j) as nat); run_pos(l, before(l, i, (4 - j) as nat)); }
}
// ------------------------------------------------------------------ the scanner
impl LineScanner {
    /// the state after the pixels l
    spec fn seen(&self, l: Line) -> bool {
        let i = l.len() - 1;
        &&& l.len() > 0 && self.current_position == i && self.last_color == l[i] && self.run_length == run(l, i) && self.color_changes == line_changes(l, i)
        &&& forall|j: int| 0 <= j < 5 ==> #[trigger] self.lookbehind_buf@[j] == r5(l, i - run(l, i), j)
    }
    //@fn src/detect.rs LineScanner::new
    //@ret r
    //@sig
        ensures r.seen(seq![initial_col])
    //@tail
        proof { let l = seq![initial_col]; reveal_with_fuel(before, 6); assert(run(l, 0) == 1 && run(l, -1) == 0 && line_changes(l, 0) == 0); assert forall|j: int| 0 <= j < 5 implies #[trigger] r5(l, -1, j) == 0 by { before_pos(l, -1, (4 - j) as nat); } }
    //@endfn
    //@fn src/detect.rs LineScanner::advance
    //@ret r
    //@sig
        requires exists|l: Line| #[trigger] old(self).seen(l) && l.len() < 0x1000_0000_0000_0000
        ensures forall|l: Line| #[trigger] old(self).seen(l) ==> {
            let m = l.push(color); let i = l.len() as int;
            &&& final(self).seen(m)
            &&& r is Some <==> finder_runs(m, i)
            &&& r is Some ==> r->Some_0.left == before(m, i - 1, 5) + 1 && r->Some_0.stone == before(m, i - 1, 3) + 1 && r->Some_0.right == before(m, i - 1, 1) + 1
        }
    //@start
        let ghost s0 = *self;
        proof {
            let l = choose|l: Line| #[trigger] s0.seen(l) && l.len() < 0x1000_0000_0000_0000;
            let i = l.len() - 1;
            run_pos(l, i); runs_sum(l, i - run(l, i));
            before_changes(l, i, 0); changes_max(l, i);
            assert forall|l: Line| #[trigger] s0.seen(l) implies step(l, color) by { step_is(l, color, s0); }
        }
    //@before "self.test_for_capstone" 0
        proof {
            let b = self.lookbehind_buf@;
            reveal_with_fuel(sum_from, 7);
            assert(b[0] == s0.lookbehind_buf@[1] && b[1] == s0.lookbehind_buf@[2] && b[2] == s0.lookbehind_buf@[3] && b[3] == s0.lookbehind_buf@[4] && b[4] == s0.run_length);
            assert(sum_from(b, 0) == b[0] + b[1] + b[2] + b[3] + b[4]);
            assert(sum_from(b, 2) == b[2] + b[3] + b[4]);
            assert forall|l: Line| #[trigger] s0.seen(l) implies self.seen(l.push(color)) && sum_from(b, 0) <= l.len() && self.tests() == finder_runs(l.push(color), l.len() as int) by {
                let m = l.push(color); let i = l.len() as int;
                assert(step(l, color));
                assert(r5(m, i - 1, 0) == b[0] && r5(m, i - 1, 1) == b[1] && r5(m, i - 1, 2) == b[2] && r5(m, i - 1, 3) == b[3] && r5(m, i - 1, 4) == b[4]);
            }
        }
    //@endfn
    //@fn src/detect.rs LineScanner::test_for_capstone
    //@ret r
    //@sig
        requires forall|j: int| 0 <= j < 5 ==> #[trigger] self.lookbehind_buf@[j] < 0x1000_0000_0000_0000
        ensures r == self.tests()
    //@loop 0
        invariant 0 <= i <= 5, forall|j: int| #![trigger self.lookbehind_buf@[j]] 0 <= j < i ==> near_len(self.lookbehind_buf@[j] as int, CHECK@[j] * avg, err as int),
    //@loop 0 begin
        proof { assert(CHECK@[0] == 1 && CHECK@[1] == 1 && CHECK@[2] == 3 && CHECK@[3] == 1 && CHECK@[4] == 1); assert(CHECK@[i as int] == 1 || CHECK@[i as int] == 3); assert(1 * avg == avg && err <= avg); }
    //@loop 0 after
        proof { assert(CHECK@[0] == 1 && CHECK@[1] == 1 && CHECK@[2] == 3 && CHECK@[3] == 1 && CHECK@[4] == 1); assert(1 * avg == avg); assert(near_len(self.lookbehind_buf@[0] as int, CHECK@[0] * avg, err as int) && near_len(self.lookbehind_buf@[1] as int, CHECK@[1] * avg, err as int) && near_len(self.lookbehind_buf@[2] as int, CHECK@[2] * avg, err as int) && near_len(self.lookbehind_buf@[3] as int, CHECK@[3] * avg, err as int) && near_len(self.lookbehind_buf@[4] as int, CHECK@[4] * avg, err as int)); }
    //@endfn
    spec fn tests(&self) -> bool {
        let b = self.lookbehind_buf@; let u = (b[0] + b[1] + b[3] + b[4]) / 4; let tol = u * 3 / 4;
        self.last_color == PixelColor::White && self.color_changes >= 5 && near_len(b[0] as int, u, tol) && near_len(b[1] as int, u, tol) && near_len(b[2] as int, 3 * u, tol) && near_len(b[3] as int, u, tol) && near_len(b[4] as int, u, tol)
    }
}
proof fn changes_max(l: Line, i: int) requires 0 <= i ensures line_changes(l, i) <= i decreases i { if i > 0 { changes_max(l, i - 1); } }
/// what one more pixel does to runs, runs before it and changes
spec fn step(l: Line, c: PixelColor) -> bool {
    let m = l.push(c); let i = l.len() as int;
    &&& run(m, i) == (if c == l[i - 1] { run(l, i - 1) + 1 } else { 1int })
    &&& line_changes(m, i) == line_changes(l, i - 1) + (if c == l[i - 1] { 0int } else { 1int })
    &&& forall|j: int| 0 <= j < 5 ==> #[trigger] r5(m, i - run(m, i), j) == (if c == l[i - 1] { r5(l, i - 1 - run(l, i - 1), j) } else if j == 4 { run(l, i - 1) } else { r5(l, i - 1 - run(l, i - 1), j + 1) })
    &&& c != l[i - 1] ==> ((before(m, i - 1, 4) >= 0) <==> line_changes(m, i) >= 5)
    &&& 0 <= run(m, i) <= i + 1 && m[i] == c && m[i - 1] == l[i - 1]
    &&& c != l[i - 1] ==> i - run(m, i) == i - 1 && r5(m, i - 1, 4) == i - 1 - before(m, i - 1, 1) && r5(m, i - 1, 3) == before(m, i - 1, 1) - before(m, i - 1, 2) && r5(m, i - 1, 2) == before(m, i - 1, 2) - before(m, i - 1, 3)
        && r5(m, i - 1, 1) == before(m, i - 1, 3) - before(m, i - 1, 4) && r5(m, i - 1, 0) == before(m, i - 1, 4) - before(m, i - 1, 5) && before(m, i - 1, 5) >= -1
}
proof fn step_is(l: Line, c: PixelColor, s0: LineScanner)
    requires s0.seen(l)
    ensures step(l, c)
{
    let m = l.push(c); let i = l.len() as int;
    run_same(l, m, i - 1); run_pos(l, i - 1);
    let p = i - 1 - run(l, i - 1);
    assert forall|j: int| 0 <= j < 5 implies #[trigger] r5(m, i - run(m, i), j) == (if c == l[i - 1] { r5(l, p, j) } else if j == 4 { run(l, i - 1) } else { r5(l, p, j + 1) }) by {
        if c == l[i - 1] { before_same(l, m, p, (4 - j) as nat); before_pos(l, p, (4 - j) as nat); run_same(l, m, before(l, p, (4 - j) as nat)); }
        else if j < 4 { before_add(m, i - 1, (3 - j) as nat); before_same(l, m, p, (3 - j) as nat); before_pos(l, p, (3 - j) as nat); run_same(l, m, before(l, p, (3 - j) as nat)); }
    }
    before_changes(m, i - 1, 4); runs_sum(m, i - 1); run_pos(m, i);
}
