/// std: A[n..].iter().sum::<usize>() (R8)
spec fn sum_from(a: Seq<usize>, n: int) -> int decreases a.len() - n { if n >= a.len() { 0 } else { a[n] + sum_from(a, n + 1) } }
proof fn sum_mono(a: Seq<usize>, n: int, m: int) requires n <= m ensures 0 <= sum_from(a, m), 0 <= n ==> sum_from(a, m) <= sum_from(a, n) decreases m - n, a.len() - m
{ if n < m { sum_mono(a, n, m - 1); if 0 <= n { assert(m - 1 >= a.len() || sum_from(a, m - 1) == a[m - 1] + sum_from(a, m)); } sum_nn(a, m); } else { sum_nn(a, m); } }
proof fn sum_nn(a: Seq<usize>, m: int) ensures 0 <= sum_from(a, m) decreases a.len() - m { if m < a.len() { sum_nn(a, m + 1); } }
fn stdx_sum_from<const N: usize>(a: &[usize; N], n: usize) -> (r: usize)
    requires n <= N, sum_from(a@, n as int) <= usize::MAX
    ensures r == sum_from(a@, n as int)
{
    let mut i = N; let mut s: usize = 0;
    while i > n invariant n <= i <= N, s == sum_from(a@, i as int), sum_from(a@, n as int) <= usize::MAX, a@.len() == N decreases i - n
    { i -= 1; proof { sum_mono(a@, n as int, i as int); } s += a[i]; }
    s
}
/// std: documented behaviour of rotate_left (assumed)
pub assume_specification<T> [<[T]>::rotate_left] (s: &mut [T], mid: usize)
    requires mid <= old(s)@.len()
    ensures final(s)@ == old(s)@.skip(mid as int) + old(s)@.take(mid as int);
