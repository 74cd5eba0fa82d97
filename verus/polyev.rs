//@fn src/decode.rs poly_eval
//@ret r
//@sig
    ensures r == ev(s@, 64, x)
//@start
    proof { G::ax(G::ZERO, G::ZERO, G::ZERO); }
//@loop 0
    invariant 0 <= i <= 64, sum == ev(s@, i as int, x), x_pow == pw(x, i as nat),
//@loop 0 begin
    proof { any_ops::<G>(); G::ops(s@[i as int], x_pow); G::ops(sum, s@[i as int].times(x_pow)); G::ops(x_pow, x); G::ax(x, x_pow, x); }
//@endfn

