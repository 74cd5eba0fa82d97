#!/usr/bin/env python3
"""Writes Verus proofs of polynomial identities over the reals (used once to write verus/ring.rs; Verus checks the result).

Every product is expanded with the lemmas dist (both sides), assoc, swap and comm into sorted monomials; the rest is linear."""
import ast, sys
class Ring:
    def __init__(s): s.out = []; s.done = set()
    def emit(s, l):
        if l not in s.done: s.done.add(l); s.out.append(l)
    def mono(s, m):
        t = m[0]
        for v in m[1:]: t = "(%s * %s)" % (t, v)
        return t
    def sum_(s, p):
        """list of (sign, text) left nested"""
        t = None
        for m, c in sorted(p.items()):
            for _ in range(abs(c)):
                x = s.mono(m)
                if t is None: t = x if c > 0 else "(0real - %s)" % x
                else: t = "(%s %s %s)" % (t, "+" if c > 0 else "-", x)
        return t or "0real"
    def terms(s, p): return [(1 if c > 0 else -1, m) for m, c in sorted(p.items()) for _ in range(abs(c))]
    def insert(s, m, x):
        """facts: mono(m) * x == mono(sorted(m + x))"""
        if m[-1] <= x: return m + (x,)
        if len(m) == 1:
            s.emit("rg_comm(%s, %s);" % (m[0], x)); return (x,) + m
        M, l = m[:-1], m[-1]
        s.emit("rg_swap(%s, %s, %s);" % (s.mono(M), l, x))      # (M*l)*x == (M*x)*l
        k = s.insert(M, x)
        s.emit("assert((%s * %s) * %s == %s);" % (s.mono(M), x, l, s.mono(k + (l,))))
        return k + (l,)
    def mm(s, a, b):
        """facts: mono(a) * mono(b) == mono(sorted)"""
        if len(b) == 1: r = s.insert(a, b[0])
        else:
            s.emit("rg_assoc(%s, %s, %s);" % (s.mono(a), s.mono(b[:-1]), b[-1]))
            k = s.mm(a, b[:-1])
            s.emit("assert((%s * %s) * %s == %s * %s);" % (s.mono(a), s.mono(b[:-1]), b[-1], s.mono(k), b[-1]))
            r = s.insert(k, b[-1])
        assert r == tuple(sorted(a + b))
        s.emit("assert(%s * %s == %s);" % (s.mono(a), s.mono(b), s.mono(r)))
        return r
    def mul(s, A, TA, B, TB):
        SA, SB = s.sum_(A), s.sum_(B)
        if (TA, TB) != (SA, SB): s.emit("assert(%s * %s == %s * %s);" % (TA, TB, SA, SB))
        # distribute left
        def left(ts, r, rterms):
            (sg, m) = ts[-1]
            if len(ts) == 1:
                if sg > 0: right(m, rterms)
                else: s.emit("rg_dist(0real, %s, %s); rg_zero(%s);" % (s.mono(m), r, r)); right(m, rterms)
                return
            p = s.sumt(ts[:-1])
            s.emit("rg_dist(%s, %s, %s);" % (p, s.mono(m), r))
            left(ts[:-1], r, rterms); right(m, rterms)
        def right(m, ts):
            (sg, n) = ts[-1]
            if len(ts) == 1:
                if sg < 0: s.emit("rg_dist(0real, %s, %s); rg_zero(%s);" % (s.mono(n), s.mono(m), s.mono(m)))
                s.mm(m, n); return
            s.emit("rg_dist(%s, %s, %s);" % (s.sumt(ts[:-1]), s.mono(n), s.mono(m)))
            right(m, ts[:-1]); s.mm(m, n)
        R = {}
        for m, c in A.items():
            for n, d in B.items():
                k = tuple(sorted(m + n)); R[k] = R.get(k, 0) + c * d
        R = {k: v for k, v in R.items() if v}
        if A and B: left(s.terms(A), SB, s.terms(B))
        s.emit("assert(%s * %s == %s);" % (TA, TB, s.sum_(R)))
        return R
    def sumt(s, ts):
        t = None
        for sg, m in ts:
            x = s.mono(m)
            if t is None: t = x if sg > 0 else "(0real - %s)" % x
            else: t = "(%s %s %s)" % (t, "+" if sg > 0 else "-", x)
        return t
    def ev(s, n):
        """-> (text, poly)"""
        if isinstance(n, ast.Name): return n.id, {(n.id,): 1}
        if isinstance(n, ast.UnaryOp):
            t, p = s.ev(n.operand); return "(-%s)" % t, {k: -v for k, v in p.items()}
        a, p = s.ev(n.left); b, q = s.ev(n.right)
        if isinstance(n.op, ast.Mult):
            r = s.mul(p, a, q, b); return "(%s * %s)" % (a, b), r
        sg = 1 if isinstance(n.op, ast.Add) else -1
        r = dict(p)
        for k, v in q.items(): r[k] = r.get(k, 0) + sg * v
        r = {k: v for k, v in r.items() if v}
        t = "(%s %s %s)" % (a, "+" if sg > 0 else "-", b)
        s.emit("assert(%s == %s);" % (t, s.sum_(r)))
        return t, r

def identity(name, vs, lhs, rhs):
    r = Ring()
    tl, pl = r.ev(ast.parse(lhs, mode="eval").body)
    tr, pr = r.ev(ast.parse(rhs, mode="eval").body)
    assert pl == pr, (name, {k: pl.get(k, 0) - pr.get(k, 0) for k in set(pl) | set(pr) if pl.get(k, 0) != pr.get(k, 0)})
    return "proof fn %s(%s)\n    ensures %s == %s\n{\n%s\n}\n" % (name, ", ".join("%s: real" % v for v in vs), lhs, rhs, "\n".join("    " + l for l in r.out))

BASE = '''// written by tools/ring.py: polynomial identities over the reals behind the perspective transform
proof fn rg_dist(a: real, b: real, c: real) ensures (a + b) * c == a * c + b * c, (a - b) * c == a * c - b * c, c * (a + b) == c * a + c * b, c * (a - b) == c * a - c * b
{ assert((a + b) * c == a * c + b * c && (a - b) * c == a * c - b * c && c * (a + b) == c * a + c * b && c * (a - b) == c * a - c * b) by (nonlinear_arith); }
proof fn rg_assoc(a: real, b: real, c: real) ensures a * (b * c) == (a * b) * c { assert(a * (b * c) == (a * b) * c) by (nonlinear_arith); }
proof fn rg_swap(a: real, b: real, c: real) ensures (a * b) * c == (a * c) * b { assert((a * b) * c == (a * c) * b) by (nonlinear_arith); }
proof fn rg_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
proof fn rg_zero(a: real) ensures 0real * a == 0real, a * 0real == 0real { assert(0real * a == 0real && a * 0real == 0real) by (nonlinear_arith); }
'''
if __name__ == "__main__":
    V = "x0 y0 x1 y1 x2 y2 x3 y3".split()
    D = "(x2 * y3 - x3 * y2 + (x3 - x2) * y1 + x1 * (y2 - y3))"
    n0 = "(x1 * (x2 * y3 - x3 * y2) + x0 * (-x2 * y3 + x3 * y2 + (x2 - x3) * y1) + x1 * (x3 - x2) * y0)"
    n1 = "-(x0 * (x2 * y3 + x1 * (y2 - y3) - x2 * y1) - x1 * x3 * y2 + x2 * x3 * y1 + (x1 * x3 - x2 * x3) * y0)"
    n3 = "(y0 * (x1 * (y3 - y2) - x2 * y3 + x3 * y2) + y1 * (x2 * y3 - x3 * y2) + x0 * y1 * (y2 - y3))"
    n4 = "(x0 * (y1 * y3 - y2 * y3) + x1 * y2 * y3 - x2 * y1 * y3 + y0 * (x3 * y2 - x1 * y2 + (x2 - x3) * y1))"
    n6 = "(x1 * (y3 - y2) + x0 * (y2 - y3) + (x2 - x3) * y1 + (x3 - x2) * y0)"
    n7 = "(-x2 * y3 + x1 * y3 + x3 * y2 + x0 * (y1 - y2) - x3 * y1 + (x2 - x1) * y0)"
    o = BASE
    o += identity("rg_x1", V, "x1 * (%s + %s)" % (n6, D), "%s + x0 * %s" % (n0, D))
    if "test" not in sys.argv:
        A = lambda a, b, c: "(x%s * y%s - x%s * y%s + (x%s - x%s) * y%s + x%s * (y%s - y%s))" % (b, c, c, b, c, b, a, a, b, c)
        o += identity("rg_d1", V, "%s + %s" % (n6, D), A(0, 2, 3))
        o += identity("rg_d2", V, "%s + %s + %s" % (n6, n7, D), A(0, 1, 3))
        o += identity("rg_d3", V, "%s + %s" % (n7, D), A(0, 1, 2))
        o += identity("rg_y1", V, "y1 * (%s + %s)" % (n6, D), "%s + y0 * %s" % (n3, D))
        o += identity("rg_x3", V, "x3 * (%s + %s)" % (n7, D), "%s + x0 * %s" % (n1, D))
        o += identity("rg_y3", V, "y3 * (%s + %s)" % (n7, D), "%s + y0 * %s" % (n4, D))
        o += identity("rg_x2", V, "x2 * (%s + %s + %s)" % (n6, n7, D), "%s + %s + x0 * %s" % (n0, n1, D))
        o += identity("rg_y2", V, "y2 * (%s + %s + %s)" % (n6, n7, D), "%s + %s + y0 * %s" % (n3, n4, D))
    W = ["c%d" % i for i in range(8)] + "u v x y".split()
    den2 = "(-c0 * c7 * y + c1 * c6 * y + (c3 * c7 - c4 * c6) * x + c0 * c4 - c1 * c3)"
    nu = "-(c1 * (y - c5) - c2 * c7 * y + (c5 * c7 - c4) * x + c2 * c4)"
    nv = "(c0 * (y - c5) - c2 * c6 * y + (c5 * c6 - c3) * x + c2 * c3)"
    E1 = "(c0 * u + c1 * v + c2 - (x * (c6 * u + c7 * v) + x))"; E2 = "(c3 * u + c4 * v + c5 - (y * (c6 * u + c7 * v) + y))"
    o += identity("rg_u", W, "u * %s - %s" % (den2, nu), "%s * (c4 - y * c7) - %s * (c1 - x * c7)" % (E1, E2))
    o += identity("rg_v", W, "v * %s - %s" % (den2, nv), "%s * (c0 - x * c6) - %s * (c3 - y * c6)" % (E2, E1))
    print(o)
