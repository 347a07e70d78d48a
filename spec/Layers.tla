------------------------------- MODULE Layers -------------------------------
(***************************************************************************)
(* What each kind of layer computes, forwards and backwards, as functions  *)
(* on matrices (module Tensor).  S is the fixed point scale of the case.   *)
(*                                                                         *)
(* The backward functions are written down directly as sums over the       *)
(* positions an element takes part in, not in the way the code computes    *)
(* them (padding, rotating, convolving).  Module LayerLaws checks that     *)
(* they are the derivatives of the forward functions.                      *)
(***************************************************************************)
EXTENDS Tensor

ColMat(s) == [d |-> << Len(s), 1, 1 >>, v |-> TLCEval(s)]
AsColumn(m) == [d |-> << Len(m.v), 1, 1 >>, v |-> m.v]
Plus(a, b)  == Map2(a, b, LAMBDA x, y : x + y)

-----------------------------------------------------------------------------
(* Convolution layer: filter shape fd = <<fx, fy, channels>>, n filters     *)
(* stored one after the other in the layers of w, biases b (n by 1),        *)
(* stride s in both directions.                                             *)

KernelFits(fd, x) == x.d[1] >= fd[1] /\ x.d[2] >= fd[2] /\ x.d[3] = fd[3]
KernelOutDim(fd, n, s, d) ==
    << (d[1] - fd[1]) \div s + 1, (d[2] - fd[2]) \div s + 1, n >>

KernelForward(S, fd, n, s, w, b, x) ==
    Mat(KernelOutDim(fd, n, s, x.d), LAMBDA i, j, f :
        b.v[f+1] + SumN(fd[1] * fd[2] * fd[3], LAMBDA k :
            LET p == Unflat(fd, k)
            IN  Mul(S, At(x, i*s + p[1], j*s + p[2], p[3]), w.v[f * fd[1]*fd[2]*fd[3] + k + 1])))

KernelGradW(S, fd, n, s, x, g) ==
    Mat(<< fd[1], fd[2], fd[3] * n >>, LAMBDA u, t, q :
        LET f == q \div fd[3]
            c == q % fd[3]
        IN  SumN(g.d[1] * g.d[2], LAMBDA k :
                LET i == k % g.d[1]
                    j == k \div g.d[1]
                IN  Mul(S, At(g, i, j, f), At(x, i*s + u, j*s + t, c))))

KernelGradB(n, g) ==
    ColMat([f \in 1..n |-> SumN(g.d[1] * g.d[2], LAMBDA k : g.v[(f-1) * g.d[1]*g.d[2] + k + 1])])

KernelGradX(S, fd, n, s, w, xd, g) ==
    Mat(xd, LAMBDA xx, yy, c :
        SumN(g.d[1] * g.d[2] * n, LAMBDA k :
            LET p == Unflat(g.d, k)
                u == xx - p[1] * s
                t == yy - p[2] * s
            IN  IF u >= 0 /\ u < fd[1] /\ t >= 0 /\ t < fd[2]
                THEN Mul(S, g.v[k+1], At(w, u, t, p[3] * fd[3] + c)) ELSE 0))

-----------------------------------------------------------------------------
(* Pooling layer: pool size pd, stride ps (both <<x, y>>) *)

PoolFits(pd, x) == x.d[1] >= pd[1] /\ x.d[2] >= pd[2]
PoolOutDim(pd, ps, d) ==
    << (d[1] - pd[1]) \div ps[1] + 1, (d[2] - pd[2]) \div ps[2] + 1, d[3] >>
Window(pd, ps, x, i, j, c) == Sub(x, << i*ps[1], j*ps[2], c >>, << pd[1], pd[2], 1 >>)

\* The input position (as storage position) that output (i, j, c) selects
Selected(pt, pd, ps, x, i, j, c) ==
    LET wd == Window(pd, ps, x, i, j, c)
        k  == IF pt = "max" THEN ArgMax(wd) ELSE ArgMin(wd)
        p  == Unflat(wd.d, k)
    IN  Flat(x.d, i*ps[1] + p[1], j*ps[2] + p[2], c)
Selection(pt, pd, ps, x) ==
    Mat(PoolOutDim(pd, ps, x.d), LAMBDA i, j, c : Selected(pt, pd, ps, x, i, j, c))

PoolForward(pt, pd, ps, x) ==
    IF pt = "avg"
    THEN Mat(PoolOutDim(pd, ps, x.d), LAMBDA i, j, c :
            TDiv(Total(Window(pd, ps, x, i, j, c)), pd[1] * pd[2]))
    ELSE LET sel == Selection(pt, pd, ps, x)
         IN  Map(sel, LAMBDA k : x.v[k+1])
\* Totals of the windows, from which an average is judged that is not exact
PoolTotals(pd, ps, x) ==
    Mat(PoolOutDim(pd, ps, x.d), LAMBDA i, j, c : Total(Window(pd, ps, x, i, j, c)))
PoolExact(pt, pd, ps, x) ==
    pt = "avg" => \A k \in 1..Vol(PoolOutDim(pd, ps, x.d)) :
                     PoolTotals(pd, ps, x).v[k] % (pd[1] * pd[2]) = 0

\* max, min: sel is the selection that the forward pass of the slot made
PoolGradSel(sel, xd, g) ==
    [d |-> xd, v |-> TLCEval([p \in 1..Vol(xd) |->
        SumN(Len(g.v), LAMBDA k : IF sel.v[k+1] = p - 1 THEN g.v[k+1] ELSE 0)])]
\* avg: times pd[1]*pd[2], so that it stays exact
PoolGradAvgTimesArea(pd, ps, xd, g) ==
    Mat(xd, LAMBDA xx, yy, c :
        SumN(g.d[1] * g.d[2], LAMBDA k :
            LET u == xx - (k % g.d[1]) * ps[1]
                t == yy - (k \div g.d[1]) * ps[2]
            IN  IF u >= 0 /\ u < pd[1] /\ t >= 0 /\ t < pd[2]
                THEN At(g, k % g.d[1], k \div g.d[1], c) ELSE 0))
PoolGradAvg(pd, ps, xd, g) ==
    Map(PoolGradAvgTimesArea(pd, ps, xd, g), LAMBDA v : TDiv(v, pd[1] * pd[2]))

-----------------------------------------------------------------------------
(* Fully connected layer *)

FcForward(S, w, b, x) == Plus(MatMul(S, w, AsColumn(x)), b)
FcGradW(S, x, g)      == MatMul(S, g, Transpose(AsColumn(x)))
FcGradX(S, w, xd, g)  == [d |-> xd, v |-> MatMul(S, Transpose(w), g).v]
FcGradB(g)            == g

-----------------------------------------------------------------------------
(* Activation layer: the exact functions; 0.1*x for multiples of ten *)

ActExact(f) == f \in {"RELU", "LINEAR", "LEAKY_RELU"}
Act(f, x) ==
    CASE f = "RELU"   -> Max2(x, 0)
      [] f = "LINEAR" -> x
      [] f = "LEAKY_RELU" -> IF x > 0 THEN x ELSE TDiv(x, 10)
\* derivative times upstream gradient g
ActGrad(f, x, g) ==
    CASE f = "RELU"   -> IF x > 0 THEN g ELSE 0
      [] f = "LINEAR" -> g
      [] f = "LEAKY_RELU" -> IF x > 0 THEN g ELSE TDiv(g, 10)

-----------------------------------------------------------------------------
(* Softmax layer on logits that decide: the largest exceeds the others by   *)
(* so much that its probability is one in double precision, or all are      *)
(* equal.                                                                   *)

SoftFits(n, x) == IsVector(x) /\ Len(x.v) = n
DecidedBy == 60
Decided(S, x) ==
    LET m == Maximum(x)
    IN  \/ \A k \in 1..Len(x.v) : x.v[k] = m
        \/ \E k \in 1..Len(x.v) : \A j \in 1..Len(x.v) : j # k => x.v[k] - x.v[j] >= DecidedBy * S
SoftForward(S, x) ==
    LET m == Maximum(x)
    IN  IF \A k \in 1..Len(x.v) : x.v[k] = m
        THEN Const(x.d, TDiv(S, Len(x.v)))
        ELSE Map(x, LAMBDA v : IF v = m THEN S ELSE 0)
SoftGrad(S, y, t) == [y EXCEPT !.v[t+1] = @ - S]
=============================================================================
