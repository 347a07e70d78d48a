----------------------------- MODULE LayerLaws ------------------------------
(***************************************************************************)
(* The gradients of Layers are the derivatives of its forward functions.   *)
(*                                                                         *)
(* Convolution, mean pooling and the fully connected layer are linear in   *)
(* the input and in the weights, so the derivative in a direction is the   *)
(* forward function of that direction: this is checked for every unit      *)
(* direction.  For max and min pooling and the activations the inputs are  *)
(* multiples of 100, so that a step of 10 stays within one linear piece.   *)
(*                                                                         *)
(* AlgoGradX, AlgoGradW: the way the library computes the convolution      *)
(* gradients (spread by the stride, pad, turn, correlate), shown equal to  *)
(* the definition.  Fault breaks it (negative controls).  Kinds selects   *)
(* the layers.                                                             *)
(***************************************************************************)
EXTENDS Layers

CONSTANTS Kinds, Big, Fault
VARIABLES c      \* a configuration
vars == << c >>

Pick(s, i) == ((i * i * 7 + i * 3 + s * 5) % 11) - 5
A(dd, s)   == [d |-> dd, v |-> [i \in 1..Vol(dd) |-> Pick(s, i)]]
E(dd, i)   == [d |-> dd, v |-> [j \in 1..Vol(dd) |-> IF j = i THEN 1 ELSE 0]]
Inner(a, b) == SumN(Len(a.v), LAMBDA i : a.v[i+1] * b.v[i+1])

KConf == { r \in [k : {"kernel"}, fd : { << x, y, z >> : x \in 1..2, y \in 1..2, z \in 1..2 } \cup { << 3, 1, 1 >>, << 1, 3, 2 >> },
                  n : 1..2, s : 1..3, xd : { << x, y >> : x \in 1..Big, y \in 1..Big }] :
              r.xd[1] >= r.fd[1] /\ r.xd[2] >= r.fd[2] }
PConf == { r \in [k : {"pool"}, f : {"max", "min", "avg"}, pd : { << x, y >> : x \in 1..3, y \in 1..2 },
                  ps : { << x, y >> : x \in 1..3, y \in 1..2 }, xd : { << x, y >> : x \in 1..Big, y \in 1..Big }] :
              r.xd[1] >= r.pd[1] /\ r.xd[2] >= r.pd[2] }
FConf == [k : {"fc"}, n : 1..3, xd : { << x, y >> : x \in 1..3, y \in 1..2 }]
AConf == [k : {"act"}, f : {"RELU", "LINEAR", "LEAKY_RELU"}, xd : { << 3, 2 >> }]

Of(k, S) == IF k \in Kinds THEN S ELSE {}
Init == c \in Of("kernel", KConf) \cup Of("pool", PConf) \cup Of("fc", FConf) \cup Of("act", AConf)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
kd == << c.xd[1], c.xd[2], c.fd[3] >>
kx == A(kd, 1)
kw == A(<< c.fd[1], c.fd[2], c.fd[3] * c.n >>, 2)
kz == Zeros(<< c.n, 1, 1 >>)
kg == A(KernelOutDim(c.fd, c.n, c.s, kd), 3)

\* as the library computes them
Spread(g, s) == LET o == << kd[1] - c.fd[1] + 1, kd[2] - c.fd[2] + 1, g.d[3] >>
                IN  Mat(o, LAMBDA x, y, z : IF x % s = 0 /\ y % s = 0 THEN At(g, x \div s, y \div s, z) ELSE 0)
Pad(m, p, q) == Mat(<< m.d[1] + 2*(p-1), m.d[2] + 2*(q-1), 1 >>, LAMBDA x, y, z :
                    IF InRange(<< x - (p-1), y - (q-1), 0 >>, m.d) THEN At(m, x - (p-1), y - (q-1), 0) ELSE 0)
Layer(m, z) == Sub(m, << 0, 0, z >>, << m.d[1], m.d[2], 1 >>)
AlgoGradX ==
    LET g == TLCEval(Spread(kg, c.s))
        One(f, ch) == LET og == Layer(g, f)
                          t  == IF Fault = "noturn" THEN og ELSE Rotate(og, 2)
                          w  == Layer(kw, IF Fault = "channel" THEN f + ch ELSE f * c.fd[3] + ch)
                      IN  Convolve(1, Pad(w, og.d[1], og.d[2]), t, 1, 1)
        P == TLCEval([f \in 0..(c.n-1) |-> [ch \in 0..(c.fd[3]-1) |-> One(f, ch)]])
    IN  Mat(kd, LAMBDA x, y, z : SumN(c.n, LAMBDA f : At(P[f][z], x, y, 0)))
AlgoGradW ==
    LET g == TLCEval(Spread(kg, c.s))
        P == TLCEval([q \in 0..(c.fd[3]*c.n-1) |-> Convolve(1, Layer(kx, q % c.fd[3]), Layer(g, q \div c.fd[3]), 1, 1)])
    IN  Mat(kw.d, LAMBDA x, y, z : At(P[z], x, y, 0))

KernelLaw ==
    c.k = "kernel" =>
      LET gx == TLCEval(KernelGradX(1, c.fd, c.n, c.s, kw, kd, kg))
          gw == TLCEval(KernelGradW(1, c.fd, c.n, c.s, kx, kg))
      IN  /\ \A i \in 1..Vol(kd) : gx.v[i] = Inner(kg, KernelForward(1, c.fd, c.n, c.s, kw, kz, E(kd, i)))
          /\ \A i \in 1..Len(kw.v) : gw.v[i] = Inner(kg, KernelForward(1, c.fd, c.n, c.s, E(kw.d, i), kz, kx))
          /\ \A i \in 1..c.n : KernelGradB(c.n, kg).v[i] = Inner(kg, KernelForward(1, c.fd, c.n, c.s, Zeros(kw.d), E(<< c.n, 1, 1 >>, i), kx))
          \* one input, one weight, one output at a time it is linear
          /\ KernelForward(1, c.fd, c.n, c.s, kw, A(<< c.n, 1, 1 >>, 4), kx)
             = Plus(KernelForward(1, c.fd, c.n, c.s, kw, kz, kx), KernelForward(1, c.fd, c.n, c.s, Zeros(kw.d), A(<< c.n, 1, 1 >>, 4), kx))
KernelAlgorithm ==
    c.k = "kernel" => /\ AlgoGradX = KernelGradX(1, c.fd, c.n, c.s, kw, kd, kg)
                      /\ AlgoGradW = KernelGradW(1, c.fd, c.n, c.s, kx, kg)

-----------------------------------------------------------------------------
pd3 == << c.xd[1], c.xd[2], 2 >>
\* distinct multiples of 100; for means multiples of the area
px == IF c.f = "avg" THEN Map(A(pd3, 1), LAMBDA v : v * c.pd[1] * c.pd[2])
      ELSE [d |-> pd3, v |-> [i \in 1..Vol(pd3) |-> 100 * ((i * 17) % 41)]]
pg == Map(A(PoolOutDim(c.pd, c.ps, pd3), 2), LAMBDA v : v * c.pd[1] * c.pd[2])
PGrad == IF c.f = "avg" THEN PoolGradAvg(c.pd, c.ps, pd3, pg)
         ELSE PoolGradSel(Selection(c.f, c.pd, c.ps, px), pd3, pg)
Nudged(i, by) == [px EXCEPT !.v[i] = @ + by]
PoolLaw ==
    c.k = "pool" =>
      LET g == TLCEval(PGrad)
          y == TLCEval(PoolForward(c.f, c.pd, c.ps, px))
          h == IF c.f = "avg" THEN c.pd[1] * c.pd[2] ELSE 10
      IN  /\ \A i \in 1..Vol(pd3) :
                LET z == PoolForward(c.f, c.pd, c.ps, Nudged(i, h))
                IN  Inner(pg, z) - Inner(pg, y) = h * g.v[i]
          \* nothing is lost and nothing added
          /\ Total(g) = Total(pg)
          /\ Fault # "none" \/ \A i \in 1..Vol(pd3) :
                \* an element outside every window has no influence
                (\A j \in 1..Len(y.v) : LET q == Unflat(y.d, j-1) p == Unflat(pd3, i-1)
                                        IN  ~InRange(<< p[1] - q[1]*c.ps[1], p[2] - q[2]*c.ps[2], p[3] - q[3] >>, << c.pd[1], c.pd[2], 1 >>))
                => g.v[i] = 0

-----------------------------------------------------------------------------
fd3 == << c.xd[1], c.xd[2], 2 >>
fx  == A(fd3, 1)
fw  == A(<< c.n, Vol(fd3), 1 >>, 2)
fb  == A(<< c.n, 1, 1 >>, 3)
fg  == A(<< c.n, 1, 1 >>, 4)
FcLaw ==
    c.k = "fc" =>
      /\ \A i \in 1..Vol(fd3) : FcGradX(1, fw, fd3, fg).v[i] = Inner(fg, FcForward(1, fw, Zeros(fb.d), E(fd3, i)))
      /\ \A i \in 1..Len(fw.v) : FcGradW(1, fx, fg).v[i] = Inner(fg, FcForward(1, E(fw.d, i), Zeros(fb.d), fx))
      /\ FcGradB(fg) = fg /\ FcGradX(1, fw, fd3, fg).d = fd3 /\ FcGradW(1, fx, fg).d = fw.d

ActLaw ==
    c.k = "act" =>
      \A x \in { -300, -100, 100, 200 } : \A g \in { -30, 10, 50 } :
        g * (Act(c.f, x + 10) - Act(c.f, x)) = 10 * ActGrad(c.f, x, g)

-----------------------------------------------------------------------------
\* The softmax gradient of exact distributions: it sums to zero, and only the label's entry is negative
SoftLaw ==
    c.k = "act" =>
      \A n \in { 1, 2, 4 } : \A t \in 0..(n-1) :
        LET y == SoftForward(64, Const(<< n, 1, 1 >>, 5))
            g == SoftGrad(64, y, t)
        IN  /\ Total(y) = 64 /\ Total(g) = 0
            /\ \A i \in 1..n : (g.v[i] < 0) = (i = t + 1 /\ n > 1)
=============================================================================
