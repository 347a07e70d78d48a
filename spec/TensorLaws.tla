----------------------------- MODULE TensorLaws -----------------------------
(***************************************************************************)
(* Laws that the matrix operators of Tensor obey, for every shape with     *)
(* sides up to Side (empty sides included).  They guard the specification  *)
(* itself against slips: what C01, C02, C06 and C07 claim about the code is *)
(* claimed here about the specification, independently of how the          *)
(* operators are defined.  Fault breaks one operator (negative controls).  *)
(***************************************************************************)
EXTENDS Tensor

CONSTANTS Side, Seeds, Fault
VARIABLES d, k, e
vars == << d, k, e >>

\* distinct numbers, and small ones with repetitions
Pick(s, i)   == ((i * i * 7 + i * 3 + s * 5) % 11) - 5
A(dd, s)     == [d |-> dd, v |-> [i \in 1..Vol(dd) |-> Pick(s, i)]]
Named(dd)    == [d |-> dd, v |-> [i \in 1..Vol(dd) |-> i]]

Shapes == { << x, y, z >> : x \in 0..Side, y \in 0..Side, z \in 0..2 }
Init == d \in Shapes /\ k \in Seeds /\ e \in 0..Side
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars

Turn(m, n) == IF Fault = "turn" /\ n = 3 THEN Rotate(m, 1) ELSE Rotate(m, n)
Prod(a, b) == IF Fault = "product" THEN MatMul(1, a, Map(b, LAMBDA x : Abs(x))) ELSE MatMul(1, a, b)
ArgM(m)    == IF Fault = "tie" THEN Len(m.v) - 1 - ArgMax([m EXCEPT !.v = [i \in 1..Len(m.v) |-> m.v[Len(m.v) + 1 - i]]]) ELSE ArgMax(m)

m == A(d, k)
u == Named(d)

\* every index triple is its own element, and storage order is row fastest, then column, then layer
Bijective ==
    /\ \A i \in 0..(Vol(d)-1) : LET p == Unflat(d, i) IN InRange(p, d) /\ Flat(d, p[1], p[2], p[3]) = i
    /\ \A x \in 0..(d[1]-1), y \in 0..(d[2]-1), z \in 0..(d[3]-1) : Unflat(d, Flat(d, x, y, z)) = << x, y, z >>
RowOrder == FromRowMajor(d, RowMajor(u)) = u /\ (Vol(d) > 0 /\ d[2] > 1 => At(FromRowMajor(d, [i \in 1..Vol(d) |-> i]), 0, 1, 0) = 2)

TransposeTwice == Transpose(Transpose(u)) = u
Turns ==
    /\ Rotate(Rotate(u, 2), 2) = u
    /\ d[1] = d[2] =>
         /\ Turn(Turn(Turn(Turn(u, 1), 1), 1), 1) = u
         /\ Turn(u, 2) = Turn(Turn(u, 1), 1)
         /\ Turn(u, 3) = Turn(Turn(Turn(u, 1), 1), 1)
         /\ Turn(Turn(u, 3), 1) = u
         \* a quarter turn is a transposition followed by exchanging left and right or up and down
         /\ Turn(u, 1) = Mat(u.d, LAMBDA x, y, z : At(Transpose(u), x, u.d[2] - 1 - y, z))

\* (A B)^T = B^T A^T, (A B) C = A (B C), A I = A
b2 == A(<< d[2], e, d[3] >>, k + 1)
c2 == A(<< e, 2, d[3] >>, k + 2)
Unit(n, z0) == Mat(<< n, n, z0 >>, LAMBDA x, y, z : IF x = y THEN 1 ELSE 0)
Products ==
    /\ Transpose(Prod(m, b2)) = Prod(Transpose(b2), Transpose(m))
    /\ Prod(Prod(m, b2), c2) = Prod(m, Prod(b2, c2))
    /\ Prod(m, Unit(d[2], d[3])) = m /\ Prod(Unit(d[1], d[3]), m) = m
\* a dot product is the product of a row and a column
Dots == d[3] = 1 /\ d[1] = 1 => Dot(1, m, A(<< d[2], 1, 1 >>, k+3)) = SumSeq(Prod(m, A(<< d[2], 1, 1 >>, k+3)).v)

\* what is pasted is there, and nothing else changes; regions of regions are regions
Regions ==
    \A s \in { << x, y, z >> : x \in 0..1, y \in 0..1, z \in 0..1 } :
      \A x \in { << a, b, c >> : a \in 0..2, b \in 0..2, c \in 0..1 } :
        Inside(s, x, d) =>
          LET n == Const(x, -99)
              p == Paste(u, s, n)
          IN  /\ Sub(p, s, x) = n
              /\ Paste(p, s, Sub(u, s, x)) = u
              /\ \A i \in 0..(Vol(d)-1) : LET q == Unflat(d, i)
                    IN  ~InRange(<< q[1]-s[1], q[2]-s[2], q[3]-s[3] >>, x) => p.v[i+1] = u.v[i+1]
              /\ Inside(<< 1, 0, 0 >>, << 1, 1, 1 >>, x) =>
                    Sub(Sub(u, s, x), << 1, 0, 0 >>, << 1, 1, 1 >>) = Sub(u, << s[1] + 1, s[2], s[3] >>, << 1, 1, 1 >>)

Reductions ==
    Vol(d) > 0 =>
      /\ \A i \in 1..Vol(d) : m.v[i] <= Maximum(m) /\ m.v[i] >= Minimum(m)
      /\ m.v[ArgM(m)+1] = Maximum(m) /\ \A j \in 1..ArgM(m) : m.v[j] < Maximum(m)
      /\ m.v[ArgMin(m)+1] = Minimum(m) /\ \A j \in 1..ArgMin(m) : m.v[j] > Minimum(m)
      /\ Total(Map(m, LAMBDA x : x + 1)) = Total(m) + Vol(d)
      /\ TDiv(-7, 2) = -3 /\ TDiv(7, -2) = -3 /\ TDiv(7, 2) = 3

\* a correlation with a single one shifts; strides thin it out
Correlation ==
    d[3] = 1 /\ d[1] >= 2 /\ d[2] >= 2 =>
      /\ \A q \in { << 0, 0 >>, << 1, 0 >>, << 0, 1 >>, << 1, 1 >> } :
            Convolve(1, u, Mat(<< 2, 2, 1 >>, LAMBDA x, y, z : IF << x, y >> = q THEN 1 ELSE 0), 1, 1)
            = Sub(u, << q[1], q[2], 0 >>, << d[1] - 1, d[2] - 1, 1 >>)
      /\ LET w == A(<< 2, 1, 1 >>, k)
             f == Convolve(1, u, w, 1, 1)
             t == Convolve(1, u, w, 2, 3)
         IN  t = Mat(<< (d[1]-2) \div 2 + 1, (d[2]-1) \div 3 + 1, 1 >>, LAMBDA x, y, z : At(f, 2*x, 3*y, 0))
=============================================================================
