------------------------------- MODULE Tensor -------------------------------
(***************************************************************************)
(* Matrices as mathematical values.                                        *)
(*                                                                         *)
(* A matrix is a record [d |-> <<X, Y, Z>>, v |-> sequence of X*Y*Z        *)
(* integers], stored with the row index x fastest, then the column y, then *)
(* the layer z (the storage order of the library).  Real numbers are fixed *)
(* point: an integer n stands for n/S, where the scale S belongs to the    *)
(* case at hand (S = 1 for integer valued cases).  All operators are exact;*)
(* cases are made so that no rounding and no 32 bit overflow occurs.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Functions, SequencesExt

Vol(d) == d[1] * d[2] * d[3]

Mat(d, F(_,_,_)) ==
    [d |-> d,
     v |-> TLCEval([k \in 1..Vol(d) |->
              F((k-1) % d[1], ((k-1) \div d[1]) % d[2], (k-1) \div (d[1]*d[2]))])]

Flat(d, x, y, z) == z * d[1] * d[2] + y * d[1] + x
At(m, x, y, z)   == m.v[z * m.d[1] * m.d[2] + y * m.d[1] + x + 1]

\* The index triple of storage position k (counted from 0)
Unflat(d, k) == << k % d[1], (k \div d[1]) % d[2], k \div (d[1]*d[2]) >>

Const(d, c) == [d |-> d, v |-> TLCEval([k \in 1..Vol(d) |-> c])]
Zeros(d)    == Const(d, 0)
Empty       == [d |-> <<0,0,0>>, v |-> <<>>]

IsMatrix(m) == Len(m.v) = Vol(m.d)

\* Row-major listing: layer by layer, row by row, as setEntries takes it
FromRowMajor(d, s) ==
    Mat(d, LAMBDA x, y, z : s[z * d[1] * d[2] + x * d[2] + y + 1])
RowMajor(m) ==
    [k \in 1..Vol(m.d) |->
        LET z == (k-1) \div (m.d[1]*m.d[2])
            r == (k-1) % (m.d[1]*m.d[2])
        IN  At(m, r \div m.d[2], r % m.d[2], z)]

SumSeq(s)     == FoldFunction(LAMBDA a, b : a + b, 0, s)
SumN(n, F(_)) == FoldFunction(LAMBDA a, b : a + b, 0, [k \in 1..n |-> F(k-1)])
Abs(a)        == IF a < 0 THEN -a ELSE a
Max2(a, b)    == IF a >= b THEN a ELSE b
Min2(a, b)    == IF a <= b THEN a ELSE b
Sgn(a)        == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

\* Division as in C: towards zero
TDiv(a, b) == Sgn(a) * Sgn(b) * (Abs(a) \div Abs(b))

Map(m, F(_))       == [d |-> m.d, v |-> TLCEval([k \in 1..Len(m.v) |-> F(m.v[k])])]
Map2(m, n, F(_,_)) == [d |-> m.d, v |-> TLCEval([k \in 1..Len(m.v) |-> F(m.v[k], n.v[k])])]

-----------------------------------------------------------------------------
\* Regions

\* A region (start, extent) lies inside a matrix or view of extent d
Inside(start, ext, d) ==
    \A i \in 1..3 : start[i] >= 0 /\ ext[i] >= 0 /\ ext[i] <= d[i] - start[i]      \* the end might be no integer

InRange(idx, d) == \A i \in 1..3 : idx[i] >= 0 /\ idx[i] < d[i]

Add3(a, b) == << a[1]+b[1], a[2]+b[2], a[3]+b[3] >>

Sub(m, start, ext) ==
    Mat(ext, LAMBDA x, y, z : At(m, start[1]+x, start[2]+y, start[3]+z))

\* m with the region starting at `start` replaced by n
Paste(m, start, n) ==
    Mat(m.d, LAMBDA x, y, z :
        LET i == << x - start[1], y - start[2], z - start[3] >>
        IN  IF InRange(i, n.d) THEN At(n, i[1], i[2], i[3]) ELSE At(m, x, y, z))

PutElem(m, idx, c) == [m EXCEPT !.v[Flat(m.d, idx[1], idx[2], idx[3]) + 1] = c]

-----------------------------------------------------------------------------
\* Linear algebra.  S is the fixed point scale.

Mul(S, a, b) == IF S = 1 THEN a * b
                ELSE IF S < 1000000 THEN (a * b) \div S
                ELSE IF a % S = 0 THEN (a \div S) * b ELSE a * (b \div S)      \* fine grids: one factor is whole
\* Exactness of Mul: cases never make it inexact, the trace spec asserts it
MulExact(S, a, b) == (a * b) % S = 0

Transpose(m) == Mat(<< m.d[2], m.d[1], m.d[3] >>, LAMBDA x, y, z : At(m, y, x, z))

\* n quarter turns (clockwise, rows counted downwards); n = 2 for any shape, n = 1, 3 for square layers
Rotate(m, n) ==
    Mat(m.d, LAMBDA x, y, z :
        IF n = 1 THEN At(m, m.d[2] - y - 1, x, z)
        ELSE IF n = 2 THEN At(m, m.d[1] - x - 1, m.d[2] - y - 1, z)
        ELSE At(m, y, m.d[1] - x - 1, z))

CanMultiply(a, b) == a.d[3] = b.d[3] /\ a.d[2] = b.d[1]
MatMul(S, a, b) ==
    Mat(<< a.d[1], b.d[2], a.d[3] >>, LAMBDA x, y, z :
        SumN(a.d[2], LAMBDA i : Mul(S, At(a, x, i, z), At(b, i, y, z))))

IsVector(m)  == m.d[3] = 1 /\ (m.d[1] = 1 \/ m.d[2] = 1)
CanDot(a, b) == IsVector(a) /\ IsVector(b) /\ Len(a.v) = Len(b.v)
Dot(S, a, b) == SumN(Len(a.v), LAMBDA i : Mul(S, a.v[i+1], b.v[i+1]))

\* Cross-correlation of one channel, at every position where w fits completely
CanConvolve(x, w) == x.d[1] >= w.d[1] /\ x.d[2] >= w.d[2]
Convolve(S, x, w, sx, sy) ==
    Mat(<< (x.d[1] - w.d[1]) \div sx + 1, (x.d[2] - w.d[2]) \div sy + 1, 1 >>,
        LAMBDA i, j, k :
            SumN(w.d[1] * w.d[2], LAMBDA n :
                LET u == n % w.d[1]
                    t == n \div w.d[1]
                IN  Mul(S, At(x, i*sx + u, j*sy + t, 0), At(w, u, t, 0))))

-----------------------------------------------------------------------------
\* Reductions of non-empty matrices

Total(m)   == SumSeq(m.v)
Maximum(m) == FoldFunction(Max2, m.v[1], m.v)
Minimum(m) == FoldFunction(Min2, m.v[1], m.v)
\* Storage position (from 0) of the first element equal to c
FirstPos(m, c) == (CHOOSE k \in 1..Len(m.v) : m.v[k] = c /\ \A j \in 1..(k-1) : m.v[j] # c) - 1
ArgMax(m)  == FirstPos(m, Maximum(m))
ArgMin(m)  == FirstPos(m, Minimum(m))
SumSquares(S, m) == SumN(Len(m.v), LAMBDA i : Mul(S, m.v[i+1], m.v[i+1]))
=============================================================================
