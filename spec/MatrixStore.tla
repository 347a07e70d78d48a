---------------------------- MODULE MatrixStore -----------------------------
(***************************************************************************)
(* The matrix library as a state machine.                                  *)
(*                                                                         *)
(* State: a few named matrices (each with an element type), a few region   *)
(* views onto them, the fixed point scale of the case, and the outcome and *)
(* result of the last operation.  One action per public operation.         *)
(*   out = "ok"         the operation succeeded                            *)
(*         "size"       refused with MatrixSizeException                   *)
(*         "transform"  refused with MatrixTransformException              *)
(*         "range"      refused with std::out_of_range                     *)
(* A refused operation changes nothing: that is part of every action.      *)
(*                                                                         *)
(* Matrices and views are numbered from 0 as in the programs that the      *)
(* drivers run.                                                            *)
(***************************************************************************)
EXTENDS Tensor

VARIABLES store,   \* store[k+1]: matrix k, a record [t, d, v]
          views,   \* views[w+1]: view w, a record [on, k, s, d]
          sc,      \* fixed point scale
          out,     \* outcome of the last operation
          res      \* result of the last operation
vars == << store, views, sc, out, res >>

NoView     == [on |-> FALSE, k |-> 0, s |-> <<0,0,0>>, d |-> <<0,0,0>>]
M(k)       == store[k+1]
Typed(t, m) == [t |-> t, d |-> m.d, v |-> m.v]
Err(e)     == [t |-> "err", e |-> e]
IsErr(r)   == r.t = "err"

-----------------------------------------------------------------------------
(* Element arithmetic, as in C++ *)

Rank(t)         == IF t = "u8" THEN 0 ELSE IF t = "int" THEN 1 ELSE IF t = "flt" THEN 2 ELSE 3
Common(t1, t2)  == IF Rank(t1) >= Rank(t2) THEN t1 ELSE t2
Integral(t)     == t \in {"int", "u8"}

\* Conversion of the exact number x to element type t
Cast(t, x) ==
    IF t = "u8"  THEN (TDiv(x, sc) % 256) * sc
    ELSE IF t = "int" THEN TDiv(x, sc) * sc
    ELSE x

Bool(b) == IF b THEN sc ELSE 0

\* a op b for operands whose common type is t
BinOp(t, op, a, b) ==
    CASE op = "+"  -> a + b
      [] op = "-"  -> a - b
      [] op = "*"  -> Mul(sc, a, b)
      [] op = "/"  -> IF Integral(t) THEN TDiv(a, b) * sc
                      ELSE IF Assert((a * sc) % Abs(b) = 0, <<"inexact case", a, b>>)
                           THEN TDiv(a * sc, b) ELSE 0
      [] op = "<"  -> Bool(a < b)
      [] op = "<=" -> Bool(a <= b)
      [] op = ">"  -> Bool(a > b)
      [] op = ">=" -> Bool(a >= b)
      [] op = "==" -> Bool(a = b)
      [] op = "!=" -> Bool(a # b)

\* The unary functions the drivers pass to apply and modify
Fun(f, x) ==
    CASE f = "id"   -> x
      [] f = "neg"  -> -x
      [] f = "dbl"  -> 2 * x
      [] f = "inc"  -> x + sc
      [] f = "half" -> TDiv(x, 2)          \* of even fixed point numbers
      [] f = "sq"   -> Mul(sc, x, x)
      [] f = "abs"  -> Abs(x)
      [] f = "pos"  -> Max2(x, 0)

-----------------------------------------------------------------------------
(* Regions and expressions *)

\* A path is a sequence of steps, each taking a region or slices of what is there so far.
\* Result: [ok, s, d] with s relative to the matrix.
RECURSIVE Walk(_, _, _)
Walk(path, s, d) ==
    IF path = <<>> THEN [ok |-> TRUE, s |-> s, d |-> d]
    ELSE LET p == path[1]
             st == IF p.n = "sub" THEN p.s ELSE << 0, 0, p.i >>
             ex == IF p.n = "sub" THEN p.d
                   ELSE IF p.n = "slices" THEN << d[1], d[2], p.c >>
                   ELSE << d[1], d[2], 1 >>
         IN  IF Inside(st, ex, d) THEN Walk(Tail(path), Add3(s, st), ex)
             ELSE [ok |-> FALSE, s |-> s, d |-> d]

Region(k, path) == Walk(path, <<0,0,0>>, M(k).d)

ViewValue(w) ==
    LET vw == views[w+1] IN Typed(M(vw.k).t, Sub(M(vw.k), vw.s, vw.d))

\* The value of an expression where the matrices hold st
RECURSIVE EvalIn(_, _)
EvalIn(st, a) ==
    CASE a.n \in {"m", "c", "t"} -> st[a.k+1]      \* named, const or copied into a temporary
      [] a.n \in {"v", "cv", "sc"} ->        \* views, or the copy of a region
            LET r == Walk(a.p, <<0,0,0>>, st[a.k+1].d)
            IN  IF r.ok THEN Typed(st[a.k+1].t, Sub(st[a.k+1], r.s, r.d)) ELSE Err("size")
      [] a.n = "w" -> LET vw == views[a.w+1] IN Typed(st[vw.k+1].t, Sub(st[vw.k+1], vw.s, vw.d))
      [] a.n = "bin" ->
            LET l == EvalIn(st, a.a)
                r == EvalIn(st, a.b)
            IN  IF IsErr(l) THEN l ELSE IF IsErr(r) THEN r
                ELSE IF l.d # r.d THEN Err("size")
                ELSE LET t == Common(l.t, r.t)
                     IN  Typed(t, Map2(l, r, LAMBDA x, y : Cast(t, BinOp(t, a.op, x, y))))
      [] a.n = "sr" ->
            LET l == EvalIn(st, a.a)
            IN  IF IsErr(l) THEN l
                ELSE LET t == Common(l.t, a.st)
                     IN  Typed(t, Map(l, LAMBDA x : Cast(t, BinOp(t, a.op, x, a.x))))
      [] a.n = "sl" ->
            LET r == EvalIn(st, a.a)
            IN  IF IsErr(r) THEN r
                ELSE LET t == Common(r.t, a.st)
                     IN  Typed(t, Map(r, LAMBDA x : Cast(t, BinOp(t, a.op, a.x, x))))
      [] a.n = "apply" ->
            LET l == EvalIn(st, a.a)
            IN  IF IsErr(l) THEN l
                ELSE Typed(l.t, Map(l, LAMBDA x : Cast(l.t, Fun(a.f, x))))
      [] a.n = "tr" ->
            LET l == EvalIn(st, a.a) IN IF IsErr(l) THEN l ELSE Typed(l.t, Transpose(l))
      [] a.n = "rot" ->
            LET l == EvalIn(st, a.a)
            IN  IF IsErr(l) THEN l
                ELSE IF a.c # 2 /\ l.d[1] # l.d[2] THEN Err("transform")
                ELSE Typed(l.t, Rotate(l, a.c))
      [] a.n = "mm" ->
            LET l == EvalIn(st, a.a)
                r == EvalIn(st, a.b)
            IN  IF IsErr(l) THEN l ELSE IF IsErr(r) THEN r
                ELSE IF ~CanMultiply(l, r) THEN Err("size")
                ELSE Typed(Common(l.t, r.t), MatMul(sc, l, r))
      [] a.n = "conv" ->
            LET l == EvalIn(st, a.a)
                r == EvalIn(st, a.b)
            IN  IF IsErr(l) THEN l ELSE IF IsErr(r) THEN r
                ELSE IF ~CanConvolve(l, r) THEN Err("size")
                ELSE Typed(Common(l.t, r.t), Convolve(sc, l, r, a.s[1], a.s[2]))
Eval(a) == EvalIn(store, a)

Converted(t, m) == Typed(t, Map(m, LAMBDA x : Cast(t, x)))

-----------------------------------------------------------------------------
(* Actions *)

Init == /\ store = <<>> /\ views = <<>> /\ sc = 1 /\ out = "ok" /\ res = <<>>

Reset(types, nviews, scale) ==
    /\ store' = [k \in 1..Len(types) |-> Typed(types[k], Empty)]
    /\ views' = [w \in 1..nviews |-> NoView]
    /\ sc' = scale /\ out' = "ok" /\ res' = <<>>

Refuse(e) == /\ out' = e /\ res' = <<>> /\ UNCHANGED << store, views, sc >>
Return(r) == /\ out' = "ok" /\ res' = r /\ UNCHANGED << store, views, sc >>
Set(k, m) == /\ store' = [store EXCEPT ![k+1] = m]
             /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << views, sc >>

\* --- construction, assignment, conversion ---
\* There are only matrices with sides of at least 0 and a representable number of elements
MaxEntries == 2147483647
ValidSize(d) ==
    /\ d[1] >= 0 /\ d[2] >= 0 /\ d[3] >= 0
    /\ IF d[1] = 0 \/ d[2] = 0 \/ d[3] = 0 THEN TRUE
       ELSE d[1] <= (MaxEntries \div d[2]) \div d[3]
Construct(k, d, x) ==
    IF ~ValidSize(d) THEN Refuse("size") ELSE Set(k, Typed(M(k).t, Const(d, x)))
ConstructRows(k, d, vals) ==
    IF ~ValidSize(d) THEN Refuse("size")
    ELSE IF Len(vals) # Vol(d) THEN Refuse("size")
    ELSE Set(k, Typed(M(k).t, FromRowMajor(d, vals)))
SetEntries(k, vals) ==
    IF Len(vals) # Vol(M(k).d) THEN Refuse("size")
    ELSE Set(k, Typed(M(k).t, FromRowMajor(M(k).d, vals)))
AssignVector(k, vals) ==
    IF Len(vals) # Vol(M(k).d) THEN Refuse("size")
    ELSE Set(k, [M(k) EXCEPT !.v = vals])
\* construct or assign from any expression (a plain matrix of any type is the simplest)
Assign(k, a) ==
    LET r == Eval(a)
    IN  IF IsErr(r) THEN Refuse(r.e) ELSE Set(k, Converted(M(k).t, r))
\* move construction or assignment: the source is left empty or unchanged
Move(k, j) ==
    /\ \/ store' = [store EXCEPT ![k+1] = M(j)]
       \/ k # j /\ store' = [store EXCEPT ![k+1] = M(j), ![j+1] = Typed(M(j).t, Empty)]
    /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << views, sc >>
SwapMats(k, j) ==
    /\ store' = [store EXCEPT ![k+1] = M(j), ![j+1] = M(k)]
    /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << views, sc >>

\* --- shape ---
Resize(k, d) ==
    IF ~ValidSize(d) THEN Refuse("size")
    ELSE Set(k, Typed(M(k).t, [d |-> d, v |-> [i \in 1..Vol(d) |->
                             IF i <= Len(M(k).v) THEN M(k).v[i] ELSE 0]]))
Reshape(k, d) ==
    IF ~ValidSize(d) THEN Refuse("transform")
    ELSE IF Vol(d) # Vol(M(k).d) THEN Refuse("transform") ELSE Set(k, [M(k) EXCEPT !.d = d])

\* --- element access ---
Put(k, idx, x) == Set(k, Typed(M(k).t, PutElem(M(k), idx, x)))
\* every element in storage order, by whatever means
Read(k)        == Return(M(k).v)
ReadAt(k, idx) == Return(<< At(M(k), idx[1], idx[2], idx[3]) >>)
\* position of every in-range index triple, listed in storage order
IndexMap(k)    == Return([i \in 1..Vol(M(k).d) |-> i - 1])
\* iteration over any expression: index triple and value of each step, and the number
\* of steps from the start as the iterator difference reports it
Iterate(a) ==
    LET m == Eval(a)
    IN  IF IsErr(m) THEN Refuse(m.e)
        ELSE Return([i \in 1..Len(m.v) |-> Unflat(m.d, i-1) \o << m.v[i], i-1, Len(m.v) >>])

\* --- views ---
MakeView(w, k, path) ==
    LET r == Region(k, path)
    IN  IF ~r.ok THEN Refuse("size")
        ELSE /\ views' = [views EXCEPT ![w+1] = [on |-> TRUE, k |-> k, s |-> r.s, d |-> r.d]]
             /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << store, sc >>
\* a view of a view
SubView(w, w0, path) ==
    LET v0 == views[w0+1]
        r  == Walk(path, v0.s, v0.d)
    IN  IF ~r.ok THEN Refuse("size")
        ELSE /\ views' = [views EXCEPT ![w+1] = [on |-> TRUE, k |-> v0.k, s |-> r.s, d |-> r.d]]
             /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << store, sc >>
ViewAt(w, idx) ==
    IF ~InRange(idx, views[w+1].d) THEN Refuse("range")
    ELSE Return(<< At(ViewValue(w), idx[1], idx[2], idx[3]) >>)
ViewPut(w, idx, x) ==
    LET vw == views[w+1]
        i  == Add3(vw.s, idx)
    IN  IF ~InRange(idx, vw.d) THEN Refuse("range")
        ELSE Set(vw.k, Typed(M(vw.k).t, PutElem(M(vw.k), i, x)))
ViewFill(w, x) ==
    LET vw == views[w+1]
        t  == M(vw.k).t
    IN  Set(vw.k, Typed(t, Paste(M(vw.k), vw.s, Const(vw.d, Cast(t, x)))))
ViewAssign(w, a) ==
    LET vw == views[w+1]
        r  == Eval(a)
    IN  IF IsErr(r) THEN Refuse(r.e)
        ELSE IF r.d # vw.d THEN Refuse("size")
        ELSE Set(vw.k, Typed(M(vw.k).t, Paste(M(vw.k), vw.s, Converted(M(vw.k).t, r))))

\* --- in-place arithmetic; target: [n |-> "m", k] or [n |-> "w", w] ---
TargetValue(tg) == IF tg.n = "m" THEN M(tg.k) ELSE ViewValue(tg.w)
SetTarget(tg, m) ==
    IF tg.n = "m" THEN Set(tg.k, m)
    ELSE LET vw == views[tg.w+1]
         IN  Set(vw.k, Typed(M(vw.k).t, Paste(M(vw.k), vw.s, m)))
InPlaceScalar(tg, op, st, x) ==
    LET m == TargetValue(tg)
        t == Common(m.t, st)
    IN  SetTarget(tg, Typed(m.t, Map(m, LAMBDA y : Cast(m.t, BinOp(t, op, y, x)))))
\* the scalar is a reference to an element of matrix k
InPlaceElem(tg, op, k, idx) ==
    InPlaceScalar(tg, op, M(k).t, At(M(k), idx[1], idx[2], idx[3]))
InPlaceMatrix(tg, op, a) ==
    LET m == TargetValue(tg)
        r == Eval(a)
    IN  IF IsErr(r) THEN Refuse(r.e)
        ELSE IF r.d # m.d THEN Refuse("size")
        ELSE LET t == Common(m.t, r.t)
             IN  SetTarget(tg, Typed(m.t, Map2(m, r, LAMBDA y, x : Cast(m.t, BinOp(t, op, y, x)))))
Modify(tg, f) ==
    LET m == TargetValue(tg)
    IN  SetTarget(tg, Typed(m.t, Map(m, LAMBDA x : Cast(m.t, Fun(f, x)))))

\* --- evaluation of an expression into a fresh matrix ---
Evaluate(a) ==
    LET r == Eval(a)
    IN  IF IsErr(r) THEN Refuse(r.e) ELSE Return(<< r.d, r.v >>)

\* Shape (as a whole and side by side), number of elements, and what is said of the shape: square layers, one layer, one row, one column
ShapeOf(a) ==
    LET r == Eval(a)
        yes(p) == IF p THEN 1 ELSE 0
    IN  IF IsErr(r) THEN Refuse(r.e)
        ELSE Return(<< r.d, r.d, Vol(r.d), yes(r.d[1] = r.d[2]), yes(r.d[3] = 1),
                       yes(r.d[1] = 1 /\ r.d[3] = 1), yes(r.d[2] = 1 /\ r.d[3] = 1) >>)

\* An expression on named matrices denotes what they hold when it is read: the expression is built, element j
\* read, element i of matrix k written, and then the same expression read again
EvaluateAround(a, j, k, i, x) ==
    LET before == Eval(a)
        written == [store EXCEPT ![k+1] = Typed(M(k).t, PutElem(M(k), i, x))]
        after == EvalIn(written, a)
    IN  IF IsErr(before) THEN Refuse(before.e)
        ELSE /\ store' = written
             /\ out' = "ok" /\ UNCHANGED << views, sc >>
             /\ res' = << At(before, j[1], j[2], j[3]), At(after, j[1], j[2], j[3]), after.v >>

\* --- reductions (of non-empty operands) ---
ReduceOf(f, m) ==
    CASE f = "sum"    -> << Total(m) >>
      [] f = "max"    -> << Maximum(m) >>
      [] f = "min"    -> << Minimum(m) >>
      [] f = "maxIdx" -> Unflat(m.d, ArgMax(m))
      [] f = "minIdx" -> Unflat(m.d, ArgMin(m))
      [] f = "maxPos" -> << ArgMax(m) >>
      [] f = "minPos" -> << ArgMin(m) >>
      [] f = "mean"   -> << TDiv(TDiv(Total(m), sc), Len(m.v)) * sc >>     \* integral types only
Reduce(f, a) ==
    LET m == Eval(a) IN IF IsErr(m) THEN Refuse(m.e) ELSE Return(ReduceOf(f, m))
\* real mean and norm are rounded to the scale by the observer: q is right within one unit
MeanWithin(a, q) ==
    LET m == Eval(a) IN ~IsErr(m) /\ Abs(q * Len(m.v) - Total(m)) <= Len(m.v) /\ Return(<<q>>)
NormWithin(a, q) ==
    LET m == Eval(a)
        s == SumN(Len(m.v), LAMBDA i : m.v[i+1] * m.v[i+1])
    IN  /\ ~IsErr(m) /\ q >= 0
        /\ (q > 0 => (q-1)*(q-1) <= s) /\ s <= (q+1)*(q+1)
        /\ Return(<<q>>)
EqualTo(a, b, eps) ==
    LET l == Eval(a)
        r == Eval(b)
    IN  IF IsErr(l) THEN Refuse(l.e) ELSE IF IsErr(r) THEN Refuse(r.e)
        ELSE Return(<< IF /\ l.d = r.d
                          /\ \A i \in 1..Len(l.v) : Abs(l.v[i] - r.v[i]) <= eps
                       THEN 1 ELSE 0 >>)
DotProduct(a, b) ==
    LET l == Eval(a)
        r == Eval(b)
    IN  IF IsErr(l) THEN Refuse(l.e) ELSE IF IsErr(r) THEN Refuse(r.e)
        ELSE IF ~CanDot(l, r) THEN Refuse("size")
        ELSE Return(<< Dot(sc, l, r) >>)

-----------------------------------------------------------------------------
(* Invariants *)

ShapesAgree == \A k \in 1..Len(store) : IsMatrix(store[k]) /\ \A i \in 1..3 : store[k].d[i] >= 0
ViewsInside == \A w \in 1..Len(views) :
                  views[w].on => views[w].k + 1 \in 1..Len(store)
\* A refused operation changes nothing
RefusedNoChange == [][out' # "ok" => UNCHANGED << store, views >>]_vars
=============================================================================
