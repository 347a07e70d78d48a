---------------------------- MODULE TraceMatrix -----------------------------
(* Checks that a recorded run of the matrix library is a behaviour of MatrixStore. *)
EXTENDS MatrixStore, Printing, Tables, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == << vars, l >>

Match(what, want, got) ==
    IF want = got THEN TRUE
    ELSE PrintT(<< "MISMATCH", l, what, "specified", want, "observed", got >>) /\ FALSE

Near(what, ok, seen) ==
    IF ok THEN TRUE ELSE PrintT(<< "MISMATCH", l, what, "observed", seen >>) /\ FALSE

\* exp of every element of an expression, observed as digits and power of ten; the scale of the case is 8.
\* In whole numbers the fraction is dropped, as for every other function
ExpRight(t, k, seen) ==
    IF t \in {"int", "u8"} THEN seen = << ExpWhole(TDiv(k, 8)), 0 >>
    ELSE IF k < -6400 THEN seen = << 0, 0 >>
    ELSE /\ seen[2] = ExpPower(k)
         /\ Abs(seen[1] - ExpDigits(k)) <= (IF t = "flt" THEN 30 ELSE 1)
ExpSeen(a, seen) ==
    LET m == Eval(a)
    IN  IF IsErr(m) THEN Refuse(m.e)
        ELSE /\ Match("shape of exp", m.d, seen[1])
             /\ Match("number of elements of exp", Len(m.v), Len(seen[2]))
             /\ \A i \in 1..Len(m.v) :
                   Near("exp", ExpRight(m.t, m.v[i], seen[2][i]), << m.v[i], seen[2][i] >>)
             /\ Return(seen)

Act(e) ==
    CASE e.op = "reset"   -> Reset(e.types, e.nv, e.S)
      [] e.op = "ctor"    -> Construct(e.k, e.d, e.x)
      [] e.op = "ctorv"   -> ConstructRows(e.k, e.d, e.v)
      [] e.op = "setent"  -> SetEntries(e.k, e.v)
      [] e.op = "vec"     -> AssignVector(e.k, e.v)
      [] e.op = "assign"  -> Assign(e.k, e.a)
      [] e.op = "move"    -> Move(e.k, e.j)
      [] e.op = "swap"    -> SwapMats(e.k, e.j)
      [] e.op = "resize"  -> Resize(e.k, e.d)
      [] e.op = "reshape" -> Reshape(e.k, e.d)
      [] e.op = "put"     -> Put(e.k, e.i, e.x)
      [] e.op = "read"    -> Read(e.k)
      [] e.op = "readat"  -> ReadAt(e.k, e.i)
      [] e.op = "idxmap"  -> IndexMap(e.k)
      [] e.op = "iter"    -> Iterate(e.a)
      [] e.op = "view"    -> MakeView(e.w, e.k, e.p)
      [] e.op = "subview" -> SubView(e.w, e.w0, e.p)
      [] e.op = "vat"     -> ViewAt(e.w, e.i)
      [] e.op = "vput"    -> ViewPut(e.w, e.i, e.x)
      [] e.op = "vfill"   -> ViewFill(e.w, e.x)
      [] e.op = "vassign" -> ViewAssign(e.w, e.a)
      [] e.op = "ips"     -> InPlaceScalar(e.tg, e.o, e.st, e.x)
      [] e.op = "ipe"     -> InPlaceElem(e.tg, e.o, e.k, e.i)
      [] e.op = "ipm"     -> InPlaceMatrix(e.tg, e.o, e.a)
      [] e.op = "modify"  -> Modify(e.tg, e.f)
      [] e.op = "eval"    -> Evaluate(e.a)
      [] e.op = "shapeof" -> ShapeOf(e.a)
      [] e.op = "evalw"   -> EvaluateAround(e.a, e.j, e.k, e.i, e.x)
      [] e.op = "exp"     -> ExpSeen(e.a, e.r.res)
      [] e.op = "reduce"  -> Reduce(e.f, e.a)
      [] e.op = "meanr"   -> e.r.out = "ok" /\ MeanWithin(e.a, e.r.res[1])
      [] e.op = "norm"    -> e.r.out = "ok" /\ NormWithin(e.a, e.r.res[1])
      [] e.op = "print"   -> PrintMatrix(e.a)
      [] e.op = "image"   -> e.r.out = "ok" /\ ImageWithin(e.a, e.r.res)
      [] e.op = "equal"   -> EqualTo(e.a, e.b, e.eps)
      [] e.op = "dot"     -> DotProduct(e.a, e.b)

\* The observed outcome, result and contents of every matrix
Observed(e) ==
    /\ Match("outcome", out', e.r.out)
    /\ Match("result", res', e.r.res)
    /\ "st" \in DOMAIN e.r =>
          /\ Match("count", Len(store'), Len(e.r.st))
          /\ \A k \in 1..Len(store') :
                /\ Match(<<"shape of matrix", k-1>>, store'[k].d, e.r.st[k].d)
                /\ Match(<<"contents of matrix", k-1>>, store'[k].v, e.r.st[k].v)

TraceInit == Init /\ l = 1
\* An event without "r" is a crash, a hang or a missing result: no action explains it
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l]
                IN  "r" \in DOMAIN e /\ Act(e) /\ Observed(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
