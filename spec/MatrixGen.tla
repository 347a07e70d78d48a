----------------------------- MODULE MatrixGen ------------------------------
(***************************************************************************)
(* A closed model of MatrixStore: a few small matrices and views and a     *)
(* finite set of operations.  TLC explores every program of up to Depth    *)
(* operations (or, in simulation mode, random longer ones), checks the     *)
(* frame conditions of the specification on each step, and prints the      *)
(* programs, which the drivers then run on the real code.                  *)
(*                                                                         *)
(* Group selects the operations: "value" (C05), "view" (C02), "inplace"    *)
(* (C04).  Leak is a fault for the negative control: a refused reshape     *)
(* changes the shape all the same.                                         *)
(***************************************************************************)
EXTENDS MatrixStore, Json

CONSTANTS Group, Depth, Leak

VARIABLES prog,     \* the operations so far, as the drivers read them
          target    \* the matrices the last operation was to write to
gvars == << vars, prog, target >>

Types == << "int", "dbl", "int" >>
Dims  == { << 2, 2, 1 >>, << 1, 3, 1 >>, << 2, 1, 2 >>, << 0, 2, 1 >>, << 1, 2, 2 >> }
Ty(k) == Types[k+1]
Leaf(n, k) == [n |-> n, k |-> k, ty |-> Ty(k)]
Part(n, k, s, d) == [n |-> n, k |-> k, ty |-> Ty(k), p |-> << [n |-> "sub", s |-> s, d |-> d] >>]

Start == << [op |-> "reset", types |-> Types, nv |-> 2, S |-> 1],
            [op |-> "ctorv", k |-> 0, d |-> << 2, 2, 1 >>, v |-> << 1, 2, 3, 4 >>],
            [op |-> "ctorv", k |-> 1, d |-> << 2, 1, 2 >>, v |-> << 5, 6, 7, 8 >>],
            [op |-> "ctorv", k |-> 2, d |-> << 1, 3, 1 >>, v |-> << 9, 10, 11 >>] >>

GenInit == /\ store = << Typed("int", FromRowMajor(<< 2, 2, 1 >>, << 1, 2, 3, 4 >>)),
                         Typed("dbl", FromRowMajor(<< 2, 1, 2 >>, << 5, 6, 7, 8 >>)),
                         Typed("int", FromRowMajor(<< 1, 3, 1 >>, << 9, 10, 11 >>)) >>
           /\ views = << NoView, NoView >> /\ sc = 1 /\ out = "ok" /\ res = <<>>
           /\ prog = Start /\ target = {}

\* --- the operations, as records ---
Sources == { Leaf("m", 0), Leaf("m", 1), Leaf("m", 2), Leaf("t", 1), Leaf("c", 0) }
Self    == { [n |-> "tr", a |-> Leaf("m", 0)],
             [n |-> "bin", op |-> "+", a |-> Leaf("m", 0), b |-> Leaf("m", 0)],
             [n |-> "bin", op |-> "-", a |-> Leaf("m", 0), b |-> Leaf("m", 2)],
             Part("v", 0, << 0, 1, 0 >>, << 2, 1, 1 >>),
             Part("v", 0, << 1, 0, 0 >>, << 1, 2, 1 >>),
             Part("cv", 1, << 0, 0, 1 >>, << 2, 1, 1 >>) }

Values ==
       { [op |-> "ctor", k |-> k, d |-> d, x |-> 7] : k \in {0, 1}, d \in Dims }
  \cup { [op |-> "resize", k |-> k, d |-> d, how |-> 0] : k \in {0, 1}, d \in Dims \cup { << 3, 2, 1 >>, << -2, -2, 1 >>, << 2, 1, -1 >> } }
  \cup { [op |-> "reshape", k |-> k, d |-> d, how |-> 1] : k \in {0, 1}, d \in Dims \cup { << 4, 1, 1 >>, << -2, -2, 1 >> } }
  \cup { [op |-> "assign", k |-> k, ty |-> Ty(k), how |-> "asg", a |-> a] : k \in {0, 1}, a \in Sources \cup Self }
  \cup { [op |-> "assign", k |-> 2, ty |-> "int", how |-> "ctor", a |-> a] : a \in { Leaf("m", 0), Leaf("m", 1) } }
  \cup { [op |-> "vec", k |-> k, v |-> v] : k \in {0, 1}, v \in { << 21, 22, 23, 24 >>, << 31, 32 >>, << 41, 42, 43 >>, <<>> } }
  \cup { [op |-> "setent", k |-> 0, v |-> v] : v \in { << 21, 22, 23, 24 >>, << 31, 32, 33 >> } }
  \cup { [op |-> "put", k |-> k, i |-> i, x |-> 50, how |-> "xyz"] : k \in {0, 1}, i \in { << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >> } }
  \cup { [op |-> "swap", k |-> 0, j |-> 2], [op |-> "swap", k |-> 2, j |-> 0] }
  \cup { [op |-> "move", k |-> k, j |-> 2 - k, how |-> h] : k \in {0, 2}, h \in { "asg", "ctor" } }

Turned(a) == [n |-> "rot", c |-> 2, a |-> a]
Slice(i) == << [n |-> "slice", i |-> i] >>
Box(s, d) == << [n |-> "sub", s |-> s, d |-> d] >>
MakeViews ==
       { [op |-> "view", w |-> w, k |-> k, p |-> p] : w \in {0, 1}, k \in {0, 1},
            p \in { Box(<< 0, 0, 0 >>, << 2, 1, 1 >>), Box(<< 1, 0, 0 >>, << 1, 2, 1 >>), Box(<< 0, 0, 1 >>, << 2, 1, 1 >>),
                    Slice(0), Slice(1), Box(<< 0, 0, 0 >>, << 2, 2, 1 >>), Box(<< 1, 1, 0 >>, << 0, 1, 1 >>) } }
  \cup { [op |-> "subview", w |-> w, w0 |-> 0, p |-> p] : w \in {0, 1},
            p \in { Slice(0), Slice(1), Box(<< 0, 0, 0 >>, << 1, 1, 1 >>), Box(<< 1, 0, 0 >>, << 1, 1, 1 >>),
                    Box(<< 0, 1, 0 >>, << 1, 1, 1 >>), Box(<< -1, 0, 0 >>, << 1, 1, 1 >>) } }
ViewTy(w) == IF views[w+1].on THEN Ty(views[w+1].k) ELSE "int"
UseViews ==
       { [op |-> "vput", w |-> w, i |-> i, x |-> 60, how |-> "at"] : w \in {0, 1}, i \in { << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, 0, 1 >>, << -1, 0, 0 >> } }
  \cup { [op |-> "vat", w |-> w, i |-> i, how |-> h] : w \in {0, 1}, h \in { "at", "cat" }, i \in { << 0, 0, 0 >>, << 1, 0, 0 >>, << 0, 1, 0 >>, << 0, -1, 0 >> } }
  \cup { [op |-> "vfill", w |-> w, st |-> "int", x |-> 70] : w \in {0, 1} }
  \cup { [op |-> "vassign", w |-> w, ty |-> ViewTy(w), a |-> [n |-> "w", w |-> 1 - w, ty |-> ViewTy(1 - w)]] : w \in {0, 1} }
  \cup { [op |-> "vassign", w |-> w, ty |-> ViewTy(w), a |-> a] : w \in {0, 1}, a \in { Part("v", 1, << 0, 0, 0 >>, << 2, 1, 1 >>), Leaf("m", 2), Part("v", 0, << 1, 0, 0 >>, << 1, 2, 1 >>), Turned(Leaf("m", 0)), [n |-> "tr", a |-> Leaf("m", 0)] } }
  \cup { [op |-> "ips", tg |-> [n |-> "w", w |-> w, ty |-> ViewTy(w)], o |-> "+", st |-> "int", x |-> 3] : w \in {0, 1} }
  \cup { [op |-> "put", k |-> k, i |-> i, x |-> 50, how |-> "xyz"] : k \in {0, 1}, i \in { << 0, 0, 0 >>, << 1, 0, 0 >> } }
  \cup { [op |-> "eval", how |-> "tri", a |-> [n |-> "w", w |-> w, ty |-> ViewTy(w)]] : w \in {0, 1} }

Targets == { [n |-> "m", k |-> 0, ty |-> "int"], [n |-> "m", k |-> 1, ty |-> "dbl"],
             [n |-> "w", w |-> 0, ty |-> ViewTy(0)] }
InPlace ==
       { [op |-> "ips", tg |-> t, o |-> o, st |-> "int", x |-> 3] : t \in Targets, o \in { "+", "-", "*" } }
  \cup { [op |-> "ipe", tg |-> t, o |-> o, k |-> k, ty |-> Ty(k), i |-> i] : t \in Targets, o \in { "+", "-", "*" }, k \in {0, 1}, i \in { << 0, 0, 0 >>, << 1, 0, 0 >> } }
  \cup { [op |-> "ipm", tg |-> t, o |-> o, a |-> a] : t \in Targets, o \in { "+", "-", "*" },
            a \in { Leaf("m", 0), Leaf("m", 1), [n |-> "bin", op |-> "+", a |-> Leaf("m", 0), b |-> Leaf("m", 0)], Part("v", 0, << 0, 1, 0 >>, << 2, 1, 1 >>),
                  [n |-> "tr", a |-> Leaf("m", 0)], Turned(Leaf("c", 0)), Turned(Leaf("m", 1)) } }
  \cup { [op |-> "modify", tg |-> t, f |-> f] : t \in Targets, f \in { "neg", "inc" } }
InPlaceSetup ==
       { [op |-> "view", w |-> 0, k |-> k, p |-> p] : k \in {0, 1}, p \in { Box(<< 0, 0, 0 >>, << 2, 1, 1 >>), Slice(1), Box(<< 0, 1, 0 >>, << 2, 1, 1 >>) } }
  \cup { [op |-> "reshape", k |-> k, d |-> d, how |-> 1] : k \in {0, 1}, d \in { << 2, 2, 1 >>, << 1, 2, 2 >>, << 2, 1, 2 >>, << 4, 1, 1 >> } }
  \cup { [op |-> "resize", k |-> 1, d |-> << 2, 1, 1 >>, how |-> 0] }

Ops == IF Group = "value" THEN Values
       ELSE IF Group = "view" THEN MakeViews \cup UseViews
       ELSE InPlaceSetup \cup InPlace

\* --- which operations may be called now ---
Alive(w) == /\ views[w+1].on /\ Inside(views[w+1].s, views[w+1].d, M(views[w+1].k).d)
RECURSIVE Callable(_)
Callable(a) ==
    CASE a.n = "w" -> Alive(a.w) /\ a.ty = ViewTy(a.w)
      [] a.n = "bin" -> Callable(a.a) /\ Callable(a.b)
      [] a.n \in {"tr", "rot"} -> Callable(a.a)
      [] OTHER -> TRUE
Dest(tg) == IF tg.n = "m" THEN [k |-> tg.k, s |-> <<0,0,0>>, d |-> M(tg.k).d] ELSE views[tg.w+1]
Small(m) == \A i \in 1..Len(m.v) : Abs(m.v[i]) <= 10000
Legal(e) ==
    CASE e.op = "put" -> InRange(e.i, M(e.k).d)
      [] e.op = "assign" -> Callable(e.a)
      [] e.op = "subview" -> Alive(e.w0)
      [] e.op \in { "vput", "vat" } -> Alive(e.w)
      [] e.op = "vfill" -> Alive(e.w)
      [] e.op = "vassign" -> Alive(e.w) /\ Callable(e.a)
      [] e.op = "eval" -> Callable(e.a)
      [] e.op \in { "ips", "ipe", "ipm", "modify" } ->
            /\ e.tg.n = "w" => Alive(e.tg.w)
            /\ e.op = "ipe" => InRange(e.i, M(e.k).d)
            /\ e.op = "ipm" => Callable(e.a)
            /\ Small(TargetValue(e.tg))
      [] OTHER -> TRUE

\* --- what they mean ---
Do(e) ==
    CASE e.op = "ctor"    -> Construct(e.k, e.d, e.x)
      [] e.op = "setent"  -> SetEntries(e.k, e.v)
      [] e.op = "vec"     -> AssignVector(e.k, e.v)
      [] e.op = "assign"  -> Assign(e.k, e.a)
      [] e.op = "move"    -> Move(e.k, e.j)
      [] e.op = "swap"    -> SwapMats(e.k, e.j)
      [] e.op = "resize"  -> Resize(e.k, e.d)
      [] e.op = "reshape" -> IF Leak /\ Vol(e.d) # Vol(M(e.k).d)
                             THEN /\ store' = [store EXCEPT ![e.k+1].d = e.d] /\ out' = "transform"
                                  /\ res' = <<>> /\ UNCHANGED << views, sc >>
                             ELSE Reshape(e.k, e.d)
      [] e.op = "put"     -> Put(e.k, e.i, e.x)
      [] e.op = "view"    -> MakeView(e.w, e.k, e.p)
      [] e.op = "subview" -> SubView(e.w, e.w0, e.p)
      [] e.op = "vat"     -> ViewAt(e.w, e.i)
      [] e.op = "vput"    -> ViewPut(e.w, e.i, e.x)
      [] e.op = "vfill"   -> ViewFill(e.w, e.x)
      [] e.op = "vassign" -> ViewAssign(e.w, e.a)
      [] e.op = "ips"     -> InPlaceScalar(e.tg, e.o, e.st, e.x)
      [] e.op = "ipe"     -> InPlaceElem(e.tg, e.o, e.k, e.i)
      [] e.op = "ipm"     -> InPlaceMatrix(e.tg, e.o, e.a)
      [] e.op = "modify"  -> Modify(e.tg, e.f)
      [] e.op = "eval"    -> Evaluate(e.a)

Writes(e) ==
    CASE e.op \in { "swap", "move" } -> { e.k, e.j }
      [] e.op \in { "ips", "ipe", "ipm", "modify" } -> { Dest(e.tg).k }
      [] e.op \in { "vput", "vfill", "vassign" } -> { views[e.w+1].k }
      [] e.op \in { "view", "subview", "vat", "eval" } -> {}
      [] OTHER -> { e.k }

\* A moved-from matrix is empty or unchanged: it is given a definite value before it is used again
Refill(e) == IF e.op = "move" THEN << [op |-> "assign", k |-> e.j, ty |-> Ty(e.j), how |-> "asg", a |-> Leaf("m", e.k)] >> ELSE <<>>

GenNext ==
    /\ Len(prog) < Len(Start) + Depth
    /\ (Len(prog) > Len(Start) => target # {-1})        \* go on only from operations that changed something
    /\ \E e \in Ops :
         /\ Legal(e)
         /\ IF e.op = "move"
            THEN /\ store' = [store EXCEPT ![e.k+1] = M(e.j)]    \* moved and copied back
                 /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << views, sc >>
            ELSE Do(e)
         /\ prog' = (prog \o << e >>) \o Refill(e)
         /\ target' = IF store' = store /\ views' = views THEN {-1} ELSE Writes(e)
GenSpec == GenInit /\ [][GenNext]_gvars

Short == Len(prog) < Len(Start) + Depth
\* printed once the program is complete (or at its longest in a simulation)
Emit == IF ~Short \/ target = {-1} THEN PrintT("PROG " \o ToJson(prog)) ELSE TRUE

-----------------------------------------------------------------------------
(* The specification's own sanity *)
GenShapes == ShapesAgree
\* nothing but the written matrices changes, and a refused operation changes nothing
Frame == [][ /\ (out' # "ok" => UNCHANGED << store, views >>)
             /\ \A k \in 0..2 : k \notin target' => store'[k+1] = store[k+1] ]_gvars
\* writing through a view changes its region only, and reading it back gives what was written
ViewFrame == [][ \A w \in {0, 1} :
                   (Len(prog') > Len(prog) /\ prog'[Len(prog')].op \in {"vfill", "vput", "vassign"} /\ prog'[Len(prog')].w = w /\ out' = "ok")
                   => LET vw == views[w+1]
                          m  == store[vw.k+1]
                          n  == store'[vw.k+1]
                      IN  \A i \in 1..Len(m.v) :
                            LET p == Unflat(m.d, i-1)
                                q == << p[1] - vw.s[1], p[2] - vw.s[2], p[3] - vw.s[3] >>
                            IN  ~InRange(q, vw.d) => n.v[i] = m.v[i] ]_gvars
=============================================================================
