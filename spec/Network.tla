------------------------------- MODULE Network ------------------------------
(***************************************************************************)
(* Layers and models as a state machine.                                   *)
(*                                                                         *)
(* objs  layer objects, each a record with its kind, configuration,        *)
(*       parameters, and what it remembers for each batch slot: the        *)
(*       gradients stored for the running batch (convolution, fully        *)
(*       connected), the selection of the last forward pass (pooling) and  *)
(*       the true label (softmax).                                         *)
(* nets  models: the layer objects they consist of, in order, their output *)
(*       labels and the result last computed in each batch slot.           *)
(* One action per public operation.  out is "ok" or "refused"; a refused   *)
(* operation changes no parameter and no gradient.                         *)
(*                                                                         *)
(* Layers, models, slots and labels are numbered from 0 in the programs.   *)
(***************************************************************************)
EXTENDS Layers, Tables

VARIABLES objs, nets, sc, out, res
vars == << objs, nets, sc, out, res >>

None     == [d |-> << -1, -1, -1 >>, v |-> <<>>]
IsNone(m) == m.d[1] < 0
O(o)     == objs[o+1]
N(m)     == nets[m+1]

-----------------------------------------------------------------------------
(* Layer objects *)

Blank == [k |-> "", fd |-> <<0,0,0>>, n |-> 0, s |-> 1, pd |-> <<0,0>>, ps |-> <<1,1>>, f |-> "",
          w |-> Empty, b |-> Empty, ini |-> FALSE, known |-> FALSE,
          gw |-> <<>>, gb |-> <<>>, sel |-> <<>>, lab |-> <<>>]
KernelObj(fd, n, s) == [Blank EXCEPT !.k = "kernel", !.fd = fd, !.n = n, !.s = s, !.ini = TRUE]
PoolObj(pt, pd, ps) == [Blank EXCEPT !.k = "pool", !.f = pt, !.pd = pd, !.ps = ps, !.sel = << None >>, !.known = TRUE]
FcObj(n)            == [Blank EXCEPT !.k = "fc", !.n = n]
ActObj(f)           == [Blank EXCEPT !.k = "act", !.f = f, !.known = TRUE]
SoftObj(n)          == [Blank EXCEPT !.k = "soft", !.n = n, !.lab = << -1 >>, !.known = TRUE]
\* softmax behind a step that turns the largest logit into certainty (a test double of the drivers)
SnapObj(n)          == [SoftObj(n) EXCEPT !.f = "snap"]

MakeObj(c) ==
    CASE c.k = "kernel" -> KernelObj(c.fd, c.n, c.s)
      [] c.k = "pool"   -> PoolObj(c.f, c.pd, c.ps)
      [] c.k = "fc"     -> FcObj(c.n)
      [] c.k = "act"    -> ActObj(c.f)
      [] c.k = "soft"   -> SoftObj(c.n)
      [] c.k = "snap"   -> SnapObj(c.n)

HasParams(L) == L.k \in {"kernel", "fc"}

Fits(L, x) ==
    CASE L.k = "kernel" -> KernelFits(L.fd, x)
      [] L.k = "pool"   -> PoolFits(L.pd, x)
      [] L.k = "fc"     -> L.ini => L.w.d[2] = Len(x.v)
      [] L.k = "act"    -> TRUE
      [] L.k = "soft"   -> SoftFits(L.n, x)

Snap(x) == LET m == ArgMax(x) IN [d |-> x.d, v |-> [k \in 1..Len(x.v) |-> IF k = m + 1 THEN 100 * sc ELSE 0]]

\* Outside the exact arithmetic of the specification: no observed result equals this
Nowhere == 999999999
Undefined(x) == Const(x.d, Nowhere)

OutputOf(L, x) ==
    CASE L.k = "kernel" -> KernelForward(sc, L.fd, L.n, L.s, L.w, L.b, x)
      [] L.k = "pool"   -> IF PoolExact(L.f, L.pd, L.ps, x)
                           THEN PoolForward(L.f, L.pd, L.ps, x) ELSE Undefined(x)
      [] L.k = "fc"     -> FcForward(sc, L.w, L.b, x)
      [] L.k = "act"    -> Map(x, LAMBDA v : Act(L.f, v))
      [] L.k = "soft"   -> LET z == IF L.f = "snap" THEN Snap(x) ELSE x
                           IN  IF Decided(sc, z) THEN SoftForward(sc, z) ELSE Undefined(x)

\* What the layer remembers of a forward pass
AfterForward(L, x, slot) ==
    IF L.k = "pool" /\ L.f # "avg"
    THEN [L EXCEPT !.sel[slot+1] = Selection(L.f, L.pd, L.ps, x)]
    ELSE L

\* Upstream gradient g for input x and output y in a slot; NONE for "nothing"
InputGradOf(L, x, y, g, slot) ==
    CASE L.k = "kernel" -> KernelGradX(sc, L.fd, L.n, L.s, L.w, x.d, g)
      [] L.k = "pool"   -> IF L.f = "avg" THEN PoolGradAvg(L.pd, L.ps, x.d, g)
                           ELSE PoolGradSel(L.sel[slot+1], x.d, g)
      [] L.k = "fc"     -> FcGradX(sc, L.w, x.d, g)
      [] L.k = "act"    -> Map2(x, g, LAMBDA v, u : ActGrad(L.f, v, u))
      [] L.k = "soft"   -> SoftGrad(sc, y, L.lab[slot+1])

AfterBackward(L, x, g, slot) ==
    CASE L.k = "kernel" -> [L EXCEPT !.gw[slot+1] = KernelGradW(sc, L.fd, L.n, L.s, x, g),
                                     !.gb[slot+1] = KernelGradB(L.n, g)]
      [] L.k = "fc"     -> [L EXCEPT !.gw[slot+1] = FcGradW(sc, x, g), !.gb[slot+1] = FcGradB(g)]
      [] OTHER -> L

CanBackward(L, slot) == L.k = "soft" => L.lab[slot+1] >= 0

\* setBatchSize: gradients and labels start afresh
AfterSetBatch(L, n) ==
    CASE HasParams(L)   -> [L EXCEPT !.gw = [i \in 1..n |-> None], !.gb = [i \in 1..n |-> None]]
      [] L.k = "pool"   -> [L EXCEPT !.sel = [i \in 1..n |-> IF i <= Len(L.sel) THEN L.sel[i] ELSE None]]
      [] L.k = "soft"   -> [L EXCEPT !.lab = [i \in 1..n |-> -1]]
      [] OTHER -> L

\* applyBatch: minus r times the mean of the gradients stored in the batch
Step(m, gs, r) ==
    LET have == SelectSeq(gs, LAMBDA g : ~IsNone(g))
        cnt  == Len(have)
        Tot(k) == SumN(cnt, LAMBDA i : have[i+1].v[k])
        \* on a fine grid gradients are whole, and the rate has more digits than a float
        By(k)  == IF sc < 1000000 THEN r * Tot(k) ELSE IF Tot(k) % sc = 0 THEN r * (Tot(k) \div sc) ELSE Nowhere
        Over   == IF sc < 1000000 THEN sc * cnt ELSE cnt
    IN  IF cnt = 0 THEN m
        ELSE [m EXCEPT !.v = [k \in 1..Len(m.v) |->
                IF By(k) % Over = 0
                THEN m.v[k] - By(k) \div Over ELSE Nowhere]]
AfterApply(L, r) ==
    IF ~HasParams(L) THEN L
    ELSE [L EXCEPT !.w = Step(L.w, L.gw, r), !.b = Step(L.b, L.gb, r),
                   !.gw = [i \in 1..Len(L.gw) |-> None], !.gb = [i \in 1..Len(L.gb) |-> None]]

-----------------------------------------------------------------------------
(* Actions on single layers *)

Init == objs = <<>> /\ nets = <<>> /\ sc = 1 /\ out = "ok" /\ res = <<>>
Reset(scale) == objs' = <<>> /\ nets' = <<>> /\ sc' = scale /\ out' = "ok" /\ res' = <<>>

Refuse    == out' = "refused" /\ res' = <<>> /\ UNCHANGED << objs, nets, sc >>
Return(r) == out' = "ok" /\ res' = r /\ UNCHANGED << objs, nets, sc >>
SetObj(o, L, r) == /\ objs' = [objs EXCEPT ![o+1] = L] /\ out' = "ok" /\ res' = r
                   /\ UNCHANGED << nets, sc >>
AsRes(m) == << m.d, m.v >>

New(c) == objs' = Append(objs, MakeObj(c)) /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << nets, sc >>
SetParams(o, w, b) == SetObj(o, [O(o) EXCEPT !.w = w, !.b = b, !.ini = TRUE, !.known = TRUE], <<>>)

Forward(o, x, slot) ==
    IF ~Fits(O(o), x) THEN Refuse
    ELSE SetObj(o, AfterForward(O(o), x, slot), AsRes(OutputOf(O(o), x)))
\* the result is judged by the trace (inexact kinds)
ForwardOnly(o, x, slot) == SetObj(o, AfterForward(O(o), x, slot), <<>>)

CheckFits(o, x) == Return(<< IF Fits(O(o), x) THEN 1 ELSE 0 >>)
OutDim(o, d) ==
    Return(IF O(o).k = "kernel" THEN KernelOutDim(O(o).fd, O(o).n, O(o).s, d)
           ELSE PoolOutDim(O(o).pd, O(o).ps, d))

\* the first layer of a network need not hand on a gradient, the fully connected one does not
Backward(o, x, y, g, slot, first) ==
    LET L == O(o)
        L2 == AfterBackward(L, x, g, slot)
    IN  IF ~CanBackward(L, slot) THEN Refuse
        ELSE IF first /\ L.k = "fc" THEN SetObj(o, L2, AsRes(Empty))
        ELSE \/ SetObj(o, L2, AsRes(InputGradOf(L, x, y, g, slot)))
             \/ first /\ SetObj(o, L2, AsRes(Empty))
GradW(o, x, g) == Return(AsRes(IF O(o).k = "kernel" THEN KernelGradW(sc, O(o).fd, O(o).n, O(o).s, x, g)
                               ELSE FcGradW(sc, x, g)))
GradX(o, x, g) == Return(<< InputGradOf(O(o), x, x, g, 0).v >>)
GradB(o, g)    == Return(AsRes(IF O(o).k = "kernel" THEN KernelGradB(O(o).n, g) ELSE g))

SetBatch(o, n) == SetObj(o, AfterSetBatch(O(o), n), <<>>)
Apply(o, r)    == SetObj(o, AfterApply(O(o), r), <<>>)
Label(o, t, slot) ==
    IF t < 0 \/ t >= O(o).n THEN Refuse ELSE SetObj(o, [O(o) EXCEPT !.lab[slot+1] = t], <<>>)

-----------------------------------------------------------------------------
(* Models *)

NoResult == [acts |-> <<>>]
TypeName(k) == CASE k = "kernel" -> "KERNEL" [] k = "pool" -> "POOLING" [] k = "fc" -> "FULLY_CONNECTED"
                 [] k = "act" -> "ACTIVATION" [] OTHER -> "OUTPUT"
NamePrefix(k) == CASE k = "kernel" -> "Kernel_" [] k = "pool" -> "Pooling_" [] k = "fc" -> "FullyConnected_"
                   [] k = "act" -> "Activation_" [] OTHER -> "SoftmaxOutput"
\* Layers of a model are named after their kind and numbered within it
NameOf(cs, i) ==
    IF cs[i].k = "soft" THEN NamePrefix("soft")
    ELSE IF "probe" \in DOMAIN cs[i] THEN ""
    ELSE NamePrefix(cs[i].k) \o ToString(Cardinality({j \in 1..i : cs[j].k = cs[i].k /\ "probe" \notin DOMAIN cs[j]}))
NewNet(cs, labels) ==
    /\ objs' = objs \o [i \in 1..Len(cs) |-> MakeObj(cs[i])]
    /\ nets' = Append(nets, [ls |-> [i \in 1..Len(cs) |-> Len(objs) + i - 1], labels |-> labels,
                             rs |-> [i \in 1..100 |-> NoResult]])
    /\ out' = "ok" /\ UNCHANGED sc
    /\ res' = [i \in 1..Len(cs) |-> IF cs[i].k = "snap" THEN << "OUTPUT", "" >> ELSE << TypeName(cs[i].k), NameOf(cs, i) >>]

\* Feed x through the layers ls[i..], keeping what each remembers.
\* Result: [ok, os (layer objects), acts (input and all outputs)]
RECURSIVE Run(_, _, _, _, _)
Run(ls, i, os, acts, slot) ==
    IF i > Len(ls) THEN [ok |-> TRUE, os |-> os, acts |-> acts]
    ELSE LET L == os[ls[i] + 1]
             x == acts[Len(acts)]
         IN  IF ~Fits(L, x) THEN [ok |-> FALSE, os |-> os, acts |-> acts]
             ELSE Run(ls, i+1, TLCEval([os EXCEPT ![ls[i] + 1] = AfterForward(L, x, slot)]),
                      TLCEval(Append(acts, OutputOf(L, x))), slot)

\* Results are kept in single precision: 24 bits, ties to even
RECURSIVE FloatUnit(_, _)
FloatUnit(a, u) == IF a \div u < 16777216 THEN u ELSE FloatUnit(a, 2 * u)
ToFloat(x) ==
    LET a == Abs(x)
        u == FloatUnit(a, 1)
        q == a \div u
        r == a % u
        up == 2 * r > u \/ (2 * r = u /\ q % 2 = 1)
    IN  IF u = 1 THEN x ELSE Sgn(x) * (q + (IF up THEN 1 ELSE 0)) * u
FloatMat(m) == Map(m, ToFloat)

NetForward(m, x, slot) ==
    LET r == TLCEval(Run(N(m).ls, 1, objs, << x >>, slot))
        y == r.acts[Len(r.acts)]
        a == [i \in 1..Len(r.acts) |-> FloatMat(r.acts[i])]
    IN  IF ~r.ok
        THEN /\ out' = "refused" /\ res' = <<>> /\ UNCHANGED << nets, sc >>
             /\ objs' = r.os
        ELSE /\ objs' = r.os
             /\ nets' = [nets EXCEPT ![m+1].rs[slot+1] = [acts |-> a]]
             /\ out' = "ok"
             /\ res' = << [i \in 1..Len(a) |-> AsRes(a[i])], ArgMax(y), ToFloat(Maximum(y)) >>
             /\ UNCHANGED sc

LabelPos(labels, lab) ==
    IF \E k \in 1..Len(labels) : labels[k] = lab
    THEN (CHOOSE k \in 1..Len(labels) : labels[k] = lab /\ \A j \in 1..(k-1) : labels[j] # lab) - 1
    ELSE -1

\* Gradients from the last layer to the first
RECURSIVE Back(_, _, _, _, _, _)
Back(ls, i, os, acts, g, slot) ==
    IF i = 0 THEN os
    ELSE LET L == os[ls[i] + 1]
             x == acts[i]
             y == acts[i+1]
         IN  Back(ls, i-1, TLCEval([os EXCEPT ![ls[i] + 1] = AfterBackward(L, x, g, slot)]), acts,
                  TLCEval(IF i = 1 THEN g ELSE InputGradOf(L, x, y, g, slot)), slot)

\* The loss of a result, times 10^4 rounded; p is 0 or 2^-k
LossOf(p) ==
    IF p = 0 THEN LossOfZero
    ELSE IF p > 0 /\ sc % p = 0 /\ sc \div p <= 64 THEN LossTable[sc \div p] ELSE Nowhere

\* observed loss within rounding
NetLoss(m, lab, slot, seen) ==
    LET t == LabelPos(N(m).labels, lab)
        y == N(m).rs[slot+1].acts[Len(N(m).rs[slot+1].acts)]
    IN  IF t < 0 THEN Refuse
        ELSE Abs(seen - LossOf(y.v[t+1])) <= 2 /\ Return(<< lab, t, seen >>)

Labelled(os, ls, t, slot) == [os EXCEPT ![ls[Len(ls)] + 1].lab[slot+1] = t]

NetBackward(m, lab, slot, seen) ==
    LET t == LabelPos(N(m).labels, lab)
        acts == N(m).rs[slot+1].acts
        ls == N(m).ls
        y == acts[Len(acts)]
    IN  IF t < 0 THEN Refuse
        ELSE /\ Abs(seen - LossOf(y.v[t+1])) <= 2
             /\ objs' = Back(ls, Len(ls), Labelled(objs, ls, t, slot), acts, None, slot)
             /\ out' = "ok" /\ res' = << lab, t, seen >> /\ UNCHANGED << nets, sc >>

NetBatched(m, n) ==
    [i \in 1..Len(objs) |->
        IF \E j \in 1..Len(N(m).ls) : N(m).ls[j] = i - 1 THEN AfterSetBatch(objs[i], n) ELSE objs[i]]
NetSetBatch(m, n) ==
    /\ objs' = NetBatched(m, n)
    /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << nets, sc >>
NetApplied(m, os, r) ==
    [i \in 1..Len(os) |->
        IF \E j \in 1..Len(N(m).ls) : N(m).ls[j] = i - 1 THEN AfterApply(os[i], r) ELSE os[i]]
NetApply(m, r) ==
    /\ objs' = NetApplied(m, objs, r)
    /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << nets, sc >>

\* The model is saved and loaded again: configuration and parameters stay, what the layers
\* remember of passes does not
Fresh(L) == [L EXCEPT !.gw = <<>>, !.gb = <<>>, !.sel = IF L.k = "pool" THEN << None >> ELSE <<>>,
                      !.lab = IF L.k = "soft" THEN << -1 >> ELSE <<>>]
NetReload(m) ==
    /\ objs' = [i \in 1..Len(objs) |->
                  IF \E j \in 1..Len(N(m).ls) : N(m).ls[j] = i - 1 THEN Fresh(objs[i]) ELSE objs[i]]
    /\ out' = "ok" /\ res' = N(m).labels /\ UNCHANGED << nets, sc >>

\* Saving a model leaves it as it is, in the middle of a batch too
NetSave(m) == Return(<<>>)

-----------------------------------------------------------------------------
(* Training in the large: an epoch over a data set, in batches.             *)
(* data is a sequence of [x, lab]; batches lists, for each batch, the       *)
(* positions in data (from 0) drawn in it.  Which thread handles which      *)
(* point does not matter.                                                   *)

RECURSIVE BatchRun(_, _, _, _, _)
\* points k.. of a batch with the layer objects os; slot k-1 for point k.  Result [os, hits]
BatchRun(m, pts, k, os, hits) ==
    IF k > Len(pts) THEN [os |-> os, hits |-> hits]
    ELSE LET ls  == N(m).ls
             r   == TLCEval(Run(ls, 1, os, << pts[k].x >>, k-1))
             t   == LabelPos(N(m).labels, pts[k].lab)
             y   == r.acts[Len(r.acts)]
             os2 == TLCEval(Back(ls, Len(ls), Labelled(r.os, ls, t, k-1), r.acts, None, k-1))
         IN  BatchRun(m, pts, k+1, os2, hits + (IF ArgMax(y) = t THEN 1 ELSE 0))

RECURSIVE EpochRun(_, _, _, _, _, _)
EpochRun(m, data, batches, i, r, acc) ==
    IF i > Len(batches) THEN acc
    ELSE LET pts == [k \in 1..Len(batches[i]) |-> data[batches[i][k] + 1]]
             b == TLCEval(BatchRun(m, pts, 1, acc.os, acc.hits))
         IN  EpochRun(m, data, batches, i+1, r, TLCEval([os |-> NetApplied(m, b.os, r), hits |-> b.hits]))

\* Every point is drawn exactly once, in the order of the source, at most B between two updates
ProperBatches(batches, n, B) ==
    /\ FlattenSeq(batches) = [i \in 1..n |-> i - 1]
    /\ \A i \in 1..Len(batches) : Len(batches[i]) <= B
Epoch(m, data, B, r, batches) ==
    LET e == TLCEval(EpochRun(m, data, batches, 1, r, [os |-> NetBatched(m, B), hits |-> 0]))
    IN  /\ ProperBatches(batches, Len(data), B)
        /\ objs' = e.os
        /\ out' = "ok" /\ res' = << e.hits >> /\ UNCHANGED << nets, sc >>

\* train: several epochs; acc is what was reported for each of them, times 10^4
RECURSIVE TrainRun(_, _, _, _, _, _)
TrainRun(m, data, drawnIn, i, r, acc) ==
    IF i > Len(drawnIn) THEN acc
    ELSE LET e == TLCEval(EpochRun(m, data, drawnIn[i], 1, r, [os |-> acc.os, hits |-> 0]))
         IN  TrainRun(m, data, drawnIn, i+1, r, [os |-> e.os, hits |-> Append(acc.hits, e.hits)])
Reported(a, hits, n) == Abs(a * n - 1000000 * hits) <= 2 * n
Train(m, data, B, r, E, drawnIn, resets, acc) ==
    LET t == TLCEval(TrainRun(m, data, drawnIn, 1, r, [os |-> NetBatched(m, B), hits |-> <<>>]))
    IN  /\ Len(drawnIn) = E /\ resets = E
        /\ \A i \in 1..E : ProperBatches(drawnIn[i], Len(data), B)
        /\ Len(acc) = E
        /\ \A i \in 1..E : acc[i][1] = i - 1 /\ acc[i][2] <= 1000001 /\ Reported(acc[i][2], t.hits[i], Len(data))
        /\ objs' = t.os
        /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << nets, sc >>

\* With the learning rate zero only the predictions matter, and those are decided by what reaches
\* the softmax layer: whatever the confidence, the first largest logit is predicted
StillHits(m, data, B) ==
    LET os == TLCEval(NetBatched(m, B))
        front == SubSeq(N(m).ls, 1, Len(N(m).ls) - 1)
        Predicted(p) == LET r == TLCEval(Run(front, 1, os, << p.x >>, 0)) IN ArgMax(r.acts[Len(r.acts)])
    IN  Cardinality({i \in 1..Len(data) : Predicted(data[i]) = LabelPos(N(m).labels, data[i].lab)})
StillEpoch(m, data, B, batches) ==
    /\ ProperBatches(batches, Len(data), B)
    /\ objs' = NetBatched(m, B)
    /\ out' = "ok" /\ res' = << StillHits(m, data, B) >> /\ UNCHANGED << nets, sc >>
StillTrain(m, data, B, E, drawnIn, resets, acc) ==
    LET hits == StillHits(m, data, B)
    IN  /\ Len(drawnIn) = E /\ resets = E
        /\ \A i \in 1..E : ProperBatches(drawnIn[i], Len(data), B)
        /\ Len(acc) = E
        /\ \A i \in 1..E : acc[i][1] = i - 1 /\ acc[i][2] <= 1000001 /\ Reported(acc[i][2], hits, Len(data))
        /\ objs' = NetBatched(m, B)
        /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << nets, sc >>

-----------------------------------------------------------------------------
(* Points that cannot be processed: the source fails to deliver them, a     *)
(* layer does not take them, or their label is not an output label.  They   *)
(* end training with an exception; the batches before that of the first of  *)
(* them are applied, and their own is forgotten.                            *)
Usable(m, os, p) == /\ "throws" \notin DOMAIN p
                    /\ LabelPos(N(m).labels, p.lab) >= 0
                    /\ Run(N(m).ls, 1, os, << p.x >>, 0).ok
Unusable(m, data, B) == LET os == TLCEval(NetBatched(m, B)) IN {i \in 1..Len(data) : ~Usable(m, os, data[i])}
Batched(m, os, n) ==
    [i \in 1..Len(os) |->
        IF \E j \in 1..Len(N(m).ls) : N(m).ls[j] = i - 1 THEN AfterSetBatch(os[i], n) ELSE os[i]]
\* batches: as in Epoch, the last one being that which was given up; thrown: number of the point (from 0) whose
\* exception of the source arrived, -1 if it was not an exception of the source
BrokenEpoch(m, data, B, r, batches, thrown) ==
    LET bad  == TLCEval(Unusable(m, data, B))
        full == SubSeq(batches, 1, Len(batches) - 1)
        last == {batches[Len(batches)][k] + 1 : k \in 1..Len(batches[Len(batches)])}
        e == TLCEval(EpochRun(m, data, full, 1, r, [os |-> NetBatched(m, B), hits |-> 0]))
    IN  /\ FlattenSeq(batches) = [i \in 1..Len(FlattenSeq(batches)) |-> i - 1]
        /\ \A i \in 1..Len(batches) : Len(batches[i]) <= B
        /\ \A i \in 1..Len(full) : \A k \in 1..Len(full[i]) : full[i][k] + 1 \notin bad
        /\ last \cap bad # {}
        /\ IF thrown >= 0 THEN thrown + 1 \in last /\ "throws" \in DOMAIN data[thrown + 1]
                          ELSE \E i \in last \cap bad : "throws" \notin DOMAIN data[i]
        /\ objs' = Batched(m, e.os, B)
        /\ out' = "failed" /\ res' = <<>> /\ UNCHANGED << nets, sc >>

-----------------------------------------------------------------------------
(* Invariants *)

ParamShapes == \A i \in 1..Len(objs) :
    LET L == objs[i]
    IN  /\ L.known /\ L.k = "kernel" => /\ L.w.d = << L.fd[1], L.fd[2], L.fd[3] * L.n >>
                                        /\ L.b.d = << L.n, 1, 1 >>
        /\ L.known /\ L.k = "fc" => L.w.d[1] = L.n /\ L.b.d = << L.n, 1, 1 >>
        /\ HasParams(L) => Len(L.gw) = Len(L.gb)
        /\ HasParams(L) => \A s \in 1..Len(L.gw) : IsNone(L.gw[s]) <=> IsNone(L.gb[s])
\* A refused operation changes no parameter and no gradient
RefusedKeeps == [][out' = "refused" =>
                     \A i \in 1..Len(objs) : /\ objs'[i].w = objs[i].w /\ objs'[i].b = objs[i].b
                                             /\ objs'[i].gw = objs[i].gw /\ objs'[i].gb = objs[i].gb]_vars
=============================================================================
