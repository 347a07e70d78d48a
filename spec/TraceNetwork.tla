---------------------------- MODULE TraceNetwork ----------------------------
(* Checks that a recorded run of layers and models is a behaviour of Network. *)
EXTENDS Network, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE l
tvars == << vars, l >>

Match(what, want, got) ==
    IF want = got THEN TRUE
    ELSE PrintT(<< "MISMATCH", l, what, "specified", want, "observed", got >>) /\ FALSE
Near(what, ok, got) ==
    IF ok THEN TRUE
    ELSE PrintT(<< "MISMATCH", l, what, "observed", got >>) /\ FALSE

-----------------------------------------------------------------------------
(* Results that are not exact in the arithmetic of the specification are    *)
(* logged as integers of a finer scale and have to lie within rounding.     *)

E8 == 100000000
E6 == 1000000
Okay(e) == e.r.out = "ok"
InBound(s, b) == \A i \in 1..Len(s) : Abs(s[i]) <= b

\* mean of windows: logged times 10^6 (S = 1)
AvgForward(e) ==
    LET L == O(e.o)
        t == PoolTotals(L.pd, L.ps, e.x)
        a == L.pd[1] * L.pd[2]
    IN  IF ~Fits(L, e.x) THEN Match("outcome", "refused", e.r.out) /\ Refuse
        ELSE /\ Match("outcome", "ok", e.r.out) /\ Match("shape", t.d, e.r.q.d)
             /\ Near("averages", /\ InBound(e.r.q.v, 100 * E6)
                                 /\ \A i \in 1..Len(t.v) : Abs(e.r.q.v[i] * a - t.v[i] * E6) <= a, e.r.q)
             /\ Return(<<>>)
AvgBackward(e) ==
    LET L == O(e.o)
        t == PoolGradAvgTimesArea(L.pd, L.ps, e.x.d, e.g)
        a == L.pd[1] * L.pd[2]
    IN  /\ Match("outcome", "ok", e.r.out) /\ Match("shape", e.x.d, e.r.q.d)
        /\ Near("gradient", /\ InBound(e.r.q.v, 100 * E6)
                            /\ \A i \in 1..Len(t.v) : Abs(e.r.q.v[i] * a - t.v[i] * E6) <= 4 * a, e.r.q)
        /\ Return(<<>>)

Clamp(k) == IF k > 160 THEN 160 ELSE IF k < -160 THEN -160 ELSE k
\* activation functions on the grid k/8, times 10^8
Curve(f, k) ==
    CASE f = "SIGMOID" -> Sigmoid(Clamp(k))
      [] f = "TANGENT" -> Tanh(Clamp(k))
      [] f = "LEAKY_RELU" -> IF k > 0 THEN k * 12500000 ELSE k * 1250000
      [] f = "RELU" -> IF k > 0 THEN k * 12500000 ELSE 0
      [] f = "LINEAR" -> k * 12500000
Slope(f, k) ==
    CASE f = "SIGMOID" -> SigmoidD(Clamp(k))
      [] f = "TANGENT" -> TanhD(Clamp(k))
      [] f = "LEAKY_RELU" -> IF k > 0 THEN E8 ELSE 10000000
      [] f = "RELU" -> IF k > 0 THEN E8 ELSE 0
      [] f = "LINEAR" -> E8
CurveForward(e) ==
    LET f == O(e.o).f
    IN  /\ Match("outcome", "ok", e.r.out) /\ Match("shape", e.k.d, e.r.q.d)
        /\ Near("activation", \A i \in 1..Len(e.k.v) : Abs(e.r.q.v[i] - Curve(f, e.k.v[i])) <= 4, e.r.q)
        /\ Return(<<>>)
\* upstream gradient: small integers
CurveBackward(e) ==
    LET f == O(e.o).f
    IN  /\ Match("outcome", "ok", e.r.out) /\ Match("shape", e.k.d, e.r.q.d)
        /\ Near("activation gradient",
                \A i \in 1..Len(e.k.v) : Abs(e.r.q.v[i] - e.g.v[i] * Slope(f, e.k.v[i])) <= 2 + Abs(e.g.v[i]), e.r.q)
        /\ Return(<<>>)

\* What becomes of a number near an end of the range: a large one ("+M" is the largest double, "+B" about
\* two thirds of it, "+L" a large one), or a tiny one ("+t" and "+T").  "same" and "tenth" are relative to it.
Huge(x) == x \in {"+M", "-M", "+B", "-B", "+L", "-L"}
Below0(x) == x \in {"-M", "-B", "-L", "-t", "-T"}
EndValue(f, x) ==
    CASE f = "RELU" -> IF x = "0" \/ Below0(x) THEN "0" ELSE "same"
      [] f = "LEAKY_RELU" -> IF x = "0" THEN "0" ELSE IF Below0(x) THEN "tenth" ELSE "same"
      [] f = "LINEAR" -> IF x = "0" THEN "0" ELSE "same"
      [] f = "SIGMOID" -> IF Huge(x) THEN IF Below0(x) THEN "0" ELSE "1" ELSE "1/2"
      [] f = "TANGENT" -> IF Huge(x) THEN IF Below0(x) THEN "-1" ELSE "1" ELSE IF x = "0" THEN "0" ELSE "same"
EndSlope(f, x) ==
    CASE f = "RELU" -> IF x = "0" \/ Below0(x) THEN "0" ELSE "1"
      [] f = "LEAKY_RELU" -> IF x = "0" \/ Below0(x) THEN "1/10" ELSE "1"
      [] f = "LINEAR" -> "1"
      [] f = "SIGMOID" -> IF Huge(x) THEN "0" ELSE "1/4"
      [] f = "TANGENT" -> IF Huge(x) THEN "0" ELSE "1"
Ends(e) ==
    LET f == O(e.o).f
    IN  /\ Match("outcome", "ok", e.r.out)
        /\ Match("activation", [i \in 1..Len(e.x) |-> EndValue(f, e.x[i])], e.r.f)
        /\ Match("slope", [i \in 1..Len(e.x) |-> EndSlope(f, e.x[i])], e.r.b)
        /\ Return(<<>>)
\* logits that are that far apart: the largest share everything
EndRank(x) == CASE x = "+M" -> 4 [] x = "+B" -> 3 [] x = "+L" -> 2 [] x \in {"0", "+t", "-t", "+T", "-T"} -> 1
                [] x = "-L" -> 0 [] x = "-B" -> -1 [] x = "-M" -> -2
SoftEnds(e) ==
    LET top == { i \in 1..Len(e.x) : \A j \in 1..Len(e.x) : EndRank(e.x[j]) <= EndRank(e.x[i]) }
    IN  /\ Match("outcome", "ok", e.r.out) /\ Match("shape", e.d, e.r.q.d)
        /\ Near("probabilities",
                \A i \in 1..Len(e.x) : Abs(e.r.q.v[i] - (IF i \in top THEN 1000000 \div Cardinality(top) ELSE 0)) <= 1, e.r.q)
        /\ Return(<<>>)

\* softmax of logits off + k*ln 2: proportional to 2^k.  wt[i] = 2^k[i] (or 0 if it is negligible)
SoftCurve(e) ==
    LET tot == SumSeq(e.wt)
    IN  /\ Match("outcome", "ok", e.r.out) /\ Match("shape", e.d, e.r.q.d)
        /\ Near("probabilities",
                \A i \in 1..Len(e.wt) : /\ e.r.q.v[i] >= 0 /\ e.r.q.v[i] <= e.Q
                                        /\ Abs(e.r.q.v[i] * tot - e.wt[i] * e.Q) <= tot + 1, e.r.q)
        /\ Return(<<>>)
\* softmax of logits k/8: coarse, from the table of e^(-j/8) times 10^4
SoftGrid(e) ==
    LET n == Len(e.k)
        m == Maximum(ColMat(e.k))
        w == [i \in 1..n |-> ExpNeg(Min2(m - e.k[i], 160))]
        tot == SumSeq(w)
    IN  /\ Match("outcome", "ok", e.r.out) /\ Match("shape", e.d, e.r.q.d)
        /\ Near("probabilities", 
                /\ \A i \in 1..n : /\ e.r.q.v[i] >= 0 /\ e.r.q.v[i] <= 10000
                                   /\ Abs(e.r.q.v[i] * tot - w[i] * 10000) <= (n + 1) * 10000
                /\ Abs(SumSeq(e.r.q.v) - 10000) <= n
                /\ \A i, j \in 1..n : e.k[i] >= e.k[j] => e.r.q.v[i] >= e.r.q.v[j], e.r.q)
        /\ Return(<<>>)
\* loss for probability 1/q, or 0
LossCurve(e) ==
    /\ Match("outcome", "ok", e.r.out)
    /\ Near("loss", Abs(e.r.q - (IF e.q = 0 THEN LossOfZero ELSE LossTable[e.q])) <= 2, e.r.q)
    /\ Return(<<>>)

-----------------------------------------------------------------------------
(* First use of a layer.  The driver logs the parameters times 10^8 (kept   *)
(* in w and b while the parameters are not known exactly) and sums of       *)
(* squares times 10^6.                                                      *)

UnitLength(e) == /\ Near("length of weights", IF Len(e.r.w.v) = 0 THEN e.r.ssw = 0 ELSE Abs(e.r.ssw - E6) <= 3, e.r.ssw)
                 /\ Near("length of biases", Abs(e.r.ssb - E6) <= 3, e.r.ssb)
\* outs[i]: output for the input that is one at position hots[i] (-1: nowhere) and zero elsewhere
OneHotOutputs(e) ==
    \A i \in 1..Len(e.hots) :
        /\ Match("output shape", << e.r.w.d[1], 1, 1 >>, e.r.outs[i].d)
        /\ Near("output of a first use",
             \A r \in 1..e.r.w.d[1] :
                LET want == (IF e.hots[i] < 0 THEN 0 ELSE At(e.r.w, r-1, e.hots[i], 0)) + e.r.b.v[r]
                IN  Abs(e.r.outs[i].v[r] - want) <= 3, << i, e.r.outs[i], e.r.w, e.r.b >>)
FcFirstUse(e) ==
    LET L == O(e.o)
    IN  IF L.ini /\ L.w.d[2] # Vol(e.d)
        THEN Match("outcome", "refused", e.r.out) /\ Refuse
        ELSE /\ Match("outcome", "ok", e.r.out)
             /\ Match("weight shape", << L.n, Vol(e.d), 1 >>, e.r.w.d)
             /\ Match("bias shape", << L.n, 1, 1 >>, e.r.b.d)
             /\ UnitLength(e)
             /\ L.ini => Match("weights kept", L.w, e.r.w) /\ Match("biases kept", L.b, e.r.b)
             /\ OneHotOutputs(e)
             /\ SetObj(e.o, [L EXCEPT !.ini = TRUE, !.w = e.r.w, !.b = e.r.b], <<>>)
KernelFirstUse(e) ==
    LET L == O(e.o)
    IN  /\ Match("outcome", "ok", e.r.out)
        /\ Match("weight shape", << L.fd[1], L.fd[2], L.fd[3] * L.n >>, e.r.w.d)
        /\ Match("bias shape", << L.n, 1, 1 >>, e.r.b.d)
        /\ UnitLength(e)
        /\ Len(L.w.v) > 0 => Match("weights kept", L.w, e.r.w) /\ Match("biases kept", L.b, e.r.b)
        /\ SetObj(e.o, [L EXCEPT !.w = e.r.w, !.b = e.r.b], <<>>)

-----------------------------------------------------------------------------
(* Validation of a model on the images of a test set: pixel v stands for     *)
(* (v-128)/255.  The models in use scale with their input, so that v-128     *)
(* decides as well.                                                          *)

ImageOf(e, i) == [d |-> << e.h, e.w, 1 >>,
                  v |-> [k \in 1..(e.h * e.w) |-> e.imgs[i].p[((k-1) % e.h) * e.w + ((k-1) \div e.h) + 1] - 128]]
Validate(e) ==
    LET ls == N(e.m).ls
        os == NetBatched(e.m, e.T)
        Predicted(i) == LET r == TLCEval(Run(ls, 1, os, << ImageOf(e, i) >>, 0))
                        IN  N(e.m).labels[ArgMax(r.acts[Len(r.acts)]) + 1]
        n == Len(e.imgs)
        hits == Cardinality({i \in 1..n : Predicted(i) = ToString(e.imgs[i].l)})
    IN  /\ e.probe = 1 => Match("how often each image was classified", [i \in 1..(n+1) |-> IF i = 1 THEN 0 ELSE 1], e.r.entered)
        /\ "raw" \notin DOMAIN e => Near("accuracy", e.r.acc >= 0 /\ e.r.acc <= 1000001 /\ Reported(e.r.acc, hits, n), << e.r.acc, hits, n >>)
        /\ "raw" \in DOMAIN e => Near("accuracy", e.r.acc >= 0 /\ e.r.acc <= 1000001 /\ \E h \in 0..n : Reported(e.r.acc, h, n), << e.r.acc, n >>)
        \* every sample is an image of the set with its own prediction
        /\ Match("outcome", "ok", e.r.out)
        /\ Near("samples", /\ Len(e.r.samples) > 0
                           /\ \A k \in 1..Len(e.r.samples) :
                                 LET s == e.r.samples[k]
                                 IN  /\ Len(s) = 3
                                     /\ \E i \in 1..n : /\ s[2] = ToString(e.imgs[i].l)
                                                        /\ "raw" \in DOMAIN e \/ s[1] = Predicted(i)
                                     /\ \E j \in 1..Len(N(e.m).labels) : s[1] = N(e.m).labels[j] /\ s[3] = ToString(j - 1), e.r.samples)
        /\ objs' = os /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << nets, sc >>

-----------------------------------------------------------------------------
ActNames == << "RELU", "SIGMOID", "LINEAR", "TANGENT", "LEAKY_RELU" >>

EventAct(e) ==
    CASE e.op = "reset"  -> Reset(e.S)
      [] e.op = "new"    -> New(e.c)
      [] e.op \in {"set", "dset"} -> SetParams(e.o, e.w, e.b)
      [] e.op = "fwd"    -> Forward(e.o, e.x, e.slot)
      [] e.op = "fits"   -> CheckFits(e.o, e.x)
      [] e.op = "outdim" -> OutDim(e.o, e.d)
      [] e.op = "bwd"    -> Backward(e.o, e.x, e.y, e.g, e.slot, e.first = 1)
      [] e.op = "gw"     -> GradW(e.o, e.x, e.g)
      [] e.op = "gx"     -> GradX(e.o, e.x, e.g)
      [] e.op = "gb"     -> GradB(e.o, e.g)
      [] e.op = "setb"   -> SetBatch(e.o, e.n)
      [] e.op = "apply"  -> Apply(e.o, e.r_)
      [] e.op = "label"  -> Label(e.o, e.t, e.slot)
      [] e.op = "net"    -> NewNet(e.cs, e.labels)
      [] e.op = "nfwd"   -> NetForward(e.m, e.x, e.slot)
      [] e.op = "nloss"  -> IF Okay(e) THEN NetLoss(e.m, e.lab, e.slot, e.r.res[3]) ELSE NetLoss(e.m, e.lab, e.slot, 0)
      [] e.op = "nbwd"   -> IF Okay(e) THEN NetBackward(e.m, e.lab, e.slot, e.r.res[3]) ELSE NetBackward(e.m, e.lab, e.slot, 0)
      [] e.op = "validate" -> Validate(e)
      [] e.op = "reload" -> NetReload(e.m)
      [] e.op = "nsave"  -> NetSave(e.m)
      [] e.op = "nsetb"  -> NetSetBatch(e.m, e.n)
      [] e.op = "napply" -> NetApply(e.m, e.r_)
      [] e.op = "epoch" /\ "raw" \in DOMAIN e ->
                            \* a model whose parameters are not known: only what does not depend on them
                            /\ Match("calls into the source overlapped", 0, e.r.overlaps)
                            /\ Near("batches", Len(e.r.drawn) = 1 /\ ProperBatches(e.r.drawn[1], Len(e.data), e.B), e.r.drawn)
                            /\ Near("successes", Len(e.r.res) = 1 /\ e.r.res[1] >= 0 /\ e.r.res[1] <= Len(e.data), e.r.res)
                            /\ Return(e.r.res)
      [] e.op = "epoch" /\ "still" \in DOMAIN e ->
                            /\ Match("calls into the source overlapped", 0, e.r.overlaps)
                            /\ Near("batches", Len(e.r.drawn) = 1 /\ ProperBatches(e.r.drawn[1], Len(e.data), e.B), e.r.drawn)
                            /\ StillEpoch(e.m, e.data, e.B, e.r.drawn[1])
      [] e.op = "train" /\ "still" \in DOMAIN e ->
                            /\ Match("last reset", <<>>, e.r.drawn[Len(e.r.drawn)])
                            /\ StillTrain(e.m, e.data, e.B, e.E, SubSeq(e.r.drawn, 1, Len(e.r.drawn) - 1), e.r.resets, e.r.acc)
      \* data with points that cannot be processed
      [] e.op \in {"epoch", "train"} /\ "spoilt" \in DOMAIN e /\ Unusable(e.m, e.data, e.B) # {} ->
                            /\ Match("calls into the source overlapped", 0, e.r.overlaps)
                            /\ Match("resets", << 0, <<>> >>, << e.r.resets, e.r.acc >>)
                            /\ Match("outcome", "failed", e.r.out)
                            /\ Near("batches", Len(e.r.drawn) = 1 /\ Len(e.r.drawn[1]) > 0, e.r.drawn)
                            /\ Near("exception", e.r.std = 1 /\ e.r.thrown >= -1, e.r)
                            /\ BrokenEpoch(e.m, e.data, e.B, e.r_, e.r.drawn[1], e.r.thrown)
      [] e.op = "epoch"  -> /\ Match("calls into the source overlapped", 0, e.r.overlaps)
                            /\ Near("batches", Len(e.r.drawn) = 1 /\ ProperBatches(e.r.drawn[1], Len(e.data), e.B), e.r.drawn)
                            /\ Epoch(e.m, e.data, e.B, e.r_, e.r.drawn[1])
      [] e.op = "train"  -> /\ Match("calls into the source overlapped", 0, e.r.overlaps)
                            /\ Match("last reset", <<>>, e.r.drawn[Len(e.r.drawn)])
                            /\ Train(e.m, e.data, e.B, e.r_, e.E, SubSeq(e.r.drawn, 1, Len(e.r.drawn) - 1), e.r.resets, e.r.acc)
      \* many points that are all alike, of which the driver only counts how they were drawn
      [] e.op = "bulk"   -> /\ Match("outcome", "ok", e.r.out)
                            /\ Match("points drawn", e.N, e.r.drawn)
                            /\ Match("draws from an exhausted source", 0, e.r.beyond)
                            /\ Match("points not followed by an update", 0, e.r.late)
                            /\ Match("calls into the source overlapped", 0, e.r.overlaps)
                            /\ Near("most points between two updates", e.r.most <= e.B, e.r.most)
                            /\ Return(<< e.N >>)
      [] e.op = "balance" -> /\ Near("biases", InBound(e.r.b.v, 100000000), e.r.b)
                             /\ SetParams(N(e.m).ls[Len(N(e.m).ls) - 1], O(N(e.m).ls[Len(N(e.m).ls) - 1]).w, e.r.b)
      [] e.op = "avgf"   -> AvgForward(e)
      [] e.op = "avgb"   -> AvgBackward(e)
      [] e.op = "curvef" -> CurveForward(e)
      [] e.op = "curveb" -> CurveBackward(e)
      [] e.op = "ends"   -> Ends(e)
      [] e.op = "softends" -> SoftEnds(e)
      [] e.op = "softc"  -> SoftCurve(e)
      [] e.op = "softg"  -> SoftGrid(e)
      [] e.op = "lossc"  -> LossCurve(e)
      [] e.op = "finit"  -> FcFirstUse(e)
      [] e.op = "kinit"  -> KernelFirstUse(e)
      [] e.op = "actname" -> Return(<< ActNames[e.i + 1], e.i >>)
      [] e.op = "actbad" -> Refuse

Observed(e) ==
    /\ Match("outcome", out', e.r.out)
    /\ "res" \in DOMAIN e.r => Match("result", res', e.r.res)
    /\ \A i \in 1..Len(e.r.ps) :
          LET L == objs'[e.r.ps[i].o + 1]
          IN  /\ Match(<<"weights of layer", e.r.ps[i].o>>, << L.w.d, L.w.v >>, e.r.ps[i].w)
              /\ Match(<<"biases of layer", e.r.ps[i].o>>, << L.b.d, L.b.v >>, e.r.ps[i].b)

TraceInit == Init /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l]
                IN  "r" \in DOMAIN e /\ EventAct(e) /\ Observed(e)
TraceSpec == TraceInit /\ [][TraceNext]_tvars

Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
