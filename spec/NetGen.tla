------------------------------- MODULE NetGen -------------------------------
(***************************************************************************)
(* A closed model of Network: one layer with parameters ("update", C18) or *)
(* one model with layers of four kinds ("net", C15-C17), a finite set of   *)
(* operations, two or three slots.  TLC explores every program of up to    *)
(* Depth operations, checks on each step that only updates change          *)
(* parameters, that refused operations change nothing that matters and     *)
(* that the slots do not meet, and prints the programs, which the driver   *)
(* then runs on the real layers.                                           *)
(*                                                                         *)
(* Fault (negative controls): "shared" - a pass remembers its choices in   *)
(* the first slot; "eager" - a backward pass updates at once; "refused" -  *)
(* a refused backward pass leaves a gradient behind; "save" - saving drops *)
(* the slots.                                                              *)
(***************************************************************************)
EXTENDS Network, Json

CONSTANTS Group, Depth, Fault

VARIABLES prog, batch, last
gvars == << vars, prog, batch, last >>

One  == 64
X(a, b, c, d) == [d |-> << 2, 2, 1 >>, v |-> << a*One, b*One, c*One, d*One >>]
G(a, b) == [d |-> << 2, 1, 1 >>, v |-> << a*One, b*One >>]
W(d, v) == [d |-> d, v |-> [i \in 1..Len(v) |-> v[i] * One]]

\* --- one layer ---
IsKernel == Group = "kernel"
LayerC == IF IsKernel THEN [k |-> "kernel", fd |-> << 2, 1, 1 >>, n |-> 2, s |-> 1] ELSE [k |-> "fc", n |-> 2]
LayerW == IF IsKernel THEN W(<< 2, 1, 2 >>, << 1, -2, 3, 1 >>) ELSE W(<< 2, 4, 1 >>, << 1, -2, 3, 1, 0, 2, -1, 1 >>)
LayerB == W(<< 2, 1, 1 >>, << 5, -5 >>)
Grads  == IF IsKernel THEN { W(<< 1, 2, 2 >>, << 6, -12, 0, 18 >>), W(<< 1, 2, 2 >>, << -6, 6, 12, 12 >>) }
          ELSE { G(6, -12), G(18, 6) }

UpdateStart == << [op |-> "reset", S |-> One, rn |-> 0], [op |-> "new", c |-> LayerC],
                  [op |-> "set", o |-> 0, w |-> LayerW, b |-> LayerB], [op |-> "setb", o |-> 0, n |-> 2] >>
UpdateOps ==
       { [op |-> "setb", o |-> 0, n |-> n] : n \in 1..3 }
  \cup { [op |-> "bwd", o |-> 0, x |-> X(1, 2, -1, 3), y |-> g, g |-> g, slot |-> s, first |-> f] : g \in Grads, s \in 0..2, f \in {0} }
  \cup { [op |-> "fwd", o |-> 0, x |-> X(1, 2, -1, 3), slot |-> s] : s \in {1} }
  \cup { [op |-> "apply", o |-> 0, r_ |-> r] : r \in { One, -2 * One } }

\* --- one model: convolution, fully connected, rectifier, pooling, certain softmax ---
Cs == << [k |-> "kernel", fd |-> << 1, 2, 1 >>, n |-> 2, s |-> 1], [k |-> "fc", n |-> 4], [k |-> "act", f |-> "RELU"],
         [k |-> "pool", f |-> "max", pd |-> << 2, 1 >>, ps |-> << 2, 1 >>], [k |-> "snap", n |-> 2] >>
KW == W(<< 1, 2, 2 >>, << 1, -1, 2, 1 >>)
KB == W(<< 2, 1, 1 >>, << 0, 1 >>)
FW == W(<< 4, 4, 1 >>, << 1, 0, -1, 1,  0, 1, 1, 0,  1, 0, -1, 0,  2, -1, 0, 1 >>)
FB == W(<< 4, 1, 1 >>, << 1, 0, 1, 0 >>)
NetStart == << [op |-> "reset", S |-> One, rn |-> 0], [op |-> "net", cs |-> Cs, labels |-> << "A", "B" >>],
               [op |-> "set", o |-> 0, w |-> KW, b |-> KB], [op |-> "set", o |-> 1, w |-> FW, b |-> FB],
               [op |-> "nsetb", m |-> 0, n |-> 2] >>
Inputs == { X(1, 2, -1, 3), X(-2, 4, 2, 0), [d |-> << 2, 1, 1 >>, v |-> << One, One >>] }
Labels == { "A", "B", "C" }
NetOps ==
       { [op |-> "nsetb", m |-> 0, n |-> n] : n \in {1, 2} }
  \cup { [op |-> "nfwd", m |-> 0, x |-> x, slot |-> s] : x \in Inputs, s \in {0, 1} }
  \cup { [op |-> "nbwd", m |-> 0, lab |-> t, slot |-> s] : t \in Labels, s \in {0, 1} }
  \cup { [op |-> "nloss", m |-> 0, lab |-> t, slot |-> s] : t \in Labels, s \in {0, 1} }
  \cup { [op |-> "napply", m |-> 0, r_ |-> One] }
\* with saving, and going on with what was saved
SaveOps == { e \in NetOps : e.op # "nloss" /\ ("x" \in DOMAIN e => Len(e.x.v) = 4) /\ ("lab" \in DOMAIN e => e.lab # "C") }
  \cup { [op |-> "nsave", m |-> 0], [op |-> "reload", m |-> 0] }

IsNet == Group \in {"net", "save"}
Start == IF IsNet THEN NetStart ELSE UpdateStart
Ops   == IF Group = "save" THEN SaveOps ELSE IF IsNet THEN NetOps ELSE UpdateOps

-----------------------------------------------------------------------------
Given(L, w, b) == [L EXCEPT !.w = w, !.b = b, !.ini = TRUE, !.known = TRUE]
GenInit ==
    /\ sc = One /\ out = "ok" /\ res = <<>> /\ prog = Start /\ batch = 2 /\ last = [op |-> "start"]
    /\ IF IsNet
       THEN /\ nets = << [ls |-> << 0, 1, 2, 3, 4 >>, labels |-> << "A", "B" >>, rs |-> [i \in 1..16 |-> NoResult]] >>
            /\ objs = LET os == << Given(MakeObj(Cs[1]), KW, KB), Given(MakeObj(Cs[2]), FW, FB), MakeObj(Cs[3]), MakeObj(Cs[4]), MakeObj(Cs[5]) >>
                      IN  [i \in 1..5 |-> AfterSetBatch(os[i], 2)]
       ELSE nets = <<>> /\ objs = << AfterSetBatch(Given(MakeObj(LayerC), LayerW, LayerB), 2) >>

ResultIn(slot) == nets[1].rs[slot+1].acts
\* a result is judged against the batch it was computed in
Legal(e) ==
    CASE e.op \in { "bwd", "fwd" } -> e.slot < batch
      [] e.op = "nfwd" -> e.slot < batch
      [] e.op \in { "nbwd", "nloss" } -> /\ e.slot < batch /\ Len(ResultIn(e.slot)) > 0
                                       /\ ~IsNone(objs[4].sel[e.slot+1])
      [] OTHER -> TRUE

SeenLoss(e) == LET t == LabelPos(N(0).labels, e.lab) a == ResultIn(e.slot)
               IN  IF t < 0 THEN 0 ELSE LossOf(a[Len(a)].v[t+1])
Do(e) ==
    CASE e.op = "setb"  -> SetBatch(0, e.n)
      [] e.op = "bwd"   -> IF Fault = "eager" THEN SetObj(0, AfterApply(AfterBackward(O(0), e.x, e.g, e.slot), One), <<>>)
                           ELSE Backward(0, e.x, e.y, e.g, e.slot, e.first = 1)
      [] e.op = "fwd"   -> Forward(0, e.x, e.slot)
      [] e.op = "apply" -> Apply(0, e.r_)
      [] e.op = "nsetb" -> NetSetBatch(0, e.n)
      [] e.op = "nfwd"  -> IF Fault = "shared" /\ e.slot = 1 /\ Fits(O(0), e.x)
                           THEN /\ objs' = Run(N(0).ls, 1, objs, << e.x >>, 0).os /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << nets, sc >>
                           ELSE NetForward(0, e.x, e.slot)
      [] e.op = "nbwd"  -> IF Fault = "refused" /\ LabelPos(N(0).labels, e.lab) < 0
                           THEN /\ objs' = [objs EXCEPT ![2].gb[e.slot+1] = FB, ![2].gw[e.slot+1] = FW] /\ out' = "refused" /\ res' = <<>> /\ UNCHANGED << nets, sc >>
                           ELSE NetBackward(0, e.lab, e.slot, SeenLoss(e))
      [] e.op = "nloss" -> NetLoss(0, e.lab, e.slot, SeenLoss(e))
      [] e.op = "napply" -> NetApply(0, e.r_)
      [] e.op = "nsave" -> IF Fault = "save" THEN NetSetBatch(0, 1) ELSE NetSave(0)
      [] e.op = "reload" -> NetReload(0)

Exact(L) == \A i \in 1..Len(L.w.v) : Abs(L.w.v[i]) < 100000 /\ L.w.v[i] % 4 = 0
Short == Len(prog) < Len(Start) + Depth
GenNext ==
    /\ Short
    /\ \E e \in Ops :
         /\ Legal(e)
         /\ Do(e)
         /\ \A i \in 1..Len(objs') : Exact(objs'[i])
         /\ prog' = Append(prog, e) /\ last' = e
         /\ batch' = IF e.op \in {"setb", "nsetb"} THEN e.n ELSE IF e.op = "reload" THEN 0 ELSE batch
GenSpec == GenInit /\ [][GenNext]_gvars

\* the last operation makes what is pending visible
Flush == IF IsNet THEN [op |-> "napply", m |-> 0, r_ |-> One] ELSE [op |-> "apply", o |-> 0, r_ |-> One]
Emit == IF Short \/ \E i \in 1..Len(objs) : ~Exact(AfterApply(objs[i], One)) THEN TRUE ELSE PrintT("PROG " \o ToJson(Append(prog, Flush)))

-----------------------------------------------------------------------------
GenShapes == ParamShapes
Refused   == RefusedKeeps
\* parameters change by updates only, and updates use up the gradients
Updates == [][ LET e == last'
               IN  /\ e.op \notin {"apply", "napply"} => \A i \in 1..Len(objs) : objs'[i].w = objs[i].w /\ objs'[i].b = objs[i].b
                   /\ e.op \in {"apply", "napply"} => \A i \in 1..Len(objs) : \A s \in 1..Len(objs'[i].gw) : IsNone(objs'[i].gw[s])
                   \* without a stored gradient an update does nothing
                   /\ (e.op \in {"apply", "napply"} /\ \A i \in 1..Len(objs) : \A s \in 1..Len(objs[i].gw) : IsNone(objs[i].gw[s]))
                      => objs' = objs ]_gvars
\* saving changes nothing, and what was saved has the same parameters
Saving == [][ LET e == last'
              IN  /\ e.op = "nsave" => objs' = objs /\ nets' = nets
                  /\ e.op = "reload" => \A i \in 1..Len(objs) : objs'[i].w = objs[i].w /\ objs'[i].b = objs[i].b ]_gvars
\* an operation in one slot leaves what is remembered for the others
Slots == [][ "slot" \in DOMAIN last' =>
               \A i \in 1..Len(objs) : \A s \in 0..(batch-1) :
                 s # last'.slot => /\ Len(objs[i].gw) > s => objs'[i].gw[s+1] = objs[i].gw[s+1] /\ objs'[i].gb[s+1] = objs[i].gb[s+1]
                                   /\ Len(objs[i].sel) > s => objs'[i].sel[s+1] = objs[i].sel[s+1]
                                   /\ Len(objs[i].lab) > s => objs'[i].lab[s+1] = objs[i].lab[s+1]
                                   /\ IsNet => nets'[1].rs[s+1] = nets[1].rs[s+1] ]_gvars
=============================================================================
