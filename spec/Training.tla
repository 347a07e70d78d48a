------------------------------ MODULE Training ------------------------------
(***************************************************************************)
(* Training with worker threads, step by step: every place where a worker  *)
(* can be interrupted is a state.  TLC explores all interleavings.         *)
(*                                                                         *)
(* The flags describe the design: TRUE as it has to be.  With one of them  *)
(* FALSE the specification has the fault of that name and must violate     *)
(* what the flag is there for (negative controls).                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS T, B, NPts, Epochs,
          DataMutex,      \* the source is only called under a lock
          OneLock,        \* ... that is held from the question to the answer of both calls
          OwnLabel,       \* the true label is kept per slot
          OwnMemory,      \* what a forward pass remembers is kept per slot
          ClearGradients, \* an update forgets the gradients it used
          CountStored,    \* an update divides by the number of gradients stored
          OwnSlots,       \* no two workers have a slot in common
          JoinFirst,      \* the update waits for all workers
          InitLock,       \* lazy initialisation happens under a lock
          AtomicHits,     \* the success counter is incremented atomically
          Poison,         \* points that cannot be processed
          Caught,         \* the exception is kept for the thread that called
          Released,       \* the lock on the source is released when the source throws
          NoneApplied,    \* a batch with an exception is not applied
          Forgotten       \* ... and its gradients are forgotten

Workers == 0..(T-1)
Slots   == 0..(B-1)
Points  == 1..NPts
Label(p) == p % 2
\* whether the model predicts the label of p rightly with the parameters of version v
Right(p, v) == (p + v) % 3 # 0
Work    == (B + T - 1) \div T
First(w) == IF OwnSlots THEN w * Work ELSE 0
Last(w)  == IF OwnSlots THEN (IF (w+1) * Work < B THEN (w+1) * Work ELSE B) - 1 ELSE Work - 1
NoGrad  == [pt |-> 0, ver |-> 0, lab |-> 0, mem |-> 0]
NBatch  == (NPts + B - 1) \div B

VARIABLES pc, slot, got, lock, src, said, busy,
          phase, epoch, batch, ver,
          lab, mem, grad, ini, inilock, hits, tmp,
          drawn, hand, prog, seen, good, bad, failed
vars == << pc, slot, got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp,
           drawn, hand, prog, seen, good, bad, failed >>

Init == /\ pc = [w \in Workers |-> "off"] /\ slot = [w \in Workers |-> 0] /\ got = [w \in Workers |-> 0]
        /\ lock = -1 /\ src = 1 /\ said = FALSE /\ busy = 0
        /\ phase = "spawn" /\ epoch = 0 /\ batch = 0 /\ ver = 0
        /\ lab = [s \in Slots |-> -1] /\ mem = [s \in Slots |-> 0] /\ grad = [s \in Slots |-> NoGrad]
        /\ ini = "no" /\ inilock = -1 /\ hits = 0 /\ tmp = [w \in Workers |-> 0]
        /\ drawn = {} /\ hand = {} /\ prog = [s \in Slots |-> [st |-> 0, pt |-> 0]] /\ seen = {} /\ good = 0 /\ bad = {}
        /\ failed = FALSE

Goto(w, l) == pc' = [pc EXCEPT ![w] = l]
Shared(s) == IF OwnLabel THEN s ELSE 0
Memory(s) == IF OwnMemory THEN s ELSE 0

Spawn == /\ phase = "spawn"
         /\ pc' = [w \in Workers |-> "next"] /\ slot' = [w \in Workers |-> First(w)]
         /\ phase' = "run"
         /\ UNCHANGED << got, lock, src, said, busy, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>

\* the next slot of the worker's share, or the end of it
NextSlot(w) == /\ pc[w] = "next"
               /\ IF slot[w] > Last(w) THEN Goto(w, "end") ELSE Goto(w, "lock")
               /\ UNCHANGED << slot, got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
Lock(w) == /\ pc[w] = "lock"
           /\ IF DataMutex THEN lock = -1 /\ lock' = w ELSE UNCHANGED lock
           /\ Goto(w, "ask")
           /\ UNCHANGED << slot, got, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
\* the calls into the source take time
Ask(w) == /\ pc[w] = "ask" /\ busy' = busy + 1 /\ Goto(w, "asking")
          /\ UNCHANGED << slot, got, lock, src, said, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
Asked(w) == /\ pc[w] = "asking" /\ busy' = busy - 1
            /\ said' = (src <= NPts)
            /\ IF src <= NPts THEN Goto(w, IF OneLock THEN "draw" ELSE "relock") ELSE Goto(w, "leave")
            /\ lock' = IF OneLock THEN lock ELSE -1
            /\ UNCHANGED << slot, got, src, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
Relock(w) == /\ pc[w] = "relock" /\ lock = -1 /\ lock' = w /\ Goto(w, "draw")
             /\ UNCHANGED << slot, got, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
Draw(w) == /\ pc[w] = "draw" /\ busy' = busy + 1 /\ Goto(w, "drawing")
           /\ UNCHANGED << slot, got, lock, src, said, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
Drawn(w) == /\ pc[w] = "drawing" /\ busy' = busy - 1
            /\ bad' = IF src > NPts THEN bad \cup {"drawn from an exhausted source"} ELSE bad
            /\ got' = [got EXCEPT ![w] = src] /\ src' = src + 1 /\ said' = FALSE
            /\ drawn' = drawn \cup {src} /\ hand' = hand \cup {src}
            /\ Goto(w, "unlock")
            /\ UNCHANGED << slot, lock, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, prog, seen, good, failed >>
Unlock(w) == /\ pc[w] \in {"unlock", "leave"}
             /\ lock' = IF DataMutex THEN -1 ELSE lock
             /\ Goto(w, IF pc[w] = "leave" THEN "end" ELSE "enter")
             /\ UNCHANGED << slot, got, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
\* forward: the first layer
EnterModel(w) == /\ pc[w] = "enter" /\ Goto(w, "ini")
                 /\ hand' = hand \ {got[w]}
                 /\ prog' = [prog EXCEPT ![slot[w]] = [st |-> 1, pt |-> got[w]]]
                 /\ mem' = [mem EXCEPT ![Memory(slot[w])] = got[w]]
                 /\ UNCHANGED << slot, got, lock, src, said, busy, phase, epoch, batch, ver, lab, grad, ini, inilock, hits, tmp, drawn, seen, good, bad, failed >>
\* a layer that initialises itself on first use, in two steps
InitLayer(w) == /\ pc[w] = "ini"
                /\ IF InitLock THEN inilock = -1 ELSE TRUE
                /\ IF ini = "no"
                   THEN /\ ini' = "half" /\ Goto(w, "ini2") /\ inilock' = IF InitLock THEN w ELSE inilock
                   ELSE /\ UNCHANGED << ini, inilock >> /\ Goto(w, "out")
                /\ UNCHANGED << slot, got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
InitLayer2(w) == /\ pc[w] = "ini2" /\ ini' = "yes" /\ inilock' = -1 /\ Goto(w, "out")
                 /\ UNCHANGED << slot, got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
\* forward: the output layer.  tmp: the version of the parameters that the pass has used
Output(w) == /\ pc[w] = "out" /\ Goto(w, IF got[w] \in Poison THEN "bad label" ELSE "label")
             /\ bad' = IF ini # "yes" THEN bad \cup {"partly initialised layer used"} ELSE bad
             /\ prog' = [prog EXCEPT ![slot[w]].st = 2]
             /\ UNCHANGED << slot, got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, seen, good, failed >>
SetLabel(w) == /\ pc[w] = "label" /\ lab' = [lab EXCEPT ![Shared(slot[w])] = Label(got[w])] /\ Goto(w, "bwd")
               /\ UNCHANGED << slot, got, lock, src, said, busy, phase, epoch, batch, ver, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>
BackOut(w) == /\ pc[w] = "bwd" /\ Goto(w, "bwd1")
              /\ prog' = [prog EXCEPT ![slot[w]].st = 3]
              /\ grad' = [grad EXCEPT ![slot[w]] = [pt |-> got[w], ver |-> ver, lab |-> lab[Shared(slot[w])], mem |-> 0]]
              /\ UNCHANGED << slot, got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, ini, inilock, hits, tmp, drawn, hand, seen, good, bad, failed >>
BackFirst(w) == /\ pc[w] = "bwd1" /\ Goto(w, "hit")
                /\ prog' = [prog EXCEPT ![slot[w]].st = 4]
                /\ grad' = [grad EXCEPT ![slot[w]].mem = mem[Memory(slot[w])]]
                /\ seen' = seen \cup {got[w]}
                /\ UNCHANGED << slot, got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, ini, inilock, hits, tmp, drawn, hand, good, bad, failed >>
Hit(w) == /\ pc[w] = "hit"
          /\ IF AtomicHits
             THEN /\ hits' = IF Right(got[w], ver) THEN hits + 1 ELSE hits
                  /\ Goto(w, "next") /\ slot' = [slot EXCEPT ![w] = @ + 1] /\ UNCHANGED tmp
             ELSE /\ tmp' = [tmp EXCEPT ![w] = hits] /\ Goto(w, "hit2") /\ UNCHANGED << hits, slot, failed >>
          /\ good' = IF Right(got[w], ver) THEN good + 1 ELSE good
          /\ UNCHANGED << got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, drawn, hand, prog, seen, bad, failed >>
Hit2(w) == /\ pc[w] = "hit2" /\ hits' = (IF Right(got[w], ver) THEN tmp[w] + 1 ELSE hits)
           /\ Goto(w, "next") /\ slot' = [slot EXCEPT ![w] = @ + 1]
           /\ UNCHANGED << got, lock, src, said, busy, phase, epoch, batch, ver, lab, mem, grad, ini, inilock, tmp, drawn, hand, prog, seen, good, bad, failed >>

\* Exceptions: a layer refuses the point, its label is unknown, or the source fails to deliver it
Throw(w) == /\ pc[w] \in {"out", "bad label"} /\ got[w] \in Poison
            /\ Goto(w, "end") /\ failed' = TRUE
            /\ phase' = IF Caught THEN phase ELSE "dead"
            /\ UNCHANGED << slot, got, lock, src, said, busy, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad >>
SourceThrow(w) == /\ pc[w] = "drawing" /\ src \in Poison
                  /\ busy' = busy - 1 /\ src' = src + 1 /\ said' = FALSE
                  /\ drawn' = drawn \cup {src} /\ hand' = hand \cup {src}
                  /\ lock' = IF DataMutex /\ Released THEN -1 ELSE lock
                  /\ Goto(w, "end") /\ failed' = TRUE
                  /\ phase' = IF Caught THEN phase ELSE "dead"
                  /\ UNCHANGED << slot, got, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, prog, seen, good, bad >>

Join == /\ phase = "run"
        /\ IF JoinFirst THEN \A w \in Workers : pc[w] = "end" ELSE \E w \in Workers : pc[w] = "end"
        /\ phase' = "update"
        /\ UNCHANGED << pc, slot, got, lock, src, said, busy, epoch, batch, ver, lab, mem, grad, ini, inilock, hits, tmp, drawn, hand, prog, seen, good, bad, failed >>

Stored == {s \in Slots : grad[s] # NoGrad}
\* what the update has to be made of
Wanted == {[pt |-> p, ver |-> ver, lab |-> Label(p), mem |-> p] : p \in drawn}
UpdateIsRight == /\ {grad[s] : s \in Stored} = Wanted
                 /\ (IF CountStored THEN Cardinality(Stored) ELSE B) = Cardinality(drawn) \/ drawn = {}
Fail == /\ phase = "update" /\ failed /\ NoneApplied
        /\ phase' = "failed"
        /\ grad' = IF Forgotten THEN [s \in Slots |-> NoGrad] ELSE grad
        /\ prog' = [s \in Slots |-> [st |-> 0, pt |-> 0]] /\ drawn' = {} /\ hand' = {}
        /\ UNCHANGED << pc, slot, got, lock, src, said, busy, epoch, batch, ver, lab, mem, ini, inilock, hits, tmp, seen, good, bad, failed >>
Update == /\ phase = "update" /\ ~(failed /\ NoneApplied)
          /\ bad' = IF UpdateIsRight THEN bad ELSE bad \cup {"wrong update"}
          /\ grad' = IF ClearGradients THEN [s \in Slots |-> NoGrad] ELSE grad
          /\ ver' = ver + 1 /\ drawn' = {} /\ batch' = batch + 1
          /\ prog' = [s \in Slots |-> [st |-> 0, pt |-> 0]]
          /\ phase' = IF batch + 1 < NBatch THEN "spawn" ELSE "epoch end"
          /\ UNCHANGED << pc, slot, got, lock, src, said, busy, epoch, lab, mem, ini, inilock, hits, tmp, hand, seen, good, failed >>
EpochEnd == /\ phase = "epoch end"
            /\ bad' = bad \cup (IF seen # Points THEN {"points left out"} ELSE {})
                          \cup (IF hits # good THEN {"wrong success count"} ELSE {})
            /\ src' = 1 /\ said' = FALSE /\ seen' = {} /\ hits' = 0 /\ good' = 0 /\ batch' = 0 /\ epoch' = epoch + 1
            /\ phase' = IF epoch + 1 < Epochs THEN "spawn" ELSE "finished"
            /\ UNCHANGED << pc, slot, got, lock, busy, ver, lab, mem, grad, ini, inilock, tmp, drawn, hand, prog, failed >>

Worker(w) == \/ NextSlot(w) \/ Lock(w) \/ Ask(w) \/ Asked(w) \/ Relock(w) \/ Draw(w) \/ Drawn(w) \/ Unlock(w)
             \/ EnterModel(w) \/ InitLayer(w) \/ InitLayer2(w) \/ Output(w) \/ SetLabel(w) \/ BackOut(w) \/ BackFirst(w)
             \/ Hit(w) \/ Hit2(w) \/ Throw(w) \/ SourceThrow(w)
Next == Spawn \/ Join \/ Update \/ Fail \/ EpochEnd \/ (phase # "dead" /\ \E w \in Workers : Worker(w))
        \/ (phase \in {"finished", "failed", "dead"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ WF_vars(Spawn \/ Join \/ Update \/ Fail \/ EpochEnd) /\ \A w \in Workers : WF_vars(phase # "dead" /\ Worker(w))

-----------------------------------------------------------------------------
NothingBad     == bad = {}
SourceExclusive == busy <= 1
SlotExclusive  == \A v, w \in Workers : v # w /\ pc[v] \in {"enter", "ini", "ini2", "out", "label", "bwd", "bwd1", "hit"}
                                              /\ pc[w] \in {"enter", "ini", "ini2", "out", "label", "bwd", "bwd1", "hit"} => slot[v] # slot[w]
InitOnce       == Cardinality({w \in Workers : pc[w] = "ini2"}) <= 1
Terminates     == <>(phase \in {"finished", "failed"})
\* with a point that cannot be processed, and only then, training ends with the exception, after the
\* updates of the batches before that of the point, and nothing of its own batch is left
FailsIff       == phase = "finished" => Poison = {}
FailsClean     == phase = "failed" => /\ Poison # {} /\ Stored = {}
                                      /\ LET first == CHOOSE p \in Poison : \A q \in Poison : p <= q
                                         IN  ver = (first - 1) \div B

\* Every behaviour is one that a user may see
Obs == INSTANCE TrainObs WITH np <- NPts, bs <- B, src <- src, said <- said, busy <- (busy > 0), hand <- hand,
                              slots <- prog, drawn <- drawn, seen <- seen, epoch <- epoch
FailsSeen      == [][phase # "failed" /\ phase' = "failed" => Obs!Failed(Poison)]_vars
ObsSpec == Obs!ObsInit(NPts, B) /\ [][Obs!ObsNext]_(Obs!ovars)
=============================================================================
