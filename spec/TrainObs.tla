------------------------------ MODULE TrainObs ------------------------------
(***************************************************************************)
(* Training as its users see it: the calls into the data source, the       *)
(* passes that reach the first and the last layer of the model, the update *)
(* steps, and the resets of the source.  Nothing is said about threads:    *)
(* which thread makes a call does not matter, only that calls into the     *)
(* source do not overlap, that every point goes through one slot of its    *)
(* own, and that an update closes a batch.                                 *)
(*                                                                         *)
(* Points are numbered 1..NPoints in the order of the source.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

VARIABLES np, bs,        \* number of points, batch size
          src,           \* next point of the source
          said,          \* the source has said that data is available, and none was drawn since
          busy,          \* a call into the source is under way
          hand,          \* points drawn that have not reached the model
          slots,         \* slot |-> [st, pt]: how far its point has got
          drawn,         \* points drawn since the last update
          seen,          \* points completed in this epoch
          epoch          \* resets so far
ovars == << np, bs, src, said, busy, hand, slots, drawn, seen, epoch >>

Free == [st |-> 0, pt |-> 0]
\* stages: 1 first layer forward, 2 last layer forward, 3 last layer backward, 4 first layer backward
FreeSlots(n) == [s \in 0..(n-1) |-> Free]

ObsStart(n, b) ==
    /\ np' = n /\ bs' = b /\ src' = 1 /\ said' = FALSE /\ busy' = FALSE /\ hand' = {}
    /\ slots' = FreeSlots(b) /\ drawn' = {} /\ seen' = {} /\ epoch' = 0
ObsInit(n, b) ==
    /\ np = n /\ bs = b /\ src = 1 /\ said = FALSE /\ busy = FALSE /\ hand = {}
    /\ slots = FreeSlots(b) /\ drawn = {} /\ seen = {} /\ epoch = 0

Keep == UNCHANGED << np, bs >>
CallBegin == ~busy /\ busy' = TRUE /\ Keep /\ UNCHANGED << src, said, hand, slots, drawn, seen, epoch >>
\* the answer is the source's own
AvailEnd(r) == /\ busy /\ busy' = FALSE /\ r = (src <= np) /\ said' = r
               /\ Keep /\ UNCHANGED << src, hand, slots, drawn, seen, epoch >>
SizeEnd == /\ busy /\ busy' = FALSE /\ Keep /\ UNCHANGED << src, said, hand, slots, drawn, seen, epoch >>
DrawEnd(p) == /\ busy /\ busy' = FALSE
              /\ said /\ src <= np /\ Cardinality(drawn) < bs
              /\ p = src /\ src' = src + 1 /\ said' = FALSE
              /\ hand' = hand \cup {p} /\ drawn' = drawn \cup {p}
              /\ Keep /\ UNCHANGED << slots, seen, epoch >>
Enter(s, p) == /\ p \in hand /\ s \in DOMAIN slots /\ slots[s] = Free
               /\ hand' = hand \ {p}
               /\ slots' = [slots EXCEPT ![s] = [st |-> 1, pt |-> p]]
               /\ Keep /\ UNCHANGED << src, said, busy, drawn, seen, epoch >>
Go(s, p, st) == /\ s \in DOMAIN slots /\ slots[s] = [st |-> st - 1, pt |-> p]
                /\ slots' = [slots EXCEPT ![s] = [st |-> st, pt |-> p]]
                /\ seen' = IF st = 4 THEN seen \cup {p} ELSE seen
                /\ Keep /\ UNCHANGED << src, said, busy, hand, drawn, epoch >>
Quiet == hand = {} /\ \A s \in DOMAIN slots : slots[s].st \in {0, 4}
Update == /\ Quiet
          /\ slots' = FreeSlots(Cardinality(DOMAIN slots)) /\ drawn' = {}
          /\ Keep /\ UNCHANGED << src, said, busy, hand, seen, epoch >>
SourceReset == /\ Quiet /\ drawn = {} /\ seen = 1..np /\ ~busy
               /\ src' = 1 /\ said' = FALSE /\ seen' = {} /\ epoch' = epoch + 1
               /\ Keep /\ UNCHANGED << busy, hand, slots, drawn >>
\* training ends with an exception: what has not come through the model are points of P, which cannot be processed
Failed(P) == LET open == hand \cup {slots[s].pt : s \in {t \in DOMAIN slots : slots[t].st \in 1..3}}
             IN  /\ ~busy /\ open # {} /\ open \subseteq P
                 /\ slots' = FreeSlots(Cardinality(DOMAIN slots)) /\ drawn' = {} /\ hand' = {}
                 /\ Keep /\ UNCHANGED << src, said, busy, seen, epoch >>
\* runEpoch returns
EpochDone == Quiet /\ drawn = {} /\ seen = 1..np /\ ~busy /\ UNCHANGED ovars

ObsNext ==
    \/ CallBegin \/ \E r \in BOOLEAN : AvailEnd(r) \/ SizeEnd
    \/ \E p \in 1..np : DrawEnd(p)
    \/ \E s \in DOMAIN slots, p \in 1..np : Enter(s, p) \/ \E st \in 2..4 : Go(s, p, st)
    \/ Update \/ SourceReset
    \/ \E P \in SUBSET (1..np) : Failed(P)

\* What it is all for
OncePerEpoch == seen \subseteq 1..(src-1) /\ hand \cap seen = {}
AtMostABatch == Cardinality(drawn) <= bs
PointOwnsSlot == \A s, t \in DOMAIN slots : s # t /\ slots[s].st > 0 /\ slots[t].st > 0 => slots[s].pt # slots[t].pt
=============================================================================
