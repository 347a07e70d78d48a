------------------------------ MODULE DimLaws -------------------------------
(***************************************************************************)
(* What Dims says about iteration and flat indices fits together, for all  *)
(* tuples of one to four numbers: walking through a shape visits every     *)
(* index once, in the order of the flat index, and stops right behind it.  *)
(***************************************************************************)
EXTENDS Dims, FiniteSets
CONSTANTS Side, Fault
VARIABLES d, at, steps
lvars == << d, at, steps >>

Go(s, i) == IF Fault = "carry" /\ Len(s) > 1 /\ i[1] + 1 >= s[1] THEN [Succ(s, i) EXCEPT ![1] = i[1]] ELSE Succ(s, i)
Pos(s, i) == IF Fault = "order" THEN FlatOf([k \in 1..Len(s) |-> s[Len(s) + 1 - k]], [k \in 1..Len(s) |-> i[Len(s) + 1 - k]]) ELSE FlatOf(s, i)
LInit == /\ d \in UNION { [1..k -> 1..Side] : k \in 1..4 }
         /\ at = Zeros(Len(d)) /\ steps = 0
         /\ DimsInit
LNext == steps < Count(d) /\ at' = Go(d, at) /\ steps' = steps + 1 /\ d' = d /\ UNCHANGED dvars
LSpec == LInit /\ [][LNext]_<< lvars, dvars >>

InOrder   == Pos(d, at) = steps
Inside    == steps < Count(d) => \A k \in 1..Len(d) : at[k] >= 0 /\ at[k] < d[k]
StopsThere == steps = Count(d) <=> at = EndOf(d)
Inverse   == Minus(Plus(at, d), d) = at /\ Plus(at, Zeros(Len(d))) = at /\ Plus(at, d) = Plus(d, at)
=============================================================================
