------------------------------ MODULE TrainGen ------------------------------
(* Schedules for the real code: the order in which the data points of a run pass the first and  *)
(* the last layer, forwards and backwards, in every behaviour of Training (breadth first: all of *)
(* them; simulation: a sample).  The driver holds the real threads to such an order.             *)
EXTENDS Training, Json

VARIABLE hist
Names == << "fi", "fo", "bo", "bi" >>
Passed == {s \in Slots : prog'[s].st > 0 /\ prog'[s].st # prog[s].st}
GenInit == Init /\ hist = <<>>
GenNext == /\ Next
           /\ phase # "finished"
           /\ hist' = IF Passed = {} THEN hist
                      ELSE LET s == CHOOSE s \in Passed : TRUE
                           IN  Append(hist, Names[prog'[s].st] \o ToString(prog'[s].pt))
GenSpec == GenInit /\ [][GenNext]_<<vars, hist>>
Emit == phase = "finished" => PrintT("PLAN " \o ToJson(hist))
=============================================================================
