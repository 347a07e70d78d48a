------------------------------- MODULE FileGen ------------------------------
(* Emits every file that FileLaws gets to read (whole, cut off or harmed), word by word. *)
EXTENDS FileLaws, Json
Words(ls) == [i \in 1..Len(ls) |-> [j \in 1..Len(ls[i].w) |-> ls[i].w[j].s]]
Emit == IF "read" \in DOMAIN seen
        THEN PrintT("FILE " \o ToJson([f |-> Words(file), ok |-> seen.ok]))
        ELSE TRUE
=============================================================================
