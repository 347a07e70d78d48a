-------------------------------- MODULE Reader ------------------------------
(***************************************************************************)
(* The image reader and the training program's data source.                *)
(*                                                                         *)
(* file  the images of the open pair of files, in order                    *)
(* pos   number of the image that nextImage delivers, from 0               *)
(* src   the data source: [file, from, pos]; it starts with image "from"   *)
(*       after construction and after each reset                           *)
(* Each operation is an action; out is "ok" or "refused", res its result.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

VARIABLES file, pos, src, out, res
vars == << file, pos, src, out, res >>

Init == file = <<>> /\ pos = 0 /\ src = [file |-> <<>>, from |-> 0, pos |-> 0] /\ out = "ok" /\ res = <<>>
Count == Len(file)

Open(imgs) == file' = imgs /\ pos' = 0 /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED src
Deliver(i) == out' = "ok" /\ res' = << file[i+1] >> /\ pos' = i + 1 /\ UNCHANGED << file, src >>
Refuse     == out' = "refused" /\ res' = <<>> /\ UNCHANGED << file, pos, src >>
Get(i) == IF i < Count THEN Deliver(i) ELSE Refuse
NextImage == IF pos < Count THEN Deliver(pos) ELSE Refuse

\* the data source
Size == Len(src.file) - src.from
SrcOpen(imgs, from) == /\ src' = [file |-> imgs, from |-> from, pos |-> from]
                       /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << file, pos >>
SrcReset == src' = [src EXCEPT !.pos = src.from] /\ out' = "ok" /\ res' = <<>> /\ UNCHANGED << file, pos >>
SrcHas   == src.pos < Len(src.file)
SrcPoint == IF SrcHas
            THEN /\ src' = [src EXCEPT !.pos = @ + 1] /\ out' = "ok"
                 /\ res' = << [src.file[src.pos + 1] EXCEPT !.l = ToString(@)] >> /\ UNCHANGED << file, pos >>
            ELSE Refuse
=============================================================================
