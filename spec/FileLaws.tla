------------------------------- MODULE FileLaws -----------------------------
(***************************************************************************)
(* The layout of model files, checked for a small universe of models: what *)
(* is written line by line can be read back exactly when it is complete,   *)
(* and reading finds the missing piece whichever one is lost.              *)
(*                                                                         *)
(* A writer writes the lines of a model one at a time and may be stopped   *)
(* at any point; one line of the file may then lose a word.  A reader      *)
(* reads what is there.                                                    *)
(***************************************************************************)
EXTENDS ModelFile

CONSTANTS Depth,            \* most layers in a model (without the output layer)
          LabelsLast        \* FALSE: a reader that is content with the layers

VARIABLES m, file, todo, seen, harmed
vars == << m, file, todo, seen, harmed >>

Vec(n, s) == [d |-> << n, 1, 1 >>, v |-> [i \in 1..n |-> s[((i-1) % Len(s)) + 1]]]
Mat(d, s) == [d |-> d, v |-> [i \in 1..(d[1] * d[2] * d[3]) |-> s[((i-1) % Len(s)) + 1]]]
Nums == << "0.500000", "-1.250000", "3.000000" >>
Kernels == {[NoLayer EXCEPT !.k = "kernel", !.fd = fd, !.n = n, !.s = s, !.w = Mat(<< fd[1], fd[2], fd[3] * n >>, Nums), !.b = Vec(n, Nums)] :
               fd \in {<<1, 1, 1>>, <<1, 2, 1>>, <<2, 1, 2>>}, n \in {1, 2}, s \in {1, 3}}
Pools   == {[NoLayer EXCEPT !.k = "pool", !.f = f, !.pd = pd, !.ps = ps] : f \in {"MAX", "AVG"}, pd \in {<<1, 2>>, <<2, 1>>}, ps \in {<<1, 1>>, <<2, 3>>}}
Acts    == {[NoLayer EXCEPT !.k = "act", !.f = f] : f \in {"RELU", "LINEAR"}}
Fcs     == {[NoLayer EXCEPT !.k = "fc", !.n = n, !.w = Mat(<< n, i, 1 >>, Nums), !.b = Vec(n, Nums)] : n \in {1, 2}, i \in {1, 3}}
\* before first use: biases but no weights
Unused  == {[NoLayer EXCEPT !.k = "fc", !.n = 2, !.b = Vec(2, Nums)]}
Soft    == [NoLayer EXCEPT !.k = "soft"]
AllLayers == Kernels \cup Pools \cup Acts \cup Fcs \cup Unused
Stacks == UNION {[1..n -> AllLayers] : n \in 0..Depth}
Labels == {<<>>, << "a" >>, << "b", "weights" >>, << "Output", "Kernel", "x" >>}
Models == {[ls |-> s \o t, labels |-> n] : s \in Stacks, t \in {<<>>, << Soft >>}, n \in Labels}

Raw(w) == IF Len(w) = 1 THEN w[1].s ELSE ""
Lines(x) == LET r == Render(x) IN [i \in 1..Len(r) |-> [raw |-> Raw(r[i]), n |-> 0, w |-> r[i]]]

\* the reader under test
LayersOnly(ls) ==       \* reads layers until nothing follows
    LET RECURSIVE R(_, _)
        R(p, acc) == IF p > Len(ls) THEN [ok |-> TRUE, p |-> p, m |-> [ls |-> acc, labels |-> <<>>]]
                     ELSE IF IsLabels(ls, p+1) THEN ReadFrom(ls, p, acc)
                     ELSE LET r == ReadLayer(ls, p+1) IN IF ~r.ok THEN Bad ELSE R(r.p, Append(acc, r.L))
    IN  R(1, <<>>)
Reader(ls) == IF LabelsLast THEN Parse(ls) ELSE LayersOnly(ls)

Nothing == [ok |-> FALSE, p |-> 0]
Init == m \in Models /\ file = <<>> /\ todo = Lines(m) /\ seen = Nothing /\ harmed = 0
Write == /\ todo # <<>> /\ seen = Nothing /\ harmed = 0
         /\ file' = Append(file, Head(todo)) /\ todo' = Tail(todo)
         /\ UNCHANGED << m, seen, harmed >>
\* a word is lost; separators may have anything in them, and labels may be anything
Matters(i) == /\ Len(file[i].w) > 0
              /\ i < Len(Lines(m)) - Len(m.labels)
              /\ ~(Len(file[i].w) = 2 /\ file[i].w[2].s = "----------")
Without(w, j) == SubSeq(w, 1, j-1) \o SubSeq(w, j+1, Len(w))
Harm == /\ todo = <<>> /\ seen = Nothing /\ harmed = 0
        /\ \E i \in 1..Len(file) : Matters(i) /\ \E j \in 1..Len(file[i].w) :
              /\ file' = [file EXCEPT ![i].w = Without(@, j), ![i].raw = ""]
              /\ harmed' = i
        /\ UNCHANGED << m, todo, seen >>
Read == /\ seen = Nothing
        /\ seen' = Reader(file) @@ [read |-> TRUE]
        /\ UNCHANGED << m, file, todo, harmed >>
Next == Write \/ Harm \/ Read
Spec == Init /\ [][Next]_vars

\* What is reported as read is the model that was written
NothingElse == seen.ok => seen.m = m /\ harmed = 0
\* and a complete file is read
CompleteIsRead == ("read" \in DOMAIN seen /\ todo = <<>> /\ harmed = 0) => seen.ok
\* how much is needed: all but the empty line at the end
Needed == ("read" \in DOMAIN seen /\ harmed = 0) => (seen.ok <=> Len(todo) <= 1)
=============================================================================
