------------------------------ MODULE ModelFile -----------------------------
(***************************************************************************)
(* Model files.  A file is a sequence of lines, a line a record            *)
(*   [raw |-> the line as it is,  w |-> its words,  ...]                   *)
(* where each word is a record [t, s]: t is "i" for an integer, "d" for    *)
(* another number, "w" for anything else.  s is its text; that of numbers  *)
(* is normalised, and v is the value of an integer.  Numbers are only      *)
(* compared, so their text to six decimals is all that is needed.          *)
(*                                                                         *)
(* A model is [ls |-> layers, labels |-> strings]; a layer is a record     *)
(* [k, fd, n, s, pd, ps, f, w, b] with only the fields of its kind in use. *)
(* A matrix here is [d, v] with v the numbers row by row, layer by layer.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

NoMat == [d |-> << 0, 0, 0 >>, v |-> <<>>]
NoLayer == [k |-> "", fd |-> << 0, 0, 0 >>, n |-> 0, s |-> 1, pd |-> << 0, 0 >>, ps |-> << 0, 0 >>, f |-> "",
            w |-> NoMat, b |-> NoMat]

Word(s) == [t |-> "w", s |-> s, v |-> 0]
IntW(i)  == [t |-> "i", s |-> ToString(i), v |-> i]
Dec(s)  == [t |-> "d", s |-> s, v |-> 0]

-----------------------------------------------------------------------------
(* The layout *)

Concat(n, F(_)) == FlattenSeq([i \in 1..n |-> F(i)])

\* the words of each line
MatLines(m) ==
    << << IntW(m.d[1]), IntW(m.d[2]), IntW(m.d[3]) >> >>
    \o Concat(m.d[3], LAMBDA z :
          [x \in 1..m.d[1] |-> [y \in 1..m.d[2] |-> Dec(m.v[((z-1) * m.d[1] + x-1) * m.d[2] + y])]]
          \o << <<>> >>)
Named(name, i) == << Word(name), IntW(i) >>
LayerLines(L) ==
    CASE L.k = "kernel" -> << <<Word("Kernel")>>, Named("x", L.fd[1]), Named("y", L.fd[2]), Named("z", L.fd[3]), Named("n", L.n) >>
                           \o (IF L.s = 1 THEN <<>> ELSE << Named("stride", L.s) >>)
                           \o << <<Word("weights")>> >> \o MatLines(L.w) \o << <<Word("biases")>> >> \o MatLines(L.b)
      [] L.k = "pool"   -> << <<Word("Pooling")>>, <<Word(L.f)>>, Named("x", L.pd[1]), Named("y", L.pd[2]),
                              <<Word("stride")>>, Named("x", L.ps[1]), Named("y", L.ps[2]) >>
      [] L.k = "act"    -> << <<Word("Activation")>>, <<Word(L.f)>> >>
      [] L.k = "fc"     -> << << Word("Connected"), Word("Layer") >>, Named("x", L.w.d[1]), Named("y", L.w.d[2]) >>
                           \o << <<Word("weights")>> >> \o MatLines(L.w) \o << <<Word("biases")>> >> \o MatLines(L.b)
      [] L.k = "soft"   -> << <<Word("Softmax")>> >>
Separator(i) == << Word("(" \o ToString(i) \o ")"), Word("----------") >>
\* labels are whole lines; here they are single words
Render(m) ==
    Concat(Len(m.ls), LAMBDA i : << Separator(i-1) >> \o LayerLines(m.ls[i]))
    \o << <<>>, << Word("Output"), Word("labels"), IntW(Len(m.labels)) >> >>
    \o [i \in 1..Len(m.labels) |-> << Word(m.labels[i]) >>] \o << <<>> >>

-----------------------------------------------------------------------------
(* Reading.  A reader gives [ok, p (next line), ...]. *)

Bad == [ok |-> FALSE, p |-> 0]
Line(ls, p) == IF p >= 1 /\ p <= Len(ls) THEN ls[p].w ELSE << Word("-end-") >>
IsWord(ls, p, s) == Len(Line(ls, p)) = 1 /\ Line(ls, p)[1].t = "w" /\ Line(ls, p)[1].s = s
IsNamed(ls, p, s) == Len(Line(ls, p)) = 2 /\ Line(ls, p)[1].s = s /\ Line(ls, p)[2].t = "i"
ValueAt(ls, p) == Line(ls, p)[2].v

Number(wd) == wd.t \in {"i", "d"}
\* an integer as a number with six decimals
Text6(wd) == IF wd.t = "d" THEN wd.s ELSE wd.s \o ".000000"
ReadMat(ls, p) ==
    LET h == Line(ls, p)
    IN  IF ~(Len(h) = 3 /\ \A i \in 1..3 : h[i].t = "i" /\ h[i].v >= 0) THEN Bad
        ELSE LET d == << h[1].v, h[2].v, h[3].v >>
                 At(z, x) == p + (z-1) * (d[1] + 1) + x          \* line of row x in layer z
             IN  IF ~ \A z \in 1..d[3], x \in 1..d[1] :
                        /\ Len(Line(ls, At(z, x))) = d[2]
                        /\ \A y \in 1..d[2] : Number(Line(ls, At(z, x))[y])
                 THEN Bad
                 ELSE [ok |-> TRUE, p |-> p + 1 + d[3] * (d[1] + 1),
                       m |-> [d |-> d, v |-> Concat(d[3], LAMBDA z : Concat(d[1], LAMBDA x :
                                 [y \in 1..d[2] |-> Text6(Line(ls, At(z, x))[y])]))]]

ReadParams(ls, p) ==
    IF ~IsWord(ls, p, "weights") THEN Bad
    ELSE LET w == ReadMat(ls, p+1)
         IN  IF ~w.ok \/ ~IsWord(ls, w.p, "biases") THEN Bad
             ELSE LET b == ReadMat(ls, w.p + 1)
                  IN  IF ~b.ok THEN Bad ELSE [ok |-> TRUE, p |-> b.p, w |-> w.m, b |-> b.m]

ActNames == {"RELU", "SIGMOID", "LINEAR", "TANGENT", "LEAKY_RELU"}
ReadLayer(ls, p) ==
    IF IsWord(ls, p, "Kernel") THEN
        IF ~(IsNamed(ls, p+1, "x") /\ IsNamed(ls, p+2, "y") /\ IsNamed(ls, p+3, "z") /\ IsNamed(ls, p+4, "n")) THEN Bad
        ELSE LET strided == IsNamed(ls, p+5, "stride")
                 s  == IF strided THEN ValueAt(ls, p+5) ELSE 1
                 r  == ReadParams(ls, IF strided THEN p+6 ELSE p+5)
                 fd == << ValueAt(ls, p+1), ValueAt(ls, p+2), ValueAt(ls, p+3) >>
                 n  == ValueAt(ls, p+4)
             IN  IF ~r.ok \/ s < 1 THEN Bad
                 ELSE IF r.w.d # << fd[1], fd[2], fd[3] * n >> \/ r.b.d # << n, 1, 1 >> THEN Bad
                 ELSE [ok |-> TRUE, p |-> r.p, L |-> [NoLayer EXCEPT !.k = "kernel", !.fd = fd, !.n = n, !.s = s, !.w = r.w, !.b = r.b]]
    ELSE IF IsWord(ls, p, "Pooling") THEN
        IF ~(/\ \E f \in {"MAX", "MIN", "AVG"} : IsWord(ls, p+1, f)
             /\ IsNamed(ls, p+2, "x") /\ IsNamed(ls, p+3, "y") /\ IsWord(ls, p+4, "stride")
             /\ IsNamed(ls, p+5, "x") /\ IsNamed(ls, p+6, "y")
             /\ \A i \in {2, 3, 5, 6} : ValueAt(ls, p+i) > 0) THEN Bad
        ELSE [ok |-> TRUE, p |-> p+7, L |-> [NoLayer EXCEPT !.k = "pool", !.f = Line(ls, p+1)[1].s,
                    !.pd = << ValueAt(ls, p+2), ValueAt(ls, p+3) >>, !.ps = << ValueAt(ls, p+5), ValueAt(ls, p+6) >>]]
    ELSE IF IsWord(ls, p, "Activation") THEN
        IF ~ \E f \in ActNames : IsWord(ls, p+1, f) THEN Bad
        ELSE [ok |-> TRUE, p |-> p+2, L |-> [NoLayer EXCEPT !.k = "act", !.f = Line(ls, p+1)[1].s]]
    ELSE IF Line(ls, p) = << Word("Connected"), Word("Layer") >> THEN
        IF ~(IsNamed(ls, p+1, "x") /\ IsNamed(ls, p+2, "y")) THEN Bad
        ELSE LET r == ReadParams(ls, p+3)
             IN  IF ~r.ok THEN Bad
                 ELSE IF \/ r.w.d[1] # ValueAt(ls, p+1) \/ r.w.d[2] # ValueAt(ls, p+2)
                         \/ Len(r.w.v) > 0 /\ r.b.d # << r.w.d[1], 1, 1 >> THEN Bad
                 ELSE [ok |-> TRUE, p |-> r.p, L |-> [NoLayer EXCEPT !.k = "fc", !.n = r.b.d[1], !.w = r.w, !.b = r.b]]
    ELSE IF IsWord(ls, p, "Softmax") THEN [ok |-> TRUE, p |-> p+1, L |-> [NoLayer EXCEPT !.k = "soft"]]
    ELSE Bad

IsLabels(ls, p) == Len(Line(ls, p)) = 3 /\ Line(ls, p)[1].s = "Output" /\ Line(ls, p)[2].s = "labels" /\ Line(ls, p)[3].t = "i"
RECURSIVE ReadFrom(_, _, _)
ReadFrom(ls, p, acc) ==
    \* one line before each part, whatever is on it
    IF p > Len(ls) THEN Bad
    ELSE IF IsLabels(ls, p+1) THEN
        LET n == Line(ls, p+1)[3].v
        IN  IF n < 0 \/ p + 1 + n > Len(ls) THEN Bad
            ELSE [ok |-> TRUE, p |-> p + 2 + n, m |-> [ls |-> acc, labels |-> [i \in 1..n |-> ls[p+1+i].raw]]]
    ELSE LET r == ReadLayer(ls, p+1)
         IN  IF ~r.ok THEN Bad ELSE ReadFrom(ls, r.p, TLCEval(Append(acc, r.L)))
\* the output layer stands at the end, with the labels
Parse(ls) == ReadFrom(ls, 1, <<>>)

\* number of lines that must be there for the model to be complete
NeededLines(ls) == Parse(ls).p - 1

-----------------------------------------------------------------------------
(* Names that layers get when they are added to a model *)
Prefix(k) == CASE k = "kernel" -> "Kernel_" [] k = "pool" -> "Pooling_" [] k = "fc" -> "FullyConnected_"
               [] k = "act" -> "Activation_"
LayerName(ls, i) == IF ls[i].k = "soft" THEN "SoftmaxOutput"
                    ELSE Prefix(ls[i].k) \o ToString(Cardinality({j \in 1..i : ls[j].k = ls[i].k}))
TypeOf(k) == CASE k = "kernel" -> "KERNEL" [] k = "pool" -> "POOLING" [] k = "fc" -> "FULLY_CONNECTED"
               [] k = "act" -> "ACTIVATION" [] OTHER -> "OUTPUT"
\* what can be seen of a layer from outside
Face(ls, i) == << TypeOf(ls[i].k), LayerName(ls, i) >>
=============================================================================
