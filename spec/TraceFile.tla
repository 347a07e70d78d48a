------------------------------ MODULE TraceFile -----------------------------
(***************************************************************************)
(* Models in memory and model files on disk: building, using, saving and   *)
(* loading models, files put there by someone else, and files cut off or   *)
(* damaged.  Also single matrices written to and read from a stream.       *)
(* Every event of a recorded run has to be a step of this specification.   *)
(*                                                                         *)
(* What is seen of a model is, per layer, its type, name, weights and      *)
(* biases (to six decimals), the filter count and stride of kernels, and   *)
(* the labels.  What is not seen (pool sizes, activation functions) shows  *)
(* in "same": two models that are equal here give the same answers.        *)
(***************************************************************************)
EXTENDS ModelFile, IOUtils, Json

Trace == ndJsonDeserialize(IOEnv.TRACE)
Match(what, want, got) == IF want = got THEN TRUE ELSE PrintT(<<"MISMATCH", what, "specified", want, "observed", got>>) /\ FALSE

VARIABLES models,     \* the models in memory
          disk,       \* file name -> [ok, m, need, tx, lines]
          l
vars == << models, disk, l >>

Pair(m) == << m.d, m.v >>
\* a layer as it is seen
Seen(ls, i) == << Face(ls, i)[1], Face(ls, i)[2], Pair(ls[i].w), Pair(ls[i].b),
                  IF ls[i].k = "kernel" THEN << ls[i].n, ls[i].s >> ELSE << 0, 0 >> >>
SeenModel(m) == [i \in 1..Len(m.ls) |-> Seen(m.ls, i)]
MatOf(p) == [d |-> p[1], v |-> p[2]]

\* Parameters that the case does not give are whatever the library chose, with the right shape
ShapeOk(L, w, b) ==
    CASE L.k = "kernel" -> w.d = << L.fd[1], L.fd[2], L.fd[3] * L.n >> /\ b.d = << L.n, 1, 1 >>
      [] L.k = "fc"     -> (w.d[1] = L.n \/ Len(w.v) = 0) /\ Len(w.v) = w.d[1] * w.d[2] * w.d[3] /\ b.d = << L.n, 1, 1 >>
      [] OTHER          -> Len(w.v) = 0 /\ Len(b.v) = 0
Adopt(L, s) == [L EXCEPT !.w = MatOf(s[3]), !.b = MatOf(s[4])]
AdoptAll(ls, seen) == TLCEval([i \in 1..Len(ls) |-> Adopt(ls[i], seen[i])])

\* New model, with the given parameters where the case gives them (field g)
Build(e) ==
    LET ls == e.ls
        new == [ls |-> AdoptAll(ls, e.r.seen), labels |-> e.labels]
    IN  /\ Match("layers", Len(ls), Len(e.r.seen))
        /\ \A i \in 1..Len(ls) :
              LET s == e.r.seen[i]
              IN  IF e.given[i] = 1
                  THEN Match(<<"layer", i>>, Seen(ls, i), s)
                  ELSE /\ Match(<<"shape of layer", i>>, TRUE, ShapeOk(ls[i], MatOf(s[3]), MatOf(s[4])))
                       /\ Match(<<"layer", i>>, Seen(new.ls, i), s)
        /\ Match("labels", e.labels, e.r.labels)
        /\ models' = Append(models, new)
        /\ UNCHANGED disk

\* Parameters after use or training are observed; the shape of those already there stays
Use(e) ==
    LET m == models[e.m + 1]
        new == [m EXCEPT !.ls = AdoptAll(m.ls, e.r.seen)]
    IN  /\ Match("layers", Len(m.ls), Len(e.r.seen))
        /\ \A i \in 1..Len(m.ls) :
              /\ Match(<<"layer", i>>, Seen(new.ls, i), e.r.seen[i])
              /\ (Len(m.ls[i].w.v) > 0 \/ m.ls[i].k # "fc") =>
                    Match(<<"shape", i>>, << m.ls[i].w.d, m.ls[i].b.d >>, << new.ls[i].w.d, new.ls[i].b.d >>)
              /\ (e.op = "use" /\ (Len(m.ls[i].w.v) > 0 \/ m.ls[i].k # "fc")) => Match(<<"parameters", i>>, m.ls[i], new.ls[i])
        /\ models' = [models EXCEPT ![e.m + 1] = new]
        /\ UNCHANGED disk

Save(e) ==
    /\ Match("saved", TRUE, e.r.ok)
    /\ "again" \in DOMAIN e => Match("saving the loaded model gives the same file", disk[e.again].tx, e.r.tx)
    /\ Match("model after saving", SeenModel(models[e.m + 1]), e.r.seen)
    /\ disk' = (e.f :> [ok |-> TRUE, m |-> models[e.m + 1], need |-> e.r.need, tx |-> e.r.tx, lines |-> <<>>]) @@ disk
    /\ UNCHANGED models

\* Files that cannot be written
SaveFails(e) ==
    /\ Match("saving where it is not possible", FALSE, e.r.ok)
    /\ UNCHANGED << models, disk >>

\* A file written by someone else, in the layout of the library
RECURSIVE Bytes(_, _)
Bytes(ls, n) == IF n = 0 THEN 0 ELSE Bytes(ls, n-1) + ls[n].n + 1
Put(e) ==
    LET p == Parse(e.lines)
    IN  /\ "ls" \in DOMAIN e =>         \* the case says what is in the file; the layout is that of Render
              Match("layout", Render([ls |-> e.ls, labels |-> e.labels]), [i \in 1..Len(e.lines) |-> e.lines[i].w])
        /\ "okay" \in DOMAIN e => Match("file of the specification", e.okay, p.ok)
        /\ disk' = (e.f :> [ok |-> p.ok, m |-> IF p.ok THEN p.m ELSE <<>>,
                            need |-> IF p.ok THEN Bytes(e.lines, p.p - 1) - 1 ELSE 0, tx |-> "", lines |-> e.lines]) @@ disk
        /\ UNCHANGED models

Load(e) ==
    LET there == e.f \in DOMAIN disk /\ disk[e.f].ok
    IN  /\ Match("loaded", there, e.r.ok)
        /\ IF there
           THEN /\ Match("loaded layers", SeenModel(disk[e.f].m), e.r.seen)
                /\ Match("loaded labels", disk[e.f].m.labels, e.r.labels)
                /\ models' = Append(models, disk[e.f].m)
           ELSE models' = Append(models, [ls |-> <<>>, labels |-> <<>>])
        /\ UNCHANGED disk

\* The file cut off after k bytes, for the k of the case: loaded[k] says what loadModel returned
Cuts(e) ==
    LET need == disk[e.f].need
    IN  /\ Match("bytes needed", TRUE, need > 0)
        /\ \A i \in 1..Len(e.r.ks) :
              LET k == e.r.ks[i]
              IN  IF k = need THEN TRUE           \* only the line break after the last label is missing
                  ELSE Match(<<"cut after byte", k, "of", need>>, k > need, e.r.oks[i])
        /\ UNCHANGED << models, disk >>

\* Damaged texts: whatever can still be read as a model may be loaded, nothing else
Damage(e) ==
    /\ \A i \in 1..Len(e.texts) :
          IF e.r.oks[i] = FALSE \/ "any" \in DOMAIN e          \* any: only that it does not crash
          THEN TRUE
          ELSE LET t  == e.texts[i]
                   ls == disk[e.f].lines
               IN  Match(<<"damaged file loaded", t.why>>, TRUE,
                       Parse(TLCEval(SubSeq(ls, 1, t.at - 1) \o t.lines \o SubSeq(ls, t.at + 1, Len(ls)))).ok)
    /\ UNCHANGED << models, disk >>

\* Two models that are equal give the same answers
Same(e) ==
    /\ Match("models to compare", models[e.a + 1], models[e.b + 1])
    /\ Match("answers", e.r.ra, e.r.rb)
    /\ UNCHANGED << models, disk >>

\* Two models that are equal give the same successes, parameters and answers when they are
\* trained alike (and are equal again)
Twins(e) ==
    LET m == models[e.a + 1]
        new == [m EXCEPT !.ls = AdoptAll(m.ls, e.r.seen)]
    IN  /\ Match("models to compare", models[e.a + 1], models[e.b + 1])
        /\ Match("training", e.r.ra, e.r.rb)
        /\ \A i \in 1..Len(m.ls) : Match(<<"shape", i>>, << m.ls[i].w.d, m.ls[i].b.d >>, << new.ls[i].w.d, new.ls[i].b.d >>)
        /\ models' = [models EXCEPT ![e.a + 1] = new, ![e.b + 1] = new]
        /\ UNCHANGED disk

-----------------------------------------------------------------------------
(* Matrices in a stream *)

\* written one after the other with a word after each, read back into other matrices
Stream(e) ==
    /\ \A i \in 1..Len(e.ms) :
          /\ Match(<<"written matrix", i>>, << e.ms[i].d, e.ms[i].v >>, e.r.orig[i])
          /\ Match(<<"read", i>>, TRUE, e.r.oks[i])
          /\ Match(<<"read matrix", i>>, e.r.orig[i], e.r.back[i])
          /\ Match(<<"what follows matrix", i>>, e.ms[i].word, e.r.words[i])
    /\ Match("number format", << "1.23457e+06", "0.1", "1e-07" >>, e.r.fmt)
    /\ UNCHANGED << models, disk >>

\* a text is read iff it starts with a matrix
ReadText(e) ==
    /\ LET m == ReadMat(e.lines, 1)
       IN  /\ Match("read", m.ok, e.r.ok)
           /\ m.ok => Match("matrix", << m.m.d, [i \in 1..Len(m.m.v) |-> m.m.v[i]] >>, e.r.back)
    /\ UNCHANGED << models, disk >>

-----------------------------------------------------------------------------
Act(e) ==
    CASE e.op = "reset"    -> models' = <<>> /\ disk' = <<>>
      [] e.op = "build"    -> Build(e)
      [] e.op \in {"use", "train"} -> Use(e)
      [] e.op = "save"     -> Save(e)
      [] e.op = "savefail" -> SaveFails(e)
      [] e.op = "put"      -> Put(e)
      [] e.op = "load"     -> Load(e)
      [] e.op = "cuts"     -> Cuts(e)
      [] e.op = "damage"   -> Damage(e)
      [] e.op = "same"     -> Same(e)
      [] e.op = "twins"    -> Twins(e)
      [] e.op = "stream"   -> Stream(e)
      [] e.op = "readtext" -> ReadText(e)
      [] OTHER -> FALSE
Fine(e) == "out" \in DOMAIN e.r => Match("outcome", "ok", e.r.out)
TraceInit == models = <<>> /\ disk = <<>> /\ l = 1
TraceNext == /\ l <= Len(Trace)
             /\ l' = l + 1
             /\ LET e == Trace[l] IN "r" \in DOMAIN e /\ Fine(e) /\ Act(e)
TraceSpec == TraceInit /\ [][TraceNext]_vars
Accepted == TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
