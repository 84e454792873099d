------------------------------ MODULE MCGranne -------------------------------
(***************************************************************************)
(* Granne as a model to be explored exhaustively: every history of calls    *)
(* over small collections, with the exact linking rule.  One line of the    *)
(* input is one collection and configuration:                               *)
(*   [D |-> table, dup |-> .., n |-> elements (other rows are queries),      *)
(*    cfg |-> .., exact |-> BOOLEAN].                                        *)
(* Of builder, image and index object one is live at a time.  The           *)
(* invariants are the requirements that the trace specifications enforce on *)
(* the code, so that what is demanded of the code is known to follow from   *)
(* the algorithm.                                                           *)
(***************************************************************************)
EXTENDS Granne, Json, IOUtils

In == ndJsonDeserialize(IOEnv.MODEL)
VARIABLES c,        \* the line of the input
          clean,    \* every build ended at a layer boundary (or at the end)
          ord       \* the reordering that was done
mvars == <<M, b, saved, ix, c, clean, ord>>
N == In[c].n
Conf == In[c].cfg
Range0(lo, hi) == [i \in 1..(hi - lo) |-> lo + i - 1]
Live(f, k) == k \in DOMAIN f
None == "-" :> << >>

Init == /\ c \in 1..Len(In)
        /\ M = [D |-> In[c].D, dup |-> In[c].dup, desc |-> << >>]
        /\ b = NoBuilder /\ saved = None /\ ix = None /\ clean = TRUE /\ ord = << >>
Fresh == b = NoBuilder /\ DOMAIN saved = {"-"} /\ DOMAIN ix = {"-"}
HasBuilder == b # NoBuilder

New == /\ Fresh
       /\ \E k \in 0..N : b' = [rows |-> Range0(0, k), cfg |-> Conf, layers |-> << >>]
       /\ UNCHANGED <<M, saved, ix, c, clean, ord>>
Push == /\ HasBuilder
        /\ \E k \in (Len(b.rows) + 1)..N : b' = [b EXCEPT !.rows = @ \o Range0(Len(@), k)]
        \* a layer that was final may now have to grow
        /\ clean' = (clean /\ (b.layers = << >> \/ Conf.exp >= N))
        /\ UNCHANGED <<M, saved, ix, c, ord>>

Boundaries(layers) == {Len(layers[k]) : k \in 1..Len(layers)}
BuildStep ==
    /\ HasBuilder
    /\ \E n \in IndexedLen(b.layers)..Len(b.rows) :
        LET new == BuildPartial(ElementTable(b.rows), M.dup, Conf, Len(b.rows), b.layers, n, 0)
            full == [k \in 1..12 |-> IdealSize(Conf, Len(b.rows), k - 1, 0)]
        IN  /\ n > IndexedLen(b.layers)
            /\ b' = [b EXCEPT !.layers = new]
            /\ clean' = (clean /\ n \in {full[k] : k \in 1..Len(full)})
            /\ Assert(IndexesPrefix(b.layers, n, new), <<"prefix", c, b, n, new>>)
            /\ Assert(KeepsUpperLayers(b.layers, new), <<"upper layers", c, b, n, new>>)
            /\ Assert(PrescribedSizes(b.layers, Conf, Len(b.rows), n, new), <<"sizes", c, b, n, new>>)
    /\ UNCHANGED <<M, saved, ix, c, ord>>
\* building again what is built: upper layers stay
Again == /\ HasBuilder /\ b.layers # << >>
         /\ LET n == IndexedLen(b.layers)
                new == BuildPartial(ElementTable(b.rows), M.dup, Conf, Len(b.rows), b.layers, n, 0)
            IN  Assert(Sizes(new) = Sizes(b.layers) /\ KeepsUpperLayers(b.layers, new), <<"again", c, b, new>>)
         /\ UNCHANGED mvars
SaveB == /\ HasBuilder
         /\ saved' = Put(None, "s", [rows |-> b.rows, layers |-> b.layers]) /\ b' = NoBuilder
         /\ UNCHANGED <<M, ix, c, clean, ord>>
ResumeB == /\ Live(saved, "s")
           /\ b' = [rows |-> saved["s"].rows, cfg |-> Conf, layers |-> saved["s"].layers] /\ saved' = None
           /\ UNCHANGED <<M, ix, c, clean, ord>>
Load == /\ Live(saved, "s") /\ ix' = Put(None, "i", saved["s"]) /\ saved' = None
        /\ UNCHANGED <<M, b, c, clean, ord>>
Perms == {f \in [1..Len(ix["i"].rows) -> 0..(Len(ix["i"].rows) - 1)] : IsPermutation(f, Len(f))}
Reorder == /\ Live(ix, "i") /\ ~Live(ix, "r")
           /\ \E order \in {f \in Perms : RangesKept(f, ix["i"].layers)} :
                 ix' = Put(ix, "r", Relabel(ix["i"], order)) /\ ord' = order
           /\ UNCHANGED <<M, b, saved, c, clean>>
Next == New \/ Push \/ BuildStep \/ Again \/ SaveB \/ ResumeB \/ Load \/ Reorder
Spec == Init /\ [][Next]_mvars
-----------------------------------------------------------------------------
Objects == (IF HasBuilder THEN {b} ELSE {}) \cup {ix[k] : k \in DOMAIN ix \ {"-"}}
Fine(layers) ==
    /\ Nested(layers)
    /\ \A k \in 1..Len(layers) : \A i \in 1..Len(layers[k]) :
          LET s == layers[k][i] IN Cardinality(s) <= Conf.nn /\ s \subseteq 0..(Len(layers[k]) - 1) /\ (i - 1) \notin s
InvC03 == \A o \in Objects : Fine(o.layers)
InvC04 == \A o \in Objects : IndexedLen(o.layers) <= Len(o.rows)
Queries == 0..(Len(M.D) - 1)
InvC05 == \A o \in Objects : \A q \in Queries : \A ms \in 0..(N + 1) :
             LET all == Answer(o, q, ms, N + 1)
             IN  /\ AnswerSound(o, q, ms, N + 1, all)
                 \* fewer answers are the nearest of them
                 /\ \A k \in 0..N : Answer(o, q, ms, k) = SubSeq(all, 1, Min2(k, Len(all)))
InvC06 == \A o \in Objects : o.layers # << >> => \A q \in Queries :
             LET n == IndexedLen(o.layers)
                 r == Answer(o, q, n, n)
             IN  /\ r = ReachAnswer(o, q, n)
                 /\ Answer(o, q, n + 3, n) = r
                 /\ In[c].exact => r = ExactAnswer(o, q, n)
InvC07 == Live(ix, "r") =>
             LET o == ix["i"]
                 r == ix["r"]
                 old(x) == ord[x + 1]
             IN  /\ Sizes(r.layers) = Sizes(o.layers)
                 /\ (ord = << >> \/ ord[1] = 0) =>
                       \A q \in Queries : \A ms \in 1..(N + 1) :
                          LET a == Answer(r, q, ms, N)
                          IN  [i \in 1..Len(a) |-> <<old(a[i][1]), a[i][2]>>] = Answer(o, q, ms, N)
\* building in steps that end at layer boundaries is building in one go
InvC18 == (HasBuilder /\ clean /\ b.layers # << >>) =>
             b.layers = BuildPartial(ElementTable(b.rows), M.dup, Conf, Len(b.rows), << >>, IndexedLen(b.layers), 0)
\* (a reordering may move the first element, whose links are the entry to the layers)
InvC19 == \A o \in (IF Live(ix, "r") THEN {} ELSE Objects) : ZeroIsolated(o.rows, o.layers)
=============================================================================
