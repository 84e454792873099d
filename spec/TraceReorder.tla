---------------------------- MODULE TraceReorder -----------------------------
(***************************************************************************)
(* Reorderings of indexes with many nodes (C07): relabelling stated without *)
(* computing the relabelled graph.  Elements are given by a hash of their   *)
(* contents.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Json, IOUtils
CONSTANT PROP
File == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
Ev == File[s].events
E == Ev[l]
Has(e, f) == f \in DOMAIN e
Reject(what) == PrintT("REJECT " \o ToJson(<<File[s].sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)

Permutation(order, n) == Len(order) = n /\ {order[i] : i \in 1..n} = 0..(n - 1)
(* the first node that breaks P, or 0 *)
Bad(n, P(_)) == LET B == {i \in 1..n : ~P(i)} IN IF B = {} THEN 0 ELSE CHOOSE i \in B : TRUE
Wrong(n, P(_), what) == LET i == Bad(n, P) IN i = 0 \/ Reject(<<what, i - 1>>)

Reordered(old, new, before, after, order) ==
    LET n == Len(before)
        start(k) == IF k = 1 THEN 0 ELSE Len(old[k - 1])
    IN  /\ Req(Len(after) = n, "number of elements")
        /\ Req(Permutation(order, n), "not a permutation")
        /\ Req(Len(new) = Len(old) /\ \A k \in 1..Len(old) : Len(new[k]) = Len(old[k]), "layer sizes")
        /\ Wrong(n, LAMBDA i : after[i] = before[order[i] + 1], "element")
        /\ \A k \in 1..Len(old) :
              /\ Wrong(Len(old[k]), LAMBDA i : order[i] < Len(old[k]), "left its range")
              /\ Wrong(Len(old[k]), LAMBDA i : /\ Len(new[k][i]) = Len(old[k][order[i] + 1])
                                              /\ {order[x + 1] : x \in ToSet(new[k][i])} = ToSet(old[k][order[i] + 1]),
                        <<"neighbours in layer", k>>)
        /\ Has(E, "keys") => \A k \in 1..Len(old) :
              Req(\A i \in (start(k) + 1)..(Len(old[k]) - 1) : E.keys[order[i] + 1] <= E.keys[order[i + 1] + 1], "not in key order")

Init == s \in 1..Len(File) /\ l = 1
Step == /\ l <= Len(Ev)
        /\ Req(~(Has(E, "panic") /\ E.panic), "panic")
        /\ (E.ev = "bigreorder" => Reordered(E.old, E.new, E.before, E.after, E.order))
        /\ l' = l + 1 /\ s' = s
        /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(File[s].sc)))
View == <<s, l>>
TraceSpec == Init /\ [][Step]_<<s, l>>
=============================================================================
