------------------------------- MODULE Granne -------------------------------
(***************************************************************************)
(* The public API of granne as a state machine: builders that elements are *)
(* pushed to and that build prefixes, images saved from them, and indexes  *)
(* loaded from images (or taken from builders) that are searched and       *)
(* reordered.  Elements are numbers of rows of a distance table M.         *)
(*                                                                         *)
(* Each action takes the new state of the graph as an argument and states  *)
(* what is required of it; GranneGraph!BuildPartial is the exact outcome   *)
(* with one thread, the predicates below are what every build guarantees.  *)
(***************************************************************************)
EXTENDS GranneTies, TLC

VARIABLES M,      \* the distance table, and the distance below which elements are duplicates
          b,      \* the builder: [rows, cfg, layers], or NoBuilder
          saved,  \* name -> [rows, layers]: images of index and elements
          ix      \* name -> [rows, layers]: index objects

NoBuilder == [rows |-> << >>, cfg |-> << >>, layers |-> << >>, none |-> TRUE]
Put(f, k, v) == (k :> v) @@ f

(* the distance table of the elements themselves *)
ElementTable(rows) == [i \in 1..Len(rows) |-> [j \in 1..Len(rows) |-> M.D[rows[i] + 1][rows[j] + 1]]]
QueryRow(rows, q) == [i \in 1..Len(rows) |-> M.D[rows[i] + 1][q + 1]]

Sizes(layers) == [k \in 1..Len(layers) |-> Len(layers[k])]
IndexedLen(layers) == IF layers = << >> THEN 0 ELSE Len(Last(layers))

-----------------------------------------------------------------------------
(* Requirements on a build of the first n elements, taking old to new.       *)

\* C04: the prefix asked for, and nothing else
IndexesPrefix(old, n, new) == IF n = 0 THEN new = old ELSE IndexedLen(new) = n
\* C04: layers above the bottom one are never changed again
KeepsUpperLayers(old, new) ==
    /\ Len(new) >= Len(old)
    /\ \A k \in 1..(Len(old) - 1) : new[k] = old[k]
\* C04: layer sizes
PrescribedSizes(old, c, have, n, new) ==
    \E off \in LogOffsets(Max2(IF c.exp > 0 THEN c.exp ELSE have, have), c.num, c.den) :
        Sizes(new) = SizesAfter(c, have, Sizes(old), n, off)
\* C18: exactly the linking rule
FollowsRule(rows, c, old, n, new) ==
    \E off \in LogOffsets(Max2(IF c.exp > 0 THEN c.exp ELSE Len(rows), Len(rows)), c.num, c.den) :
        new = BuildPartial(ElementTable(rows), M.dup, c, Len(rows), old, n, off)
\* the same when distances may be equal
FollowsRuleAny(rows, c, old, n, new) ==
    \E off \in LogOffsets(Max2(IF c.exp > 0 THEN c.exp ELSE Len(rows), Len(rows)), c.num, c.den) :
        LET S == BuildPartialAny(ElementTable(rows), M.dup, c, Len(rows), old, n, off) IN S = {} \/ new \in S
\* C19: zero vectors are on their own (the first element is the entry to each layer)
ZeroIsolated(rows, new) ==
    \A k \in 1..Len(new) : \A i \in 1..Len(new[k]) :
       LET z == M.D[rows[i] + 1][rows[i] + 1] > M.dup
       IN  z => /\ (i # 1 => new[k][i] = {})
                /\ (i # 1 => \A j \in 1..Len(new[k]) : (i - 1) \notin new[k][j])

-----------------------------------------------------------------------------
(* Actions *)
NewBuilder(rows, cfg) == b' = [rows |-> rows, cfg |-> cfg, layers |-> << >>] /\ UNCHANGED <<M, saved, ix>>
PushRows(rows) == b' = [b EXCEPT !.rows = @ \o rows] /\ UNCHANGED <<M, saved, ix>>
Build(n, new) == b' = [b EXCEPT !.layers = new] /\ UNCHANGED <<M, saved, ix>>
Save(name, what) == saved' = Put(saved, name, [rows |-> what.rows, layers |-> what.layers]) /\ UNCHANGED <<M, b, ix>>
Resume(name, rows, cfg, new) ==
    /\ b' = [rows |-> saved[name].rows \o rows, cfg |-> cfg, layers |-> new]
    /\ UNCHANGED <<M, saved, ix>>
PutIndex(name, what) == ix' = Put(ix, name, [rows |-> what.rows, layers |-> what.layers]) /\ UNCHANGED <<M, b, saved>>

(* C07: order[i] is the old id of the element that is now element i *)
IsPermutation(order, n) == Len(order) = n /\ {order[i] : i \in 1..n} = 0..(n - 1)
RangesKept(order, layers) ==
    \A k \in 1..Len(layers) : \A i \in 1..Len(layers[k]) : order[i] < Len(layers[k])
Relabel(what, order) ==
    LET inv == [o \in 0..(Len(order) - 1) |-> (CHOOSE i \in 1..Len(order) : order[i] = o) - 1]
    IN  [rows |-> [i \in 1..Len(order) |-> what.rows[order[i] + 1]],
         layers |-> [k \in 1..Len(what.layers) |->
                       [i \in 1..Len(what.layers[k]) |-> {inv[x] : x \in what.layers[k][order[i] + 1]}]]]
KeysOrdered(order, layers, keys) ==
    LET start(k) == IF k = 1 THEN 0 ELSE Len(layers[k - 1])
    IN  \A k \in 1..Len(layers) : \A i \in (start(k) + 1)..(Len(layers[k]) - 1) :
            keys[order[i] + 1] <= keys[order[i + 1] + 1]

(* what a search answers: a sequence of <<id, distance>> *)
Answer(what, q, ms, k) ==
    LET r == SearchIndex(what.layers, QueryRow(what.rows, q), ms, k) IN [i \in 1..Len(r) |-> <<r[i][2], r[i][1]>>]
(* what holds of the answer whatever the ties and the graph are *)
AnswerSound(what, q, ms, k, res) ==
    /\ Len(res) <= Min2(k, ms)
    /\ \A i \in 1..Len(res) : /\ res[i][1] >= 0 /\ res[i][1] < IndexedLen(what.layers)
                              /\ res[i][2] = M.D[what.rows[res[i][1] + 1] + 1][q + 1]
    /\ \A i \in 1..(Len(res) - 1) : res[i][2] <= res[i + 1][2]
    /\ \A i, j \in 1..Len(res) : i # j => res[i][1] # res[j][1]
    /\ (what.layers # << >> /\ IndexedLen(what.layers) > 0 /\ ms > 0 /\ k > 0) => res # << >>
(* C06: everything reachable from the entry, nearest first *)
ReachAnswer(what, q, k) ==
    IF what.layers = << >> THEN << >>
    ELSE LET dq == QueryRow(what.rows, q)
             entry == Descend(Front(what.layers), dq, 0)
             r == SortPairs({<<dq[i + 1], i>> : i \in Reachable(Last(what.layers), entry)})
         IN  [i \in 1..Min2(k, Len(r)) |-> <<r[i][2], r[i][1]>>]
ExactAnswer(what, q, k) ==
    LET dq == QueryRow(what.rows, q)
        r == SortPairs({<<dq[i + 1], i>> : i \in 0..(IndexedLen(what.layers) - 1)})
    IN  [i \in 1..Min2(k, Len(r)) |-> <<r[i][2], r[i][1]>>]
=============================================================================
