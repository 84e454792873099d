---------------------------- MODULE GranneGraph ----------------------------
(***************************************************************************)
(* The data that granne's index consists of, and the pure operations on    *)
(* it: best-first search, selection of neighbours, linking of one element, *)
(* building of a layer, the layer sizes.                                   *)
(*                                                                         *)
(* Element ids start at 0.  A layer is a sequence of neighbour SETS, the   *)
(* neighbours of id being layer[id+1].  (The implementation keeps lists;   *)
(* their order can only matter between equal distances, and the exact      *)
(* specification is only compared on inputs without ties.)                 *)
(* A distance table D is a sequence of rows: D[i+1][j+1] is the distance   *)
(* between elements i and j, as an integer whose order is that of the      *)
(* distances.  `dup' is the distance under which two elements count as     *)
(* duplicates.                                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* TLC enumerates a set of equally long integer tuples in increasing order, *)
(* so that the first candidate already is the minimum.                      *)
Before(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
MinPair(S) == CHOOSE x \in S : \A y \in S : Before(x, y)
MaxPair(S) == CHOOSE x \in S : \A y \in S : Before(y, x)

(* sorted by distance, then id.  (What SetToSeq gives usually is sorted     *)
(* already; deep recursions are slow with TLC.)                             *)
RECURSIVE SortByMin(_)
SortByMin(S) == IF S = {} THEN << >> ELSE LET m == MinPair(S) IN <<m>> \o SortByMin(S \ {m})
SortPairs(S) ==
    LET q == SetToSeq(S)
    IN  IF \A i \in 1..(Len(q) - 1) : Before(q[i], q[i + 1]) THEN q ELSE SortByMin(S)

-----------------------------------------------------------------------------
(* Best-first search.  dq[i+1] is the distance of element i to the query.   *)
(* The result is the set of the best pairs <<distance, id>> found.          *)
(* One step takes the closest open node: the search is over when it is too  *)
(* far away, otherwise it is kept, and its unseen neighbours are opened.    *)
Visit(layer, dq, ms, x) ==
    IF x.open = {} THEN [x EXCEPT !.done = TRUE]
    ELSE LET c == MinPair(x.open)
             full == Cardinality(x.kept) >= ms
         IN  IF full /\ c[1] > MaxPair(x.kept)[1] THEN [x EXCEPT !.done = TRUE]
             ELSE LET kept1 == IF ~full THEN x.kept \cup {c}
                               ELSE LET w == MaxPair(x.kept)
                                    IN  IF Before(c, w) /\ c # w THEN (x.kept \ {w}) \cup {c} ELSE x.kept
                      full1 == Cardinality(kept1) >= ms
                      bound == IF full1 THEN MaxPair(kept1)[1] ELSE 0
                      new == layer[c[2] + 1] \ x.seen
                      more == {<<dq[n + 1], n>> : n \in {k \in new : ~full1 \/ dq[k + 1] < bound}}
                  IN  [open |-> (x.open \ {c}) \cup more, kept |-> kept1, seen |-> x.seen \cup new, done |-> FALSE]
Some == [i \in 1..100 |-> i]
RECURSIVE BestFirst(_, _, _, _)
BestFirst(layer, dq, ms, x) ==
    LET y == FoldLeft(LAMBDA z, i : IF z.done THEN z ELSE Visit(layer, dq, ms, z), x, Some)
    IN  IF y.done THEN y.kept ELSE BestFirst(layer, dq, ms, y)

SearchLayer(layer, dq, entry, ms) ==
    IF ms = 0 THEN {}
    ELSE BestFirst(layer, dq, ms, [open |-> {<<dq[entry + 1], entry>>}, kept |-> {}, seen |-> {entry}, done |-> FALSE])

(* one closest node per layer, starting at element 0 *)
RECURSIVE Descend(_, _, _)
Descend(layers, dq, entry) ==
    IF layers = << >> THEN entry
    ELSE Descend(Tail(layers), dq, MinPair(SearchLayer(Head(layers), dq, entry, 1))[2])

(* an index without layers, or whose last layer has no nodes, answers nothing *)
SearchIndex(layers, dq, ms, k) ==
    IF layers = << >> \/ Last(layers) = << >> THEN << >>
    ELSE LET entry == Descend(Front(layers), dq, 0)
             all == SortPairs(SearchLayer(Last(layers), dq, entry, ms))
         IN  SubSeq(all, 1, Min2(k, Len(all)))

(* everything reachable from entry *)
RECURSIVE Closure(_, _, _)
Closure(layer, S, frontier) ==
    IF frontier = {} THEN S
    ELSE LET nx == UNION {layer[i + 1] : i \in frontier} \ S
             all == S \cup nx
         IN  IF Cardinality(all) = Cardinality(S) THEN S ELSE Closure(layer, all, nx) \* (TLC sorts sets that it counts)
Reachable(layer, entry) == Closure(layer, {entry}, {entry})

-----------------------------------------------------------------------------
(* Selection: all candidates if they fit, otherwise in order of distance    *)
(* those that are not closer to an already chosen one than to the element.  *)
RECURSIVE Thin(_, _, _, _)
Thin(D, cands, chosen, max) ==
    IF cands = {} \/ Cardinality(chosen) >= max THEN chosen
    ELSE LET c == MinPair(cands)
             ok == \A n \in chosen : c[1] <= D[n[2] + 1][c[2] + 1]
         IN  Thin(D, cands \ {c}, IF ok THEN chosen \cup {c} ELSE chosen, max)
Select(D, cands, max) == IF Cardinality(cands) <= max THEN cands ELSE Thin(D, cands, {}, max)

Pairs(D, i, S) == {<<D[i + 1][x + 1], x>> : x \in S}
Ids(P) == {p[2] : p \in P}

(* neighbours of i after adding j, when at most width fit *)
Connect(D, nbs, i, j, width) ==
    IF i = j \/ j \in nbs THEN nbs
    ELSE IF Cardinality(nbs) < width THEN nbs \cup {j}
    ELSE Ids(Select(D, Pairs(D, i, nbs \cup {j}), width))

(* connecting i to each of js, one after the other (nearest first) *)
RECURSIVE ConnectAll(_, _, _, _, _)
ConnectAll(D, nbs, i, js, width) ==
    IF js = << >> THEN nbs
    ELSE ConnectAll(D, Connect(D, nbs, i, Head(js)[2], width), i, Tail(js), width)

IsZero(D, dup, i) == D[i + 1][i + 1] > dup

(* is the element left out because it coincides with too many neighbours?   *)
TooManyDuplicates(chosen, dup, limit) ==
    LET s == SortPairs(chosen) IN Len(s) > limit \div 2 /\ s[limit \div 2 + 1][1] < dup

(* the elements idx is to be linked with, or {} *)
ChooseNeighbours(D, dup, prev, layer, idx, limit, ms) ==
    LET dq == D[idx + 1]
        entry == IF prev = << >> THEN 0
                 ELSE LET r == SearchIndex(prev, dq, 1, 1) IN IF r = << >> THEN 0 ELSE r[1][2]
        found == {p \in SearchLayer(layer, dq, entry, ms) : p[2] # idx}
    IN  Select(D, found, limit)

(* Linking of one element: with one thread.                                 *)
InsertElement(D, dup, prev, layer, idx, limit, ms, width) ==
    IF IsZero(D, dup, idx) THEN layer
    ELSE LET chosen == ChooseNeighbours(D, dup, prev, layer, idx, limit, ms)
         IN  IF TooManyDuplicates(chosen, dup, limit) THEN layer
             ELSE LET own == IF layer[idx + 1] = {} THEN Ids(chosen)
                             ELSE ConnectAll(D, layer[idx + 1], idx, SortPairs(chosen), width)
                      back == Ids(chosen)
                  IN  FoldLeft(LAMBDA g, j : [g EXCEPT ![j + 1] = Connect(D, @, j, idx, width)],
                               [layer EXCEPT ![idx + 1] = own], SetToSeq(back))

LimitAll(D, layer, limit) ==
    TLCEval([k \in 1..Len(layer) |-> Ids(Select(D, Pairs(D, k - 1, layer[k]), limit))])

(* one after the other *)
InsertRange(D, dup, prev, layer, from, to, step, limit, ms, width) ==
    LET count == Max2(0, (to - from) * step + 1)       \* step is 1 or -1
    IN  FoldLeft(LAMBDA g, i : InsertElement(D, dup, prev, g, i, limit, ms, width),
                 layer, [k \in 1..count |-> from + (k - 1) * step])

(* Building one layer up to n nodes. *)
GrowLayer(D, dup, prev, layer, n, limit, ms, reinsert, width) ==
    LET grown == TLCEval(layer \o [k \in 1..(n - Len(layer)) |-> {}])
        l1 == LimitAll(D, InsertRange(D, dup, prev, grown, Len(layer), n - 1, 1, limit, ms, width), limit)
        l2 == LimitAll(D, InsertRange(D, dup, prev, l1, n - 1, 0, -1, limit, Max2(1, ms \div 2), width), limit)
    IN  IF reinsert THEN l2 ELSE l1

-----------------------------------------------------------------------------
(* Layer sizes: total / m^(L - k) rounded up, where m = num/den > 1 and L is *)
(* the logarithm of the total, rounded down.  When the total is an exact     *)
(* power of m the logarithm is within rounding of an integer and may be      *)
(* taken to be one less: off is 0 or 1.                                      *)
RECURSIVE Pow(_, _)
Pow(b, e) == IF e = 0 THEN 1 ELSE b * Pow(b, e - 1)
FloorLog(total, num, den) ==
    LET Fits(e) == Pow(num, e) <= total * Pow(den, e)
    IN  CHOOSE e \in 0..30 : Fits(e) /\ ~Fits(e + 1)
CeilDiv(a, b) == (a + b - 1) \div b
LayerSize(total, num, den, k, off) ==
    IF total = 0 THEN 0
    ELSE LET e == FloorLog(total, num, den) - off - k
         IN  IF e <= 0 THEN total ELSE Min2(total, CeilDiv(total * Pow(den, e), Pow(num, e)))
ExactPower(total, num, den) ==
    total > 1 /\ LET e == FloorLog(total, num, den) IN Pow(num, e) = total * Pow(den, e)
LogOffsets(total, num, den) == IF ExactPower(total, num, den) THEN {0, 1} ELSE {0}

(* c is a record with fields nn, ms, num, den, exp (0: not given), reinsert  *)
IdealSize(c, have, k, off) == LayerSize(Max2(IF c.exp > 0 THEN c.exp ELSE have, have), c.num, c.den, k, off)
Total(c, have) == IF c.exp > 0 THEN c.exp ELSE have

IndexLast(D, dup, c, have, layers, n, off) ==
    LET ideal == IdealSize(c, have, Len(layers) - 1, off)
        last == Last(layers)
        limit == IF ideal < Total(c, have) THEN Max2(1, c.nn \div 2) ELSE c.nn
    IN  IF ideal <= Len(last) THEN layers
        ELSE Append(Front(layers),
                    GrowLayer(D, dup, Front(layers), last, Min2(n, ideal), limit, c.ms, c.reinsert, c.nn))

RECURSIVE AddLayers(_, _, _, _, _, _, _)
AddLayers(D, dup, c, have, layers, n, off) ==
    IF layers # << >> /\ Len(Last(layers)) >= n THEN layers
    ELSE LET next == Append(layers, IF layers = << >> THEN << >> ELSE Last(layers))
         IN  AddLayers(D, dup, c, have, IndexLast(D, dup, c, have, next, n, off), n, off)

(* build_partial(n) on a builder with `have' elements *)
BuildPartial(D, dup, c, have, layers, n, off) ==
    IF n = 0 THEN layers
    ELSE LET l1 == IF layers = << >> THEN layers ELSE IndexLast(D, dup, c, have, layers, n, off)
         IN  AddLayers(D, dup, c, have, l1, n, off)

-----------------------------------------------------------------------------
(* the sizes alone *)
RECURSIVE SizesAfter(_, _, _, _, _)
SizesAfter(c, have, sizes, n, off) ==
    LET grow(s) == LET ideal == IdealSize(c, have, Len(s) - 1, off)
                   IN  IF ideal <= Last(s) THEN s ELSE Append(Front(s), Min2(n, ideal))
        RECURSIVE add(_)
        add(s) == IF s # << >> /\ Last(s) >= n THEN s
                  ELSE add(grow(Append(s, IF s = << >> THEN 0 ELSE Last(s))))
    IN  IF n = 0 THEN sizes ELSE add(IF sizes = << >> THEN sizes ELSE grow(sizes))

(* C03 *)
LayerWellFormed(lists, maxn) ==      \* lists: sequences, as observed
    \A k \in 1..Len(lists) :
       LET s == lists[k]
       IN  /\ Len(s) <= maxn
           /\ \A x \in 1..Len(s) : s[x] >= 0 /\ s[x] < Len(lists) /\ s[x] # k - 1
           /\ \A x, y \in 1..Len(s) : x # y => s[x] # s[y]
Nested(layers) == \A k \in 1..(Len(layers) - 1) : Len(layers[k]) <= Len(layers[k + 1])
WellFormed(layers, maxn) == Nested(layers) /\ \A k \in 1..Len(layers) : LayerWellFormed(layers[k], maxn)

SetsOf(layers) == [k \in 1..Len(layers) |-> [i \in 1..Len(layers[k]) |-> ToSet(layers[k][i])]]
=============================================================================
