----------------------------- MODULE GranneTies -----------------------------
(***************************************************************************)
(* The linking rule when several distances are equal.  The answers of a    *)
(* search are still determined (equals are ordered by id), but a list that *)
(* overflows is sorted by distance only: which of several equally distant  *)
(* candidates comes first is left open.  The operators are those of        *)
(* GranneGraph (any suffix) with SETS of possible results.  `Cap' bounds   *)
(* the sets; beyond it the result is {} which stands for "anything".       *)
(***************************************************************************)
EXTENDS GranneGraph

Cap == 150
Bounded(S) == IF Cardinality(S) > Cap THEN {} ELSE S
(* the union of F(x), for x in S, or {} when one of them is {} or it has too many elements *)
UnionUpTo(S, F(_)) ==
    LET add(acc, x) == IF acc.over THEN acc
                       ELSE LET part == F(x)
                                u == acc.s \cup part
                            IN  IF part = {} THEN [s |-> {}, over |-> TRUE]
                                ELSE IF Cardinality(u) > Cap THEN [s |-> {}, over |-> TRUE] ELSE [s |-> u, over |-> FALSE]
    IN  FoldLeft(add, [s |-> {}, over |-> FALSE], SetToSeq(S)).s

(* S: pairs <<candidates left, chosen>>; any of the nearest candidates is next *)
RECURSIVE ThinSet(_, _, _)
ThinSet(D, S, max) ==
    LET over == {x \in S : x[1] = {} \/ Cardinality(x[2]) >= max}
        next(x) == LET d == MinPair(x[1])[1]
                   IN  {<<x[1] \ {c}, IF \A n \in x[2] : c[1] <= D[n[2] + 1][c[2] + 1] THEN x[2] \cup {c} ELSE x[2]>> :
                            c \in {y \in x[1] : y[1] = d}}
        more == UNION {next(x) : x \in S \ over}
    IN  {x[2] : x \in over} \cup (IF Cardinality(more) = 0 THEN {} ELSE ThinSet(D, more, max))
ThinAny(D, cands, chosen, max) == ThinSet(D, {<<cands, chosen>>}, max)
SelectAny(D, cands, max) == IF Cardinality(cands) <= max THEN {cands} ELSE ThinAny(D, cands, {}, max)

ConnectAny(D, nbs, i, j, width) ==
    IF i = j \/ j \in nbs THEN {nbs}
    ELSE IF Cardinality(nbs) < width THEN {nbs \cup {j}}
    ELSE {Ids(r) : r \in SelectAny(D, Pairs(D, i, nbs \cup {j}), width)}

RECURSIVE ConnectAllAny(_, _, _, _, _)
ConnectAllAny(D, S, i, js, width) ==
    IF js = << >> THEN S
    ELSE ConnectAllAny(D, UNION {ConnectAny(D, nbs, i, Head(js)[2], width) : nbs \in S}, i, Tail(js), width)

(* one node after the other gets one of its possible lists, opts[k] *)
RECURSIVE Product(_, _, _)
Product(S, nodes, opts) ==
    IF nodes = << >> \/ S = {} THEN S
    ELSE LET k == Head(nodes)
         IN  Product(Bounded({[p[1] EXCEPT ![k] = p[2]] : p \in S \X opts[k]}), Tail(nodes), opts)

InsertAny(D, dup, prev, S, idx, limit, ms, width) ==
    LET one(layer) ==
          LET chosen == ChooseNeighbours(D, dup, prev, layer, idx, limit, ms)
              js == SortPairs(chosen)
              opts == [k \in {idx + 1} \cup {js[i][2] + 1 : i \in 1..Len(js)} |->
                            IF k = idx + 1
                            THEN IF layer[k] = {} THEN {Ids(chosen)} ELSE ConnectAllAny(D, {layer[k]}, idx, js, width)
                            ELSE ConnectAny(D, layer[k], k - 1, idx, width)]
          IN  IF TooManyDuplicates(chosen, dup, limit) THEN {layer}
              ELSE Product({layer}, <<idx + 1>> \o [k \in 1..Len(js) |-> js[k][2] + 1], opts)
    IN  IF IsZero(D, dup, idx) THEN S ELSE UnionUpTo(S, one)

LimitAllAny(D, S, limit) ==
    LET opts(L) == [k \in 1..Len(L) |-> {Ids(r) : r \in SelectAny(D, Pairs(D, k - 1, L[k]), limit)}]
        one(L) == Product({L}, [k \in 1..Len(L) |-> k], opts(L))
    IN  UnionUpTo(S, one)

RECURSIVE InsertRangeAny(_, _, _, _, _, _, _, _, _, _)
InsertRangeAny(D, dup, prev, S, from, to, step, limit, ms, width) ==
    IF S = {} \/ (step > 0 /\ from > to) \/ (step < 0 /\ from < to) THEN S
    ELSE InsertRangeAny(D, dup, prev, InsertAny(D, dup, prev, S, from, limit, ms, width),
                        from + step, to, step, limit, ms, width)

GrowLayerAny(D, dup, prev, layer, n, limit, ms, reinsert, width) ==
    LET grown == layer \o [k \in 1..(n - Len(layer)) |-> {}]
        l1 == LimitAllAny(D, InsertRangeAny(D, dup, prev, {grown}, Len(layer), n - 1, 1, limit, ms, width), limit)
    IN  IF reinsert
        THEN LimitAllAny(D, InsertRangeAny(D, dup, prev, l1, n - 1, 0, -1, limit, Max2(1, ms \div 2), width), limit)
        ELSE l1

IndexLastAny(D, dup, c, have, layers, n, off) ==
    LET ideal == IdealSize(c, have, Len(layers) - 1, off)
        last == Last(layers)
        limit == IF ideal < Total(c, have) THEN Max2(1, c.nn \div 2) ELSE c.nn
    IN  IF ideal <= Len(last) THEN {layers}
        ELSE {Append(Front(layers), x) : x \in
                GrowLayerAny(D, dup, Front(layers), last, Min2(n, ideal), limit, c.ms, c.reinsert, c.nn)}

RECURSIVE AddLayersAny(_, _, _, _, _, _, _)
AddLayersAny(D, dup, c, have, S, n, off) ==
    IF S = {} \/ \A layers \in S : layers # << >> /\ Len(Last(layers)) >= n THEN S
    ELSE LET next(layers) == Append(layers, IF layers = << >> THEN << >> ELSE Last(layers))
             one(layers) == IndexLastAny(D, dup, c, have, next(layers), n, off)
         IN  AddLayersAny(D, dup, c, have, UnionUpTo(S, one), n, off)

(* the possible outcomes of build_partial(n); {}: too many to tell.  All possibilities have the same layer sizes. *)
BuildPartialAny(D, dup, c, have, layers, n, off) ==
    IF n = 0 THEN {layers}
    ELSE LET l1 == IF layers = << >> THEN {layers} ELSE IndexLastAny(D, dup, c, have, layers, n, off)
         IN  AddLayersAny(D, dup, c, have, l1, n, off)
=============================================================================
