----------------------------- MODULE HnswBuild -----------------------------
(***************************************************************************)
(* A multi-threaded build at the granularity of the locks of the neighbour *)
(* lists: every read of a list during a search and every change of a list  *)
(* is one step; up to T elements are being linked at the same time, in any *)
(* order.  (The thread pool hands out elements in a more regular order, so *)
(* that every real outcome is an outcome here.)                            *)
(*                                                                         *)
(* The file gives scenarios [sc, D, dup, n, T, cfg, observed], observed    *)
(* being the graphs real builds produced.  A terminal state that equals    *)
(* observed graph k prints ACCEPT <<sc, k>>; all of them have to be met.   *)
(*                                                                         *)
(* VARIANT "none" is the code; "overwrite": a list that is still empty     *)
(* when its element looks is later overwritten; "lostread": a list is read *)
(* and written back in two steps.                                          *)
(***************************************************************************)
EXTENDS GranneGraph, TLC, Json, IOUtils

CONSTANT VARIANT
File == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s,
          done,    \* finished layers
          layer,   \* the layer being built
          phase,   \* "insert", "reinsert", "end"
          todo,    \* elements not started
          active   \* id -> what its thread is doing

vars == <<s, done, layer, phase, todo, active>>
H == File[s]
C == H.cfg
D == H.D
N == H.n
Ideal(k) == IdealSize(C, N, k, 0)
Depth == Len(done)
Size == Ideal(Depth)
(* H.rw: a batch inserted into the concurrent builder: no halved limits, no limiting afterwards *)
Limit == IF ~H.rw /\ Size < Total(C, N) THEN Max2(1, C.nn \div 2) ELSE C.nn
Ms == IF phase = "insert" THEN C.ms ELSE Max2(1, C.ms \div 2)
Range0(a, b) == {x \in 0..N : x >= a /\ x < b}
Grow(l, n) == l \o [k \in 1..(n - Len(l)) |-> {}]

Init == /\ s \in 1..Len(File)
        /\ done = << >> /\ layer = Grow(<< >>, IdealSize(File[s].cfg, File[s].n, 0, 0))
        /\ phase = "insert" /\ todo = 0..(IdealSize(File[s].cfg, File[s].n, 0, 0) - 1)
        /\ active = << >>

Put(f, k, v) == (k :> v) @@ f
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

Entry(i) == IF done = << >> THEN 0
            ELSE LET r == SearchIndex(done, D[i + 1], 1, 1) IN IF r = << >> THEN 0 ELSE r[1][2]

Start(i) ==
    /\ phase \in {"insert", "reinsert"} /\ i \in todo /\ Cardinality(DOMAIN active) < H.T
    /\ todo' = todo \ {i}
    /\ active' = IF IsZero(D, H.dup, i) THEN active
                 ELSE LET e == Entry(i)
                      IN  Put(active, i, [pc |-> "search", open |-> {<<D[i + 1][e + 1], e>>}, kept |-> {}, seen |-> {e}, js |-> << >>, old |-> {}])
    /\ UNCHANGED <<s, done, layer, phase>>

(* the search has ended with `kept' *)
Found(i, a, kept) ==
    LET chosen == Select(D, {p \in kept : p[2] # i}, Limit)
    IN  IF TooManyDuplicates(chosen, H.dup, Limit) \/ (chosen = {} /\ VARIANT # "overwrite") THEN Drop(active, i)
        ELSE Put(active, i, [pc |-> (IF VARIANT = "overwrite" THEN "look" ELSE "init"), open |-> {}, kept |-> {}, seen |-> {}, js |-> SortPairs(chosen), old |-> {}])

(* one element taken from the queue, its list read; the search ends as soon as that is certain *)
SearchStep(i) ==
    LET a == active[i]
        dq == D[i + 1]
        c == MinPair(a.open)
        full == Cardinality(a.kept) >= Ms
        kept1 == IF ~full THEN a.kept \cup {c}
                 ELSE LET w == MaxPair(a.kept) IN IF Before(c, w) /\ c # w THEN (a.kept \ {w}) \cup {c} ELSE a.kept
        full1 == Cardinality(kept1) >= Ms
        bound == IF full1 THEN MaxPair(kept1)[1] ELSE 0
        new == layer[c[2] + 1] \ a.seen
        open1 == (a.open \ {c}) \cup {<<dq[k + 1], k>> : k \in {k \in new : ~full1 \/ dq[k + 1] < bound}}
        over == open1 = {} \/ (full1 /\ MinPair(open1)[1] > bound)
    IN  /\ a.pc = "search"
        /\ active' = IF over THEN Found(i, a, kept1)
                     ELSE Put(active, i, [a EXCEPT !.open = open1, !.kept = kept1, !.seen = a.seen \cup new])
        /\ UNCHANGED <<s, done, layer, phase, todo>>

(* VARIANT "overwrite" (as the code once was): looking at the list and initialising it are two steps, and the *)
(* second asserts that the list is still empty                                                               *)
Look(i) ==
    /\ active[i].pc = "look"
    /\ active' = Put(active, i, [active[i] EXCEPT !.pc = IF layer[i + 1] = {} THEN "force" ELSE IF active[i].js = << >> THEN "force" ELSE "own"])
    /\ UNCHANGED <<s, done, layer, phase, todo>>
Initialise(i) ==
    LET a == active[i]
        set == layer[i + 1] = {} \/ a.pc = "force"
    IN  /\ a.pc \in {"init", "force"} /\ (a.pc = "force" => a.js # << >>)
        /\ layer' = IF set THEN [layer EXCEPT ![i + 1] = Ids(ToSet(a.js))] ELSE layer
        /\ active' = Put(active, i, [a EXCEPT !.pc = IF set THEN "back" ELSE "own", !.seen = ToSet(a.js)])
        /\ UNCHANGED <<s, done, phase, todo>>
NothingToSet(i) == /\ active[i].pc = "force" /\ active[i].js = << >> /\ active' = Drop(active, i)
                   /\ UNCHANGED <<s, done, layer, phase, todo>>
\* connecting the element to its neighbours, then its neighbours to it
Own(i) ==
    LET a == active[i]
        rest == Tail(a.js)
        keep == IF a.seen = {} THEN ToSet(a.js) ELSE a.seen
    IN  /\ a.pc = "own"
        /\ layer' = [layer EXCEPT ![i + 1] = Connect(D, @, i, Head(a.js)[2], C.nn)]
        /\ active' = Put(active, i, IF rest = << >> THEN [a EXCEPT !.pc = "back", !.js = SortPairs(keep), !.seen = keep]
                                    ELSE [a EXCEPT !.js = rest, !.seen = keep])
        /\ UNCHANGED <<s, done, phase, todo>>
Back(i) ==
    LET a == active[i]
        j == Head(a.js)[2]
        rest == Tail(a.js)
    IN  /\ a.pc = "back" /\ VARIANT # "lostread"
        /\ layer' = [layer EXCEPT ![j + 1] = Connect(D, @, j, i, C.nn)]
        /\ active' = IF rest = << >> THEN Drop(active, i) ELSE Put(active, i, [a EXCEPT !.js = rest])
        /\ UNCHANGED <<s, done, phase, todo>>
(* VARIANT "lostread" *)
BackRead(i) ==
    LET a == active[i]
    IN  /\ a.pc = "back" /\ VARIANT = "lostread"
        /\ active' = Put(active, i, [a EXCEPT !.pc = "back2", !.old = layer[Head(a.js)[2] + 1]])
        /\ UNCHANGED <<s, done, layer, phase, todo>>
BackWrite(i) ==
    LET a == active[i]
        j == Head(a.js)[2]
        rest == Tail(a.js)
    IN  /\ a.pc = "back2"
        /\ layer' = [layer EXCEPT ![j + 1] = Connect(D, a.old, j, i, C.nn)]
        /\ active' = IF rest = << >> THEN Drop(active, i) ELSE Put(active, i, [a EXCEPT !.pc = "back", !.js = rest])
        /\ UNCHANGED <<s, done, phase, todo>>

(* all elements of a pass are linked: the lists are limited *)
EndPass ==
    /\ phase \in {"insert", "reinsert"} /\ todo = {} /\ active = << >>
    /\ LET lim == IF H.rw THEN layer ELSE LimitAll(D, layer, Limit)
       IN  IF phase = "insert" /\ C.reinsert /\ ~H.rw
           THEN layer' = lim /\ phase' = "reinsert" /\ todo' = 0..(Len(layer) - 1) /\ done' = done
           ELSE IF Len(layer) >= N THEN done' = Append(done, lim) /\ layer' = << >> /\ phase' = "end" /\ todo' = {}
           ELSE LET next == Ideal(Depth + 1)
                IN  done' = Append(done, lim) /\ layer' = Grow(lim, next) /\ phase' = "insert" /\ todo' = Len(lim)..(next - 1)
    /\ UNCHANGED <<s, active>>

Report == \A k \in 1..Len(H.observed) :
             (SetsOf(H.observed[k]) = done') => PrintT("ACCEPT " \o ToJson(<<H.sc, k>>))
Act(i) == NothingToSet(i) \/ SearchStep(i) \/ Look(i) \/ Initialise(i) \/ Own(i) \/ Back(i) \/ BackRead(i) \/ BackWrite(i)
Next == \/ \E i \in todo : Start(i)
        \/ \E i \in DOMAIN active : Act(i)
        \/ EndPass /\ (phase' = "end" => Report)
Terminated == phase = "end" /\ UNCHANGED vars
Spec == Init /\ [][Next \/ Terminated]_vars

-----------------------------------------------------------------------------
(* Invariants *)
Linked(l) == \A k \in 1..Len(l) : /\ (k - 1) \notin l[k]
                                  /\ \A x \in l[k] : x >= 0 /\ x < Len(l)
                                  /\ Cardinality(l[k]) <= C.nn
Sound == Linked(layer) /\ \A k \in 1..Len(done) : Linked(done[k])
(* with lists that cannot overflow no link is ever lost: when nothing is under way the graph is symmetric *)
Symmetric(l) == \A k \in 1..Len(l) : \A x \in l[k] : (k - 1) \in l[x + 1]
NothingLost == (C.nn \div 2 >= N /\ active = << >>) => Symmetric(layer)
AssertHolds == \A i \in DOMAIN active : active[i].pc = "force" => layer[i + 1] = {}
(* every element that is not excluded has a neighbour *)
Excluded(i) == IsZero(D, H.dup, i) \/ \E j \in 0..(N - 1) : i # j /\ D[i + 1][j + 1] <= H.dup
Everyone == \A k \in 1..Len(done) : Len(done[k]) >= 2 =>
               \A i \in 1..Len(done[k]) : Excluded(i - 1) \/ (\E j \in 1..Len(done[k]) : Excluded(j - 1)) \/ done[k][i] # {}
(* What holds of any outcome, whatever the size: checked on observed graphs of all sizes *)
Reaches(l) == Reachable(l, 0) = 0..(Len(l) - 1)
GraphSound(g) ==
    /\ WellFormed(g, C.nn)
    /\ Len(g) > 0 /\ Len(Last(g)) = N
    /\ \A k \in 1..Len(g) : Len(g[k]) = Ideal(k - 1)
Plain == \A i, j \in 0..(N - 1) : i # j => ~Excluded(i) /\ D[i + 1][j + 1] > H.dup
Roomy == C.nn \div 2 >= N
Contract(g) ==
    /\ GraphSound(g)
    /\ LET sets == SetsOf(g)
       IN  /\ (Plain => \A k \in 1..Len(g) : Len(g[k]) >= 2 => \A i \in 1..Len(g[k]) : sets[k][i] # {})
           /\ (Roomy => \A k \in 1..Len(g) : Symmetric(sets[k]))
           /\ (Roomy /\ Plain => \A k \in 1..Len(g) : Reaches(sets[k]))
ContractStep ==
    /\ phase = "insert" /\ phase' = "end"
    /\ \A k \in 1..Len(H.observed) :
          IF Contract(H.observed[k]) THEN PrintT("ACCEPT " \o ToJson(<<H.sc, k>>))
          ELSE PrintT("REJECT " \o ToJson(<<H.sc, k, <<GraphSound(H.observed[k]), H.observed[k]>> >>))
    /\ UNCHANGED <<s, done, layer, todo, active>>
ContractSpec == Init /\ [][ContractStep]_vars

(* no link is one-sided at the end of a pass unless a full list dropped it *)
OneSided == (phase = "end" /\ C.nn \div 2 >= N) => Symmetric(done[Len(done)])
=============================================================================
