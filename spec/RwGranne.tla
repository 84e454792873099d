------------------------------ MODULE RwGranne ------------------------------
(***************************************************************************)
(* The concurrent builder at the granularity of its locks: write_lock (W), *)
(* elements (E), layers (L), with the fairness of parking_lot (a waiting   *)
(* writer keeps new readers out).  Threads run programs of operations      *)
(*   <<"insert", n>>  batch of n elements   <<"search">>  <<"save">>       *)
(*   <<"len">>                                                             *)
(* An element is linked some time after it has been pushed.                *)
(*                                                                         *)
(* It refines the abstract builder that TraceRw validates real histories   *)
(* against: elements are appended one at a time in an order the ids show,  *)
(* a save contains a completely linked prefix, a search sees only elements.*)
(*                                                                         *)
(* With Workers > 0 the programs are tasks of a pool of that many threads  *)
(* of the caller: a worker runs one task after the other.                  *)
(*                                                                         *)
(* Variant names a deviation of the code to be rejected:                   *)
(*   "none", "norecheck" (capacity not checked again under the locks),     *)
(*   "spillholding" (the rest of a batch is inserted while W is held),     *)
(*   "nowritelock" (a save does not take W), "unlockfirst" (the locks are  *)
(*   released before linking), "layersfirst" (searches lock L before E),   *)
(*   "steal" (a worker of the caller that waits for the threads that link  *)
(*   begins another task meanwhile, as rayon's workers do)                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Programs, Cap, LayerSizes, Initial, Variant, Workers

Threads == 1..Len(Programs)
LockNames == {"W", "E", "L"}

VARIABLES pc, op, left, ids, lock, len, layers, linked, shot, results,
          stack         \* stack[w]: the tasks a worker has begun, the one it is running last

vars == <<pc, op, left, ids, lock, len, layers, linked, shot, results, stack>>

NoLock == [r |-> {}, w |-> 0, p |-> 0]
CanRead(k) == lock[k].w = 0 /\ lock[k].p = 0

Init ==
    /\ pc = [t \in Threads |-> "idle"]
    /\ op = [t \in Threads |-> 1]
    /\ left = [t \in Threads |-> 0]
    /\ ids = [t \in Threads |-> << >>]
    /\ lock = [k \in LockNames |-> NoLock]
    /\ len = Initial
    /\ layers = (CHOOSE k \in 1..Len(LayerSizes) : LayerSizes[k] >= Initial /\ \A j \in 1..(k - 1) : LayerSizes[j] < Initial)
    /\ linked = 0..(Initial - 1)
    /\ shot = [t \in Threads |-> [from |-> 0, m |-> 0]]
    /\ results = {}
    /\ stack = [w \in 1..Workers |-> << >>]

(* each thread reads each lock at most once, so that readers form a set; with "spillholding" W is read again *)
Read(t, k, next) ==
    /\ CanRead(k)
    /\ lock' = [lock EXCEPT ![k].r = @ \cup {t}]
    /\ pc' = [pc EXCEPT ![t] = next]
(* a writer first announces itself, then waits for the readers *)
Announce(t, k, next) ==
    /\ lock[k].w = 0 /\ lock[k].p = 0 /\ lock[k].r # {}
    /\ lock' = [lock EXCEPT ![k].p = t]
    /\ UNCHANGED pc
Take(t, k, next) ==
    /\ lock[k].w = 0 /\ lock[k].p \in {0, t} /\ lock[k].r = {}
    /\ lock' = [lock EXCEPT ![k].p = 0, ![k].w = t]
    /\ pc' = [pc EXCEPT ![t] = next]
Write(t, k, next) == Announce(t, k, next) \/ Take(t, k, next)
Release(t, ks) == lock' = [k \in LockNames |-> IF k \in ks
                              THEN [lock[k] EXCEPT !.r = @ \ {t}, !.w = IF @ = t THEN 0 ELSE @] ELSE lock[k]]
Goto(t, next) == pc' = [pc EXCEPT ![t] = next]
Done(t) == pc' = [pc EXCEPT ![t] = "idle"] /\ op' = [op EXCEPT ![t] = @ + 1]

Start(t) ==
    /\ pc[t] = "idle" /\ op[t] <= Len(Programs[t])
    /\ LET o == Programs[t][op[t]]
       IN  /\ pc' = [pc EXCEPT ![t] = CASE o[1] = "insert" -> "i_check" [] o[1] = "search" -> (IF Variant = "layersfirst" THEN "s_l" ELSE "s_e")
                                       [] o[1] = "save" -> (IF Variant = "nowritelock" THEN "w_e" ELSE "w_w") [] o[1] = "len" -> "n_e"]
           /\ left' = [left EXCEPT ![t] = IF o[1] = "insert" THEN o[2] ELSE 0]
           /\ ids' = [ids EXCEPT ![t] = << >>]
           /\ shot' = [shot EXCEPT ![t] = [from |-> len, m |-> 0]]
    /\ UNCHANGED <<op, lock, len, layers, linked, results>>

-----------------------------------------------------------------------------
(* insert_batch *)
Finish(t) == results' = results \cup {<<t, op[t], ids[t], left[t]>>} /\ Done(t)
ICheck(t) == /\ pc[t] = "i_check"
             /\ Read(t, "E", "i_check2")
             /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
ICheck2(t) == /\ pc[t] = "i_check2"
              /\ Release(t, {"E"} \cup (IF Variant = "spillholding" /\ (left[t] = 0 \/ len >= Cap) THEN {"W"} ELSE {}))
              /\ IF left[t] = 0 \/ len >= Cap THEN Finish(t)
                 ELSE Goto(t, IF Variant = "spillholding" /\ t \in lock["W"].r THEN "i_again" ELSE "i_w") /\ UNCHANGED <<op, results>>
              /\ UNCHANGED <<left, ids, len, layers, linked, shot>>
\* the read lock is requested a second time: it has to wait for a waiting writer
IAgain(t) == /\ pc[t] = "i_again" /\ CanRead("W") /\ Goto(t, "i_e")
             /\ UNCHANGED <<op, left, ids, lock, len, layers, linked, shot, results>>
IW(t) == pc[t] = "i_w" /\ Read(t, "W", "i_e") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
IE(t) == pc[t] = "i_e" /\ Write(t, "E", "i_l") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
IL(t) == pc[t] = "i_l" /\ Write(t, "L", "i_push") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
IPush(t) ==
    /\ pc[t] = "i_push"
    /\ IF len >= Cap /\ Variant # "norecheck"
       THEN Release(t, {"W", "E", "L"}) /\ Finish(t) /\ UNCHANGED <<left, ids, len, layers, linked, shot>>
       ELSE LET ls == IF len >= LayerSizes[layers] /\ layers < Len(LayerSizes) THEN layers + 1 ELSE layers
                size == IF Variant = "norecheck" /\ ls = Len(LayerSizes) THEN Cap + 2 ELSE LayerSizes[ls]
                n == IF left[t] <= size - len THEN left[t] ELSE size - len
            IN  /\ layers' = ls
                /\ len' = len + n
                /\ ids' = [ids EXCEPT ![t] = @ \o [i \in 1..n |-> len + i - 1]]
                /\ left' = [left EXCEPT ![t] = @ - n]
                \* downgrade to read locks
                /\ lock' = [lock EXCEPT !["E"] = [@ EXCEPT !.w = 0, !.r = IF Variant = "unlockfirst" THEN {} ELSE {t}],
                                        !["L"] = [@ EXCEPT !.w = 0, !.r = IF Variant = "unlockfirst" THEN {} ELSE {t}],
                                        !["W"] = [@ EXCEPT !.r = IF Variant = "unlockfirst" THEN @ \ {t} ELSE @]]
                /\ Goto(t, "i_link")
                /\ UNCHANGED <<op, linked, shot, results>>
Unlinked(t) == {i \in 1..Len(ids[t]) : ids[t][i] \notin linked}
ILink(t) ==
    /\ pc[t] = "i_link" /\ Unlinked(t) # {}
    /\ \E i \in Unlinked(t) : linked' = linked \cup {ids[t][i]}     \* in any order: a pool of threads
    /\ UNCHANGED <<pc, op, left, ids, lock, len, layers, shot, results>>
IUnlock(t) ==
    /\ pc[t] = "i_link" /\ Unlinked(t) = {}
    /\ Release(t, IF Variant = "spillholding" /\ left[t] > 0 THEN {"E", "L"} ELSE {"W", "E", "L"})
    /\ IF left[t] = 0 THEN Finish(t) ELSE Goto(t, "i_check") /\ UNCHANGED <<op, results>>
    /\ UNCHANGED <<left, ids, len, layers, linked, shot>>

(* search: locks E, then L *)
SE(t) == pc[t] = "s_e" /\ Read(t, "E", IF Variant = "layersfirst" THEN "s_do" ELSE "s_l") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
SL(t) == pc[t] = "s_l" /\ Read(t, "L", IF Variant = "layersfirst" THEN "s_e" ELSE "s_do") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
SDo(t) == pc[t] = "s_do" /\ Release(t, {"E", "L"}) /\ Done(t) /\ UNCHANGED <<left, ids, len, layers, linked, shot, results>>
(* len *)
NE(t) == pc[t] = "n_e" /\ Read(t, "E", "n_do") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
NDo(t) == pc[t] = "n_do" /\ Release(t, {"E"}) /\ Done(t) /\ UNCHANGED <<left, ids, len, layers, linked, shot, results>>
(* save: W exclusively, then E and L *)
WW(t) == pc[t] = "w_w" /\ Write(t, "W", "w_e") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
WE(t) == pc[t] = "w_e" /\ Read(t, "E", "w_l") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
WL(t) == pc[t] = "w_l" /\ Read(t, "L", "w_els") /\ UNCHANGED <<op, left, ids, len, layers, linked, shot, results>>
WEls(t) == /\ pc[t] = "w_els" /\ shot' = [shot EXCEPT ![t].m = len] /\ Goto(t, "w_ix")
           /\ UNCHANGED <<op, left, ids, lock, len, layers, linked, results>>
WIx(t) == /\ pc[t] = "w_ix" /\ Goto(t, "w_done") /\ UNCHANGED <<op, left, ids, lock, len, layers, linked, shot, results>>
WDone(t) == pc[t] = "w_done" /\ Release(t, {"W", "E", "L"}) /\ Done(t) /\ UNCHANGED <<left, ids, len, layers, linked, shot, results>>

AllDone == \A t \in Threads : pc[t] = "idle" /\ op[t] > Len(Programs[t])
Top(w) == stack[w][Len(stack[w])]
Running(t) == Workers = 0 \/ \E w \in 1..Workers : stack[w] # << >> /\ Top(w) = t
Waiting(t) == \A w \in 1..Workers : \A i \in 1..Len(stack[w]) : stack[w][i] # t
(* a worker takes the next task, or is done with one *)
Pick(w, t) == /\ Waiting(t) /\ pc[t] = "idle" /\ op[t] = 1 /\ Len(Programs[t]) > 0
              /\ IF stack[w] = << >> THEN TRUE ELSE Variant = "steal" /\ pc[Top(w)] = "i_link"
              /\ stack' = [stack EXCEPT ![w] = Append(@, t)]
              /\ UNCHANGED <<pc, op, left, ids, lock, len, layers, linked, shot, results>>
Leave(w) == /\ stack[w] # << >> /\ pc[Top(w)] = "idle" /\ op[Top(w)] > Len(Programs[Top(w)])
            /\ stack' = [stack EXCEPT ![w] = SubSeq(@, 1, Len(@) - 1)]
            /\ UNCHANGED <<pc, op, left, ids, lock, len, layers, linked, shot, results>>
Schedule == \E w \in 1..Workers : Leave(w) \/ \E t \in Threads : Pick(w, t)

Do(t) == \/ Start(t) \/ ICheck(t) \/ ICheck2(t) \/ IAgain(t) \/ IW(t) \/ IE(t) \/ IL(t) \/ IPush(t) \/ ILink(t) \/ IUnlock(t)
           \/ SE(t) \/ SL(t) \/ SDo(t) \/ NE(t) \/ NDo(t) \/ WW(t) \/ WE(t) \/ WL(t) \/ WEls(t) \/ WIx(t) \/ WDone(t)
Step(t) == Running(t) /\ Do(t) /\ UNCHANGED stack
Next == (\E t \in Threads : Step(t)) \/ Schedule \/ (AllDone /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Schedule) /\ \A t \in Threads : WF_vars(Step(t))

-----------------------------------------------------------------------------
(* C09 *)
Returned == UNION {{r[3][i] : i \in 1..Len(r[3])} : r \in results}
WithinCapacity == len <= Cap
IdsUnique == \A t, u \in Threads : \A i \in 1..Len(ids[t]), j \in 1..Len(ids[u]) :
                (ids[t][i] = ids[u][j] /\ pc[t] # "idle" /\ pc[u] # "idle") => (t = u /\ i = j)
IdsDense == AllDone => Returned = Initial..(len - 1)
IdsIncrease == \A t \in Threads : \A i \in 1..(Len(ids[t]) - 1) : ids[t][i] < ids[t][i + 1]
RefusedOnlyWhenFull == \A r \in results : r[4] > 0 => len = Cap
(* C10: a search reads while no push is under way, and linked nodes are elements *)
SearchSeesElements == \A t \in Threads : pc[t] = "s_do" => (lock["E"].w = 0 /\ lock["L"].w = 0)
LinkedAreElements == \A i \in linked : i < len
(* C11: what a save reads does not change under it and is complete *)
SaveConsistent == \A t \in Threads : pc[t] \in {"w_ix", "w_done"} =>
                     /\ shot[t].m = len /\ linked = 0..(len - 1)
                     /\ shot[t].from <= shot[t].m
(* the layer being filled has room *)
LayersFit == len <= (IF Variant = "norecheck" THEN Cap + 2 ELSE LayerSizes[layers])
(* C12 *)
Terminates == <>AllDone
=============================================================================
