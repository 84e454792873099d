------------------------------ MODULE GenColl -------------------------------
(***************************************************************************)
(* Generates histories of operations on collections (run with -simulate):  *)
(* the lengths of the slots and which of them are lent out.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
MaxLen == atoi(IOEnv.MAXROWS)
Depth == atoi(IOEnv.DEPTH)
Kind == IOEnv.OPS       \* "dense" or "sum"
VARIABLES slots, imgs, hist     \* sequences of [n, frozen], of lengths
vars == <<slots, imgs, hist>>
Pick(S) == RandomElement(S)
Add(e) == hist' = Append(hist, e)
S(n) == [n |-> n, frozen |-> FALSE]
Init == slots = << >> /\ imgs = << >> /\ hist = << >>
Some == {Pick(1..Len(slots))}
New == /\ Len(slots) < 5
       /\ \E k \in {Pick({0, Pick(0..(MaxLen \div 2)), Pick(0..(MaxLen \div 2))})} : \E how \in {Pick(IF Kind = "dense" THEN {"new", "collect", "from_vec", "from_slice"} ELSE {"new", "mapped"})} :
            LET n == IF how = "new" THEN 0 ELSE k
            IN  slots' = Append(slots, S(n)) /\ Add([op |-> "new", k |-> Len(slots) + 1, n |-> n, how |-> how])
       /\ UNCHANGED imgs
Push == /\ slots # << >>
        /\ \E k \in Some : \E m \in {Pick(1..3)} : /\ ~slots[k].frozen /\ slots[k].n + m <= MaxLen
             /\ slots' = [slots EXCEPT ![k].n = @ + m]
             /\ Add([op |-> "push", k |-> k, n |-> m, how |-> Pick({"inherent", "trait"})])
        /\ UNCHANGED imgs
Extend == /\ slots # << >> /\ Kind = "dense"
          /\ \E k \in Some : \E j \in Some : /\ ~slots[k].frozen /\ slots[k].n + slots[j].n <= MaxLen
               /\ slots' = [slots EXCEPT ![k].n = @ + slots[j].n]
               /\ Add([op |-> "extend", k |-> k, j |-> j])
          /\ UNCHANGED imgs
Copy == /\ slots # << >> /\ Len(slots) < 5
        /\ \E j \in Some : \E how \in {Pick({"clone", "borrow", "borrow"})} :
             /\ slots' = Append([slots EXCEPT ![j].frozen = @ \/ how = "borrow"], S(slots[j].n))
             /\ Add([op |-> how, k |-> Len(slots) + 1, j |-> j])
        /\ UNCHANGED imgs
Own == /\ slots # << >> /\ Kind = "dense" /\ \E k \in Some : ~slots[k].frozen /\ Add([op |-> "own", k |-> k]) /\ UNCHANGED <<slots, imgs>>
Permute == /\ slots # << >> /\ \E k \in Some : ~slots[k].frozen /\ Add([op |-> "permute", k |-> k, n |-> slots[k].n]) /\ UNCHANGED <<slots, imgs>>
Save == /\ slots # << >> /\ Len(imgs) < 4
        /\ \E k \in Some : imgs' = Append(imgs, slots[k].n) /\ Add([op |-> "save", a |-> Len(imgs) + 1, k |-> k])
        /\ UNCHANGED slots
Load == /\ imgs # << >> /\ Len(slots) < 6
        /\ \E a \in {Pick(1..Len(imgs))} : /\ slots' = Append(slots, S(imgs[a]))
               /\ Add([op |-> "load", k |-> Len(slots) + 1, a |-> a, how |-> Pick({"file", "bytes"}), align |-> Pick(0..15)])
        /\ UNCHANGED imgs
Drop == /\ Len(slots) >= 5 /\ \E k \in Some : /\ ~slots[k].frozen
             /\ slots' = [slots EXCEPT ![k] = S(0)] /\ Add([op |-> "new", k |-> k, n |-> 0, how |-> "new"])
        /\ UNCHANGED imgs
Finish == Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, "end") /\ UNCHANGED <<slots, imgs>>
Next == \/ Finish
        \/ Len(hist) < Depth /\ (New \/ Push \/ Extend \/ Copy \/ Own \/ Permute \/ Save \/ Load \/ Drop)
Spec == Init /\ [][Next]_vars
=============================================================================
