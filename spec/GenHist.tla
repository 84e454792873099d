------------------------------- MODULE GenHist ------------------------------
(***************************************************************************)
(* Generates API histories: the control state of Granne (how many elements *)
(* there are, how many are indexed, which images and index objects exist)  *)
(* without the graphs.  Run with -simulate; each behaviour of length DEPTH  *)
(* is printed as one JSON array of calls, which is executed on granne and  *)
(* validated against Granne by TraceGranne.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

MaxRows == atoi(IOEnv.MAXROWS)
Depth == atoi(IOEnv.DEPTH)
Kinds == IOEnv.OPS       \* "all" or "build" (no index objects)

VARIABLES rows, done, imgs, objs, hist, unsearched
vars == <<rows, done, imgs, objs, hist, unsearched>>

Add(e) == hist' = Append(hist, e)
(* one of S for what matters little; all of S when every short history is to be generated *)
Pick(S) == RandomElement(S)
All == "EVERY" \in DOMAIN IOEnv /\ IOEnv.EVERY = "1"
Each(S) == IF All THEN S ELSE {Pick(S)}
Range(n) == [i \in 1..n |-> 0]

Init == rows = -1 /\ done = 0 /\ imgs = << >> /\ objs = << >> /\ hist = << >> /\ unsearched = FALSE

New == /\ rows = -1
       /\ \E k \in Each(0..(IF All THEN MaxRows ELSE MaxRows \div 2)) : rows' = k /\ Add([op |-> "new", k |-> k])
       /\ UNCHANGED <<done, imgs, objs, unsearched>>
Push == /\ rows >= 0 /\ rows < MaxRows
        /\ \E k \in Each(1..(MaxRows - rows)) : rows' = rows + k /\ Add([op |-> "push", k |-> k])
        /\ UNCHANGED <<done, imgs, objs, unsearched>>
Partial == /\ rows >= 0
           /\ \E n \in Each(done..rows) : done' = n /\ Add([op |-> "partial", n |-> n])
           /\ unsearched' = TRUE
           /\ UNCHANGED <<rows, imgs, objs>>
Build == /\ rows >= 0 /\ done' = rows /\ Add([op |-> "build"])
         /\ unsearched' = TRUE
         /\ UNCHANGED <<rows, imgs, objs>>
Save == /\ rows >= 0
        /\ Len(imgs) < 3
        /\ imgs' = Append(imgs, [rows |-> rows, done |-> done])
        /\ Add([op |-> "save", as |-> Len(imgs) + 1, pad |-> Pick({0, 1, 7, 1024}), borrowed |-> Pick(BOOLEAN)])
        /\ UNCHANGED <<rows, done, objs, unsearched>>
SaveIx == /\ objs # << >> /\ Len(imgs) < 3
          /\ \E i \in Each(1..Len(objs)) : /\ imgs' = Append(imgs, objs[i])
                 /\ Add([op |-> "save", as |-> Len(imgs) + 1, ix |-> i, pad |-> Pick({0, 3})])
          /\ UNCHANGED <<rows, done, objs, unsearched>>
Resume == /\ imgs # << >>
          /\ \E i \in Each(1..Len(imgs)) : \E k \in Each(0..(MaxRows - imgs[i].rows)) : /\ rows' = imgs[i].rows + k /\ done' = imgs[i].done
                 /\ Add([op |-> "resume", from |-> i, k |-> k, how |-> Pick({"file", "bytes"}), align |-> Pick(0..15)])
          /\ UNCHANGED <<imgs, objs, unsearched>>
Load == /\ Kinds = "all" /\ imgs # << >> /\ Len(objs) < 4
        /\ \E i \in Each(1..Len(imgs)) : /\ objs' = Append(objs, imgs[i])
               /\ Add([op |-> "load", from |-> i, ix |-> Len(objs) + 1, how |-> Pick({"file", "bytes"}),
                       ehow |-> Pick({"file", "bytes"}), align |-> Pick(0..15), ealign |-> Pick(0..15)])
        /\ UNCHANGED <<rows, done, imgs, unsearched>>
Owned == /\ Kinds = "all" /\ rows >= 0 /\ Len(objs) < 4
         /\ objs' = Append(objs, [rows |-> rows, done |-> done])
         /\ Add([op |-> "owned", ix |-> Len(objs) + 1])
         /\ UNCHANGED <<rows, done, imgs, unsearched>>
SearchB == /\ rows >= 0 /\ unsearched /\ Add([op |-> "search"]) /\ unsearched' = FALSE
           /\ UNCHANGED <<rows, done, imgs, objs>>
SearchIx == /\ objs # << >> /\ \E i \in Each(1..Len(objs)) :Add([op |-> "search", ix |-> i])
            /\ UNCHANGED <<rows, done, imgs, objs, unsearched>>
Reorder == /\ objs # << >>
           /\ \E i \in Each(1..Len(objs)) : Add([op |-> Pick({"reorder", "reorder_keys"}), ix |-> i, n |-> objs[i].done])
           /\ UNCHANGED <<rows, done, imgs, objs, unsearched>>

Finish == Len(hist) = Depth /\ PrintT("HIST " \o ToJson(hist)) /\ hist' = Append(hist, "end")
          /\ UNCHANGED <<rows, done, imgs, objs, unsearched>>
Next == \/ Finish
        \/ /\ Len(hist) < Depth
           /\ \/ New \/ Push \/ Partial \/ Build \/ Save \/ SaveIx \/ Resume \/ Load \/ Owned \/ SearchB \/ SearchIx \/ Reorder
Spec == Init /\ [][Next]_vars
=============================================================================
