------------------------------ MODULE Sharding ------------------------------
(***************************************************************************)
(* Writing n elements in consecutive parts: the shards of an element file, *)
(* and the chunks in which vectors are computed.  VARIANT: "none", or a    *)
(* mistake ("floor": part sizes rounded down, "noclamp": ranges beyond the *)
(* end, "again": the header with every chunk).                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS VARIANT, MaxN, MaxParts
VARIABLES n, parts, i, out, failed
vars == <<n, parts, i, out, failed>>
Min(a, b) == IF a < b THEN a ELSE b
Size == IF VARIANT = "floor" THEN n \div parts ELSE (n + parts - 1) \div parts
Lo == IF VARIANT = "noclamp" THEN i * Size ELSE Min(i * Size, n)
Hi == Min((i + 1) * Size, n)
Init == n \in 0..MaxN /\ parts \in 1..MaxParts /\ i = 0 /\ out = << >> /\ failed = FALSE
Next == /\ i < parts /\ ~failed
        /\ i' = i + 1
        /\ IF Lo > Hi THEN failed' = TRUE /\ out' = out
           ELSE /\ failed' = FALSE
                /\ out' = out \o (IF i = 0 \/ VARIANT = "again" THEN <<-1>> ELSE << >>) \o [j \in 1..(Hi - Lo) |-> Lo + j - 1]
        /\ UNCHANGED <<n, parts>>
Spec == Init /\ [][Next]_vars
Whole == ~failed /\ (i = parts => out = <<-1>> \o [j \in 1..n |-> j - 1])
=============================================================================
