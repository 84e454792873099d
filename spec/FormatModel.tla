---------------------------- MODULE FormatModel -----------------------------
(***************************************************************************)
(* Every graph of a small domain survives writing and reading (IndexFormat *)
(* against itself); with GEN the layers' bytes are printed for the library *)
(* to read.                                                                *)
(***************************************************************************)
EXTENDS IndexFormat, Json, IOUtils
CONSTANTS Ids, MaxLen, MaxNodes
VARIABLES nodes
ById(S) == SetToSortSeq(S, LAMBDA a, b : a < b)
Lists == {ById(S) : S \in {T \in SUBSET Ids : Cardinality(T) <= MaxLen}}
Init == nodes = << >>
Next == Len(nodes) < MaxNodes /\ \E n \in Lists : nodes' = Append(nodes, n)
Spec == Init /\ [][Next]_nodes
Read == LET r == LayerOf(LayerBytes(nodes)) IN r.ok /\ r.nodes = nodes
(* ---- generation (-simulate): random layers *)
Top == <<255, 256, 257, 65535, 65536, 70000, 16777215, 16777216, 2147483647>>
RandIds(k) == LET hi == RandomElement({20, 300, 1000, 70000, 20000000, 2147483646})
              IN  {IF RandomElement(1..6) = 1 THEN Top[RandomElement(1..9)] ELSE RandomElement(1..hi) - RandomElement({0, 1}) : i \in 1..k}
RandNode(kmax) == LET k == RandomElement({0, 1, 2, 3, 4, 5, RandomElement(1..kmax)}) IN ById(TLCEval(RandIds(k)))
GenInit == nodes = << >>
GenNext == nodes = << >> /\ nodes' = LET n == RandomElement({1, 2, 3, 10, 58, 59, 60, 61, 119, 120, 121, 130})
                                         kmax == IF n > 20 THEN 8 ELSE 254
                                     IN  TLCEval([i \in 1..n |-> RandNode(kmax)])
GenSpec == GenInit /\ [][GenNext]_nodes
Emit == nodes = << >> \/ PrintT("HIST " \o ToJson([layer |-> nodes, bytes |-> LayerBytes(nodes)]))
=============================================================================
