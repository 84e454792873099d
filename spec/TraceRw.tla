------------------------------- MODULE TraceRw ------------------------------
(***************************************************************************)
(* Validates recorded concurrent histories of RwGranneBuilder.             *)
(*                                                                         *)
(* One line of the trace file is one run: the calls and returns of several *)
(* threads in the order in which they happened.  The abstract state is the *)
(* sequence of element rows in insertion order; while insert calls are     *)
(* under way their elements are appended one at a time by silent steps     *)
(* (which element comes next is known from the ids the calls return, which *)
(* the call events carry as a prophecy `ids').  A history is accepted if   *)
(* the silent steps can be placed such that every return is allowed.       *)
(*                                                                         *)
(* `ref' (only when inserts are indexed by the calling thread) holds the   *)
(* graphs that inserting the same elements one by one gives, for each      *)
(* number of elements; `answers' those of an index loaded from the saved   *)
(* state with that many elements.                                          *)
(***************************************************************************)
EXTENDS GranneGraph, TLC, Json, IOUtils

CONSTANT PROP
File == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l,
          rows,  \* rows of the elements, in the order of their ids
          pend,  \* thread -> the call under way
          lin,   \* the graph after linking each element as the rule says (C18, C19)
          gone   \* number of insert calls that have completed with an id

vars == <<s, l, rows, pend, lin, gone>>
H == File[s]
Ev == H.events
E == Ev[l]
Has(e, f) == f \in DOMAIN e
Is(p) == PROP = p
Reject(what) == PrintT("REJECT " \o ToJson(<<H.sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)
For(p, cond, what) == IF Is(p) THEN Req(cond, what) ELSE TRUE

N0 == Len(H.init)
C == H.cfg
(* an index that is larger than the capacity from the start stays as it is *)
Fits == Max2(H.cap, N0)
Off == LogOffsets(Fits, C.num, C.den)
Idle == [op |-> "-"]
Desc(rs) == [i \in 1..Len(rs) |-> H.desc[rs[i] + 1]]
Inserting == \E t \in DOMAIN pend : pend[t].op = "insert"
Sizes(layers) == [k \in 1..Len(layers) |-> Len(layers[k])]
\* layers of an offline build with this capacity after n elements
RwSizes(n) == {SizesAfter(C, Fits, IF H.pre THEN Sizes(H.init_layers) ELSE << >>, n, off) : off \in Off}

-----------------------------------------------------------------------------
(* The exact graph (C18, C19).  lin is a sequence of layers, the last one    *)
(* holding as many nodes as there are elements; a new layer starts as a copy *)
(* of the last one when that has reached the size prescribed for its depth.  *)
TableOf(rs) == [i \in 1..Len(rs) |-> [j \in 1..Len(rs) |-> H.D[rs[i] + 1][rs[j] + 1]]]
DepthSize(k, off) == LayerSize(H.cap, C.num, C.den, k, off)
RECURSIVE Deepen(_, _)
Deepen(layers, off) ==
    IF Len(Last(layers)) >= DepthSize(Len(layers) - 1, off) THEN Deepen(Append(layers, Last(layers)), off) ELSE layers
Link(layers, rs, off) ==
    LET deep == IF layers = << >> THEN << << >> >> ELSE Deepen(layers, off)
        prev == Front(deep)
        cur == Append(Last(deep), {})
    IN  Append(prev, InsertElement(TableOf(rs), H.dup, prev, cur, Len(rs) - 1, C.nn, C.ms, C.nn))
Exact == Is("C18") \/ Is("C19")

-----------------------------------------------------------------------------
Init == /\ s \in 1..Len(File) /\ l = 1
        /\ rows = H.init
        /\ pend = [t \in 1..H.threads |-> Idle]
        /\ lin = SetsOf(H.init_layers)
        /\ gone = (IF Len(H.init) > 0 THEN 1 ELSE 0)

(* an element of a call under way becomes part of the index *)
AppendOne(t) ==
    LET p == pend[t]
    IN  /\ p.op = "insert"
        /\ p.next <= Len(p.ids)
        /\ p.ids[p.next] = Len(rows)
        /\ Len(rows) < H.cap
        /\ rows' = Append(rows, p.rows[p.next])
        /\ pend' = [pend EXCEPT ![t].next = @ + 1]
        /\ lin' = (IF Exact THEN Link(lin, rows', CHOOSE o \in Off : TRUE) ELSE lin)
        /\ UNCHANGED <<s, l, gone>>

Call(t) ==
    /\ pend[t].op = "-"
    /\ LET ins == E.op \in {"insert", "batch"}
           p == IF ins THEN [op |-> "insert", rows |-> E.rows, ids |-> E.ids, next |-> 1]
                ELSE [op |-> E.op, len |-> Len(rows), quiet |-> ~Inserting, some |-> gone > 0, e |-> l]
           old == IF ins THEN [u \in DOMAIN pend |-> IF pend[u].op \in {"-", "insert"} THEN pend[u]
                                                     ELSE [pend[u] EXCEPT !.quiet = FALSE]]
                  ELSE pend
       IN  pend' = [old EXCEPT ![t] = p]
    /\ UNCHANGED <<rows, lin, gone>>

Increasing(x) == \A i \in 1..(Len(x) - 1) : x[i] < x[i + 1]

RetInsert(t) ==
    LET p == pend[t]
    IN  /\ For("C09", E.ids = p.ids, "ids")
        /\ p.next = Len(p.ids) + 1      \* (not a rejection: the silent steps may still be to come)
        /\ For("C09", Len(E.ids) <= Len(p.rows), "more ids than elements")
        /\ For("C09", Increasing(E.ids), "ids do not increase")
        /\ Len(E.ids) < Len(p.rows) => For("C09", Len(rows) >= H.cap, "refused below the capacity")
        /\ gone' = gone + Len(E.ids)
        /\ UNCHANGED <<rows, lin>>

QueryNo(c) == CHOOSE k \in 1..Len(H.queries) : H.queries[k] = <<c.q, c.ms, c.k>>
RetSearch(t) ==
    LET p == pend[t]
        c == Ev[p.e]
        r == E.res
    IN  /\ For("C10", Len(r) <= Min2(c.k, c.ms), "too many")
        /\ For("C10", \A i \in 1..Len(r) : r[i][1] >= 0 /\ r[i][1] < N0 + H.total, "not an element")
        /\ (Is("C10") => \A i \in 1..Len(r) : r[i][1] < Len(rows))
        /\ For("C10", \A i \in 1..Len(r) : r[i][2] = H.D[rows[r[i][1] + 1] + 1][c.q + 1], "distance")
        /\ For("C10", \A i \in 1..(Len(r) - 1) : r[i][2] <= r[i + 1][2], "order")
        /\ For("C10", \A i, j \in 1..Len(r) : i # j => r[i][1] # r[j][1], "repeated")
        /\ (p.some /\ c.ms > 0 /\ c.k > 0) => For("C10", r # << >>, "empty")
        /\ (p.quiet /\ H.det) => For("C10", r = H.answers[Len(rows) - N0 + 1][QueryNo(c)],
                                     <<"differs from the saved index", H.answers[Len(rows) - N0 + 1][QueryNo(c)]>>)
        /\ (p.quiet /\ Exact /\ ~H.ties) =>
               LET dq == [i \in 1..Len(rows) |-> H.D[rows[i] + 1][c.q + 1]]
                   a == SearchIndex(lin, dq, c.ms, c.k)
               IN  Req(r = [i \in 1..Len(a) |-> <<a[i][2], a[i][1]>>], <<"answer", a>>)
        /\ UNCHANGED <<rows, lin, gone>>

(* an insert under way may already have added layers (copies of the last one) *)
Extends(ls, g) == /\ Len(ls) >= Len(g)
                  /\ SubSeq(ls, 1, Len(g)) = g
                  /\ \A k \in (Len(g) + 1)..Len(ls) : g # << >> /\ ls[k] = Last(g)
(* what a save contains, e being the loaded files *)
Consistent(e, from) ==
    LET m == Len(e.els)
        ls == SetsOf(e.layers)
    IN  /\ For("C11", ~Has(e, "bad") /\ ~Has(e, "err"), "the files cannot be loaded")
        /\ Req(m >= from, "elements missing")
        /\ (m <= Len(rows))
        /\ For("C11", \A i \in 1..m : e.els[i] = H.desc[rows[i] + 1], "not a prefix of the elements")
        /\ For("C11", (m = 0 /\ e.layers = << >>) \/ (m > 0 /\ e.layers # << >> /\ Len(Last(e.layers)) = m), "index and elements differ in size")
        /\ For("C11", WellFormed(e.layers, C.nn), "not well formed")
        /\ (H.det /\ ~Exact) => For("C11", Extends(ls, SetsOf(H.ref[m - N0 + 1])), <<"not the graph of the first m elements", m>>)

RetSave(t) ==
    /\ Is("C11") => Consistent(E, pend[t].len)
    /\ UNCHANGED <<rows, lin, gone>>
RetLen(t) ==
    /\ E.len >= pend[t].len /\ (Is("C09") => E.len <= Len(rows))
    /\ For("C09", E.empty => (pend[t].len = 0), "empty")
    /\ UNCHANGED <<rows, lin, gone>>
RetGet(t) ==
    /\ E.id < Len(rows)
    /\ (E.id >= 0) => For("C09", E.el = H.desc[rows[E.id + 1] + 1], "element under an id")
    /\ UNCHANGED <<rows, lin, gone>>

Ret(t) ==
    /\ pend[t].op # "-"
    /\ CASE pend[t].op = "insert" -> RetInsert(t)
         [] pend[t].op = "search" -> RetSearch(t)
         [] pend[t].op = "save" -> RetSave(t)
         [] pend[t].op = "len" -> RetLen(t)
         [] pend[t].op = "get" -> RetGet(t)
    /\ pend' = [pend EXCEPT ![t] = Idle]

Final ==
    /\ For("C12", \A t \in DOMAIN pend : pend[t].op = "-", "a call did not return")
    /\ For("C09", E.len = Len(rows), <<"length", Len(rows)>>)
    /\ For("C09", E.mem = Desc(rows), "elements")
    /\ For("C09", E.els = Desc(rows), "saved elements")
    /\ For("C09", WellFormed(E.layers, C.nn), "not well formed")
    /\ For("C09", Sizes(E.layers) \in RwSizes(Len(rows)), <<"layer sizes", RwSizes(Len(rows))>>)
    /\ Is("C11") => (Consistent(E, Len(rows)) /\ Req(Len(E.els) = Len(rows), "elements missing"))
    /\ For("C12", ~Has(E, "refbad"), "inserting one by one fails")
    /\ For("C19", WellFormed(E.layers, C.nn), "not well formed")
    /\ (Exact /\ ~H.ties /\ H.det) => Req(SetsOf(E.layers) = lin, <<"graph", lin>>)
    /\ UNCHANGED <<rows, pend, lin, gone>>

(* panics, deadlocks: what else the history shows is then of no interest (only failures that concern the property
   under check are handed to this specification) *)
Failure == Reject(E.ev)

Next ==
    \/ \E t \in DOMAIN pend : AppendOne(t)
    \/ /\ l <= Len(Ev)
       /\ \/ E.ev = "call" /\ Call(E.t)
          \/ E.ev = "ret" /\ Ret(E.t)
          \/ E.ev = "final" /\ Final
          \/ E.ev \in {"panic", "deadlock", "hang"} /\ Failure /\ UNCHANGED <<rows, pend, lin, gone>>
       /\ l' = (IF E.ev \in {"panic", "deadlock", "hang"} THEN Len(Ev) + 1 ELSE l + 1)
       /\ s' = s
       /\ (l' = Len(Ev) + 1 => PrintT("ACCEPT " \o ToJson(H.sc)))

View == <<s, l, Len(rows), pend>>
TraceSpec == Init /\ [][Next]_vars
=============================================================================
