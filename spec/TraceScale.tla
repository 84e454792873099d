----------------------------- MODULE TraceScale ------------------------------
(***************************************************************************)
(* Large indexes (more nodes than fit in 16 bits, more than one chunk of    *)
(* everything that is chunked).  Elements are points on a line, so that the *)
(* distances are computed here instead of being written to the trace; the   *)
(* graphs are taken as observed and are not copied into the state: at is    *)
(* the event that shows the current graph, prev the one before it.          *)
(***************************************************************************)
EXTENDS GranneGraph, TLC, Json, IOUtils
CONSTANT PROP
File == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, cfg, have, at
Ev == File[s].events
E == Ev[l]
Pos == File[s].pos                   \* position of element i at i + 1
Has(e, f) == f \in DOMAIN e
Is(p) == PROP = p
Reject(what) == PrintT("REJECT " \o ToJson(<<File[s].sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)
Bad(S, P(_)) == LET B == {i \in S : ~P(i)} IN IF B = {} THEN TRUE ELSE Reject(<<"fails for", CHOOSE i \in B : TRUE>>)

Abs(x) == IF x < 0 THEN -x ELSE x
Graph == IF at = 0 THEN << >> ELSE Ev[at].layers
SizesOf(layers) == [k \in 1..Len(layers) |-> Len(layers[k])]
(* the layers as functions to sets, evaluated where they are looked at *)
Nodes(layer) == [i \in 1..Len(layer) |-> ToSet(layer[i])]
Dists(q) == LET p == Pos IN [i \in 1..Len(p) |-> Abs(p[i] - q)]

(* the distances are these, divided by 2^20; duplicates: less than 100 times the *)
(* precision of a float                                                          *)
Dup == 13
Between == LET p == Pos IN [i \in 1..Len(p) |-> [j \in 1..Len(p) |-> Abs(p[i] - p[j])]]

Sound(lists, maxn) ==
    \E ls \in {lists} :
    LET n == Len(ls)
        Fine(k) == LET x == ls[k]
                   IN  /\ Len(x) <= maxn
                       /\ \A i \in 1..Len(x) : x[i] >= 0 /\ x[i] < n /\ x[i] # k - 1
                       /\ Cardinality(ToSet(x)) = Len(x)
    IN  Bad(1..n, Fine)

(* Values that are looked at often are bound by quantifiers over one-element *)
(* sets: TLC evaluates those once.                                           *)
RECURSIVE Enter(_, _, _, _)
Enter(nodes, k, dq, entry) ==
    IF k = Len(nodes) THEN entry
    ELSE Enter(nodes, k + 1, dq, MinPair(SearchLayer(nodes[k], dq, entry, 1))[2])

Narrow(nodes, dq, q, ms, k, res) ==
    \E all \in {SortPairs(SearchLayer(nodes[Len(nodes)], dq, Enter(nodes, 1, dq, 0), ms))} :
    \E want \in {[i \in 1..Min2(k, Len(all)) |-> <<all[i][2], all[i][1]>>]} :
        Req(res = want, <<"search", q, ms, k, want>>)
(* Everything reachable from the entry, nearest first (positions differ, so  *)
(* that the order is determined).  Large sets are slow with TLC: the trace    *)
(* brings hints, which are checked.  h.rank[x + 1] is the place of x among    *)
(* the answers or 0, h.from[i] the place of an answer that has answer i as a  *)
(* neighbour, h.depth[i] the number of steps from the entry.                  *)
Wide(nodes, dq, res, hint) ==
    \E last \in {nodes[Len(nodes)]} : \E entry \in {Enter(nodes, 1, dq, 0)} : \E h \in {hint} :
    LET n == Len(res)
        Answered(x) == h.rank[x + 1] # 0 /\ res[h.rank[x + 1]][1] = x
    IN  /\ Req(Len(h.rank) >= Len(last) /\ Len(h.from) = n /\ Len(h.depth) = n, "hints")
        /\ Req(Answered(entry), <<"entry", entry>>)
        \* no id twice, true distances, in order
        /\ Bad(1..n, LAMBDA i : /\ res[i][1] >= 0 /\ res[i][1] < Len(last)
                                /\ h.rank[res[i][1] + 1] = i
                                /\ res[i][2] = dq[res[i][1] + 1])
        /\ Bad(1..(n - 1), LAMBDA i : res[i][2] < res[i + 1][2])
        \* everything reachable
        /\ Bad(1..n, LAMBDA i : \A x \in last[res[i][1] + 1] : Answered(x))
        \* nothing else
        /\ Bad(1..n, LAMBDA i : IF h.depth[i] = 0 THEN res[i][1] = entry
                                ELSE /\ res[i][1] \in last[res[h.from[i]][1] + 1]
                                     /\ h.depth[h.from[i]] < h.depth[i])
OneSearch(nodes, i) ==
    \E e \in {E} : \E dq \in {Dists(e.qs[i])} :
        /\ (Is("C05") /\ e.ms < 2000) => Narrow(nodes, dq, e.qs[i], e.ms, e.k, e.res[i])
        /\ Has(e, "hints") => Wide(nodes, dq, e.res[i], e.hints[i])
        \* fewer of the answers of the search before
        /\ Has(e, "fewer") => \E all \in {Ev[l - 1].res[i]} :
                                 Req(e.res[i] = SubSeq(all, 1, Min2(e.k, Len(all))), <<"not the nearest", i>>)

Shown(layers) ==
    /\ Is("C03") => \A k \in 1..Len(layers) : Sound(layers[k], cfg.nn)
    /\ (Is("C03") \/ Is("C04")) => Req(Nested(layers), "layer sizes")

Built(n) ==
    \E old \in {Graph} : \E new \in {E.layers} : \E c \in {cfg} :
        /\ Shown(new)
        /\ Req(E.num = have, <<"elements", have>>)
        /\ Req(n > 0 => Len(Last(new)) = n, <<"indexed", n>>)
        /\ Is("C04") =>
             /\ Req(\E off \in LogOffsets(Max2(IF c.exp > 0 THEN c.exp ELSE have, have), c.num, c.den) :
                        SizesOf(new) = SizesAfter(c, have, SizesOf(old), n, off), "sizes")
             /\ \A k \in 1..(Len(old) - 1) : Bad(1..Len(old[k]), LAMBDA i : ToSet(old[k][i]) = ToSet(new[k][i]))
        \* one thread, no two distances alike: the graph is the one the specification builds
        /\ ((Is("C04") \/ Is("C18")) /\ Has(E, "exact")) =>
             \E off \in LogOffsets(Max2(IF c.exp > 0 THEN c.exp ELSE have, have), c.num, c.den) :
             \E want \in {BuildPartial(Between, Dup, c, have, [k \in 1..Len(old) |-> Nodes(old[k])], n, off)} :
                 /\ Req(SizesOf(new) = SizesOf(want), <<"sizes", SizesOf(want)>>)
                 /\ \A k \in 1..Len(new) : \E x \in {new[k]} : Bad(1..Len(x), LAMBDA i : ToSet(x[i]) = want[k][i])
(* the graph is the one last shown *)
Unchanged(what) ==
    \E old \in {Graph} : \E new \in {E.layers} :
        /\ Req(SizesOf(new) = SizesOf(old), "sizes")
        /\ \A k \in 1..Len(old) : \E x \in {old[k]} : \E y \in {new[k]} :
              Bad(1..Len(x), LAMBDA i : ToSet(x[i]) = ToSet(y[i]))

Init == s \in 1..Len(File) /\ l = 1 /\ cfg = [nn |-> 0] /\ have = 0 /\ at = 0
Cfg(c) == [nn |-> c.nn, ms |-> c.ms, num |-> c.num, den |-> c.den,
           exp |-> IF Has(c, "exp") THEN c.exp ELSE 0, reinsert |-> c.reinsert]
Do(ev) ==
    CASE ev = "new" -> cfg' = Cfg(E.cfg) /\ have' = Len(E.rows) /\ at' = 0
      [] ev = "push" -> cfg' = cfg /\ have' = have + Len(E.rows) /\ at' = at
      [] ev = "partial" -> Built(E.n) /\ at' = l /\ UNCHANGED <<cfg, have>>
      [] ev = "build" -> Built(have) /\ at' = l /\ UNCHANGED <<cfg, have>>
      [] ev = "resume" -> /\ ((Is("C01") \/ Is("C04")) => Unchanged(TRUE))
                          /\ cfg' = Cfg(E.cfg) /\ have' = E.num /\ at' = l
      [] ev \in {"graph", "load", "owned"} ->
                         /\ ((Is("C01") /\ at # 0) => Unchanged(TRUE))
                         /\ (Is("C01") /\ Has(E, "els")) => \E p \in {Pos} : \E x \in {E.els} : Bad(1..Len(x), LAMBDA i : x[i] = p[i])
                         /\ at' = l /\ UNCHANGED <<cfg, have>>
      [] ev = "linesearch" ->
            /\ (Is("C05") \/ Is("C06")) =>
                  \E g \in {Graph} : \E nodes \in {[k \in 1..Len(g) |-> Nodes(g[k])]} :
                      \A i \in 1..Len(E.qs) : OneSearch(nodes, i)
            /\ UNCHANGED <<cfg, have, at>>
      [] OTHER -> UNCHANGED <<cfg, have, at>>
Step == /\ l <= Len(Ev)
        /\ Req(~(Has(E, "panic") /\ E.panic), "panic")
        /\ Do(E.ev)
        /\ l' = l + 1 /\ s' = s
        /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(File[s].sc)))
View == <<s, l>>
TraceSpec == Init /\ [][Step]_<<s, l, cfg, have, at>>
=============================================================================
