---------------------------- MODULE TraceGranne -----------------------------
(***************************************************************************)
(* Validates recorded API histories against Granne.  One line of the trace *)
(* file is one history: [sc |-> id, ties |-> bool, events |-> <<...>>].    *)
(* PROP selects the property whose requirements are enforced; the state of *)
(* the graph is otherwise taken as observed.                               *)
(* Every history must print ACCEPT; a step that is not allowed prints      *)
(* REJECT with the expectation.                                            *)
(***************************************************************************)
EXTENDS Granne, Json, IOUtils

CONSTANT PROP
File == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES s, l
tvars == <<s, l, M, b, saved, ix>>
Ev == File[s].events
E == Ev[l]
Has(e, f) == f \in DOMAIN e
Is(p) == PROP = p
Ties == File[s].ties

Cfg(c) == [nn |-> c.nn, ms |-> c.ms, num |-> c.num, den |-> c.den,
           exp |-> IF Has(c, "exp") THEN c.exp ELSE 0, reinsert |-> c.reinsert]

TraceInit == /\ s \in 1..Len(File) /\ l = 1
             /\ M = [D |-> << >>, dup |-> 0, desc |-> << >>] /\ b = NoBuilder
             /\ saved = ("-" :> << >>) /\ ix = ("-" :> << >>)

Reject(what) == PrintT("REJECT " \o ToJson(<<File[s].sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)
(* a requirement of one property *)
For(p, cond, what) == IF Is(p) THEN Req(cond, what) ELSE TRUE

Target == IF Has(E, "ix") THEN ix[E.ix] ELSE b
New == SetsOf(E.layers)

\* requirements on any observed state of a graph
Observed(maxn, len) ==
    /\ Req(IndexedLen(E.layers) = len, <<"len", len>>)
    /\ For("C03", WellFormed(E.layers, maxn), "not well formed")
    /\ For("C19", WellFormed(E.layers, maxn), "not well formed")

BuildTo(n) ==
    /\ Observed(b.cfg.nn, E.len)
    /\ Req(E.num = Len(b.rows), <<"num_elements", Len(b.rows)>>)
    /\ For("C04", IndexesPrefix(b.layers, n, New), "prefix")
    /\ For("C04", KeepsUpperLayers(b.layers, New), "upper layers changed")
    /\ For("C04", PrescribedSizes(b.layers, b.cfg, Len(b.rows), n, New), "sizes")
    /\ (~Ties /\ ~Has(File[s], "par")) =>
         /\ For("C18", FollowsRule(b.rows, b.cfg, b.layers, n, New),
              <<"graph", BuildPartial(ElementTable(b.rows), M.dup, b.cfg, Len(b.rows), b.layers, n, 0)>>)
         /\ For("C19", FollowsRule(b.rows, b.cfg, b.layers, n, New),
              <<"graph", BuildPartial(ElementTable(b.rows), M.dup, b.cfg, Len(b.rows), b.layers, n, 0)>>)
    /\ (Ties /\ Has(File[s], "tierule") /\ ~Has(File[s], "par")) =>
         /\ For("C18", FollowsRuleAny(b.rows, b.cfg, b.layers, n, New), <<"none of the possible graphs", n>>)
         /\ For("C19", FollowsRuleAny(b.rows, b.cfg, b.layers, n, New), <<"none of the possible graphs", n>>)
    /\ For("C19", ZeroIsolated(b.rows, New), "zero vector linked")
    /\ Build(n, New)

OneSearch(q, ms, k, res) ==
    /\ For("C05", AnswerSound(Target, q, ms, k, res), <<"unsound answer", q, ms, k>>)
    /\ For("C19", AnswerSound(Target, q, ms, k, res), <<"unsound answer", q, ms, k>>)
    /\ Is("C05") => Req(res = Answer(Target, q, ms, k), <<q, ms, k, Answer(Target, q, ms, k)>>)
    /\ (Is("C06") /\ ms >= IndexedLen(Target.layers)) =>
          /\ Req(res = ReachAnswer(Target, q, k), <<q, ms, k, ReachAnswer(Target, q, k)>>)
          /\ Has(E, "exact") => Req(res = ExactAnswer(Target, q, k), <<q, ms, k, ExactAnswer(Target, q, k)>>)

(* The header is 1024 bytes, of which less than 174 are for everything but  *)
(* the length and the size in bytes of each layer: what does not fit is     *)
(* refused (with an error), what does is saved.                             *)
Digits(n) == CHOOSE d \in 1..12 : n < Pow(10, d) /\ (d > 1 => n >= Pow(10, d - 1))
MayOverflow(layers) ==
    LET most(g) == Len(g) * 12 + FoldLeft(LAMBDA a, x : a + 1 + 4 * Cardinality(x), 136, g)  \* bytes of a layer at most
    IN  FoldLeft(LAMBDA a, g : a + Digits(Len(g)) + Digits(most(g)) + 2, 174, layers) > 1024

LongLists(layers) == \E k \in 1..Len(layers) : \E i \in 1..Len(layers[k]) : Cardinality(layers[k][i]) > 254

Saveable == [rows |-> Target.rows, layers |-> Target.layers]

(* an index object or builder must be exactly what the specification says it is *)
SameAs(what, p) ==
    /\ For(p, Len(E.layers) = Len(what.layers), <<"layers", Len(what.layers)>>)
    /\ For(p, Sizes(E.layers) = Sizes(what.layers), <<"sizes", Sizes(what.layers)>>)
    /\ For(p, New = what.layers, <<"graph", what.layers>>)
    /\ (Is(p) /\ Has(E, "els")) => Req(Len(E.els) = Len(what.rows) /\ \A i \in 1..Len(E.els) : E.els[i] = M.desc[what.rows[i] + 1],
                                      <<"elements", what.rows>>)

Same(ev) ==
    CASE ev = "begin" -> UNCHANGED <<M, b, saved, ix>>
      [] ev = "end" -> UNCHANGED <<M, b, saved, ix>>
      [] ev = "matrix" -> M' = [D |-> E.D, dup |-> E.dup, desc |-> E.desc] /\ UNCHANGED <<b, saved, ix>>
      [] ev = "new" -> NewBuilder(E.rows, Cfg(E.cfg))
      [] ev = "push" -> /\ For("C04", E.num = Len(b.rows) + Len(E.rows), "num_elements")
                        /\ For("C04", New = b.layers, "push changed the index")
                        /\ PushRows(E.rows)
      [] ev = "partial" -> BuildTo(E.n)
      [] ev = "build" -> BuildTo(Len(b.rows))
      [] ev = "save" -> IF Has(E, "err")
                        THEN /\ Req(MayOverflow(Target.layers), "save failed")
                             /\ UNCHANGED <<M, b, saved, ix>>
                        ELSE Save(E.as, Saveable)
      [] ev = "resume" ->
            LET old == saved[E.from]
                cut == \E k \in 1..Len(old.layers) : \E i \in 1..Len(old.layers[k]) :
                          Cardinality(old.layers[k][i]) > E.cfg.nn
            IN  /\ Observed(E.cfg.nn, IndexedLen(old.layers))
                /\ ~cut => /\ For("C01", New = old.layers, <<"graph", old.layers>>)
                           /\ For("C04", New = old.layers, <<"graph", old.layers>>)
                /\ Resume(E.from, E.rows, Cfg(E.cfg), New)
      [] ev = "load" -> IF Has(E, "missing")
                        THEN /\ Req(E.from \notin DOMAIN saved, "nothing was saved")
                             /\ UNCHANGED <<M, b, saved, ix>>
                        ELSE /\ SameAs(saved[E.from], "C01")
                             /\ SameAs(saved[E.from], "C07")
                             /\ PutIndex(E.ix, saved[E.from])
      [] ev = "owned" -> /\ SameAs(b, "C01")
                         /\ PutIndex(E.ix, b)
      [] ev = "craft" ->
            LET given == [rows |-> E.rows, layers |-> SetsOf(E.craft)]
            IN  /\ SameAs(given, "C01")
                /\ ix' = Put(ix, E.ix, given)
                /\ saved' = (IF Has(E, "as") THEN Put(saved, E.as, given) ELSE saved)
                /\ UNCHANGED <<M, b>>
      [] ev = "dump" -> /\ SameAs(Target, "C01")
                        /\ SameAs(Target, "C07")
                        /\ UNCHANGED <<M, b, saved, ix>>
      [] ev = "same" -> /\ For("C18", ix[E.a].layers = ix[E.b].layers, <<"graphs differ", ix[E.b].layers>>)
                        /\ For("C04", ix[E.a].layers = ix[E.b].layers, <<"graphs differ", ix[E.b].layers>>)
                        /\ UNCHANGED <<M, b, saved, ix>>
      [] ev = "search" -> /\ \A i \in 1..Len(E.qs) : OneSearch(E.qs[i], E.ms, E.k, E.res[i])
                          /\ UNCHANGED <<M, b, saved, ix>>
      \* two objects must answer alike; `map' translates the ids of the second to those of the first
      [] ev = "samesearch" ->
            LET tr(r) == [i \in 1..Len(r) |-> <<IF Has(E, "map") THEN E.map[r[i][1] + 1] ELSE r[i][1], r[i][2]>>]
                \* after a reordering: from the same entry, and with distances that differ (equals are ordered by id)
                sameEntry == Has(E, "map") => ((E.map = << >> \/ E.map[1] = 0) /\ ~Ties)
            IN  /\ sameEntry => \A i \in 1..Len(E.res) :
                      /\ For("C01", E.res[i] = tr(E.res2[i]), <<"answers differ", i>>)
                      /\ For("C07", E.res[i] = tr(E.res2[i]), <<"answers differ", i>>)
                /\ UNCHANGED <<M, b, saved, ix>>
      [] ev \in {"reorder", "reorder_keys"} ->
            LET old == ix[E.ix]
            IN  /\ Req(IsPermutation(E.order, Len(old.rows)), "not a permutation")
                /\ For("C07", RangesKept(E.order, old.layers), "element left its layer range")
                /\ (Is("C07") /\ ev = "reorder_keys") =>
                       Req(KeysOrdered(E.order, old.layers, E.keys), "not in key order")
                /\ LET r == Relabel(old, E.order)
                   IN  SameAs(r, "C07") /\ PutIndex(E.ix, r)

Step == /\ l <= Len(Ev)
        /\ Req(~(Has(E, "panic") /\ E.panic),
               IF E.ev = "save" /\ LongLists(Target.layers) THEN "panic saving 255 or more neighbours" ELSE "panic")
        /\ Same(E.ev)
        /\ l' = l + 1 /\ s' = s
        /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(File[s].sc)))

View == <<s, l>>
TraceSpec == TraceInit /\ [][Step]_tvars
=============================================================================
