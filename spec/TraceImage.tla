----------------------------- MODULE TraceImage -----------------------------
(***************************************************************************)
(* Saving and loading of indexes too large to write out: the content of an *)
(* index is opaque (its layer lengths and a digest of all neighbour sets). *)
(* Loading what was saved, and building nothing, changes no content.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
CONSTANT PROP
File == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, cur, img, ix
tvars == <<s, l, cur, img, ix>>
Ev == File[s].events
E == Ev[l]
Has(e, f) == f \in DOMAIN e
Put(f, k, v) == (k :> v) @@ f
Nothing == [digest |-> << >>, len |-> 0]
Reject(what) == PrintT("REJECT " \o ToJson(<<File[s].sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)
Content == [digest |-> E.digest, len |-> E.len]
Init == s \in 1..Len(File) /\ l = 1 /\ cur = Nothing /\ img = ("-" :> << >>) /\ ix = ("-" :> << >>)
Do == CASE E.ev \in {"begin", "end", "matrix"} -> UNCHANGED <<cur, img, ix>>
        [] E.ev \in {"new", "push", "build", "partial"} -> cur' = Nothing /\ UNCHANGED <<img, ix>>
        \* the content of a build is taken from the first observation
        [] E.ev = "digest" ->
              IF ~Has(E, "ix") /\ cur = Nothing THEN cur' = Content /\ UNCHANGED <<img, ix>>
              ELSE /\ Req(Content = (IF Has(E, "ix") THEN ix[E.ix] ELSE cur), <<"content", IF Has(E, "ix") THEN ix[E.ix] ELSE cur>>)
                   /\ UNCHANGED <<cur, img, ix>>
        [] E.ev = "craftbig" -> /\ ix' = Put(ix, E.ix, [digest |-> E.want, len |-> E.n])
                                /\ img' = (IF Has(E, "as") THEN Put(img, E.as, [digest |-> E.want, len |-> E.n]) ELSE img)
                                /\ UNCHANGED cur
        [] E.ev = "save" -> /\ Req(~Has(E, "err"), "save failed")
                            /\ img' = Put(img, E.as, IF Has(E, "ix") THEN ix[E.ix] ELSE cur) /\ UNCHANGED <<cur, ix>>
        [] E.ev = "resume" -> cur' = img[E.from] /\ UNCHANGED <<img, ix>>
        [] E.ev = "load" -> ix' = Put(ix, E.ix, img[E.from]) /\ UNCHANGED <<cur, img>>
        [] E.ev = "owned" -> ix' = Put(ix, E.ix, cur) /\ UNCHANGED <<cur, img>>
        [] E.ev = "samesearch" -> Req(E.res = E.res2, "answers differ") /\ UNCHANGED <<cur, img, ix>>
Step == /\ l <= Len(Ev)
        /\ Req(~(Has(E, "panic") /\ E.panic), "panic")
        /\ Do
        /\ l' = l + 1 /\ s' = s
        /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(File[s].sc)))
View == <<s, l>>
TraceSpec == Init /\ [][Step]_tvars
=============================================================================
