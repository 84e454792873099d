----------------------------- MODULE TraceColl ------------------------------
(***************************************************************************)
(* Validates recorded collection histories against Collections (C02), and  *)
(* what the elements of sum collections are (C15).                         *)
(***************************************************************************)
EXTENDS Collections, Json, IOUtils
CONSTANT PROP
File == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
tvars == <<s, l, slots, imgs>>
H == File[s]
Ev == H.events
E == Ev[l]
Has(e, f) == f \in DOMAIN e
Is(p) == PROP = p
Reject(what) == PrintT("REJECT " \o ToJson(<<H.sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)
Sum == H.kind = "sum"

(* what the rows contain, on their own: H.desc *)
Desc(els) == [i \in 1..Len(els) |-> H.desc[els[i] + 1]]
Dim(c) == IF Sum THEN H.dim ELSE c.dim

(* --- C15: sums.  Embeddings are integer vectors, given by a table or by a formula *)
Emb(t) == IF Has(H, "embn") THEN TLCEval([j \in 1..H.dim |-> ((t * (j + 6)) % 201) - 100]) ELSE H.emb[t + 1]
Zero == [j \in 1..H.dim |-> 0]
SumOf(terms) == TLCEval(FoldLeft(LAMBDA acc, t : LET e == Emb(t) IN TLCEval([j \in 1..H.dim |-> acc[j] + e[j]]), Zero, terms))
Abs(x) == IF x < 0 THEN -x ELSE x
(* vec (in units of 1/10000, rounded) is v normalised: of length one, proportional to v and *)
(* pointing the same way; coordinates of v up to 100000                                     *)
Normalised(vec, v) ==
    LET n == Len(v)
        m == CHOOSE i \in 1..n : \A j \in 1..n : Abs(v[i]) >= Abs(v[j])
        len2 == FoldLeft(LAMBDA a, x : a + x * x, 0, vec)
        slack == FoldLeft(LAMBDA a, x : a + Abs(x) + 1, 0, vec)
    IN  /\ Len(vec) = n
        /\ IF n = 0 \/ v[m] = 0 THEN \A j \in 1..n : vec[j] = 0
           ELSE /\ Abs(len2 - 100000000) <= slack
                /\ (vec[m] > 0) = (v[m] > 0)
                /\ \A j \in 1..n : Abs(vec[j] * v[m] - vec[m] * v[j]) <= Abs(v[m]) + Abs(v[j])
(* terms by decreasing norm; equal norms in any order *)
Norm2(t) == LET e == Emb(t) IN FoldLeft(LAMBDA a, x : a + x * x, 0, e)
Norms(els) == LET ts == UNION {ToSet(H.rows[els[i] + 1]) : i \in 1..Len(els)} IN TLCEval([t \in ts |-> Norm2(t)])
First8(ts) == SubSeq(ts, 1, IF Len(ts) < 8 THEN Len(ts) ELSE 8)
(* -1, 0, 1 as the first difference says; a proper prefix does not come after what extends it *)
RECURSIVE Cmp(_, _)
Cmp(a, b) == IF a = << >> /\ b = << >> THEN {0}
             ELSE IF a = << >> THEN {-1, 0} ELSE IF b = << >> THEN {0, 1}
             ELSE IF Head(a) = Head(b) THEN Cmp(Tail(a), Tail(b))
             ELSE IF Head(a) < Head(b) THEN {-1} ELSE {1}
KeysRight(all, cmp) ==
    LET els == SubSeq(all, 1, Len(cmp))
        norm == Norms(els)
        ts == DOMAIN norm
        distinct == Cardinality({norm[t] : t \in ts}) = Cardinality(ts)
        first == TLCEval([i \in 1..Len(els) |-> First8(SortSeq(H.rows[els[i] + 1], LAMBDA a, b : norm[a] > norm[b]))])
    IN  distinct => \A i, j \in 1..Len(cmp) : cmp[i][j] \in Cmp(first[i], first[j])

(* the observation o of a slot's collection c *)
SlotIs(k, c, o) ==
    /\ Is("C02") =>
         /\ Req(o.len = Len(c.els), <<"length", k, Len(c.els)>>)
         /\ Req(o.empty = (c.els = << >>), <<"is_empty", k>>)
         /\ Req(o.dim = Dim(c), <<"dimension", k, Dim(c)>>)
         /\ Req(o.els = Desc(c.els), <<"elements", k, c.els>>)
         /\ Has(o, "got") => Req(o.got = Desc(c.els), <<"elements through get", k, c.els>>)
         /\ Has(o, "flat") => Req(o.flat = FlattenSeq(Desc(c.els)), <<"as_slice", k>>)
    /\ Is("C15") =>
         /\ Req(o.els = Desc(c.els), <<"terms", k, c.els>>)
         /\ Has(o, "num") => Req(o.num = H.num, <<"embeddings", k>>)
         /\ Has(o, "sums") => \A i \in 1..Len(c.els) :
              LET v == SumOf(H.rows[c.els[i] + 1])
              IN  /\ Req(o.sums[i] = v, <<"sum", k, i, v>>)
                  /\ Req(o.created[i] = v, <<"create_embedding", k, i, v>>)
                  /\ Req(Normalised(o.vecs[i], v), <<"vector", k, i, v>>)
         /\ Has(o, "nkeys") => Req(o.nkeys = Len(c.els), <<"number of keys", k>>)
         /\ Has(o, "cmp") => Req(KeysRight(c.els, o.cmp), <<"keys", k, c.els>>)

Observed == \A k \in DOMAIN E.all : SlotIs(k, slots'[k], E.all[k])

Init == s \in 1..Len(File) /\ l = 1 /\ slots = ("-" :> << >>) /\ imgs = ("-" :> << >>)
Do == CASE E.ev \in {"begin", "end"} -> UNCHANGED <<slots, imgs>>
        [] E.ev = "new" -> New(E.k, E.rows, H.dim, E.how)
        [] E.ev = "push" -> Push(E.k, E.rows, H.dim)
        [] E.ev = "extend" -> Extend(E.k, E.j)
        [] E.ev = "clone" -> Clone(E.k, E.j)
        [] E.ev = "borrow" -> Borrow(E.k, E.j)
        [] E.ev = "own" -> Own(E.k)
        [] E.ev = "permute" -> Permute(E.k, E.perm)
        [] E.ev = "save" -> /\ Save(E.a, E.k)
                            /\ Is("C02") => Req(E.reported = E.bytes, <<"bytes written", E.bytes>>)
                            /\ (Is("C02") /\ Has(E, "ereported")) => Req(E.ereported = E.ebytes, <<"bytes of embeddings written", E.ebytes>>)
        [] E.ev = "load" -> Load(E.k, E.a, IF E.how = "file" THEN "mapped" ELSE "borrowed")
        [] E.ev = "create" -> /\ Is("C15") => \A i \in 1..Len(E.lists) : Req(E.res[i] = SumOf(E.lists[i]), <<"create_embedding", SumOf(E.lists[i])>>)
                              /\ UNCHANGED <<slots, imgs>>
\* a permutation of a large collection, elements as opaque numbers
        [] E.ev = "bigpermute" -> /\ Req(E.after = Permuted(E.before, E.perm), "permuted wrongly")
                                  /\ UNCHANGED <<slots, imgs>>
Step == /\ l <= Len(Ev)
        /\ Req(~(Has(E, "panic") /\ E.panic), <<"panic", IF Has(E, "msg") THEN E.msg ELSE "">>)
        /\ Do
        /\ Has(E, "all") => Observed
        /\ l' = l + 1 /\ s' = s
        /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(H.sc)))
View == <<s, l>>
TraceSpec == Init /\ [][Step]_tvars
=============================================================================
