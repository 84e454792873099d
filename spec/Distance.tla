------------------------------ MODULE Distance ------------------------------
(***************************************************************************)
(* The angular distance, on integer vectors, by exact integer arithmetic   *)
(* (32 bits), with intervals where a square root is needed; quantisation   *)
(* to 8 bits; normalisation.  Distances come in millionths.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC, Json, IOUtils
CONSTANT PROP
Abs(x) == IF x < 0 THEN -x ELSE x
Dot(x, y) == FoldLeftDomain(LAMBDA a, i : a + x[i] * y[i], 0, x)
RECURSIVE ISqrt(_, _, _)      \* the largest r in lo..hi with r*r <= n
ISqrt(n, lo, hi) == IF lo >= hi THEN lo ELSE LET m == (lo + hi + 1) \div 2 IN IF m * m <= n THEN ISqrt(n, m, hi) ELSE ISqrt(n, lo, m - 1)
Root(n) == ISqrt(n, 0, 46340)
(* [m, s]: s/m is the square root of n > 0 to within one part in 20000 *)
Norm(n) == LET m == Root(2000000000 \div n) IN [m |-> m, s |-> Root(n * m * m)]
IsZero(x) == \A i \in 1..Len(x) : x[i] = 0
(* d = 1 - r/(|x||y|), give or take 3 in 10000; r the dot product *)
Near(d6, r, n1, n2) ==
    LET a == Norm(n1)
        b == Norm(n2)
        q == (a.s * b.s) \div 10000
        d == (d6 + 50) \div 100
    IN  Abs(((10000 - d) * q) \div 2 - (r * a.m * b.m) \div 2) <= 2 * q
(* same direction: every 2x2 minor vanishes (against the largest coordinate) *)
Big(x) == CHOOSE i \in 1..Len(x) : \A j \in 1..Len(x) : Abs(x[i]) >= Abs(x[j])
Collinear(x, y) == LET i == Big(x) IN \A j \in 1..Len(x) : x[i] * y[j] = x[j] * y[i]
DistRight(d6, x, y) ==
    /\ d6 >= 0
    /\ IF IsZero(x) \/ IsZero(y) THEN d6 = 1000000
       ELSE LET r == Dot(x, y) IN
            IF Collinear(x, y) THEN IF r > 0 THEN d6 <= 5 ELSE Abs(d6 - 2000000) <= 5
            ELSE Near(d6, r, Dot(x, x), Dot(y, y))
(* q is x with its largest magnitude scaled to 127, rounded up or down *)
Quantised(q, x) ==
    /\ Len(q) = Len(x)
    /\ IF IsZero(x) THEN IsZero(q)
       ELSE LET m == Abs(x[Big(x)]) IN
            \A i \in 1..Len(x) : /\ Abs(q[i] * m - 127 * x[i]) < m
                                 /\ (Abs(x[i]) = m => q[i] = 127 * (x[i] \div m))
(* vec (in units of 1/10000, rounded) is v normalised *)
Normalised(vec, v) ==
    LET n == Len(v)
        m == Big(v)
        len2 == FoldLeft(LAMBDA a, x : a + x * x, 0, vec)
        slack == FoldLeft(LAMBDA a, x : a + Abs(x) + 1, 0, vec)
    IN  /\ Len(vec) = n
        /\ IF n = 0 \/ v[m] = 0 THEN \A j \in 1..n : vec[j] = 0
           ELSE /\ Abs(len2 - 100000000) <= slack
                /\ (vec[m] > 0) = (v[m] > 0)
                /\ \A j \in 1..n : Abs(vec[j] * v[m] - vec[m] * v[j]) <= Abs(v[m]) + Abs(v[j])

(* ---------------------------------------------------------------- traces *)
File == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
tvars == <<s, l>>
H == File[s]
Ev == H.events
E == Ev[l]
Reject(what) == PrintT("REJECT " \o ToJson(<<H.sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)
SumOf(terms) == TLCEval(FoldLeft(LAMBDA acc, t : LET e == H.emb[t + 1] IN TLCEval([j \in 1..H.dim |-> acc[j] + e[j]]), [j \in 1..H.dim |-> 0], terms))
(* the vectors the distances are between *)
V == IF H.kind = "sum" THEN TLCEval([i \in 1..Len(H.rows) |-> SumOf(H.rows[i])]) ELSE H.rows
Check ==
    CASE E.ev = "dists" ->
           LET n == Len(E.D)
               v == IF H.kind \in {"int", "raw"} THEN E.q ELSE V
           IN  /\ H.kind = "int" => \A i \in 1..n : Req(Quantised(E.q[i], H.rows[i]), <<"quantised", i, E.q[i], H.rows[i]>>)
               /\ H.kind = "raw" => Req(E.q = H.rows, "stored as given")
               /\ H.kind \in {"ang", "sum"} => \A i \in 1..n : Req(Normalised(E.q[i], v[i]), <<"normalised", i, E.q[i], v[i]>>)
               /\ \A i, j \in 1..n : Req(DistRight(E.D[i][j], v[i], v[j]), <<"distance", i, j, E.D[i][j]>>)
               /\ \A i, j \in 1..n : /\ Req(E.bits[i][j] >= 0, <<"negative", i, j>>)
                                     /\ Req(E.bits[i][j] = E.bits[j][i], <<"symmetric", i, j>>)
      [] E.ev = "path" -> Req(E.bits = (CHOOSE x \in {Ev[i] : i \in 1..(l - 1)} : x.ev = "dists").bits, <<"path", E.path>>)
      \* arbitrary numbers: the largest magnitudes (positions given) are +-127, the others within
      [] E.ev = "peaks" -> \A i \in 1..Len(E.q) : Req(\A j \in 1..Len(E.q[i]) : /\ Abs(E.q[i][j]) <= 127
                                                            /\ (E.peak[i][j] # 0 => E.q[i][j] = 127 * E.peak[i][j]), <<"largest magnitude", i, E.q[i], E.peak[i]>>)
      [] OTHER -> TRUE
Init == s \in 1..Len(File) /\ l = 1
Step == /\ l <= Len(Ev)
        /\ Req(~("panic" \in DOMAIN E /\ E.panic), <<"panic", IF "msg" \in DOMAIN E THEN E.msg ELSE "">>)
        /\ Check
        /\ l' = l + 1 /\ s' = s
        /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(H.sc)))
TraceSpec == Init /\ [][Step]_tvars
=============================================================================
