----------------------------- MODULE TextInput ------------------------------
(***************************************************************************)
(* Text input (C17).  Text is a sequence of code points.  A line describes *)
(* an element: its known words, as numbers, after the last colon.  An      *)
(* input is a file or a directory of parts, read in the order of their     *)
(* names; whether a part is compressed does not matter.                    *)
(***************************************************************************)
EXTENDS Distance
Colon == 58
White == (9..13) \cup {32, 133, 160, 5760} \cup (8192..8202) \cup {8232, 8233, 8239, 8287, 12288}
RECURSIVE AfterColon(_)
AfterColon(t) == LET is == {i \in 1..Len(t) : t[i] = Colon}
                 IN  IF is = {} THEN t ELSE SubSeq(t, (CHOOSE i \in is : \A j \in is : j <= i) + 1, Len(t))
(* the words of t *)
Words(t) == LET step(acc, ch) == IF ch \in White THEN (IF acc.w = << >> THEN acc ELSE [ws |-> Append(acc.ws, acc.w), w |-> << >>])
                                 ELSE [acc EXCEPT !.w = Append(@, ch)]
                r == FoldLeft(step, [ws |-> << >>, w |-> << >>], t)
            IN  IF r.w = << >> THEN r.ws ELSE Append(r.ws, r.w)
(* words is the word list of the history, a sequence of different texts *)
Ids(words, t) == LET ws == SelectSeq(Words(AfterColon(t)), LAMBDA w : \E i \in 1..Len(words) : words[i] = w)
                 IN  [i \in 1..Len(ws) |-> (CHOOSE k \in 1..Len(words) : words[k] = ws[i]) - 1]
RECURSIVE Before(_, _)        \* order of names
Before(a, b) == IF b = << >> THEN FALSE ELSE IF a = << >> THEN TRUE
                ELSE IF Head(a) = Head(b) THEN Before(Tail(a), Tail(b)) ELSE Head(a) < Head(b)
Elements(words, parts) ==
    LET ps == SortSeq(parts, LAMBDA a, b : Before(a.name, b.name))
    IN  TLCEval(FlattenSeq([p \in 1..Len(ps) |-> [i \in 1..Len(ps[p].lines) |-> Ids(words, ps[p].lines[i])]]))
Els == Elements(H.words, H.parts)
N == FoldLeft(LAMBDA a, p : a + Len(p.lines), 0, H.parts)
ShardName(i) == (IF E.stem = "" THEN "elements" ELSE E.stem) \o "-" \o ToString(i) \o "." \o (IF E.ext = "" THEN "bin" ELSE E.ext)

Judge ==
    CASE E.ev = "words" -> Req(E.ids = [i \in 1..Len(H.words) |-> i - 1] /\ E.n = Len(H.words), "word numbers")
      [] E.ev = "parsed" -> /\ Req(E.els = Els, <<"elements", Els>>)
                            /\ Req(E.count = N, <<"count", N>>)
      [] E.ev = "shards" -> /\ Req(ToSet(E.names) = {ShardName(i) : i \in 0..(E.k - 1)}, <<"shard names", E.k>>)
                            /\ Req(FlattenSeq(E.els) = Els, <<"shards together", E.k, Els>>)
                            /\ Req(E.count = N, <<"count", N>>)
      [] E.ev = "vectors" -> /\ Req(E.len = N, <<"number of vectors", N>>)
                             /\ (N > 0 => Req(E.dim = H.dim, <<"dimension", H.dim>>))
                             /\ LET els == Els IN
                                \A i \in 1..N : LET v == SumOf(els[i]) IN Req(Quantised(E.q[i], v), <<"vector", i, E.q[i], v>>)
      [] E.ev = "full" -> Req(~E.returned, <<"returned although the device is full", E.what>>)
      [] OTHER -> TRUE
TextStep == /\ l <= Len(Ev)
            /\ Req(~("panic" \in DOMAIN E /\ E.panic), <<"panic", IF "msg" \in DOMAIN E THEN E.msg ELSE "">>)
            /\ Judge
            /\ l' = l + 1 /\ s' = s
            /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(H.sc)))
TextSpec == Init /\ [][TextStep]_tvars
=============================================================================
