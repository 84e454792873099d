---------------------------- MODULE IndexFormat -----------------------------
(***************************************************************************)
(* The file formats, version 2, as sequences of bytes (C20).               *)
(*                                                                         *)
(* Index: 1024 bytes of header - "granne", a JSON object, spaces - and for *)
(* each layer, of the size the header says:                                *)
(*   u64 (little endian)  length of the offset table in bytes              *)
(*   chunks of 128 bytes: u64 initial offset, 60 u16 deltas; 65535: unused *)
(*   the nodes: a count, then either count u32 numbers or - if that is     *)
(*   shorter - the numbers (at least 4) in stream-vbyte coding.  The       *)
(*   numbers are the sorted neighbour ids, each minus the one before.      *)
(* Vectors: u64 width, then f32 or i8.  Sums: u64 number of elements,      *)
(* 5-byte offsets (one more than elements), 3-byte ids.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Pow256 == <<1, 256, 65536, 16777216>>
Least(a, b) == IF a < b THEN a ELSE b
Most(a, b) == IF a < b THEN b ELSE a
(* the number in n bytes from position p (from 1) on; numbers up to 2^31 - 1, otherwise -1 *)
Num(b, p, n) ==
    IF p + n - 1 > Len(b) THEN -1
    ELSE IF (\E i \in 5..n : b[p + i - 1] # 0) \/ (n >= 4 /\ b[p + 3] > 127) THEN -1
    ELSE FoldLeft(LAMBDA a, i : a + b[p + i - 1] * Pow256[i], 0, [i \in 1..Least(n, 4) |-> i])
(* the same, as a signed 32-bit number *)
Signed(b, p) == LET hi == b[p + 3] IN b[p] + b[p + 1] * 256 + b[p + 2] * 65536 + (IF hi > 127 THEN hi - 256 ELSE hi) * 16777216
Bytes(x, n) == [i \in 1..n |-> IF i > 4 THEN 0 ELSE (x \div Pow256[i]) % 256]

(* ---------------------------------------------------------------- nodes *)
Sums(deltas) == FoldLeft(LAMBDA acc, d : Append(acc, (IF acc = << >> THEN 0 ELSE Last(acc)) + d), << >>, deltas)
Deltas(ids) == [i \in 1..Len(ids) |-> IF i = 1 THEN ids[1] ELSE ids[i] - ids[i - 1]]
(* stream-vbyte: two bits for the length of each number, four to a byte, then the numbers *)
Code(ctrl, i) == (ctrl[((i - 1) \div 4) + 1] \div (4 ^ ((i - 1) % 4))) % 4
VDecode(b, n) ==
    LET k == (n + 3) \div 4
        step(acc, i) == LET w == Code(b, i) + 1 IN [p |-> acc.p + w, ns |-> Append(acc.ns, Num(b, acc.p, w))]
    IN  IF Len(b) < k THEN [ok |-> FALSE, ns |-> << >>]
        ELSE LET r == FoldLeft(step, [p |-> k + 1, ns |-> << >>], [i \in 1..n |-> i])
             IN  [ok |-> r.p = Len(b) + 1 /\ \A i \in 1..n : r.ns[i] >= 0, ns |-> r.ns]
Width(x) == IF x < 256 THEN 1 ELSE IF x < 65536 THEN 2 ELSE IF x < 16777216 THEN 3 ELSE 4
VEncode(ns) ==
    LET k == (Len(ns) + 3) \div 4
        bits(i) == IF i > Len(ns) THEN 0 ELSE Width(ns[i]) - 1
    IN  [c \in 1..k |-> bits(4 * c - 3) + 4 * bits(4 * c - 2) + 16 * bits(4 * c - 1) + 64 * bits(4 * c)]
        \o FlattenSeq([i \in 1..Len(ns) |-> Bytes(ns[i], Width(ns[i]))])
Padded(ns) == [i \in 1..Most(4, Len(ns)) |-> IF i <= Len(ns) THEN ns[i] ELSE 0]
(* [ok, ids]: what the bytes of a node say *)
NodeOf(b) ==
    IF b = << >> THEN [ok |-> FALSE, ids |-> << >>]
    ELSE LET count == b[1]
             rest == Tail(b)
         IN  IF Len(rest) = 4 * count
             THEN LET ns == [i \in 1..count |-> Num(rest, 4 * i - 3, 4)] IN [ok |-> \A i \in 1..count : ns[i] >= 0, ids |-> Sums(ns)]
             ELSE LET r == VDecode(rest, Most(4, count)) IN [ok |-> r.ok, ids |-> IF r.ok THEN Sums(SubSeq(r.ns, 1, count)) ELSE << >>]
NodeBytes(ids) ==
    LET ds == Deltas(ids)
        v == VEncode(Padded(ds))
    IN  <<Len(ids)>> \o (IF Len(v) < 4 * Len(ids) THEN v ELSE FlattenSeq([i \in 1..Len(ds) |-> Bytes(ds[i], 4)]))

(* ---------------------------------------------------------------- layers *)
PerChunk == 60
ChunkLen == 128
(* the offsets in the chunk at position p *)
ChunkAt(b, p) ==
    LET ds == [i \in 1..PerChunk |-> Num(b, p + 6 + 2 * i, 2)]
        used == IF \E i \in 1..PerChunk : ds[i] = 65535 THEN (CHOOSE i \in 1..PerChunk : ds[i] = 65535 /\ \A j \in 1..(i - 1) : ds[j] # 65535) - 1 ELSE PerChunk
        init == Num(b, p, 8)
        os == Sums(SubSeq(ds, 1, used))
    IN  [ok |-> init >= 0 /\ \A i \in (used + 1)..PerChunk : ds[i] = 65535, offs |-> [i \in 1..used |-> init + os[i]]]
(* [ok, nodes] *)
LayerOf(b) ==
    LET tab == Num(b, 1, 8)
        chunks == tab \div ChunkLen
        cs == TLCEval([c \in 1..chunks |-> ChunkAt(b, 9 + (c - 1) * ChunkLen)])
        offs == TLCEval(FlattenSeq([c \in 1..chunks |-> cs[c].offs]))
        data == 8 + tab
    IN  IF tab < ChunkLen \/ tab % ChunkLen # 0 \/ data > Len(b) THEN [ok |-> FALSE, nodes |-> << >>]
        ELSE IF ~(/\ \A c \in 1..chunks : cs[c].ok
                  /\ \A c \in 1..(chunks - 1) : Len(cs[c].offs) = PerChunk
                  /\ Len(offs) >= 1 /\ offs[1] = 0 /\ Last(offs) = Len(b) - data
                  /\ \A i \in 1..(Len(offs) - 1) : offs[i] <= offs[i + 1])
        THEN [ok |-> FALSE, nodes |-> << >>]
        ELSE LET ns == TLCEval([i \in 1..(Len(offs) - 1) |-> NodeOf(SubSeq(b, data + offs[i] + 1, data + offs[i + 1]))])
             IN  [ok |-> \A i \in 1..Len(ns) : ns[i].ok, nodes |-> [i \in 1..Len(ns) |-> ns[i].ids]]
LayerBytes(nodes) ==
    LET ns == TLCEval([i \in 1..Len(nodes) |-> NodeBytes(nodes[i])])
        offs == TLCEval(<<0>> \o Sums([i \in 1..Len(ns) |-> Len(ns[i])]))
        chunks == 1 + Len(nodes) \div PerChunk
        off(c, i) == (c - 1) * PerChunk + i
        delta(c, i) == IF off(c, i) > Len(offs) THEN 65535 ELSE IF i = 1 THEN 0 ELSE offs[off(c, i)] - offs[off(c, i) - 1]
        chunk(c) == Bytes(IF off(c, 1) > Len(offs) THEN 0 ELSE offs[off(c, 1)], 8) \o FlattenSeq([i \in 1..PerChunk |-> Bytes(delta(c, i), 2)])
    IN  Bytes(chunks * ChunkLen, 8) \o FlattenSeq([c \in 1..chunks |-> chunk(c)]) \o FlattenSeq(ns)
(* the layers in a body (what follows the header), of the given sizes *)
BodyOf(b, sizes) ==
    LET ends == Sums(sizes)
    IN  IF (sizes = << >> /\ b # << >>) \/ (sizes # << >> /\ Last(ends) # Len(b)) THEN [ok |-> FALSE, layers |-> << >>]
        ELSE LET ls == TLCEval([i \in 1..Len(sizes) |-> LayerOf(TLCEval(SubSeq(b, ends[i] - sizes[i] + 1, ends[i])))])
             IN  [ok |-> \A i \in 1..Len(ls) : ls[i].ok, layers |-> [i \in 1..Len(ls) |-> ls[i].nodes]]

(* ---------------------------------------------------------------- elements *)
(* [ok, els]; size: bytes of a scalar, 1 (signed) or 4 (the bits, as a signed number) *)
VectorsOf(b, size) ==
    LET w == Num(b, 1, 8)
        n == IF w <= 0 THEN 0 ELSE (Len(b) - 8) \div (w * size)
        at(i, j) == 9 + ((i - 1) * w + j - 1) * size
    IN  [ok |-> w >= 0 /\ Len(b) = 8 + n * w * size, width |-> w,
         els |-> [i \in 1..n |-> [j \in 1..w |-> IF size = 4 THEN Signed(b, at(i, j)) ELSE LET x == b[at(i, j)] IN IF x > 127 THEN x - 256 ELSE x]]]
SumsOf(b) ==
    LET n == Num(b, 1, 8)
        off(i) == Num(b, 9 + 5 * i, 5)
        data == 8 + 5 * (n + 1)
    IN  IF n < 0 \/ data > Len(b) THEN [ok |-> FALSE, els |-> << >>]
        ELSE [ok |-> off(0) = 0 /\ data + 3 * off(n) = Len(b) /\ \A i \in 1..n : off(i - 1) <= off(i),
              els |-> [i \in 1..n |-> [j \in 1..(off(i) - off(i - 1)) |-> Num(b, data + 1 + 3 * (off(i - 1) + j - 1), 3)]]]
=============================================================================
