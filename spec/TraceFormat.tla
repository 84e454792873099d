---------------------------- MODULE TraceFormat -----------------------------
(***************************************************************************)
(* Files written by the library mean what IndexFormat says (C20), and the  *)
(* library reads what IndexFormat writes.                                  *)
(***************************************************************************)
EXTENDS IndexFormat, Json, IOUtils
CONSTANT PROP
File == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l
tvars == <<s, l>>
H == File[s]
Ev == H.events
E == Ev[l]
Has(e, f) == f \in DOMAIN e
Reject(what) == PrintT("REJECT " \o ToJson(<<H.sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)
Sorted(ls) == [i \in 1..Len(ls) |-> [j \in 1..Len(ls[i]) |-> SortSeq(ls[i][j], LAMBDA a, b : a < b)]]
Header ==
    LET h == E.header IN
    /\ Req(h.prefix = "granne" /\ h.padding /\ h.version = 2 /\ h.compressed, <<"header", h>>)
    /\ Req(h.num_layers = Len(E.dump) /\ h.layer_counts = [i \in 1..Len(E.dump) |-> Len(E.dump[i])] /\ Len(h.layer_sizes) = Len(E.dump), "layers in header")
    /\ Req(h.num_elements = (IF E.dump = << >> THEN 0 ELSE Len(Last(E.dump))), "number of elements in header")
BigHeader ==
    LET h == E.header IN
    Req(h.prefix = "granne" /\ h.padding /\ h.version = 2 /\ h.compressed /\ h.num_layers = Len(E.lens) /\ h.layer_counts = E.lens /\ h.num_elements = Last(E.lens)
        /\ Last(Sums(h.layer_sizes)) = E.size, <<"header", h>>)
(* one chunk of the offset table of a large layer, and the nodes it covers *)
Window ==
    LET ch == ChunkAt(E.chunk, 1)
        offs == IF E.next = << >> THEN ch.offs ELSE Append(ch.offs, ChunkAt(E.next, 1).offs[1])
    IN  /\ Req(E.table = ChunkLen * (1 + E.len \div PerChunk), <<"table", E.table, E.len>>)
        /\ Req(ch.ok /\ Len(ch.offs) = Least(PerChunk, E.len + 1 - E.c * PerChunk), <<"chunk", ch>>)
        /\ Req(Len(offs) - 1 = Len(E.lists), <<"nodes", Len(E.lists)>>)
        /\ Req(offs[1] = E.base, "start")
        /\ \A i \in 1..(Len(offs) - 1) :
              LET n == NodeOf(SubSeq(E.data, offs[i] - E.base + 1, offs[i + 1] - E.base))
              IN  Req(n.ok /\ n.ids = SortSeq(E.lists[i], LAMBDA a, b : a < b), <<"node", E.c, i, n, E.lists[i]>>)
Judge ==
    CASE E.ev = "index" -> /\ Header
                           /\ LET r == BodyOf(E.bytes, E.header.layer_sizes)
                              IN  /\ Req(r.ok, "body")
                                  /\ Req(r.layers = Sorted(E.dump), <<"graph", r.layers>>)
      [] E.ev = "bigindex" -> BigHeader
      [] E.ev = "window" -> Window
      [] E.ev = "vectors" -> LET r == VectorsOf(E.bytes, E.size)
                             IN  Req(r.ok /\ r.els = E.els /\ r.width = E.dim, <<"vectors", r>>)
      [] E.ev = "sums" -> LET r == SumsOf(E.bytes) IN Req(r.ok /\ r.els = E.els, <<"sums", r>>)
      \* an index made by LayerBytes
      [] E.ev = "read" -> Req(Sorted(E.dump) = E.layers, <<"read", E.how, E.layers>>)
      \* a saved file of an earlier build: its recorded contents
      [] E.ev = "golden" -> Req(Sorted(E.dump) = Sorted(E.want) /\ E.els = E.wantels, <<"contents", E.how, E.file>>)
      [] OTHER -> TRUE
Init == s \in 1..Len(File) /\ l = 1
Step == /\ l <= Len(Ev)
        /\ Req(~(Has(E, "panic") /\ E.panic), <<"panic", IF Has(E, "msg") THEN E.msg ELSE "">>)
        /\ Judge
        /\ l' = l + 1 /\ s' = s
        /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(H.sc)))
TraceSpec == Init /\ [][Step]_tvars
=============================================================================
