------------------------------ MODULE SliceVec ------------------------------
(***************************************************************************)
(* How the library stores collections of slices - one array of data, one   *)
(* of offsets (variable width), or a width (fixed width), copied when a    *)
(* shared one is changed - against the sequences they stand for.           *)
(* VARIANT names a mistake, for which Faithful must be violated.           *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets
CONSTANTS VARIANT, MaxEls, MaxWidth, Vals, FIXED
VARIABLES seqs,          \* what the two collections stand for
          reps,          \* representations: [off, data] or [width, data], shared: number of a heap cell
          heap           \* cell -> [off, data, width]
vars == <<seqs, reps, heap>>
Slices == IF FIXED THEN [1..MaxWidth -> Vals] ELSE UNION {[1..w -> Vals] : w \in 0..MaxWidth}
Empty == [off |-> <<0>>, data |-> << >>, width |-> 0]
Len0(r) == IF FIXED THEN (IF r.width = 0 THEN 0 ELSE Len(r.data) \div r.width) ELSE Len(r.off) - 1
Elem(r, i) == IF FIXED THEN SubSeq(r.data, (i - 1) * r.width + 1, i * r.width) 
              ELSE IF r.off[i + 1] > Len(r.data) THEN <<-1>> ELSE SubSeq(r.data, r.off[i] + 1, r.off[i + 1])
Abst(r) == [i \in 1..Len0(r) |-> Elem(r, i)]
Pushed(r, x) == IF FIXED THEN [r EXCEPT !.data = @ \o x, !.width = IF @ = 0 THEN Len(x) ELSE @]
                ELSE [r EXCEPT !.data = @ \o x, !.off = Append(@, Len(r.data) + Len(x))]
Joined(r, q) == IF FIXED THEN [r EXCEPT !.data = @ \o q.data, !.width = IF @ = 0 /\ VARIANT # "nowidth" THEN q.width ELSE @]
                ELSE [r EXCEPT !.data = @ \o q.data,
                               !.off = @ \o [i \in 1..(Len(q.off) - 1) |-> (IF VARIANT = "noshift" THEN 0 ELSE Last(r.off)) + q.off[i + 1]]]
Part(r, b, e) == IF FIXED THEN [r EXCEPT !.data = SubSeq(@, b * r.width + 1, e * r.width)]
                  ELSE [r EXCEPT !.data = SubSeq(@, r.off[b + 1] + 1, r.off[e + 1]),
                                 !.off = [i \in 1..(e - b + 1) |-> r.off[b + i] - (IF VARIANT = "norebase" THEN 0 ELSE r.off[b + 1])]]
(* the file: count or width, offsets, data *)
Bytes(r) == IF FIXED THEN <<r.width>> \o r.data ELSE <<Len(r.off)>> \o r.off \o r.data
Parse(b) == IF FIXED THEN [off |-> <<0>>, width |-> b[1], data |-> Tail(b)]
            ELSE [off |-> SubSeq(b, 2, b[1] + 1), data |-> SubSeq(b, b[1] + 2, Len(b)), width |-> 0]
RECURSIVE Build(_, _)
Build(r, xs) == IF xs = << >> THEN r ELSE Build(Pushed(r, Head(xs)), Tail(xs))
Perms(n) == {p \in [1..n -> 1..n] : \A i, j \in 1..n : p[i] = p[j] => i = j}

(* a change goes to a cell of its own when the old one is shared *)
Change(k, new, els) ==
    LET shared == reps[3 - k] = reps[k]
        cell == IF shared /\ VARIANT # "nocopy" THEN CHOOSE x \in 1..2 : x # reps[k] ELSE reps[k]
    IN  /\ heap' = [heap EXCEPT ![cell] = new]
        /\ reps' = [reps EXCEPT ![k] = cell]
        /\ seqs' = [seqs EXCEPT ![k] = els]
R(k) == heap[reps[k]]
Init == seqs = <<<< >>, << >>>> /\ reps = <<1, 2>> /\ heap = <<Empty, Empty>>
Push(k) == \E x \in Slices : Len(seqs[k]) < MaxEls /\ Change(k, Pushed(R(k), x), Append(seqs[k], x))
Extend(k) == /\ Len(seqs[1]) + Len(seqs[2]) <= MaxEls
             /\ Change(k, Joined(R(k), R(3 - k)), seqs[k] \o seqs[3 - k])
Permute(k) == \E p \in Perms(Len(seqs[k])) :
                 Change(k, Build(Empty, [i \in 1..Len(p) |-> Elem(R(k), p[i])]), [i \in 1..Len(p) |-> seqs[k][p[i]]])
Shard(k) == \E b, e \in 0..Len(seqs[k]) : b <= e /\ Change(k, Parse(Bytes(Part(R(k), b, e))), SubSeq(seqs[k], b + 1, e))
Share(k) == /\ reps[k] # reps[3 - k]      \* borrow, or clone of a borrowed or mapped one
            /\ reps' = [reps EXCEPT ![k] = reps[3 - k]] /\ seqs' = [seqs EXCEPT ![k] = seqs[3 - k]] /\ UNCHANGED heap
Next == \E k \in 1..2 : Push(k) \/ Extend(k) \/ Permute(k) \/ Shard(k) \/ Share(k)
Spec == Init /\ [][Next]_vars
Faithful == \A k \in 1..2 : Abst(R(k)) = seqs[k]
=============================================================================
