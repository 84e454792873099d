----------------------------- MODULE Collections ----------------------------
(***************************************************************************)
(* Element collections (angular / angular_int Vectors, SumEmbeddings) as   *)
(* sequences.  A slot holds a collection: its elements (numbers of rows of *)
(* a table of contents), its dimension, and how it is stored.  The storage *)
(* form never shows in what a slot contains.                               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

VARIABLES slots,   \* name -> [els, dim, form, frozen]
          imgs     \* name -> [els, dim]: saved collections

Put(f, k, v) == (k :> v) @@ f
Slot(els, dim, form) == [els |-> els, dim |-> dim, form |-> form, frozen |-> FALSE]

(* a dense collection gets its dimension with its first element, or from   *)
(* the start if it is made from an array (how is in FromArray); a sum      *)
(* collection has the dimension of its embeddings from the start           *)
Grown(c, els, dim) == [c EXCEPT !.els = @ \o els, !.dim = IF @ = 0 /\ els # << >> THEN dim ELSE @, !.form = "owned"]

FromArray == {"from_vec", "from_slice"}
New(k, els, dim, how) == slots' = Put(slots, k, Slot(els, IF els = << >> /\ how \notin FromArray THEN 0 ELSE dim, "owned")) /\ UNCHANGED imgs
Push(k, els, dim) == /\ ~slots[k].frozen
                     /\ slots' = Put(slots, k, Grown(slots[k], els, dim)) /\ UNCHANGED imgs
Extend(k, j) == /\ ~slots[k].frozen
                /\ slots' = Put(slots, k, [Grown(slots[k], slots[j].els, slots[j].dim)
                                           EXCEPT !.dim = IF slots[k].dim = 0 THEN slots[j].dim ELSE slots[k].dim])
                /\ UNCHANGED imgs
Clone(k, j) == slots' = Put(slots, k, [slots[j] EXCEPT !.frozen = FALSE, !.form = IF @ = "borrowed" THEN "borrowed" ELSE "owned"]) /\ UNCHANGED imgs
Borrow(k, j) == /\ slots' = Put(Put(slots, j, [slots[j] EXCEPT !.frozen = TRUE]), k, [slots[j] EXCEPT !.frozen = FALSE, !.form = "borrowed"])
                /\ UNCHANGED imgs
Own(k) == slots' = Put(slots, k, [slots[k] EXCEPT !.form = "owned"]) /\ UNCHANGED imgs
(* the element at perm[i] moves to i *)
Permuted(els, perm) == [i \in 1..Len(els) |-> els[perm[i] + 1]]
Permute(k, perm) == /\ ~slots[k].frozen
                    /\ {perm[i] : i \in 1..Len(perm)} = 0..(Len(slots[k].els) - 1)
                    /\ slots' = Put(slots, k, [slots[k] EXCEPT !.els = Permuted(@, perm), !.form = "owned"]) /\ UNCHANGED imgs
Save(a, k) == imgs' = Put(imgs, a, [els |-> slots[k].els, dim |-> slots[k].dim]) /\ UNCHANGED slots
Load(k, a, form) == slots' = Put(slots, k, Slot(imgs[a].els, imgs[a].dim, form)) /\ UNCHANGED imgs
=============================================================================
