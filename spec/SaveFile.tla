------------------------------ MODULE SaveFile ------------------------------
(***************************************************************************)
(* Saving an index: the protocol of index/io.rs write_index on a device    *)
(* that may accept writes partially, interrupt them, or fail, and that may *)
(* stop for good at any moment (a crash).                                  *)
(*                                                                         *)
(* The image consists of HDR header cells followed, per layer, by OFFS     *)
(* cells of offsets and VALS cells of values.  The values of a layer are   *)
(* written before its offsets and the header is written last, over the gap *)
(* left for it.  Writes go through a buffer of BUF cells; a seek empties   *)
(* the buffer first.                                                       *)
(*                                                                         *)
(* VARIANT: "none", or a deviation that has to be rejected:                *)
(*   headerfirst - the header is written before the layers                 *)
(*   noflush     - the buffer is left to be emptied by its destructor,     *)
(*                 which cannot report an error                            *)
(*   swallow     - an error while the values are written is ignored        *)
(*   norestart   - after an interruption the rest of the cells is dropped  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS HDR, OFFS, VALS, LAYERS, BUF, VARIANT

Size == HDR + LAYERS * (OFFS + VALS)
BaseOf(k) == HDR + (k - 1) * (OFFS + VALS)        \* k = 1..LAYERS

(* the program: <<"seek", pos>>, <<"put", n>> (cells at the current position), <<"flush">> *)
RECURSIVE LayerSteps(_)
LayerSteps(k) == IF k > LAYERS THEN << >>
                 ELSE << <<"seek", BaseOf(k) + OFFS>>, <<"put", VALS>>,
                         <<"seek", BaseOf(k)>>, <<"put", OFFS>>, <<"seek", BaseOf(k) + OFFS + VALS>> >> \o LayerSteps(k + 1)
Header == << <<"seek", 0>>, <<"put", HDR>> >>
Program == (IF VARIANT = "headerfirst" THEN Header \o LayerSteps(1) ELSE LayerSteps(1) \o Header)
           \o (IF VARIANT = "noflush" THEN << <<"drop", 0>> >> ELSE << <<"flush", 0>> >>)

VARIABLES pc, left,      \* step of the program; cells of it still to be put into the buffer
          buf, pos,      \* cells waiting in the buffer; position of the device
          dev,           \* the cells the device has
          result, failed \* "running", "ok" or "err"; has the device returned an error
vars == <<pc, left, buf, pos, dev, result, failed>>

Init == pc = 1 /\ left = 0 /\ buf = 0 /\ pos = 0 /\ dev = {} /\ result = "running" /\ failed = FALSE
Running == result = "running" /\ pc <= Len(Program)
Op == Program[pc][1]
Ignored == (VARIANT = "swallow" /\ Op = "put") \/ (VARIANT = "noflush" /\ Op = "drop")

(* what a call of the device's write with n cells can do *)
Fail == /\ failed' = TRUE
        /\ IF Ignored THEN buf' = 0 /\ UNCHANGED result ELSE result' = "err" /\ UNCHANGED buf
        /\ UNCHANGED <<pc, left, pos, dev>>
Accept(n) == /\ dev' = dev \cup (pos..(pos + n - 1)) /\ pos' = pos + n /\ buf' = buf - n
             /\ UNCHANGED <<pc, left, result, failed>>
Interrupted == IF VARIANT = "norestart" THEN buf' = 0 /\ UNCHANGED <<pc, left, pos, dev, result, failed>>
               ELSE UNCHANGED vars
DeviceWrite == buf > 0 /\ (Fail \/ Interrupted \/ \E n \in 1..buf : Accept(n))

Next1 == pc' = pc + 1 /\ left' = (IF pc + 1 <= Len(Program) /\ Program[pc + 1][1] = "put" THEN Program[pc + 1][2] ELSE 0)

(* emptying the buffer is required before a seek, at the flush, and when a put does not fit *)
MustEmpty == \/ Op \in {"seek", "flush", "drop"} /\ buf > 0
             \/ Op = "put" /\ left > 0 /\ buf = BUF
Put == /\ Op = "put" /\ buf < BUF /\ left > 0
       /\ buf' = buf + 1 /\ left' = left - 1 /\ UNCHANGED <<pc, pos, dev, result, failed>>
PutDone == Op = "put" /\ left = 0 /\ Next1 /\ UNCHANGED <<buf, pos, dev, result, failed>>
Seek == /\ Op = "seek" /\ buf = 0
        /\ \/ pos' = Program[pc][2] /\ Next1 /\ UNCHANGED <<buf, dev, result, failed>>
           \/ Fail
Flush == /\ Op \in {"flush", "drop"} /\ buf = 0
         /\ \/ result' = "ok" /\ Next1 /\ UNCHANGED <<buf, pos, dev, failed>>
            \/ Op = "flush" /\ Fail
Next == Running /\ IF MustEmpty THEN DeviceWrite ELSE Put \/ PutDone \/ Seek \/ Flush
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
(* C13 *)
OkIsComplete == result = "ok" => dev = 0..(Size - 1)
ErrorsReported == result = "ok" => ~failed
(* C14: what loading the cells the device has yields.  Without the whole    *)
(* header loading fails; with it, it yields what the rest says.             *)
Load == IF ~((0..(HDR - 1)) \subseteq dev) THEN "fails"
        ELSE IF dev = 0..(Size - 1) THEN "complete" ELSE "different"
CrashSafe == Load # "different"
=============================================================================
