----------------------------- MODULE TraceSave ------------------------------
(***************************************************************************)
(* Validates saves recorded on a device that fails as told, and loads of   *)
(* what an interrupted save leaves behind.                                 *)
(*                                                                         *)
(* A history starts with the undisturbed save, whose image is the complete *)
(* one (what it means is IndexFormat's business), followed by runs of the  *)
(* same save with faults (C13) and by crash points (C14).  A run lists the *)
(* calls the device got: <<file, "w", offered, accepted>>, <<file, "s",    *)
(* position, 0>>, <<file, "f", 0, 0>>, where an outcome of -1 is an error, *)
(* -2 an interruption, and an accepted length of 0 counts as an error.     *)
(* Device contents are compared by length and digest.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, SequencesExt
CONSTANT PROP
File == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES s, l, image
tvars == <<s, l, image>>
Ev == File[s].events
E == Ev[l]
Has(e, f) == f \in DOMAIN e
Is(p) == PROP = p
Reject(what) == PrintT("REJECT " \o ToJson(<<File[s].sc, l, what>>)) /\ FALSE
Req(cond, what) == IF cond THEN TRUE ELSE Reject(what)

(* the device: position and length of each file *)
Step1(d, op) ==
    LET f == op[1] + 1
        q == d.pos[f]
    IN  CASE op[2] = "w" -> IF op[4] > 0 THEN [d EXCEPT !.pos[f] = q + op[4], !.len[f] = IF q + op[4] > @ THEN q + op[4] ELSE @]
                            ELSE IF op[4] = -2 THEN d ELSE [d EXCEPT !.failed = TRUE]
          [] op[2] = "s" -> IF op[4] = 0 THEN [d EXCEPT !.pos[f] = op[3]]
                            ELSE IF op[4] = -2 THEN [d EXCEPT !.odd = TRUE] ELSE [d EXCEPT !.failed = TRUE]
          [] op[2] = "f" -> IF op[4] = 0 THEN d
                            ELSE IF op[4] = -2 THEN [d EXCEPT !.odd = TRUE] ELSE [d EXCEPT !.failed = TRUE]
Device(ops, start) == FoldLeft(Step1, [pos |-> start, len |-> start, failed |-> FALSE, odd |-> FALSE], ops)
Content == [len |-> E.len, digest |-> E.digest]

Init == s \in 1..Len(File) /\ l = 1 /\ image = [len |-> << >>, digest |-> << >>]
Do == CASE E.ev \in {"begin", "end"} -> UNCHANGED image
        \* nothing goes wrong
        [] E.ev = "whole" ->
             LET d == Device(E.ops, E.start)
             IN  /\ Req(~E.panic, <<"panic", E.msg>>)
                 /\ Req(E.ok, "an undisturbed save failed")
                 /\ Req(d.len = E.len, "the device is not as long as what was written")
                 /\ (Is("C13") /\ Has(E, "n")) => Req(E.n = E.len[1] - E.start[1], <<"bytes written", E.len[1] - E.start[1]>>)
                 /\ image' = Content
        [] E.ev = "run" ->
             LET d == Device(E.ops, E.start)
             IN  /\ Is("C13") =>
                      /\ Req(~E.panic, <<"panic", E.plan, E.msg>>)
                      /\ E.ok => /\ Req(~d.failed, <<"an error was swallowed", E.plan>>)
                                 /\ Req(Content = image, <<"success, but not the complete image", E.plan>>)
                                 /\ Has(E, "n") => Req(E.n = E.len[1] - E.start[1], <<"bytes written", E.plan>>)
                      \* nothing to complain about: interruptions and short writes are no errors
                      /\ (~d.failed /\ ~d.odd) => Req(E.ok, <<"failed without an error of the device", E.plan>>)
                 /\ UNCHANGED image
        \* a file on disk that could not grow beyond E.limit (or not be written at all)
        [] E.ev = "disk" ->
             /\ Is("C13") => /\ Req(~E.panic, <<"panic", E.plan, E.msg>>)
                             /\ E.ok => Req(Content = image, <<"success, but not the complete image", E.plan>>)
             /\ UNCHANGED image
        \* loads of the prefix of the writes up to and including `cut' bytes of call `op'
        [] E.ev = "crash" ->
             /\ Is("C14") => Req(E.outcome \in {"fails", "complete"}, <<"an interrupted save loads as another index", E.op, E.cut, E.outcome>>)
             /\ UNCHANGED image
        [] E.ev = "crashes" -> UNCHANGED image
        [] E.ev \in {"crash!", "hang!"} -> Reject("the process died")
Step == /\ l <= Len(Ev)
        /\ Do
        /\ l' = l + 1 /\ s' = s
        /\ (l = Len(Ev) => PrintT("ACCEPT " \o ToJson(File[s].sc)))
View == <<s, l>>
TraceSpec == Init /\ [][Step]_tvars
=============================================================================
