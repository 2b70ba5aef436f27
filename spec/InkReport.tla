------------------------------ MODULE InkReport ------------------------------
(* Errors and warnings over whole host histories.                             *)
(*                                                                            *)
(* The same history is played three times: without an error handler (plain),  *)
(* with one (taken), and with one while every continue is made in time slices *)
(* (sliced).  The specification keeps what was raised and not yet delivered,  *)
(* and says what each call must deliver, what must be readable afterwards and *)
(* whether the story may go on.                                               *)
(*                                                                            *)
(* step   k       cont | eval | reset | jump | load | other                   *)
(*        plain   [r, errs, warns, can, n]     (n: number of choices)         *)
(*        taken   [r, errs, warns, can, n, hand: <<<<kind, message>>>>]       *)
(*        sliced  the same                                                    *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Docs == JsonDeserialize(IOEnv.REPORT_DOCS)

VARIABLES h, i,
          errs, warns,  \* readable without a handler
          due,          \* warnings raised before a continue could deliver them
          dead,         \* stopped by an error, with a handler
          st
vars == <<h, i, errs, warns, due, dead, st>>

D == Docs[h]
S == D.steps[i]
P == S.plain
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* what is new in a list of messages that may or may not still hold the old ones
New(old, now) == IF Prefix(old, now) THEN SubSeq(now, Len(old) + 1, Len(now)) ELSE now
Msgs(hand, kind) == LET q == SelectSeq(hand, LAMBDA x : x[1] = kind) IN [j \in 1 .. Len(q) |-> q[j][2]]

Init == /\ h \in 1 .. Len(Docs) /\ i = 1 /\ st = "run"
        /\ errs = <<>> /\ warns = Docs[h].warns /\ due = Docs[h].warns /\ dead = FALSE

Runs == S.k \in {"cont", "eval"}
(* --------------------------- without a handler -------------------------------- *)
Stopped == errs # <<>>
PlainRight ==
  /\ Prefix(errs, P.errs) \/ S.k \in {"reset", "load"}
  /\ Stopped /\ S.k \notin {"reset", "load"} => ~P.can
  /\ P.errs # <<>> => ~P.can
  /\ CASE S.k = "cont" /\ Stopped -> P.r = "err" /\ P.errs = errs
       [] S.k = "cont" /\ ~Stopped -> P.errs # <<>> => P.r = "err"
       [] S.k = "eval" -> TRUE
       [] S.k = "reset" -> P.r = "ok" => P.errs = <<>> /\ P.warns = <<>>
       [] S.k = "load" -> TRUE
       [] OTHER -> P.errs = errs /\ P.warns = warns
  \* a warning alone is no reason to fail: the continue fails as it does with a handler
  /\ S.k = "cont" /\ ~Stopped /\ P.errs = <<>> => P.r = S.taken.r

(* ----------------------------- with a handler ---------------------------------- *)
NewErrs == New(errs, P.errs)
NewWarns == New(warns, P.warns)
TakenRight(T) ==
  /\ IF Runs /\ (S.k = "eval" => T.r = P.r \/ NewErrs # <<>>)
       THEN /\ Msgs(T.hand, "error") = NewErrs
            /\ \/ Msgs(T.hand, "warning") = due \o NewWarns
               \/ T.r = "err" /\ T.hand = <<>> /\ NewErrs = <<>> /\ NewWarns = <<>>   \* refused: nothing ran
            /\ S.k = "cont" /\ NewErrs # <<>> => T.r = "ok"
            /\ T.errs = <<>>
            /\ T.hand # <<>> => T.warns = <<>>
       ELSE T.hand = <<>> \/ S.k = "eval"
  /\ NewErrs # <<>> /\ Runs => ~T.can /\ T.n = 0
  /\ dead /\ S.k \notin {"reset", "load", "jump"} => ~T.can
Delivered == \E j \in 1 .. Len(S.taken.hand) : S.taken.hand[j][1] = "warning"

Why == IF ~PlainRight THEN "plain" ELSE IF ~TakenRight(S.taken) THEN "handler" ELSE IF ~TakenRight(S.sliced) THEN "slices" ELSE ""
\* after an error the stories differ in what a jump or a load does: a handler has dealt
\* with the error.  The comparison ends there; D.solo histories go on (see Solo)
Apart == S.k \in {"jump", "load", "eval", "flow"} /\ Stopped

(* --------- a story with a handler, after an error: redirected, it goes on --------- *)
Solo == IF S.k = "jump" /\ S.taken.r = "ok" /\ ~S.taken.can THEN "a redirected story does not go on"
        ELSE IF S.k \in {"jump", "other"} /\ S.taken.hand # <<>> THEN "delivered again"
        ELSE IF S.taken.errs # <<>> THEN "still there after delivery" ELSE ""

Next ==
  /\ st \in {"run", "solo"} /\ i <= Len(D.steps)
  /\ UNCHANGED h
  /\ LET w == IF st = "solo" THEN Solo ELSE IF Apart THEN Solo ELSE Why IN
     IF w # ""
       THEN st' = "bad" /\ UNCHANGED <<i, errs, warns, due, dead>>
            /\ PrintT("BAD " \o ToJson([h |-> h, i |-> i, why |-> w, errs |-> errs, warns |-> warns, due |-> due, dead |-> dead, step |-> S]))
       ELSE /\ st' = IF st = "solo" \/ Apart THEN "solo" ELSE "run"
            /\ i' = i + 1
            /\ errs' = P.errs /\ warns' = P.warns
            /\ due' = IF S.k = "reset" \/ Delivered THEN <<>> ELSE due
            /\ dead' = IF S.k \in {"reset", "load", "jump"} /\ S.taken.r = "ok" THEN FALSE ELSE dead \/ (Runs /\ NewErrs # <<>>)
            /\ (i' > Len(D.steps)) => PrintT("HIST " \o ToJson([h |-> h, solo |-> st']))
Spec == Init /\ [][Next]_vars
=============================================================================
