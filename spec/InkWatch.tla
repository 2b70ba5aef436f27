------------------------------ MODULE InkWatch ------------------------------
(* Variable observers over whole host histories: who is registered, and what  *)
(* every call of the host must make each registered observer hear.            *)
(*                                                                            *)
(* A trace (WATCH_DOCS) is a history played in the real crate, in which the   *)
(* observed globals were polled after every call.  This module runs the       *)
(* registry of observers over it:                                             *)
(*   reg    the registered pairs <<observer, variable>>; only observe and     *)
(*          unobserve change it (saving, loading, resetting, switching flows, *)
(*          errors and unfinished continues do not)                           *)
(*   base   the polled values when the continue in progress began             *)
(*   seen   how many notifications of it were delivered so far                *)
(* and says which notifications each call must have made.                     *)
(*                                                                            *)
(* step   k      observe unobserve set cont choose eval open still            *)
(*        o n v  observer, variable, assigned value                           *)
(*        r      ok | err;  fin: is no continue in progress afterwards        *)
(*        vars   the polled values afterwards                                 *)
(*        notes  <<[o, n, v, late]>>                                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Docs == JsonDeserialize(IOEnv.WATCH_DOCS)

\* twice: pairs that were registered again while registered; what such a pair hears is open
VARIABLES h, i, reg, twice, base, pend, st
vars == <<h, i, reg, twice, base, pend, st>>

D == Docs[h]
S == D.steps[i]
Cur == IF i = 1 THEN D.init ELSE D.steps[i - 1].vars
Names == {D.vars[j] : j \in 1 .. Len(D.vars)}
Notes(o, n) == SelectSeq(S.notes, LAMBDA x : x.o = o /\ x.n = n)
Pairs == {<<D.obs[a], n>> : a \in 1 .. Len(D.obs), n \in Names}

Init == /\ h \in 1 .. Len(Docs)
        /\ i = 1 /\ reg = {} /\ twice = {} /\ pend = FALSE /\ base = Docs[h].init /\ st = "run"

(* ------------------------- the registry ------------------------------------- *)
\* calls that change it are refused while a continue is in progress, for variables
\* the story does not have, and where there is nothing to remove
Registered ==
  CASE S.k = "observe" /\ S.r = "ok" -> reg \cup {<<S.o, S.n>>}
    [] S.k = "unobserve" /\ S.r = "ok" -> IF S.n = "" THEN {x \in reg : x[1] # S.o} ELSE reg \ {<<S.o, S.n>>}
    [] OTHER -> reg
ResultRight ==
  CASE S.k = "observe" -> (S.r = "ok") = (~pend /\ S.n \in Names)
    [] S.k = "unobserve" -> S.r = "ok" => ~pend        \* removing what is not there may be an error or nothing
    [] S.k = "set" -> (S.r = "ok") => ~pend /\ S.n \in Names
    [] OTHER -> TRUE

(* ------------------------- what is heard -------------------------------------- *)
Silent == \A j \in 1 .. Len(S.notes) : <<S.notes[j].o, S.notes[j].n>> \in twice
Judged == reg \ twice
OnlyRegistered == \A j \in 1 .. Len(S.notes) : <<S.notes[j].o, S.notes[j].n>> \in reg \cup twice
\* a continue: from the values before it (before its first slice) to those after it
Once == \A x \in Judged : LET q == Notes(x[1], x[2]) IN
          /\ Len(q) <= 1
          /\ \A j \in 1 .. Len(q) : q[j].late /\ q[j].v = S.vars[x[2]]
          /\ base[x[2]] # S.vars[x[2]] => Len(q) = 1
\* several continues: the last notification carries the value it has now
Latest == \A x \in Judged : LET q == Notes(x[1], x[2]) IN
          /\ q # <<>> => q[Len(q)].v = S.vars[x[2]]
          /\ base[x[2]] # S.vars[x[2]] => q # <<>>
\* the story is replaced: nothing is said about what is heard, except that it is true
True_ == \A x \in Judged : LET q == Notes(x[1], x[2]) IN q # <<>> => q[Len(q)].v = S.vars[x[2]]
\* an assignment by the host: at once, to every observer of the variable
Assigned == \A x \in Judged : LET q == Notes(x[1], x[2]) IN
          IF x[2] # S.n THEN q = <<>>
          ELSE /\ Len(q) <= 1
               /\ \A j \in 1 .. Len(q) : q[j].v = S.vars[S.n]
               /\ Cur[S.n] # S.vars[S.n] => Len(q) = 1
Heard ==
  /\ OnlyRegistered
  /\ CASE S.k = "cont" /\ S.fin /\ S.r = "ok" -> Once
       [] S.k = "cont" /\ ~S.fin -> Silent
       [] S.k = "eval" /\ S.r = "ok" /\ S.fin -> Latest
       [] S.k = "set" /\ S.r = "ok" -> Assigned
       [] S.k = "open" -> True_
       [] S.k \in {"cont", "eval"} -> TRUE            \* ended in an error
       [] OTHER -> Silent
\* nothing but the calls that say so changes a variable
Kept == S.k \in {"observe", "unobserve", "choose", "still"} => S.vars = Cur
Why == IF ~ResultRight THEN "result" ELSE IF ~Kept THEN "changed" ELSE IF ~Heard THEN "heard" ELSE ""

Next ==
  /\ st = "run" /\ i <= Len(D.steps)
  /\ UNCHANGED h
  /\ IF Why # ""
       THEN /\ st' = "bad" /\ UNCHANGED <<i, reg, twice, base, pend>>
            /\ PrintT("BAD " \o ToJson([h |-> h, i |-> i, why |-> Why, reg |-> reg, base |-> base, step |-> S]))
       ELSE /\ st' = "run" /\ i' = i + 1
            /\ reg' = Registered
            /\ twice' = IF S.k = "observe" /\ S.r = "ok" THEN twice \cup ({<<S.o, S.n>>} \cap reg) ELSE twice
            /\ pend' = ~S.fin
            /\ base' = IF S.fin THEN S.vars ELSE base
            /\ (i' > Len(D.steps)) => PrintT("HIST " \o ToJson([h |-> h, n |-> Len(D.steps)]))
Spec == Init /\ [][Next]_vars
TypeOK == reg \subseteq Pairs /\ pend \in BOOLEAN
=============================================================================
