------------------------------- MODULE InkBind -------------------------------
(* Who answers a call of an EXTERNAL function.                                *)
(*                                                                            *)
(* A story declares external functions; some have a function of the same name *)
(* in Ink (a fallback).  The host binds and unbinds functions and allows or   *)
(* forbids fallbacks at any time, plays the story, evaluates functions,       *)
(* saves, loads and resets.  TLC enumerates these histories; each step says   *)
(* what the real crate must do:                                               *)
(*   ok      the call succeeds                                                *)
(*   no      the call is refused and changes nothing                          *)
(*   host b  binding b answers (its number is in the text)                    *)
(*   ink     the fallback answers                                             *)
(*   err     the call fails; the story has to be reset                        *)
(*   miss    the first continue fails and names every function in .m that     *)
(*           nobody can answer for; it can be repeated once they are bound    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS LEN,   \* length of a history
          ALL    \* number of the externals fa, fb, fc

Fns == {IF i = 1 THEN "fa" ELSE IF i = 2 THEN "fb" ELSE "fc" : i \in 1 .. ALL}
HasInk == {"fa", "fc"} \cap Fns

VARIABLES bound,   \* function -> the binding that answers (0: none)
          safe,    \* function -> bound as look-ahead-safe
          n,       \* bindings made so far
          allowed, \* are fallbacks allowed
          checked, \* has the first continue succeeded
          pos,     \* "new" (nothing played) | "hub" (at the choices) | "bad" (failed)
          saved,   \* the saved position, "" if none
          hist
vars == <<bound, safe, n, allowed, checked, pos, saved, hist>>

Init == /\ bound = [f \in Fns |-> 0] /\ safe = [f \in Fns |-> FALSE] /\ n = 0 /\ allowed = FALSE
        /\ checked = FALSE /\ pos = "new" /\ saved = "" /\ hist = <<>>

Missing == {f \in Fns : bound[f] = 0 /\ ~(allowed /\ f \in HasInk)}
Answer(f) == IF bound[f] # 0 THEN "host" ELSE IF f \in Missing THEN "err" ELSE "ink"
Room == Len(hist) < LEN
Did(a, f, r, b, m) == hist' = Append(hist, [a |-> a, f |-> f, r |-> r, b |-> b, m |-> m, safe |-> IF f \in Fns THEN safe'[f] ELSE TRUE, pos |-> pos'])

Bind(f, s) == /\ Room
              /\ IF bound[f] = 0
                   THEN n' = n + 1 /\ bound' = [bound EXCEPT ![f] = n + 1] /\ safe' = [safe EXCEPT ![f] = s]
                   ELSE UNCHANGED <<n, bound, safe>>
              /\ UNCHANGED <<allowed, checked, pos, saved>>
              /\ Did(IF s THEN "bindsafe" ELSE "bind", f, IF bound[f] = 0 THEN "ok" ELSE "no", n + 1, {})
Unbind(f) == /\ Room
             /\ bound' = [bound EXCEPT ![f] = 0]
             /\ UNCHANGED <<n, safe, allowed, checked, pos, saved>>
             /\ Did("unbind", f, IF bound[f] = 0 THEN "no" ELSE "ok", 0, {})
Allow == /\ Room /\ allowed' = ~allowed
         /\ UNCHANGED <<bound, safe, n, checked, pos, saved>>
         /\ Did(IF allowed THEN "forbid" ELSE "allow", "", "ok", 0, {})

\* the first line
Begin == /\ Room /\ pos = "new"
         /\ IF ~checked /\ Missing # {}
              THEN UNCHANGED <<pos, checked>> /\ Did("begin", "", "miss", 0, Missing)
              ELSE pos' = "hub" /\ checked' = TRUE /\ Did("begin", "", "ok", 0, {})
         /\ UNCHANGED <<bound, safe, n, allowed, saved>>
\* choose the choice that calls f ("": none) and continue
Play(f) == /\ Room /\ pos = "hub"
           /\ LET a == IF f = "" THEN "ok" ELSE Answer(f) IN
              /\ pos' = IF a = "err" THEN "bad" ELSE "hub"
              /\ UNCHANGED <<bound, safe, n, allowed, checked, saved>>
              /\ Did("play", f, a, IF f = "" THEN 0 ELSE bound[f], {})
\* the host evaluates a function of the story that calls f.  One bound as not safe is
\* not called from there (it is only run outside strings and look-ahead): fine
Eval(f) == /\ Room /\ pos \in {"new", "hub"}
           /\ LET a == IF ~checked /\ Missing # {} THEN "err" ELSE Answer(f) IN
              /\ pos' = IF a = "err" THEN "bad" ELSE pos
              /\ checked' = (checked \/ Missing = {})
              /\ UNCHANGED <<bound, safe, n, allowed, saved>>
              /\ Did("eval", f, a, bound[f], {})
Reset == /\ Room /\ pos' = "new"
         /\ UNCHANGED <<bound, safe, n, allowed, checked, saved>>
         /\ Did("reset", "", "ok", 0, {})
Save == /\ Room /\ pos \in {"new", "hub"} /\ saved' = pos
        /\ UNCHANGED <<bound, safe, n, allowed, checked, pos>>
        /\ Did("save", "", "ok", 0, {})
\* bindings belong to the story object, not to the saved state
Load == /\ Room /\ pos \in {"new", "hub"} /\ saved # "" /\ pos' = saved
        /\ UNCHANGED <<bound, safe, n, allowed, checked, saved>>
        /\ Did("load", "", "ok", 0, {})

Next == \/ \E f \in Fns : Bind(f, TRUE) \/ Bind(f, FALSE) \/ Unbind(f) \/ Play(f) \/ Eval(f)
        \/ Allow \/ Begin \/ Play("") \/ Reset \/ Save \/ Load
Spec == Init /\ [][Next]_vars

\* what is checked on the specification itself
TypeOK == /\ \A f \in Fns : bound[f] \in 0 .. n
          /\ pos \in {"new", "hub", "bad"}
\* nothing is played before every function could be answered once
Guarded == pos = "hub" => checked
\* two functions are never answered by one binding
Apart == \A f, g \in Fns : f # g /\ bound[f] # 0 => bound[f] # bound[g]
Report == Len(hist) = LEN => PrintT("H " \o ToJson(hist))
=============================================================================
