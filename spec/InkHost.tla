------------------------------ MODULE InkHost ------------------------------
(* The host protocol of a story.

   What plain play of a program shows is given as a transition system (the
   "tree": one node per completed call, one edge per continue or choice; Ink.tla
   says what the nodes must look like).  This module says where in that system a
   story IS after any sequence of host calls: saving and loading, resetting,
   switching, starting and removing flows, continuing in time slices, evaluating
   functions, and calls that are refused.  TLC enumerates the histories the
   specification allows; each one is printed with the position of every flow after
   every call and is replayed in the real crate, whose observations must be those
   of the node (text, tags, choices, variables, visit counts, notifications).

   A program is made of parts that touch disjoint knots and variables; part "" is
   what plain play from the start shows, every other part begins where the host
   starts a flow in it or jumps to it.

   flow f      a named flow; "" is the default flow
   pos[f]      the node flow f is at (0: the flow does not exist)
   own[a]      the node that says what part a's globals and counts are (outlives
               the flow it was played in; 0: not started)
   mode        "play" | "pending" (an unfinished time-limited continue)          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

Docs == JsonDeserialize(IOEnv.HOST_DOCS)

VARIABLES p,      \* which program
          pos, own, cur, gone,
          saves,  \* slot -> saved state of the session
          used,   \* budget of each kind of action that is spent
          hist, done

vars == <<p, pos, own, cur, gone, saves, used, hist, done>>

D == Docs[p]
T(n) == D.tree[n]
Parts == DOMAIN D.roots
Flows == {D.flows[i] : i \in 1..Len(D.flows)}
Jumps == {D.jumps[i] : i \in 1..Len(D.jumps)}
Kinds == DOMAIN D.lim
Spent(k) == used[k]
Budget(k) == k \in Kinds /\ used[k] < D.lim[k]

Here == pos[cur]
Leaf(n) == T(n).c = 0 /\ \A i \in 1..Len(T(n).k) : T(n).k[i] = 0

\* a position to compare with: only what the specification says
Where == [f \in Flows |-> pos[f]]

Step(a, x) == Append(hist, [a |-> a, x |-> x, cur |-> cur', pos |-> pos', own |-> own'])
Spend(k) == used' = [used EXCEPT ![k] = @ + 1]
Room == ~done /\ Len(hist) < D.len

Init == /\ p \in 1..Len(Docs)
        /\ cur = ""
        /\ pos = [f \in {Docs[p].flows[i] : i \in 1..Len(Docs[p].flows)} |-> IF f = "" THEN Docs[p].roots[""] ELSE 0]
        /\ own = [a \in DOMAIN Docs[p].roots |-> IF a = "" THEN Docs[p].roots[""] ELSE 0]
        /\ gone = {}
        /\ saves = <<>>
        /\ used = [k \in DOMAIN Docs[p].lim |-> 0]
        /\ hist = <<>>
        /\ done = FALSE

\* ------------------------------------------------------------- playing on
Go(n) == /\ n # 0
         /\ pos' = [pos EXCEPT ![cur] = n]
         /\ own' = [own EXCEPT ![T(n).fl] = n]
         /\ UNCHANGED cur

Continue == /\ Room /\ T(Here).c # 0 /\ ~D.uniform
            /\ Go(T(Here).c)
            /\ hist' = Step("cont", 0)
            /\ UNCHANGED <<p, gone, saves, used, done>>

\* the same line, in time slices (pattern s of D.slices); while it is
\* unfinished the calls in D.refused are refused and change nothing
\* (in a uniform history every line is sliced, with one pattern)
Sliced(s) == /\ Room /\ Budget("slice") /\ T(Here).c # 0
             /\ D.uniform => \A i \in 1..Len(hist) : hist[i].a = "slices" => hist[i].x = s
             /\ Go(T(Here).c)
             /\ hist' = Step("slices", s)
             /\ Spend("slice")
             /\ UNCHANGED <<p, gone, saves, done>>

Choose(i) == /\ Room /\ T(Here).c = 0 /\ i \in 1..Len(T(Here).k)
             /\ Go(T(Here).k[i])
             /\ hist' = Step("choose", i)
             /\ UNCHANGED <<p, gone, saves, used, done>>

\* ------------------------------------------------------------- save and load
State == [pos |-> pos, own |-> own, cur |-> cur, gone |-> gone]

CanSave == \A f \in Flows : pos[f] # 0 => T(pos[f]).sv

Save == /\ Room /\ Budget("save") /\ CanSave
        /\ saves' = Append(saves, State)
        /\ hist' = Append(hist, [a |-> "save", x |-> Len(saves) + 1, cur |-> cur, pos |-> pos, own |-> own])
        /\ Spend("save")
        /\ UNCHANGED <<p, pos, own, cur, gone, done>>

Restore(s) == /\ pos' = s.pos /\ own' = s.own /\ cur' = s.cur /\ gone' = s.gone

\* into a freshly constructed story ("fresh") or into this one ("load")
\* (this one keeps the errors it has until it is reset)
Load(i, how) == /\ Room /\ Budget(how) /\ i \in 1..Len(saves)
                /\ how = "load" => CanSave
                /\ Restore(saves[i])
                /\ hist' = Step(how, i)
                /\ Spend(how)
                /\ UNCHANGED <<p, saves, done>>

\* save and load into a fresh story at once
Transfer == /\ Room /\ Budget("transfer") /\ CanSave
            /\ UNCHANGED <<pos, own, cur>>
            /\ hist' = Step("transfer", 0)
            /\ Spend("transfer")
            /\ UNCHANGED <<p, gone, saves, done>>

\* ------------------------------------------------------------- reset
Reset == /\ Room /\ Budget("reset")
         /\ pos' = [f \in Flows |-> IF f = "" THEN D.roots[""] ELSE 0]
         /\ own' = [a \in Parts |-> IF a = "" THEN D.roots[""] ELSE 0]
         /\ cur' = "" /\ gone' = {}
         /\ hist' = Step("reset", 0)
         /\ Spend("reset")
         /\ UNCHANGED <<p, saves, done>>

\* ------------------------------------------------------------- flows
Start(f) == /\ Room /\ Budget("flow") /\ f # "" /\ pos[f] = 0 /\ own[f] = 0
            /\ cur' = f
            /\ pos' = [pos EXCEPT ![f] = D.roots[f]]
            /\ own' = [own EXCEPT ![f] = D.roots[f]]
            /\ hist' = Step("start", f)
            /\ Spend("flow")
            /\ UNCHANGED <<p, gone, saves, done>>

Switch(f) == /\ Room /\ Budget("flow") /\ pos[f] # 0 /\ f # cur
             /\ cur' = f
             /\ UNCHANGED <<pos, own>>
             /\ hist' = Step("switch", f)
             /\ Spend("flow")
             /\ UNCHANGED <<p, gone, saves, done>>

\* there and back again
Detour(f) == /\ Room /\ Budget("detour") /\ pos[f] # 0 /\ f # cur
             /\ UNCHANGED <<pos, own, cur>>
             /\ hist' = Step("detour", f)
             /\ Spend("detour")
             /\ UNCHANGED <<p, gone, saves, done>>

Remove(f) == /\ Room /\ Budget("remove") /\ f # "" /\ pos[f] # 0
             /\ pos' = [pos EXCEPT ![f] = 0]
             /\ cur' = IF cur = f THEN "" ELSE cur
             /\ gone' = gone \cup {f}
             /\ UNCHANGED own
             /\ hist' = Step("remove", f)
             /\ Spend("remove")
             /\ UNCHANGED <<p, saves, done>>

\* ------------------------------------------------------------- jumps
\* to the start of part a, abandoning where the current flow was: its tunnels,
\* threads, functions and choices; globals and counts stay (an error that no
\* handler took keeps the story stopped until it is reset)
Jump(a) == /\ Room /\ Budget("jump") /\ a \in Jumps /\ own[a] = 0 /\ T(Here).sv
           /\ pos' = [pos EXCEPT ![cur] = D.roots[a]]
           /\ own' = [own EXCEPT ![a] = D.roots[a]]
           /\ UNCHANGED cur
           /\ hist' = Step("jump", a)
           /\ Spend("jump")
           /\ UNCHANGED <<p, gone, saves, done>>

\* ------------------------------------------------------------- no-ops
Stutter(k, x) == /\ Room /\ Budget(k)
                 /\ UNCHANGED <<pos, own, cur>>
                 /\ hist' = Step(k, x)
                 /\ Spend(k)
                 /\ UNCHANGED <<p, gone, saves, done>>

\* a refused call: bad call number b (some only make sense where the story
\* cannot continue)
Refused(b) == /\ D.bad[b].when = "end" => ~T(Here).can
              /\ D.bad[b].when = "can" => T(Here).can
              /\ Stutter("bad", b)

Evaluate(e) == Stutter("eval", e)

\* something that throws the story off the recorded tree, only to be reset
\* afterwards (C17): after it only Reset is allowed
Wander(w) == /\ Room /\ Budget("wander") /\ used["reset"] < D.lim["reset"]
             /\ hist' = Append(hist, [a |-> "wander", x |-> w, cur |-> cur, pos |-> pos, own |-> own])
             /\ Spend("wander")
             /\ UNCHANGED <<p, pos, own, cur, gone, saves, done>>

LastIsWander == hist # <<>> /\ hist[Len(hist)].a = "wander"

\* ------------------------------------------------------------- the end
Finish == /\ ~done
          /\ \A k \in DOMAIN D.need : used[k] >= D.need[k]
          /\ ~LastIsWander
          /\ Leaf(Here) \/ Len(hist) = D.len
          /\ done' = TRUE
          /\ PrintT("H " \o ToJson([p |-> p, h |-> hist]))
          /\ UNCHANGED <<p, pos, own, cur, gone, saves, used, hist>>

\* at the end of the recorded play the session may still do something else
Next == \/ /\ LastIsWander /\ (Reset \/ \E w \in 1..D.wanders : Wander(w))
        \/ /\ ~LastIsWander
           /\ \/ Continue
              \/ \E s \in 1..Len(D.slices) : Sliced(s)
              \/ \E i \in 1..D.maxch : Choose(i)
              \/ Save
              \/ \E i \in 1..Len(saves), how \in {"load", "fresh"} : Load(i, how)
              \/ Transfer
              \/ Reset
              \/ \E f \in Flows : Start(f) \/ Switch(f) \/ Remove(f) \/ Detour(f)
              \/ \E a \in Jumps : Jump(a)
              \/ \E b \in 1..Len(D.bad) : Refused(b)
              \/ \E e \in 1..D.evals : Evaluate(e)
              \/ \E w \in 1..D.wanders : Wander(w)
              \/ Finish

Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* (of the specification itself: the protocol is sane)
TypeOK == /\ cur \in Flows /\ pos[cur] # 0 /\ pos[""] # 0
          /\ \A f \in Flows : pos[f] \in 0..Len(D.tree)
          /\ \A a \in Parts : own[a] \in 0..Len(D.tree)
          /\ \A f \in Flows : pos[f] # 0 => own[T(pos[f]).fl] = pos[f]
          /\ \A f \in gone : pos[f] = 0

\* flows do not move each other
Independent == [][\A f \in Flows : (f # cur /\ f # cur') => (pos'[f] = pos[f] \/ hist'[Len(hist')].a \in {"reset", "load", "fresh", "remove"})]_<<pos, hist>>

\* refused calls and evaluations do not move anything
StutterOK == [][hist' # hist /\ hist'[Len(hist')].a \in {"bad", "eval", "detour", "transfer", "save"} => pos' = pos /\ own' = own /\ cur' = cur]_vars
=============================================================================
