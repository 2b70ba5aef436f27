------------------------------ MODULE InkCalls ------------------------------
(* What a host may do with a story, in any order: every call of the interface, with
   good and bad arguments, at any moment.  No call is ruled out because it would
   fail: a failed call is a result like any other (C04), and the same calls have to
   give the same results wherever they are made (C03).

   A document names what a program has to call: its functions, variables, knots,
   external functions; the host keeps two saves, knows three flows and may leave a
   continue unfinished.
   Mode "all": every sequence of Length calls; "random": sequences of that length
   drawn by weight (TLC's simulator).                                             *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Mode, Length

Docs == JsonDeserialize(IOEnv.CALLS_DOCS)   \* [vars, vals, fns: <<[fn, args]>>, knots, exts]

VARIABLES p, h, saved, open, last
vars == << p, h, saved, open, last >>
D == Docs[p]

Map(s, F(_)) == [i \in 1..Len(s) |-> F(s[i])]
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
Cross(a, b, F(_, _)) == Flat(Map(a, LAMBDA x : Map(b, LAMBDA y : F(x, y))))

Slots == << "a", "b" >>
Flows == << "one", "two", "DEFAULT_FLOW" >>
Seeds == << 0, 7, -5 >>

\* kinds of calls: how often, and the calls (each: the operations a driver runs)
Weights == << 26, 10, 26, 4, 4, 2, 3, 4, 2, 2, 6, 4, 1, 1, 5, 2, 2, 1, 1, 2, 1, 1, 2, 1, 1, 1, 3, 1, 1, 2 >>
Kind(k) ==
  CASE k = 1 -> << << [op |-> "cont"] >> >>
    [] k = 2 -> << << [op |-> "maximally"] >> >>
    [] k = 3 -> Map(<< 0, 0, 0, 1, 1, 2, 3 >>, LAMBDA i : << [op |-> "choose", i |-> i] >>)
    [] k = 4 -> Map(Slots, LAMBDA s : << [op |-> "save", slot |-> s] >>)
    [] k = 5 -> Map(Slots, LAMBDA s : << [op |-> "load", slot |-> s] >>)
    [] k = 6 -> Map(Seeds, LAMBDA s : << [op |-> "fresh", seed |-> s] >>)
    [] k = 7 -> Map(Seeds, LAMBDA s : << [op |-> "reset"], [op |-> "seed", v |-> s] >>)
    [] k = 8 -> Map(Flows, LAMBDA f : << [op |-> "switch", f |-> f] >>)
    [] k = 9 -> << << [op |-> "default_flow"] >> >>
    [] k = 10 -> Map(Flows, LAMBDA f : << [op |-> "remove", f |-> f] >>)
    [] k = 11 -> Map(D.fns, LAMBDA f : << [op |-> "eval", fn |-> f.fn, args |-> f.args] >>)
    [] k = 12 -> Cross(D.vars, D.vals, LAMBDA x, v : << [op |-> "set", n |-> x, v |-> v] >>)
    [] k = 13 -> Map(D.vars, LAMBDA x : << [op |-> "get", n |-> x] >>)
    [] k = 14 -> Map(D.knots, LAMBDA z : << [op |-> "visit", p |-> z] >>)
    [] k = 15 -> Map(D.knots, LAMBDA z : << [op |-> "jump", p |-> z, reset |-> TRUE, args |-> <<>>] >>)
    [] k = 16 -> Map(D.knots, LAMBDA z : << [op |-> "jump", p |-> z, reset |-> FALSE, args |-> <<>>] >>)
    [] k = 17 -> Cross(D.knots, D.vals, LAMBDA z, v : << [op |-> "jump", p |-> z, reset |-> FALSE, args |-> << v >>] >>)
    [] k = 18 -> Map(D.knots, LAMBDA z : << [op |-> "tags_at", p |-> z] >>)
    [] k = 19 -> << << [op |-> "global_tags"] >> >>
    [] k = 20 -> Map(D.vars, LAMBDA x : << [op |-> "observe", o |-> "w", n |-> x] >>)
    [] k = 21 -> Map(D.vars, LAMBDA x : << [op |-> "unobserve", o |-> "w", n |-> x] >>)
    [] k = 22 -> << << [op |-> "unobserve", o |-> "w", n |-> ""] >> >>
    [] k = 23 -> Cross(D.exts, << TRUE, FALSE >>, LAMBDA e, s : << [op |-> "bind", n |-> e, safe |-> s, ret |-> [k |-> "arg", v |-> 0]] >>)
    [] k = 24 -> Map(D.exts, LAMBDA e : << [op |-> "unbind", n |-> e] >>)
    [] k = 25 -> Map(<< TRUE, FALSE >>, LAMBDA b : << [op |-> "fallbacks", v |-> b] >>)
    [] k = 26 -> << << [op |-> "handler"] >> >>
    [] k = 27 -> Map(<< 1, 2, 5, 40 >>, LAMBDA z : << [op |-> "async", k |-> z] >>)
    [] k = 28 -> Map(<< << 1, 1, 1 >>, << 3, 7 >> >>, LAMBDA ks : << [op |-> "slices", ks |-> ks, mid |-> <<>>] >>)
    [] k = 29 -> << << [op |-> "hierarchy"] >> >>
    [] k = 30 -> << << [op |-> "saveraw"] >> >>

Usable(c) == \* a slot that was never written has nothing to load
  c[1].op = "load" => \E i \in 1..Len(saved) : saved[i] = c[1].slot

RECURSIVE Pick(_, _)
Pick(k, r) == IF r <= Weights[k] THEN k ELSE Pick(k + 1, r - Weights[k])
RECURSIVE Sum(_)
Sum(k) == IF k = 0 THEN 0 ELSE Weights[k] + Sum(k - 1)

Call(c) ==
  /\ Usable(c)
  /\ h' = h \o c
  /\ saved' = IF c[1].op = "save" THEN Append(saved, c[1].slot) ELSE saved
  /\ open' = (c[1].op = "async")
  /\ last' = c[1].op
  /\ UNCHANGED p
  /\ (Len(h') >= Length => PrintT("H " \o ToJson([p |-> p, h |-> h'])))

Init == p \in 1..Len(Docs) /\ h = <<>> /\ saved = <<>> /\ open = FALSE /\ last = ""

\* an unfinished continue is usually finished next
Next == /\ Len(h) < Length
        /\ IF Mode = "all" THEN \E k \in 1..Len(Weights) : LET s == Kind(k) IN \E i \in 1..Len(s) : Call(s[i])
           ELSE \E k \in { IF open /\ RandomElement(1..3) # 1 THEN 1 ELSE Pick(1, RandomElement(1..Sum(Len(Weights)))) } :
                \E s \in { Kind(k) } :
                  IF s = <<>> THEN UNCHANGED vars
                  ELSE \E i \in { RandomElement(1..Len(s)) } : IF Usable(s[i]) THEN Call(s[i]) ELSE UNCHANGED vars
Spec == Init /\ [][Next]_vars

TypeOK == Len(h) <= Length + 1
=============================================================================
