----------------------------- MODULE InkEvents -----------------------------
(* What a host sees of a turn besides its text: variable observers, external  *)
(* functions, errors and warnings.                                            *)
(*                                                                            *)
(* Ink.tla says in which order things happen in a turn and how many lines of  *)
(* the turn were complete at each moment.  A host takes the turn line by      *)
(* line; what happens after one line is complete belongs to the continue that *)
(* delivers the next one, and what follows the last line belongs to the last  *)
(* continue, however far the engine had to look ahead.                        *)
(*                                                                            *)
(* Rec.cs[k] is what the host recorded in the k-th continue of the turn:      *)
(*   notes  <<[o, n, v, late]>>   observer, variable, value; was the work of  *)
(*                                the continue done when it was delivered     *)
(*   calls  <<[n, a]>>            bound function, arguments                   *)
(*   err    BOOLEAN               the continue returned Err                   *)
(*   errs, warns                  messages readable afterwards                *)
(*   hand   <<[k, m]>>            messages the error handler received         *)
EXTENDS Ink

P == Progs[p]
K == Len(Rec.cs)
C(k) == Rec.cs[k]
Idx(x) == IF x.line + 1 > K THEN K ELSE x.line + 1
EvK(k, kind) == SelectSeq(m.ev, LAMBDA x : x.e.k = kind /\ Idx(x) = k)

(* ------------------------------ observers ---------------------------------- *)
Sets(n, k) == SelectSeq(m.ev, LAMBDA x : x.e.k = "set" /\ x.e.n = n /\ Idx(x) <= k)
After_(n, k) == LET q == Sets(n, k) IN IF q = <<>> THEN m.gl0[n] ELSE q[Len(q)].e.v
Notes(o, n, k) == SelectSeq(C(k).notes, LAMBDA x : x.o = o /\ x.n = n)
\* an observed variable that changed: one notification, with the value it has when
\* the continue returns; one that was only given the value it had: at most one
ObservedRight(o, n, k) ==
  LET b == After_(n, k - 1)  a == After_(n, k)  q == Notes(o, n, k)
      set == \E i \in 1 .. Len(m.ev) : m.ev[i].e.k = "set" /\ m.ev[i].e.n = n /\ Idx(m.ev[i]) = k IN
  /\ \A i \in 1 .. Len(q) : q[i].late
  /\ IF a.t \in {"u", "o"} \/ b.t \in {"u", "o"} THEN Len(q) <= 1 /\ (q # <<>> => set)
     ELSE /\ Len(q) <= 1
          /\ q # <<>> => set /\ q[1].v = Enc(a)
          /\ Enc(a) # Enc(b) => Len(q) = 1
Observed ==
  /\ \A k \in 1 .. K : C(k).err \/ \A i \in 1 .. Len(P.obs) : ObservedRight(P.obs[i][1], P.obs[i][2], k)
  /\ \A k \in 1 .. K : \A j \in 1 .. Len(C(k).notes) : \E i \in 1 .. Len(P.obs) : P.obs[i] = <<C(k).notes[j].o, C(k).notes[j].n>>

(* -------------------------- external functions ------------------------------ *)
\* the call as the host records it
CallOf(x) == [n |-> x.e.n, a |-> [i \in 1 .. Len(x.e.a) |-> Enc(x.e.a[i])]]
CallVague(x) == Vagues(x.e.a)
Due(k, safe) == SelectSeq(EvK(k, "call"), LAMBDA x : P.exts[x.e.n].safe = safe)
Got(k, safe) == SelectSeq(C(k).calls, LAMBDA x : P.exts[x.n].safe = safe)
Matches(x, g) == x.e.n = g.n /\ (CallVague(x) \/ CallOf(x) = g)
RECURSIVE SubSeqOf(_, _)
SubSeqOf(xs, gs) == IF xs = <<>> THEN TRUE ELSE IF gs = <<>> THEN FALSE
                    ELSE IF Matches(Head(xs), Head(gs)) THEN SubSeqOf(Tail(xs), Tail(gs)) ELSE SubSeqOf(xs, Tail(gs))
\* not safe: exactly the calls that are due, in order, in the continue they are due in.
\* safe: those too, and possibly some that run ahead of later continues of the turn.
CalledRight(k) ==
  /\ LET d == Due(k, FALSE)  g == Got(k, FALSE) IN
     Len(d) = Len(g) /\ \A i \in 1 .. Len(d) : Matches(d[i], g[i])
  /\ LET d == Due(k, TRUE)  g == Got(k, TRUE) IN
     /\ SubSeqOf(d, g)
     /\ \A i \in 1 .. Len(g) : \E j \in 1 .. Len(m.ev) : m.ev[j].e.k = "call" /\ Idx(m.ev[j]) >= k /\ Matches(m.ev[j], g[i])
\* with the Ink fallbacks nothing of the host is called
Called == \A k \in 1 .. K : IF P.nocalls THEN C(k).calls = <<>> ELSE CalledRight(k)

(* --------------------------- errors and warnings ----------------------------- *)
Failed == m.err # "" \/ OutOfContent
HandErrs(k) == SelectSeq(C(k).hand, LAMBDA x : x[1] = "error")
HandWarns(k) == SelectSeq(C(k).hand, LAMBDA x : x[1] = "warning")
\* without a handler a warning stays readable; whether the ones of earlier continues
\* do too is open, but none is there twice
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
\* Rec.w0: the warnings that were readable when the turn began
WarnsRight(k) ==
  LET old == IF k = 1 THEN Rec.w0 ELSE C(k - 1).warns  n == Len(EvK(k, "warn")) IN
  \/ Len(C(k).warns) = n
  \/ Prefix(old, C(k).warns) /\ Len(C(k).warns) = Len(old) + n
DeliveredRight(k) ==
  LET e == IF Failed /\ k = K THEN 1 ELSE 0 IN
  IF P.handler
    THEN /\ ~C(k).err
         /\ Len(HandErrs(k)) = e
         /\ Len(HandWarns(k)) = Len(EvK(k, "warn"))
         /\ C(k).errs = <<>> /\ C(k).warns = <<>>
    ELSE /\ C(k).hand = <<>>
         /\ C(k).err = (e = 1)
         /\ Len(C(k).errs) = e
         /\ (e = 0 => WarnsRight(k))
Delivered == (\A k \in 1 .. K : DeliveredRight(k)) /\ (Failed => ~Rec.can)

(* ------------------------------ transitions ----------------------------------- *)
Trailing(l) == IF Len(l) > 1 /\ l[Len(l)].x = "" /\ ~l[Len(l)].nl /\ l[Len(l)].tg = <<>> THEN SubSeq(l, 1, Len(l) - 1) ELSE l
\* a continue that only runs what follows the last line delivers an empty one
\* a line that an error broke off is not compared (nobody says how much of it is there)
Whole(l) == IF m.err # "" /\ l # <<>> /\ ~l[Len(l)].nl THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Played == [Rec EXCEPT !.lines = Whole(Trailing(@))]
Meant == [Exp EXCEPT !.lines = Whole(Trailing(@))]
Why == IF ~Same(Meant, Played) THEN "play" ELSE IF Rec.pre # <<>> THEN "before" ELSE IF ~Observed THEN "observers" ELSE IF ~Called THEN "calls" ELSE IF ~Delivered THEN "messages" ELSE ""
QuiesceEv ==
        /\ st = "run" /\ ~Running(m) /\ (m.err # "" \/ ~Fallback(m))
        /\ IF Why = ""
             THEN st' = "quiet" /\ PrintT("TURN " \o ToJson([p |-> p, r |-> r, ev |-> Len(m.ev), k |-> K]))
             ELSE st' = "bad" /\ PrintT("BAD " \o ToJson([p |-> p, r |-> r, why |-> Why, exp |-> Exp, got |-> Rec, ev |-> m.ev,
                                                          fatal |-> IF Failed THEN "yes " \o m.err ELSE "no"]))
        /\ UNCHANGED <<p, r, m>>
NextEv == Step \/ TakeFallback \/ QuiesceEv \/ OutOfFuel \/ Pick
SpecEv == Init /\ [][NextEv]_vars
\* what is logged is in order
InOrder == \A i \in 1 .. Len(m.ev) - 1 : m.ev[i].line <= m.ev[i + 1].line
=============================================================================
