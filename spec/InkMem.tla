------------------------------- MODULE InkMem -------------------------------
(* The memory of a story.

   A story owns its content and its state, and nothing but the story owns them:
   when a session that comes back to where it was is repeated over and over, the
   memory in use comes back to where it was too, whether the story is dropped in
   between ("drop") or comes back by itself, by a reset or by a load ("return").

   The specification below is the bookkeeping of an owner that may keep a part
   of what a repetition made.  Kept = 0 is a story that releases everything; the
   only freedom it has is to fill caches once: what is live after a repetition
   is bounded, so it does not grow from every epoch (of doubling length) to the
   next.  Recorded series are checked against Bounded; the module itself is
   explored with all small values of Kept to see that exactly the leaking owners
   violate it (InkMem as its own test).                                       *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS MODE \* "own": explore the owner; "trace": check recorded series

Series == IF MODE = "trace" THEN JsonDeserialize(IOEnv.MEM_SERIES) ELSE <<>>

Epochs == 4      \* epochs of length 1, 2, 4, 8, ... times Unit after a warm-up
VARIABLES s,     \* which series
          i,     \* repetitions done
          live,  \* bytes now in use beyond the base
          kept, cache, every, \* the owner: kept bytes per `every` repetitions, cached bytes (once)
          ep, lo, hi, before, grew
vars == <<s, i, live, kept, cache, every, ep, lo, hi, before, grew>>

Unit == IF MODE = "trace" THEN Series[s].unit ELSE 2
Warm == IF MODE = "trace" THEN Series[s].warm ELSE 1
Big == 1000000000

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
\* repetitions done when epoch e ends
End(e) == Warm + Unit * (Pow2(e + 1) - 1)

Init == /\ s \in IF MODE = "trace" THEN 1..Len(Series) ELSE {0}
        /\ i = 0 /\ live = 0
        /\ kept \in IF MODE = "own" THEN 0..2 ELSE {0}
        /\ cache \in IF MODE = "own" THEN 0..1 ELSE {0}
        /\ every \in IF MODE = "own" THEN 1..2 ELSE {1}
        /\ ep = 0 /\ lo = Big /\ hi = 0 /\ before = Big /\ grew = 0

Amount == IF MODE = "trace" THEN Series[s].live[i + 1]
          ELSE cache * (IF i > 2 THEN 1 ELSE 0) + kept * ((i + 1) \div every)

Last == IF MODE = "trace" THEN Len(Series[s].live) ELSE End(Epochs - 1)

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b

Repeat == /\ i < Last
          /\ i' = i + 1
          /\ live' = Amount
          /\ IF i' <= Warm THEN UNCHANGED <<ep, lo, hi, before, grew>>
             ELSE IF i' = End(ep)
                  THEN /\ ep' = ep + 1
                       /\ before' = Max(hi, live')
                       /\ grew' = IF Min(lo, live') > before THEN grew + 1 ELSE grew
                       /\ lo' = Big /\ hi' = 0
                  ELSE /\ lo' = Min(lo, live') /\ hi' = Max(hi, live')
                       /\ UNCHANGED <<ep, before, grew>>
          /\ UNCHANGED <<s, kept, cache, every>>

Over == i = Last /\ UNCHANGED vars
Next == Repeat \/ Over
Spec == Init /\ [][Next]_vars

\* growth in every epoch is a leak
Leaking == ep = Epochs /\ grew = Epochs - 1
Complete == i = Last => ep = Epochs

\* recorded series: print those that leak
Report == Leaking => PrintT("L " \o ToJson([s |-> s, live |-> live, before |-> before]))

\* the owner: Leaking says what it should
Exact == (MODE = "own" /\ i = Last) => (Leaking <=> kept > 0)
=============================================================================
