------------------------------ MODULE InkEdits ------------------------------
(* What may become of a text: sources the compiler must answer to, whatever they say
   (C06).  A source is a sequence of tokens (words and marks of Ink, or single
   characters); an edit takes some out, doubles, swaps or replaces them, puts in
   marks and words that mean something in Ink, repeats one many times, or moves part
   of one source into another.

   Mode "each": every single edit at every place of every source.
   Mode "many": up to Most edits, drawn (TLC's simulator).
   Mode "soup": every sequence of up to Most tokens.
   Mode "nest": every way to put up to Most pairs of brackets or other openings around
   something, each repeated, in every setting, closed or left open; and every piece of a
   source repeated (a pair with nothing to close).  Mode "nests": the same, drawn.
   Edits are printed; a driver carries them out, the lengths kept here say what is a
   place.                                                                         *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Mode, Most

In == JsonDeserialize(IOEnv.EDITS_DOC)     \* [lens: tokens per source (nest: pairs), soup: how many tokens there are (nest: settings), reps: <<counts>>]
Times == In.reps

VARIABLES s, n, h
vars == << s, n, h >>

Del(i) == [op |-> "del", i |-> i]
Dup(i) == [op |-> "dup", i |-> i]
Swap(i) == [op |-> "swap", i |-> i]
Ins(i, t) == [op |-> "ins", i |-> i, t |-> t]
Rep(i, t) == [op |-> "rep", i |-> i, t |-> t]
Cut(i, j) == [op |-> "cut", i |-> i, j |-> j]
Many(i, t, k) == [op |-> "many", i |-> i, t |-> t, k |-> k]
Splice(i, q, a, b) == [op |-> "splice", i |-> i, q |-> q, a |-> a, b |-> b]    \* before i: tokens a..b of the source q

Long(e) == CASE e.op \in {"del"} -> n - 1
             [] e.op \in {"dup", "ins"} -> n + 1
             [] e.op \in {"swap", "rep"} -> n
             [] e.op = "cut" -> n - (e.j - e.i + 1)
             [] e.op = "many" -> n + e.k
             [] e.op = "splice" -> n + (e.b - e.a + 1)
             [] OTHER -> n

Do(e) == h' = Append(h, e) /\ n' = Long(e) /\ UNCHANGED s
Tell == PrintT("E " \o ToJson([s |-> s, h |-> h']))

Single ==
  \/ \E i \in 1..n : Do(Del(i)) \/ Do(Dup(i))
  \/ \E i \in 1..(n - 1) : Do(Swap(i))
  \/ \E i \in 1..(n + 1), t \in 1..In.soup : Do(Ins(i, t))
  \/ \E i \in 1..n, t \in 1..In.soup : Do(Rep(i, t))

R(k) == RandomElement(1..k)
Drawn ==
  \E kind \in {R(20)} :
    IF n = 0 \/ kind <= 5 THEN \E i \in {R(n + 1)}, t \in {R(In.soup)} : Do(Ins(i, t))
    ELSE \E i \in {R(n)} :
      IF kind <= 8 THEN Do(Del(i))
      ELSE IF kind <= 10 THEN Do(Dup(i))
      ELSE IF kind <= 12 THEN IF i < n THEN Do(Swap(i)) ELSE Do(Del(i))
      ELSE IF kind <= 15 THEN \E t \in {R(In.soup)} : Do(Rep(i, t))
      ELSE IF kind <= 17 THEN \E j \in {R(12)} : Do(Cut(i, IF i + j > n THEN n ELSE i + j))
      ELSE IF kind = 18 THEN \E t \in {R(In.soup)}, k \in {Times[R(Len(Times))]} : Do(Many(i, t, k))
      ELSE \E q \in {R(Len(In.lens))} : IF In.lens[q] = 0 THEN Do(Del(i)) ELSE \E a \in {R(In.lens[q])}, w \in {R(25)} :
             Do(Splice(i, q, a, IF a + w > In.lens[q] THEN In.lens[q] ELSE a + w))

Nest == \E q \in 1..In.pairs, k \in 1..Len(Times) :
          /\ h' = Append(h, [op |-> "nest", q |-> q, k |-> Times[k]])
          /\ n' = n + Times[k]
          /\ UNCHANGED s
NestDrawn == \E q \in {R(In.pairs)}, k \in {R(Len(Times))} :
          /\ h' = Append(h, [op |-> "nest", q |-> q, k |-> Times[k]])
          /\ n' = n + Times[k]
          /\ UNCHANGED s
\* the repetitions of one text together are bounded
Bounded == n' <= In.bound

Init == /\ h = <<>>
        /\ IF Mode \in {"nest", "nests"} THEN s \in 0..(2 * In.settings - 1) /\ n = 0
           ELSE IF Mode = "soup" THEN s = 0 /\ n = 0
           ELSE s \in 1..Len(In.lens) /\ n = In.lens[s]
Next == /\ Len(h) < Most
        /\ CASE Mode = "each" -> Single
             [] Mode = "many" -> Drawn
             [] Mode = "nest" -> Nest /\ Bounded
             [] Mode = "nests" -> NestDrawn /\ Bounded
             [] OTHER -> \E t \in 1..In.soup : Do(Ins(n + 1, t))
        /\ Tell
Spec == Init /\ [][Next]_vars
TypeOK == n >= 0 /\ Len(h) <= Most
=============================================================================
