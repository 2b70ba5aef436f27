----------------------------- MODULE InkProduct -----------------------------
(* Two stories that have to be the same story: the compiled and the reference-
   compiled one (C05), one built by either loader (C14), one played in another
   process, build profile or hash order (C03).

   Each is given as a transition system (what plain play shows: one node per
   completed call, one edge per continue or choice).  The product of the two is
   explored along every choice path; two positions reached by the same calls have
   to show the same thing and offer the same ways on (bisimulation).

   A position that was not explored is 0; the comparison stops there.          *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Docs == JsonDeserialize(IOEnv.PRODUCT_DOCS)

VARIABLES p, x, y, n
vars == <<p, x, y, n>>

A == Docs[p].a[x]
B == Docs[p].b[y]

Agree == /\ A.o = B.o
         /\ Len(A.k) = Len(B.k)
         /\ (A.t = "end") = (B.t = "end")

Init == /\ p \in 1..Len(Docs)
        /\ x = 1 /\ y = 1 /\ n = 0

To(u, v) == /\ u # 0 /\ v # 0
            /\ x' = u /\ y' = v /\ n' = n + 1
            /\ UNCHANGED p

Continue == Agree /\ To(A.c, B.c)
Choose(i) == Agree /\ To(A.k[i], B.k[i])

\* a way on that only one of the two has
OneSided == /\ Agree
            /\ \/ (A.c # 0) # (B.c # 0)
               \/ \E i \in 1..Len(A.k) : (A.k[i] # 0) # (B.k[i] # 0)

Report == /\ ~Agree
          /\ PrintT("D " \o ToJson([p |-> p, x |-> x, y |-> y]))
          /\ UNCHANGED vars

Cut == /\ OneSided
       /\ PrintT("C " \o ToJson([p |-> p, x |-> x, y |-> y]))
       /\ UNCHANGED vars

Next == \/ Continue
        \/ Agree /\ \E i \in 1..Len(A.k) : Choose(i)
        \/ Report \/ Cut

Spec == Init /\ [][Next]_vars

TypeOK == x \in 1..Len(Docs[p].a) /\ y \in 1..Len(Docs[p].b)
=============================================================================
