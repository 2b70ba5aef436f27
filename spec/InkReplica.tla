----------------------------- MODULE InkReplica -----------------------------
(* The same story in several places: other processes, other build profiles, other
   instances in one process (whose hash tables are ordered differently).  All are
   given the same seed and the same calls; a replica knows nothing of the others.
   Step by step they have to show and store the same (C03).

   Docs[d] = [n |-> number of calls, r |-> << one sequence of results per replica >>];
   a result is a name for everything shown and stored after the call.             *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Docs == JsonDeserialize(IOEnv.REPLICA_DOCS)

VARIABLES d, i, shown
vars == << d, i, shown >>

R(k) == Docs[d].r[k]
After(k, n) == IF n = 0 THEN "start" ELSE IF n <= Len(R(k)) THEN R(k)[n] ELSE "nothing"

Init == d \in 1..Len(Docs) /\ i = 0 /\ shown = [k \in 1..Len(Docs[d].r) |-> "start"]
Call == /\ i < Docs[d].n /\ \A k \in DOMAIN shown : shown[k] = shown[1]
        /\ i' = i + 1
        /\ shown' = [k \in DOMAIN shown |-> After(k, i + 1)]
        /\ UNCHANGED d
Differ == /\ \E k \in DOMAIN shown : shown[k] # shown[1]
          /\ PrintT("D " \o ToJson([d |-> d, i |-> i, k |-> CHOOSE k \in DOMAIN shown : shown[k] # shown[1]]))
          /\ UNCHANGED vars
Next == Call \/ Differ
Spec == Init /\ [][Next]_vars
TypeOK == i \in 0..Docs[d].n
=============================================================================
