------------------------------ MODULE InkRefs ------------------------------
(* A compiled story is well formed when everything it refers to is there (C06).

   A document is the tree of a compiled story and what it refers to: from which
   container, by which path (absolute, or relative and climbing with "^"), and as
   what.  A reference leads exactly to content, or the story is broken.

     divert            to content
     choice, call, tunnel, thread, count, target   to a container
     name              to a variable: a global one, a list item, or one the same
                       flow (knot or function, with its stitches) makes its own
     assigned          the same without list items
     item              to an item of a list, with the name of the list
   A container that is counted on must be counted.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Docs == JsonDeserialize(IOEnv.REFS_DOCS)
\* [nodes: <<[parent, kids: <<id or 0 for a leaf>>, named: [name -> id], flow, flags]>>,
\*  globals, items, whole (items with their lists): sets as sequences, temps: [flow -> sequence of names],
\*  refs: <<[at, kind, rel, cs: <<[k, i, n]>>, name]>>]

VARIABLES d, done
vars == << d, done >>
D == Docs[d]
Range(s) == { s[i] : i \in 1..Len(s) }
\* a leaf is written as -1: there is something, but nothing further
Step(c, p) ==
  IF c <= 0 THEN 0
  ELSE IF p.k = "i" THEN IF p.i < Len(D.nodes[c].kids) THEN D.nodes[c].kids[p.i + 1] ELSE 0
  ELSE IF p.n = "^" THEN D.nodes[c].parent
  ELSE IF p.n \in DOMAIN D.nodes[c].named THEN D.nodes[c].named[p.n] ELSE 0
RECURSIVE Walk(_, _)
Walk(c, cs) == IF cs = <<>> THEN c ELSE Walk(Step(c, Head(cs)), Tail(cs))
\* a reference is no container: the first step of a relative path leaves it
Lead(r) == IF ~r.rel THEN Walk(1, r.cs)
           ELSE IF r.cs = <<>> \/ Head(r.cs) # [k |-> "n", i |-> 0, n |-> "^"] THEN 0
           ELSE Walk(r.at, Tail(r.cs))
Owns(f) == IF f \in DOMAIN D.temps THEN Range(D.temps[f]) ELSE {}
Known(r) == \/ r.name \in Range(D.globals) \cup Owns(D.nodes[r.at].flow)
            \/ r.kind = "name" /\ r.name \in Range(D.items)
Good(r) == CASE r.kind \in {"name", "assigned"} -> Known(r)
             [] r.kind = "item" -> r.name \in Range(D.whole)
             [] r.kind = "divert" -> Lead(r) # 0
             [] OTHER -> Lead(r) > 0
Counted(r) == r.kind \in {"count"} => LET c == Lead(r) IN c > 0 => D.nodes[c].flags % 2 = 1
Bad == { i \in 1..Len(D.refs) : ~Good(D.refs[i]) }
Uncounted == { i \in 1..Len(D.refs) : Good(D.refs[i]) /\ ~Counted(D.refs[i]) }

Init == d \in 1..Len(Docs) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED d
        /\ PrintT("R " \o ToJson([d |-> d, bad |-> Bad, uncounted |-> Uncounted]))
Spec == Init /\ [][Next]_vars
\* the tree is a tree: what a container holds, it is the parent of
Tree == \A c \in 1..Len(D.nodes) :
          /\ \A i \in 1..Len(D.nodes[c].kids) : D.nodes[c].kids[i] > 0 => D.nodes[D.nodes[c].kids[i]].parent = c
          /\ \A m \in DOMAIN D.nodes[c].named : D.nodes[D.nodes[c].named[m]].parent = c
=============================================================================
