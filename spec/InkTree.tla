------------------------------ MODULE InkTree ------------------------------
(* The content of a story and how its objects are addressed.

   A story is a tree.  A container has ordered content and, besides, containers it
   knows only by name; a container in the content that has a name is known by both.
   The path of an object names, from the root, each container that has a name and
   counts the others; a relative path climbs with "^" first.  The text of a path
   joins its parts with dots, after one more dot when it is relative.

   Mode "path": TLC writes every short text, reads it as a path and writes it again
   (RoundTrip); the texts and what they mean are printed.
   Mode "grow": TLC grows every small tree and checks that every object's path, and
   the relative path from every object to every other, lead back to it (Addressable,
   Related) and that no two objects have one path (Distinct); the trees and all the
   paths are printed.
   Mode "audit": the trees of real stories and what the runtime reports of them are
   compared with the same definitions.  Each object and each recorded position is
   one state.                                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mode, Size

----------------------------------------------------------------------------
(* paths *)
Index(i) == [k |-> "i", i |-> i, n |-> ""]
Name(n) == [k |-> "n", i |-> 0, n |-> n]
Up == Name("^")
Path(rel, cs) == [rel |-> rel, cs |-> cs]

ShowPart(c) == IF c.k = "i" THEN ToString(c.i) ELSE c.n
RECURSIVE JoinParts(_)
JoinParts(cs) == IF cs = <<>> THEN "" ELSE IF Len(cs) = 1 THEN ShowPart(cs[1]) ELSE ShowPart(cs[1]) \o "." \o JoinParts(Tail(cs))
Text(p) == (IF p.rel THEN "." ELSE "") \o JoinParts(p.cs)
\* characters of the text
Width(p) == Len(Text(p))

----------------------------------------------------------------------------
(* texts: sequences of one-character strings *)
Chars == { ".", "^", "a", "b", "-", "0", "1", "7" }
Digits == [ d \in {"0", "1", "7"} |-> CASE d = "0" -> 0 [] d = "1" -> 1 [] d = "7" -> 7 ]
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN "" ELSE Head(s) \o Cat(Tail(s))
RECURSIVE Number(_, _)
Number(s, a) == IF s = <<>> THEN a ELSE Number(Tail(s), a * 10 + Digits[Head(s)])
Part(s) == IF s # <<>> /\ \A i \in 1..Len(s) : s[i] \in DOMAIN Digits THEN Index(Number(s, 0)) ELSE Name(Cat(s))
RECURSIVE Split(_, _)
Split(s, a) == IF s = <<>> THEN << Part(a) >>
               ELSE IF Head(s) = "." THEN << Part(a) >> \o Split(Tail(s), <<>>)
               ELSE Split(Tail(s), Append(a, Head(s)))
Parse(s) == IF s = <<>> THEN Path(FALSE, <<>>)
            ELSE LET rel == Head(s) = "."
                     r == IF rel THEN Tail(s) ELSE s
                 IN Path(rel, IF r = <<>> THEN <<>> ELSE Split(r, <<>>))
RECURSIVE Explode(_)
ShowNat == [ n \in 0..9999 |-> ToString(n) ]
DigitsOf(n) == LET RECURSIVE D(_)
                   D(m) == IF m < 10 THEN << ToString(m) >> ELSE D(m \div 10) \o << ToString(m % 10) >>
               IN D(n)
Explode(cs) == IF cs = <<>> THEN <<>>
               ELSE LET h == Head(cs)
                        \* the name of a part, as the characters it was read from
                        x == IF h.k = "i" THEN DigitsOf(h.i) ELSE << h.n >>
                    IN IF Len(cs) = 1 THEN x ELSE x \o << "." >> \o Explode(Tail(cs))

----------------------------------------------------------------------------
(* trees: a sequence of nodes, 1 is the root.
   [c: is it a container, name, content: ids, named: <<name, id>> pairs, parent] *)
Kids(t, x) == t[x].content
IsC(t, x) == t[x].c

PosOf(t, x) == LET s == Kids(t, t[x].parent) IN (CHOOSE i \in 1..Len(s) : s[i] = x) - 1
OwnPart(t, x) == IF IsC(t, x) /\ t[x].name # "" THEN Name(t[x].name) ELSE Index(PosOf(t, x))
RECURSIVE Parts(_, _)
Parts(t, x) == IF t[x].parent = 0 THEN <<>> ELSE Append(Parts(t, t[x].parent), OwnPart(t, x))
PathOf(t, x) == Path(FALSE, Parts(t, x))

\* one part further from a container; 0 where there is nothing
Step(t, c, p) ==
  IF p.k = "i" THEN IF p.i < Len(Kids(t, c)) THEN Kids(t, c)[p.i + 1] ELSE 0
  ELSE IF p = Up THEN t[c].parent
  ELSE LET s == { i \in 1..Len(t[c].named) : t[c].named[i][1] = p.n }
       IN IF s = {} THEN 0 ELSE t[c].named[CHOOSE i \in s : TRUE][2]
RECURSIVE Walk(_, _, _)
Walk(t, c, cs) == IF cs = <<>> THEN c
                  ELSE IF c = 0 \/ ~IsC(t, c) THEN 0
                  ELSE Walk(t, Step(t, c, Head(cs)), Tail(cs))
\* where a path leads from an object
Lead(t, x, p) == IF ~p.rel THEN Walk(t, 1, p.cs)
                 ELSE IF IsC(t, x) THEN Walk(t, x, p.cs)
                 ELSE Walk(t, t[x].parent, IF p.cs = <<>> THEN <<>> ELSE Tail(p.cs))

\* the path from x to y: relative when they share anything but the root
Shared(a, b) == LET S == { n \in 0..Len(a) : n <= Len(b) /\ SubSeq(a, 1, n) = SubSeq(b, 1, n) }
                IN CHOOSE n \in S : \A m \in S : m <= n
RelPath(a, b) ==
  LET n == Shared(a, b)
  IN IF n = 0 THEN Path(FALSE, b)
     ELSE Path(TRUE, [ i \in 1..(Len(a) - n) |-> Up ] \o SubSeq(b, n + 1, Len(b)))
Compact(a, b) == LET r == RelPath(a, b) IN IF Width(r) < Width(Path(FALSE, b)) THEN r ELSE Path(FALSE, b)
\* the path reached from a by a path that climbs first
Climbs(cs) == LET S == { n \in 0..Len(cs) : \A i \in 1..n : cs[i] = Up } IN CHOOSE n \in S : \A m \in S : m <= n
Joined(a, p) == LET k == Climbs(p.cs) IN SubSeq(a, 1, IF k > Len(a) THEN 0 ELSE Len(a) - k) \o SubSeq(p.cs, k + 1, Len(p.cs))

Pair(t, x, y) == LET a == Parts(t, x) b == Parts(t, y) r == RelPath(a, b)
                 IN [x |-> x, y |-> y, rel |-> r.rel, text |-> Text(r), compact |-> Text(Compact(a, b)),
                     lead |-> Lead(t, x, r), joined |-> IF r.rel THEN Text(Path(FALSE, Joined(a, r))) ELSE Text(Path(FALSE, b))]

----------------------------------------------------------------------------
VARIABLES txt, tree, d, x, done
vars == << txt, tree, d, x, done >>
Emit(tag, r) == PrintT(tag \o ToJson(r))

(* mode "path" *)
PathNext == /\ ~done
            /\ \/ /\ Len(txt) < Size
                  /\ \E c \in Chars : txt' = Append(txt, c)
                  /\ UNCHANGED done
               \/ /\ done' = TRUE
                  /\ Emit("T ", [t |-> Cat(txt), p |-> Parse(txt), s |-> Text(Parse(txt))])
                  /\ UNCHANGED txt
            /\ UNCHANGED <<tree, d, x>>
\* writing a path and reading it again gives the path (a path of one nameless part is not a text's meaning)
RoundTrip == Mode = "path" =>
               LET p == Parse(txt) IN
                 /\ p.cs = << Name("") >> => FALSE
                 /\ \E s \in {Explode(p.cs)} : Len(p.cs) <= 1 \/ Text(p) = (IF p.rel THEN "." ELSE "") \o Cat(s)
                 /\ (\A i \in 1..Len(txt) : txt[i] # "0") => Text(p) = Cat(txt)

(* mode "grow": nodes are added in the order the runtime lists them: depth first *)
Names == { "", "0a", "a-1" }
Leaf(p) == [c |-> FALSE, name |-> "", content |-> <<>>, named |-> <<>>, parent |-> p]
Box(n, p) == [c |-> TRUE, name |-> n, content |-> <<>>, named |-> <<>>, parent |-> p]
UsedNames(t, c) == { t[c].named[i][1] : i \in 1..Len(t[c].named) }
\* new nodes hang on the last node or one of its ancestors, so that numbers are in document order;
\* children known only by name come after the content
RECURSIVE Spine(_, _)
Spine(t, y) == IF y = 0 THEN {} ELSE {y} \cup Spine(t, t[y].parent)
NamedOnly(t, c) == { i \in 1..Len(t[c].named) : \A k \in 1..Len(t[c].content) : t[c].content[k] # t[c].named[i][2] }
Before(u, v) == u = "0a" /\ v = "a-1"
GrowNext ==
  /\ ~done
  /\ \/ /\ Len(tree) < Size
        /\ \E c \in { y \in Spine(tree, Len(tree)) : IsC(tree, y) } :
             LET id == Len(tree) + 1 IN
             \/ /\ NamedOnly(tree, c) = {}
                /\ \/ tree' = [Append(tree, Leaf(c)) EXCEPT ![c].content = Append(@, id)]
                   \/ \E n \in Names \ UsedNames(tree, c) :
                        tree' = [Append(tree, Box(n, c)) EXCEPT ![c].content = Append(@, id),
                                                                ![c].named = IF n = "" THEN @ ELSE Append(@, <<n, id>>)]
             \/ \E n \in (Names \ {""}) \ UsedNames(tree, c) :
                  /\ \A i \in NamedOnly(tree, c) : Before(tree[c].named[i][1], n)
                  /\ tree' = [Append(tree, Box(n, c)) EXCEPT ![c].named = Append(@, <<n, id>>)]
        /\ UNCHANGED done
     \/ /\ done' = TRUE
        /\ Emit("G ", [t |-> tree, p |-> [i \in 1..Len(tree) |-> Text(PathOf(tree, i))],
                       r |-> IF Len(tree) <= 5 THEN { Pair(tree, i, j) : i \in 1..Len(tree), j \in 1..Len(tree) }
                             ELSE { Pair(tree, i, j) : i \in {2, 4, Len(tree)}, j \in {1, 3, 5, Len(tree) - 1} }])
        /\ UNCHANGED tree
  /\ UNCHANGED <<txt, d, x>>
Addressable == Mode = "grow" => \A y \in 1..Len(tree) : Lead(tree, 1, PathOf(tree, y)) = y
Distinct == Mode = "grow" => \A y, z \in 1..Len(tree) : y # z => Text(PathOf(tree, y)) # Text(PathOf(tree, z))
\* a relative path of an object that is no container starts by leaving it, so it cannot lead to the object itself
Related == Mode = "grow" => \A y, z \in 1..Len(tree) :
             LET r == RelPath(Parts(tree, y), Parts(tree, z))
             IN /\ (y # z \/ IsC(tree, y)) => Lead(tree, y, r) = z /\ Lead(tree, y, Compact(Parts(tree, y), Parts(tree, z))) = z
                /\ r.rel => Joined(Parts(tree, y), r) = Parts(tree, z)

(* mode "audit" *)
Docs == IF Mode = "audit" THEN JsonDeserialize(IOEnv.TREE_DOCS) ELSE <<>>
Unique(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
T == Docs[d].tree
N == Docs[d].obs[x]
NameKeys(c) == [ i \in 1..Len(T[c].named) |-> T[c].named[i][1] ]
ExpectObj == LET p == Text(PathOf(T, x)) IN [path |-> p, lead |-> x, text_lead |-> x, again |-> p]
\* a content place of a container, as a position: the object there
Sound == /\ T[x].parent # 0 => \/ \E i \in 1..Len(Kids(T, T[x].parent)) : Kids(T, T[x].parent)[i] = x
                               \/ \E i \in 1..Len(T[T[x].parent].named) : T[T[x].parent].named[i][2] = x
         /\ Unique(NameKeys(x))
         /\ \A i \in 1..Len(Kids(T, x)) : T[Kids(T, x)[i]].parent = x
         /\ \A i \in 1..Len(T[x].named) : T[T[x].named[i][2]].parent = x /\ T[T[x].named[i][2]].name = T[x].named[i][1]
ExpectPlace(i) == LET y == Kids(T, x)[i] IN << IF IsC(T, y) /\ T[y].name # "" THEN Text(PathOf(T, x)) \o (IF x = 1 THEN "" ELSE ".") \o ToString(i - 1)
                                              ELSE Text(PathOf(T, y)), y >>
\* where a story stands after a jump to a container: at its first place, or at the place it takes in its parent
JumpTo == IF OwnPart(T, x).k = "i" THEN Text(PathOf(T, x)) ELSE Text(Path(FALSE, Append(Parts(T, x), Index(0))))
AuditBad(what, want, got) == Emit("D ", [d |-> d, x |-> x, what |-> what, want |-> want, got |-> got])
\* (IF: a disjunction would be two steps)
Differs(what, want, got) == IF want = got THEN TRUE ELSE AuditBad(what, want, got)
Must(ok, what, want, got) == IF ok THEN TRUE ELSE AuditBad(what, want, got)

AuditNext ==
  /\ ~done /\ done' = TRUE
  /\ IF x > 0
     THEN IF ~Sound THEN AuditBad("structure", "a tree whose names are unique", T[x])
          ELSE /\ Differs("path", ExpectObj, [path |-> N.path, lead |-> N.lead, text_lead |-> N.text_lead, again |-> N.again])
               /\ \A i \in 1..Len(Kids(T, x)) : Differs("place", ExpectPlace(i), N.places[i])
               /\ \A i \in 1..Len(N.jumps) : Differs("jump", JumpTo, N.jumps[i])
               /\ \A i \in 1..Len(N.pairs) : Differs("pair", Pair(T, x, N.pairs[i].y), N.pairs[i])
     ELSE \* a position a save or a choice holds: parts of the path and the place in the container there
          LET q == Docs[d].pos[-x]
              c == Walk(T, 1, q.cs)
          IN IF c = 0 THEN AuditBad("position", "content there", q)
             ELSE /\ Must(q.i = -2 \/ (IsC(T, c) /\ q.i >= -1 /\ q.i <= Len(Kids(T, c))), "place of a position", "a place in the container", q)
                  /\ Must(q.any \/ Text(PathOf(T, c)) = q.text, "text of a position", Text(PathOf(T, c)), q.text)
  /\ UNCHANGED <<txt, tree, d, x>>

Init == /\ txt = <<>> /\ done = FALSE
        /\ tree = << Box("", 0) >>
        /\ IF Mode = "audit" THEN /\ d \in 1..Len(Docs)
                                  /\ x \in (1..Len(Docs[d].tree)) \cup { -i : i \in 1..Len(Docs[d].pos) }
           ELSE d = 0 /\ x = 0
Next == \/ Mode = "path" /\ PathNext
        \/ Mode = "grow" /\ GrowNext
        \/ Mode = "audit" /\ AuditNext
Spec == Init /\ [][Next]_vars
=============================================================================
