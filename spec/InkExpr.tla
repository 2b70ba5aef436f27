------------------------------ MODULE InkExpr ------------------------------
(* Expressions and assignments of Ink.

   A document is a store of typed globals, the LIST definitions and a straight
   line of statements; what the real code gave for each is recorded beside it.
   TLC runs the statements on the specified values (InkValues) and compares
   every result with the recorded one: the value and type an expression
   returns, the text it prints, and what every variable holds after it.

   Statements   [k |-> "ret", e]        evaluate only (the store is fresh)
                [k |-> "set", n, e]     ~ n = e
                [k |-> "inc", n, e, sg] ~ n += e   (sg = "+" or "-")
                [k |-> "show", e]       {e}
                [k |-> "if", e]         {e: yes|no}
   Expressions  [k |-> "lit", v]  [k |-> "var", n]  [k |-> "bin", op, a, b]
                [k |-> "un", op, a]  [k |-> "range", a, b, c]
                [k |-> "int", n, a]   the item of list n with value a
                [k |-> "cat", ps]     string with braces
                [k |-> "flat", xs, ops]  a op b op c ... without parentheses
                [k |-> "rnd", a]      a random item of a list

   Values the specification leaves open: "u" (a float it does not track, or an
   item of several with the same value); "o" (a result or an error).  What is
   computed from them is open too, unless it does not depend on them.        *)
EXTENDS InkValues, Json, IOUtils

Docs == JsonDeserialize(IOEnv.EXPR_DOCS)

VARIABLES p, i, st, bad
vars == <<p, i, st, bad>>
D == Docs[p]
Defs == D.defs
Stmt == D.stmts[i]

(* --------------------------- precedence ------------------------------------ *)
\* Ink binds logical operators loosest, then comparisons, containment, sums and
\* products.  Within a level the language does not say whether operators of the
\* level differ; the reference compiler ranks + - * / % each above the one before,
\* other implementations take them from left to right.  Both readings are
\* accepted.
Level(op) == CASE op \in {"&&", "||"} -> 1
               [] op \in {"==", "!=", "<", ">", "<=", ">="} -> 2
               [] op \in {"?", "!?", "^"} -> 3
               [] op \in {"+", "-"} -> 4
               [] OTHER -> 5
Fine(op) == CASE op \in {"&&", "||"} -> 10
               [] op \in {"==", "!=", "<", ">", "<=", ">="} -> 20
               [] op \in {"?", "!?", "^"} -> 30
               [] op = "+" -> 40 [] op = "-" -> 41 [] op = "*" -> 50 [] op = "/" -> 51 [] OTHER -> 52
Split(op) == CASE op = "||" -> 10 [] op = "&&" -> 11 [] op \in {"==", "!="} -> 20
               [] op \in {"<", ">", "<=", ">="} -> 21 [] op \in {"?", "!?", "^"} -> 30
               [] op \in {"+", "-"} -> 40 [] OTHER -> 50
Rank(tbl, op) == CASE tbl = 1 -> Level(op) * 10 [] tbl = 2 -> Fine(op) [] OTHER -> Split(op)

\* left associative: the last operator of the lowest rank splits the list
LastMin(tbl, ops) == CHOOSE k \in 1 .. Len(ops) :
                       /\ \A j \in 1 .. Len(ops) : Rank(tbl, ops[k]) <= Rank(tbl, ops[j])
                       /\ \A j \in k + 1 .. Len(ops) : Rank(tbl, ops[j]) > Rank(tbl, ops[k])
RECURSIVE Flat(_, _, _)
Flat(tbl, xs, ops) ==
  IF ops = <<>> THEN xs[1]
  ELSE LET k == LastMin(tbl, ops) IN
       Binary(Defs, ops[k], Flat(tbl, SubSeq(xs, 1, k), SubSeq(ops, 1, k - 1)),
                            Flat(tbl, SubSeq(xs, k + 1, Len(xs)), SubSeq(ops, k + 1, Len(ops))))

(* --------------------------- evaluation ------------------------------------ *)
Same(x, y) == IF x.t # y.t THEN FALSE
              ELSE IF IsErr(x) THEN TRUE
              ELSE IF x.t = "l" THEN x.v = y.v ELSE x = y
\* a value that is only known to be one of several
Agreed(x, y, z) == IF Same(x, y) /\ Same(y, z) THEN x ELSE OPEN

\* an item of several with the same value: which one is open
Tied(x, n) == Cardinality(WithV(x, n)) > 1
IncrOpen(x, y, op) ==
  /\ op \in {"+", "-"} /\ x.t = "l" /\ y.t = "i"
  /\ LET k == IF op = "+" THEN y.v ELSE Neg32(y.v) IN
     \E j \in x.v : Tied(ItemsOf(Defs, {j[1]}), Add32(j[3], k))

RECURSIVE Eval(_, _)
RECURSIVE Cat(_, _, _)
Eval(e, s) ==
  CASE e.k = "lit" -> Val(e.v)
    [] e.k = "var" -> s[e.n]
    [] e.k = "bin" -> LET x == Eval(e.a, s)  y == Eval(e.b, s) IN
                      IF IncrOpen(x, y, e.op) THEN U ELSE Binary(Defs, e.op, x, y)
    [] e.k = "un" -> Unary(Defs, e.op, Eval(e.a, s))
    [] e.k = "range" -> Range3(Eval(e.a, s), Eval(e.b, s), Eval(e.c, s))
    [] e.k = "int" -> LET x == Eval(e.a, s) IN
                      IF x.t = "i" /\ Tied(ItemsOf(Defs, {e.n}), x.v) THEN U ELSE FromInt(Defs, e.n, x)
    [] e.k = "rnd" -> LET x == Eval(e.a, s) IN
                      IF IsErr(x) \/ x.t \in {"o", "u"} THEN x
                      ELSE IF x.t # "l" THEN ERR("not a list")
                      ELSE IF Cardinality(x.v) <= 1 THEN L(x.v, {}) ELSE U
    [] e.k = "cat" -> Cat(e.ps, s, "")
    [] e.k = "flat" -> LET xs == [j \in 1 .. Len(e.xs) |-> Eval(e.xs[j], s)] IN
                       Agreed(Flat(1, xs, e.ops), Flat(2, xs, e.ops), Flat(3, xs, e.ops))
Cat(ps, s, acc) ==
  IF ps = <<>> THEN S(acc)
  ELSE LET x == Eval(Head(ps), s) IN
       IF x.t \in {"e", "o", "u"} THEN x ELSE Cat(Tail(ps), s, acc \o Show(x))

(* ---------------------------- comparison ----------------------------------- *)
\* full form of a value: type and, for lists, every item with its list and value
RECURSIVE Items(_)
Items(x) ==
  IF x = {} THEN ""
  ELSE LET m == CHOOSE j \in x : \A k \in x : j = k \/ ItemLess(j, k) IN
       m[1] \o "." \o m[2] \o "=" \o ToString(m[3]) \o (IF Cardinality(x) = 1 THEN "" ELSE "," \o Items(x \ {m}))
Full(x) == IF x.t = "l" THEN "l:" \o Items(x.v) ELSE Enc(x)

\* does a recorded value (or "!" for an error) agree with x?
Fits(x, got) == CASE x.t = "o" -> TRUE
                  [] x.t = "u" -> TRUE
                  [] IsErr(x) -> got = "!"
                  [] x.t = "x" -> got = ""
                  [] OTHER -> got = Full(x)
FitsText(x, got) == CASE x.t \in {"u", "o"} -> TRUE [] OTHER -> got = Show(x)
FitsStore(s, got) == \A n \in DOMAIN got : Fits(s[n], got[n])

Start == [n \in DOMAIN D.vars |-> Val(D.vars[n])]

Init == /\ p \in 1 .. Len(Docs)
        /\ i = 1 /\ bad = 0
        /\ st = [n \in DOMAIN Docs[p].vars |-> Val(Docs[p].vars[n])]

\* printing or assigning what is an error ends the story
Stops(x) == IsErr(x) \/ x.t = "o"
New(q) == IF q.k = "inc" THEN Eval([k |-> "bin", op |-> q.sg, a |-> [k |-> "var", n |-> q.n], b |-> q.e], st)
          ELSE Eval(q.e, st)
\* an empty list keeps the lists it could hold; of an unknown list they are unknown
Put(old, new) == IF new.t = "l" /\ new.v = {} /\ old.t = "u" THEN U ELSE Assigned(old, new)

\* May: the program ended with an error somewhere between the last line shown and
\* the statement before which the next line is missing; the statement that is to
\* blame has to be one the specification says may stop it.
May == "may" \in DOMAIN Stmt
CondStops(q, x) == Stops(x) \/ (q.k = "if" /\ ~HasTruth(x) /\ x.t # "u")
Ok == LET q == Stmt  x == New(q) IN
      IF May THEN CondStops(q, x) \/ x.t = "u" \/ i < Len(D.stmts)
      ELSE CASE q.k = "ret" -> Fits(x, q.got)
        [] q.k \in {"set", "inc"} ->
             IF IsErr(x) THEN FALSE ELSE IF x.t = "o" THEN TRUE ELSE FitsStore([st EXCEPT ![q.n] = Put(@, x)], q.st)
        [] q.k = "show" -> IF IsErr(x) THEN FALSE ELSE FitsText(x, q.got) /\ FitsStore(st, q.st)
        [] q.k = "if" -> IF CondStops(q, x) THEN x.t = "o"
                         ELSE IF x.t = "u" THEN q.got \in {"yes", "no"} ELSE q.got = IF Truthy(x) THEN "yes" ELSE "no"

Run == /\ i <= Len(D.stmts)
       /\ Ok
       /\ LET q == Stmt  x == New(q) IN
          /\ (x.t \in {"u", "o"} => PrintT("U " \o ToJson([p |-> p, i |-> i])))
          /\ i' = IF q.k # "ret" /\ (CondStops(q, x) \/ (May /\ x.t = "u")) THEN Len(D.stmts) + 1 ELSE i + 1
          /\ st' = IF q.k \in {"set", "inc"} /\ ~Stops(x) THEN [st EXCEPT ![q.n] = Put(@, x)] ELSE st
          /\ UNCHANGED <<p, bad>>

Wrong == /\ i <= Len(D.stmts)
         /\ bad = 0
         /\ ~Ok
         /\ PrintT("D " \o ToJson([p |-> p, i |-> i, want |-> LET x == New(Stmt) IN IF IsErr(x) THEN "! " \o x.v ELSE IF x.t \in {"o", "u", "x"} THEN x.t ELSE Full(x)]))
         /\ IF Stmt.k = "ret" THEN bad' = 0 /\ i' = i + 1 ELSE bad' = 1 /\ i' = Len(D.stmts) + 1
         /\ UNCHANGED <<p, st>>

Next == Run \/ Wrong
Spec == Init /\ [][Next]_vars
TypeOK == bad \in {0, 1}
=============================================================================
