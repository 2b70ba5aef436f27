------------------------------- MODULE InkOps -------------------------------
(* Every operator on every pair of values of a given set: what it is by InkValues
   (32-bit arithmetic that wraps, coercions, lists, type errors).  The table is
   printed; the same operations are evaluated in the real engine, in every build
   profile (C04).  The arithmetic is also checked against its own laws here.       *)
EXTENDS InkValues, Json, IOUtils
Doc == JsonDeserialize(IOEnv.OPS_DOC)    \* [defs, vals: values, bin: names of operators, un: names]

Vals == [i \in 1..Len(Doc.vals) |-> Val(Doc.vals[i])]
N == Len(Vals)

VARIABLES op, a, done
vars == << op, a, done >>

IncrOpen(x, y, o) == /\ o \in {"+", "-"} /\ x.t = "l" /\ y.t = "i"
                     /\ LET k == IF o = "+" THEN y.v ELSE Neg32(y.v) IN
                        \E j \in x.v : Cardinality(WithV(ItemsOf(Doc.defs, {j[1]}), Add32(j[3], k))) > 1
Bin(o, x, y) == IF IncrOpen(x, y, o) THEN U ELSE Binary(Doc.defs, o, x, y)
Out(x) == IF x.t \in {"e", "u", "o", "x"} THEN x.t ELSE Enc(x)

Init == op \in 1..(Len(Doc.bin) + Len(Doc.un)) /\ a \in 1..N /\ done = FALSE
Two == /\ op <= Len(Doc.bin)
       /\ PrintT("O " \o ToJson([o |-> Doc.bin[op], a |-> a, r |-> [b \in 1..N |-> Out(Bin(Doc.bin[op], Vals[a], Vals[b]))]]))
One == /\ op > Len(Doc.bin)
       /\ PrintT("U " \o ToJson([o |-> Doc.un[op - Len(Doc.bin)], a |-> a, r |-> Out(Unary(Doc.defs, Doc.un[op - Len(Doc.bin)], Vals[a]))]))
Next == ~done /\ (Two \/ One) /\ done' = TRUE /\ UNCHANGED << op, a >>
Spec == Init /\ [][Next]_vars

\* the laws of arithmetic modulo 2^32, on all integers of the set
Ints == { Vals[i].v : i \in { j \in 1..N : Vals[j].t = "i" } }
Laws == op = 1 /\ a = 1 =>
  \A x, y \in Ints : /\ Add32(x, y) = Add32(y, x) /\ Sub32(Add32(x, y), y) = x
                     /\ Mul32(x, y) = Mul32(y, x) /\ Mul32(x, Neg32(y)) = Neg32(Mul32(x, y))
                     /\ Mul32(x, Add32(y, 1)) = Add32(Mul32(x, y), x)
                     /\ Neg32(Neg32(x)) = x
                     /\ (y # 0 /\ ~(x = MinI /\ y = -1)) => Add32(Mul32(Div32(x, y), y), Mod32(x, y)) = x
=============================================================================
