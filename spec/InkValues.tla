----------------------------- MODULE InkValues -----------------------------
(* Values of Ink expressions and the operators on them.                      *)
(*                                                                           *)
(*  [t |-> "i", v |-> 32-bit integer]                                        *)
(*  [t |-> "f", n |-> N, e |-> E]     the float N / 2^E (normalised)         *)
(*  [t |-> "u"]                       a float this model does not track      *)
(*  [t |-> "b", v |-> BOOLEAN]                                               *)
(*  [t |-> "s", v |-> string]                                                *)
(*  [t |-> "l", v |-> set of <<origin, item, value>>, o |-> set of origins]  *)
(*  [t |-> "d", v |-> name of a flow]          a divert target               *)
(*  [t |-> "p", v |-> name, d |-> frame]       a reference parameter         *)
(*  [t |-> "x"]                       nothing (a function without return)    *)
(*  [t |-> "e", v |-> why]            the operation is a run-time error      *)
(*  [t |-> "o"]  any result or an error is acceptable (left open by Ink)     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

MinI == -2147483647 - 1
MaxI == 2147483647

I(n) == [t |-> "i", v |-> n]
B(b) == [t |-> "b", v |-> b]
S(s) == [t |-> "s", v |-> s]
L(x, o) == [t |-> "l", v |-> x, o |-> o]
U == [t |-> "u"]
VOID == [t |-> "x"]
OPEN == [t |-> "o"]
ERR(w) == [t |-> "e", v |-> w]
IsErr(x) == x.t = "e"

(* ------------------------- 32-bit arithmetic ------------------------------ *)
\* TLC's own integers are 32 bits and overflow is an error, so sums and
\* products are computed on 16- and 8-bit limbs.
Hi(a) == a \div 65536
Lo(a) == a % 65536
Sx(h) == LET m == h % 65536 IN IF m >= 32768 THEN m - 65536 ELSE m
Mk(h, l) == LET c == l \div 65536 IN Sx(h + c) * 65536 + (l % 65536)
Add32(a, b) == Mk(Hi(a) + Hi(b), Lo(a) + Lo(b))
Neg32(a) == IF a = MinI THEN MinI ELSE -a
Sub32(a, b) == Mk(Hi(a) - Hi(b), Lo(a) - Lo(b))
Mul32(a, b) ==
  LET a0 == a % 256   a1 == (a \div 256) % 256   a2 == (a \div 65536) % 256   a3 == (a \div 16777216) % 256
      b0 == b % 256   b1 == (b \div 256) % 256   b2 == (b \div 65536) % 256   b3 == (b \div 16777216) % 256
      p0 == a0 * b0
      p1 == a1 * b0 + a0 * b1
      p2 == a2 * b0 + a1 * b1 + a0 * b2
      p3 == a3 * b0 + a2 * b1 + a1 * b2 + a0 * b3
      q0 == p0
      q1 == p1 + (q0 \div 256)
      q2 == p2 + (q1 \div 256)
      q3 == p3 + (q2 \div 256)
  IN Mk((q3 % 256) * 256 + (q2 % 256), (q1 % 256) * 256 + (q0 % 256))
\* truncating division, for b # 0 and not MinI / -1
Abs(a) == IF a < 0 THEN -a ELSE a
QPos(a, b) == \* a, b any sign, neither MinI
  LET q == Abs(a) \div Abs(b) IN IF (a < 0) = (b < 0) THEN q ELSE -q
Div32(a, b) ==
  IF b = MinI THEN (IF a = MinI THEN 1 ELSE 0)
  ELSE IF a = MinI
       THEN IF b = 1 THEN MinI
            ELSE \* |MinI| = MaxI + 1
              LET q == (MaxI \div Abs(b)) + (IF MaxI % Abs(b) = Abs(b) - 1 THEN 1 ELSE 0) IN
              IF b < 0 THEN q ELSE -q
       ELSE QPos(a, b)
Mod32(a, b) == Sub32(a, Mul32(Div32(a, b), b))

(* ------------------------------- floats ----------------------------------- *)
RECURSIVE P2(_)
P2(e) == IF e = 0 THEN 1 ELSE 2 * P2(e - 1)
Lim == 16777216            \* 2^24: beyond this a 32-bit float is not exact
RECURSIVE P5(_)
P5(e) == IF e = 0 THEN 1 ELSE 5 * P5(e - 1)
\* a float prints as its shortest decimal, which is the exact one up to 7 digits;
\* values with more digits are not tracked
RECURSIVE Norm(_, _)
Norm(n, e) ==
  IF n > Lim \/ n < -Lim \/ e > 20 THEN U
  ELSE IF e > 0 /\ n % 2 = 0 THEN Norm(n \div 2, e - 1)
  ELSE IF e > 10 \/ (e > 0 /\ Abs(n) > 9999999 \div P5(e)) THEN U
  ELSE [t |-> "f", n |-> n, e |-> e]
F(n, e) == Norm(n, e)
Small(x) == x.t = "f" /\ Abs(x.n) < 32768 /\ x.e <= 8
FAdd(x, y, sg) ==
  IF ~Small(x) \/ ~Small(y) THEN U
  ELSE LET e == IF x.e > y.e THEN x.e ELSE y.e
           a == x.n * P2(e - x.e)  b == y.n * P2(e - y.e) IN Norm(a + sg * b, e)
FMul(x, y) == IF ~Small(x) \/ ~Small(y) THEN U ELSE Norm(x.n * y.n, x.e + y.e)
RECURSIVE OddPart(_), Twos(_)
OddPart(n) == IF n % 2 = 0 THEN OddPart(n \div 2) ELSE n
Twos(n) == IF n % 2 = 0 THEN 1 + Twos(n \div 2) ELSE 0
FDiv(x, y) ==
  IF ~Small(x) \/ ~Small(y) THEN U
  ELSE IF y.n = 0 THEN U
  ELSE IF x.n = 0 THEN F(0, 0)
  ELSE LET o == OddPart(Abs(y.n))  z == Twos(Abs(y.n)) IN
       IF Abs(x.n) % o # 0 THEN U
       ELSE LET q == QPos(x.n, o) * (IF y.n < 0 THEN -1 ELSE 1)
                sh == z + x.e - y.e IN           \* q / 2^sh
            IF sh >= 0 THEN Norm(q, sh)
            ELSE IF sh < -14 \/ Abs(q) >= 512 THEN U ELSE Norm(q * P2(-sh), 0)
FCmp(x, y) == \* sign of x - y; both Small
  LET e == IF x.e > y.e THEN x.e ELSE y.e
      d == x.n * P2(e - x.e) - y.n * P2(e - y.e) IN
  IF d < 0 THEN -1 ELSE IF d > 0 THEN 1 ELSE 0
FMod(x, y) ==
  IF ~Small(x) \/ ~Small(y) THEN U
  ELSE IF y.n = 0 THEN U
  ELSE LET e == IF x.e > y.e THEN x.e ELSE y.e
           a == x.n * P2(e - x.e)  b == y.n * P2(e - y.e)
           r == Abs(a) % Abs(b) IN Norm(IF a < 0 THEN -r ELSE r, e)
RECURSIVE FPow(_, _)
FPow(x, k) == IF k = 0 THEN F(1, 0) ELSE LET r == FPow(x, k - 1) IN IF r.t = "u" THEN U ELSE FMul(r, x)
FFloor(x) == x.n \div P2(x.e)
FTrunc(x) == LET q == Abs(x.n) \div P2(x.e) IN IF x.n < 0 THEN -q ELSE q
I2F(n) == IF n >= Lim \/ n <= -Lim THEN U ELSE F(n, 0)

\* the decimal digits of r / 2^e, r < 2^e
RECURSIVE Frac(_, _)
Frac(r, e) == IF r = 0 THEN "" ELSE ToString((r * 10) \div P2(e)) \o Frac((r * 10) % P2(e), e)
FShow(x) ==
  LET a == Abs(x.n)  w == a \div P2(x.e)  r == a % P2(x.e)
      s == IF x.n < 0 THEN "-" ELSE "" IN
  IF r = 0 THEN s \o ToString(w) ELSE s \o ToString(w) \o "." \o Frac(r, x.e)

(* -------------------------------- lists ------------------------------------ *)
\* Defs: sequence of [name, items: <<[n, v], ...>>] of the program
ItemsOf(Defs, o) ==
  UNION {{<<Defs[i].name, Defs[i].items[j].n, Defs[i].items[j].v>> : j \in 1 .. Len(Defs[i].items)}
           : i \in {k \in 1 .. Len(Defs) : Defs[k].name \in o}}
Origins(x) == IF x.v # {} THEN {i[1] : i \in x.v} ELSE x.o
MaxV(x) == CHOOSE n \in {i[3] : i \in x} : \A j \in x : j[3] <= n
MinV(x) == CHOOSE n \in {i[3] : i \in x} : \A j \in x : j[3] >= n
WithV(x, n) == {i \in x : i[3] = n}
\* list with one of the items of x of the extreme value n (Ink leaves ties open)
Pick1(x, n) == IF Cardinality(WithV(x, n)) = 1 THEN L(WithV(x, n), {}) ELSE U
RECURSIVE StrLess(_, _, _)
CharOrd == " !#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[]^_`abcdefghijklmnopqrstuvwxyz"
RECURSIVE PosOf(_, _)
PosOf(c, i) == IF i > Len(CharOrd) THEN 0 ELSE IF SubSeq(CharOrd, i, i) = c THEN i ELSE PosOf(c, i + 1)
StrLess(a, b, i) ==
  IF i > Len(b) THEN FALSE ELSE IF i > Len(a) THEN TRUE
  ELSE LET p == PosOf(SubSeq(a, i, i), 1)  q == PosOf(SubSeq(b, i, i), 1) IN
       IF p # q THEN p < q ELSE StrLess(a, b, i + 1)
ItemLess(a, b) == IF a[3] # b[3] THEN a[3] < b[3]
                  ELSE IF a[1] # b[1] THEN StrLess(a[1], b[1], 1) ELSE StrLess(a[2], b[2], 1)
RECURSIVE ShowItems(_)
ShowItems(x) ==
  IF x = {} THEN ""
  ELSE LET m == CHOOSE i \in x : \A j \in x : i = j \/ ItemLess(i, j) IN
       IF Cardinality(x) = 1 THEN m[2] ELSE m[2] \o ", " \o ShowItems(x \ {m})

(* ------------------------------ printing ----------------------------------- *)
Show(x) ==
  CASE x.t = "i" -> ToString(x.v)
    [] x.t = "f" -> FShow(x)
    [] x.t = "b" -> IF x.v THEN "true" ELSE "false"
    [] x.t = "s" -> x.v
    [] x.t = "l" -> ShowItems(x.v)
    [] OTHER -> "?"
Enc(x) == CASE x.t = "d" -> "d:" \o x.v [] OTHER -> x.t \o ":" \o Show(x)

Truthy(x) == CASE x.t = "b" -> x.v
               [] x.t = "i" -> x.v # 0
               [] x.t = "f" -> x.n # 0
               [] x.t = "s" -> x.v # ""
               [] x.t = "l" -> x.v # {}
               [] OTHER -> FALSE
HasTruth(x) == x.t \in {"b", "i", "f", "s", "l"}

(* ------------------------- operators ---------------------------------------- *)
Ord(x) == CASE x.t = "b" -> 1 [] x.t = "i" -> 1 [] x.t = "f" -> 2 [] x.t = "u" -> 2
            [] x.t = "l" -> 3 [] x.t = "s" -> 4 [] OTHER -> 5
ToI(x) == IF x.t = "b" THEN (IF x.v THEN 1 ELSE 0) ELSE x.v
ToF(x) == CASE x.t = "b" -> F(IF x.v THEN 1 ELSE 0, 0) [] x.t = "i" -> I2F(x.v) [] OTHER -> x
\* a list becomes the (full) name of its last item as a string: left open here
ToS(x) == x

RECURSIVE FindSub(_, _, _)
FindSub(h, n, i) == IF i + Len(n) - 1 > Len(h) THEN FALSE
                    ELSE IF SubSeq(h, i, i + Len(n) - 1) = n THEN TRUE ELSE FindSub(h, n, i + 1)
Substr(h, n) == IF n = "" THEN TRUE ELSE FindSub(h, n, 1)

IntOp(op, a, b) ==
  CASE op = "+" -> I(Add32(a, b))
    [] op = "-" -> I(Sub32(a, b))
    [] op = "*" -> I(Mul32(a, b))
    [] op = "/" -> IF b = 0 THEN ERR("division by zero")
                   ELSE IF a = MinI /\ b = -1 THEN OPEN ELSE I(Div32(a, b))
    [] op = "%" -> IF b = 0 THEN ERR("modulo by zero")
                   ELSE IF a = MinI /\ b = -1 THEN OPEN ELSE I(Mod32(a, b))
    [] op = "==" -> B(a = b)
    [] op = "!=" -> B(a # b)
    [] op = "<" -> B(a < b)
    [] op = ">" -> B(a > b)
    [] op = "<=" -> B(a <= b)
    [] op = ">=" -> B(a >= b)
    [] op = "&&" -> B(a # 0 /\ b # 0)
    [] op = "||" -> B(a # 0 \/ b # 0)
    [] op = "MIN" -> I(IF a < b THEN a ELSE b)
    [] op = "MAX" -> I(IF a > b THEN a ELSE b)
    [] op = "POW" -> IF b >= 0 /\ b <= 12 /\ I2F(a).t = "f" THEN FPow(I2F(a), b)
                     ELSE IF b < 0 /\ b >= -12 /\ I2F(a).t = "f" /\ a # 0 THEN
                          LET p == FPow(I2F(a), -b) IN IF p.t = "u" THEN U ELSE FDiv(F(1, 0), p)
                     ELSE U
    [] OTHER -> ERR("operator not available for integers")
FloatOp(op, x, y) ==
  IF x.t = "u" \/ y.t = "u" THEN U
  ELSE CASE op = "+" -> FAdd(x, y, 1)
    [] op = "-" -> FAdd(x, y, -1)
    [] op = "*" -> FMul(x, y)
    [] op = "/" -> FDiv(x, y)
    [] op = "%" -> FMod(x, y)
    [] op \in {"==", "!=", "<", ">", "<=", ">=", "MIN", "MAX"} ->
         IF ~Small(x) \/ ~Small(y) THEN U
         ELSE LET c == FCmp(x, y) IN
           CASE op = "==" -> B(c = 0) [] op = "!=" -> B(c # 0) [] op = "<" -> B(c < 0)
             [] op = ">" -> B(c > 0) [] op = "<=" -> B(c <= 0) [] op = ">=" -> B(c >= 0)
             [] op = "MIN" -> (IF c < 0 THEN x ELSE y) [] OTHER -> (IF c > 0 THEN x ELSE y)
    [] op = "&&" -> B(x.n # 0 /\ y.n # 0)
    [] op = "||" -> B(x.n # 0 \/ y.n # 0)
    [] op = "POW" -> IF y.e = 0 /\ y.n >= 0 /\ y.n <= 12 THEN FPow(x, y.n) ELSE U
    [] OTHER -> ERR("operator not available for floats")
StrOp(op, a, b) ==
  CASE op = "+" -> S(a \o b)
    [] op = "==" -> B(a = b)
    [] op = "!=" -> B(a # b)
    [] op = "?" -> B(Substr(a, b))
    [] op = "!?" -> B(~Substr(a, b))
    [] OTHER -> ERR("operator not available for strings")
ListOp(op, x, y) ==
  LET a == x.v  b == y.v IN
  CASE op = "+" -> L(a \cup b, x.o)
    [] op = "-" -> L(a \ b, Origins(x))
    [] op = "^" -> L(a \cap b, {})
    [] op = "?" -> B(a # {} /\ b # {} /\ b \subseteq a)
    [] op = "!?" -> B(~(a # {} /\ b # {} /\ b \subseteq a))
    [] op = "==" -> B(a = b)
    [] op = "!=" -> B(a # b)
    [] op = ">" -> B(a # {} /\ (b = {} \/ MinV(a) > MaxV(b)))
    [] op = ">=" -> B(a # {} /\ (b = {} \/ (MinV(a) >= MinV(b) /\ MaxV(a) >= MaxV(b))))
    [] op = "<" -> B(b # {} /\ (a = {} \/ MaxV(a) < MinV(b)))
    [] op = "<=" -> B(b # {} /\ (a = {} \/ (MaxV(a) <= MaxV(b) /\ MinV(a) <= MinV(b))))
    [] op = "&&" -> B(a # {} /\ b # {})
    [] op = "||" -> B(a # {} \/ b # {})
    [] OTHER -> ERR("operator not available for lists")
Incr(Defs, x, k) ==
  L({j \in ItemsOf(Defs, Origins(x)) : \E i \in x.v : i[1] = j[1] /\ Add32(i[3], k) = j[3]}, {})

Binary(Defs, op, x, y) ==
  IF IsErr(x) THEN x ELSE IF IsErr(y) THEN y
  ELSE IF x.t = "o" \/ y.t = "o" THEN OPEN
  ELSE IF x.t = "x" \/ y.t = "x" THEN ERR("operation on void")
  ELSE IF x.t = "d" \/ y.t = "d" THEN
       IF op = "==" /\ x.t = y.t THEN B(x.v = y.v)
       ELSE IF op = "!=" /\ x.t = y.t THEN B(x.v # y.v) ELSE ERR("operation on divert target")
  ELSE IF x.t = "l" \/ y.t = "l" THEN
       IF op \in {"&&", "||"} /\ (x.t = "u" \/ y.t = "u") THEN OPEN
       ELSE IF op \in {"+", "-"} /\ x.t = "l" /\ y.t = "i"
         THEN Incr(Defs, x, IF op = "+" THEN y.v ELSE Neg32(y.v))
       ELSE IF op \in {"&&", "||"} /\ (x.t # "l" \/ y.t # "l")
         THEN IF op = "&&" THEN B(Truthy(x) /\ Truthy(y)) ELSE B(Truthy(x) \/ Truthy(y))
       ELSE IF x.t = "l" /\ y.t = "l" THEN ListOp(op, x, y)
       ELSE IF x.t = "u" \/ y.t = "u" THEN OPEN
       ELSE ERR("list mixed with another type")
  ELSE IF x.t = "s" \/ y.t = "s" THEN
       IF x.t = "u" \/ y.t = "u" THEN U ELSE StrOp(op, Show(x), Show(y))
  ELSE IF Ord(x) = 2 \/ Ord(y) = 2 THEN FloatOp(op, ToF(x), ToF(y))
  ELSE IntOp(op, ToI(x), ToI(y))

Unary(Defs, op, x) ==
  IF IsErr(x) \/ x.t = "o" THEN x
  ELSE IF x.t = "x" THEN ERR("operation on void")
  ELSE CASE op = "neg" -> CASE x.t \in {"i", "b"} -> I(Neg32(ToI(x)))
                            [] x.t = "f" -> F(-x.n, x.e) [] x.t = "u" -> U
                            [] OTHER -> ERR("cannot negate")
    [] op = "!" -> CASE x.t \in {"i", "b"} -> B(ToI(x) = 0)
                     [] x.t = "f" -> B(x.n = 0) [] x.t = "u" -> U
                     [] x.t = "l" -> I(IF x.v = {} THEN 1 ELSE 0)
                     [] OTHER -> ERR("cannot apply not")
    [] op \in {"FLOOR", "CEILING", "INT", "FLOAT"} ->
         CASE x.t \in {"i", "b"} -> IF op = "FLOAT" THEN I2F(ToI(x)) ELSE I(ToI(x))
           [] x.t = "u" -> U
           [] x.t = "f" -> CASE op = "FLOOR" -> F(FFloor(x), 0)
                             [] op = "CEILING" -> F(-FFloor(F(-x.n, x.e)), 0)
                             [] op = "INT" -> I(FTrunc(x))
                             [] OTHER -> x
           [] OTHER -> ERR("not a number")
    [] op \in {"LIST_COUNT", "LIST_MIN", "LIST_MAX", "LIST_ALL", "LIST_INVERT", "LIST_VALUE"} ->
         IF x.t = "u" THEN U
         ELSE IF x.t # "l" THEN ERR("not a list")
         ELSE CASE op = "LIST_COUNT" -> I(Cardinality(x.v))
                [] op = "LIST_VALUE" -> I(IF x.v = {} THEN 0 ELSE MaxV(x.v))
                [] op = "LIST_MIN" -> IF x.v = {} THEN L({}, {}) ELSE Pick1(x.v, MinV(x.v))
                [] op = "LIST_MAX" -> IF x.v = {} THEN L({}, {}) ELSE Pick1(x.v, MaxV(x.v))
                [] op = "LIST_ALL" -> L(ItemsOf(Defs, Origins(x)), {})
                [] OTHER -> L(ItemsOf(Defs, Origins(x)) \ x.v, {})
    [] OTHER -> ERR("unknown operator")

Bound(x, dflt, takeMin) ==
  IF x.t = "i" THEN x.v
  ELSE IF x.t = "l" /\ x.v # {} THEN (IF takeMin THEN MinV(x.v) ELSE MaxV(x.v)) ELSE dflt
Range3(x, lo, hi) ==
  IF IsErr(x) THEN x ELSE IF IsErr(lo) THEN lo ELSE IF IsErr(hi) THEN hi
  ELSE IF "u" \in {x.t, lo.t, hi.t} THEN U
  ELSE IF "o" \in {x.t, lo.t, hi.t} THEN OPEN
  ELSE IF x.t # "l" THEN ERR("not a list")
  ELSE L({i \in x.v : i[3] >= Bound(lo, 0, TRUE) /\ i[3] <= Bound(hi, MaxI, FALSE)}, IF x.v = {} THEN {} ELSE Origins(x))
FromInt(Defs, name, x) ==
  IF IsErr(x) \/ x.t = "o" \/ x.t = "u" THEN x
  ELSE IF x.t # "i" THEN ERR("list from a non-integer")
  ELSE L({i \in ItemsOf(Defs, {name}) : i[3] = x.v}, {})

\* keep the origins of the variable when it is assigned an empty list
Assigned(old, new) ==
  IF old.t = "l" /\ new.t = "l" /\ new.v = {} THEN L({}, Origins(old)) ELSE new

\* JSON constants
Val(j) == CASE j.t = "l" -> L({<<j.v[i][1], j.v[i][2], j.v[i][3]>> : i \in 1 .. Len(j.v)}, {j.o[i] : i \in 1 .. Len(j.o)})
            [] j.t = "f" -> F(j.n, j.e)
            [] OTHER -> j
=============================================================================
