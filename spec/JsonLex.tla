------------------------------ MODULE JsonLex -------------------------------
(* The lexical level of a compiled story: how a JSON text spells strings, numbers
   and the space between tokens, and what each spelling means (RFC 8259).

   Texts and strings are sequences of code points.  A writer chooses the next
   character of a string (or the parts of a number) and one of its spellings; a
   reader automaton consumes the text again.  TLC checks that the reader gives back
   what was written for every choice (RoundTrip), and prints every spelling with
   its meaning.  Both story loaders have to read each of them so (C14), and neither
   may take what the grammar refuses for a value (C15): the writer can also drop in
   one wrong symbol, and the reader then says whether the text still is a value.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Mode,      \* "string" | "number"
          MaxLen,    \* characters per string
          Wrong      \* also write one wrong symbol?

QUOTE == 34
BACK == 92

\* characters that readers have been known to treat specially
Chars == { 0, 8, 9, 10, 12, 13, 31, 32, 34, 47, 92, 97, 110, 117, 44, 58, 93, 125, 94,
           127, 133, 160, 233, 8232, 12288, 65279, 55295, 57344, 65533, 65535, 65536, 128512, 1114111 }

HexDigit(n, up) == IF n < 10 THEN 48 + n ELSE IF up THEN 55 + n ELSE 87 + n
Hex4(n, up) == << HexDigit(n \div 4096, up), HexDigit((n \div 256) % 16, up), HexDigit((n \div 16) % 16, up), HexDigit(n % 16, up) >>
Escape(n, up) == << BACK, 117 >> \o Hex4(n, up)
Short == [ x \in {34, 92, 47, 8, 12, 10, 13, 9} |->
             CASE x = 34 -> 34 [] x = 92 -> 92 [] x = 47 -> 47 [] x = 8 -> 98
               [] x = 12 -> 102 [] x = 10 -> 110 [] x = 13 -> 114 [] x = 9 -> 116 ]

Spellings(c) ==
  (IF c >= 32 /\ c # QUOTE /\ c # BACK THEN { <<c>> } ELSE {})
  \cup (IF c \in DOMAIN Short THEN { << BACK, Short[c] >> } ELSE {})
  \cup (IF c <= 65535 THEN { Escape(c, TRUE), Escape(c, FALSE) }
        ELSE { Escape(55296 + (c - 65536) \div 1024, u) \o Escape(56320 + ((c - 65536) % 1024), u) : u \in BOOLEAN })

\* what may not stand in a string
WrongSymbols == { <<10>>, <<9>>, <<0>>, <<BACK, 120>>, <<BACK, 85>>, <<BACK, 39>>, <<BACK, 117, 48, 48, 52>>, <<BACK, 117, 48, 48, 52, 71>>,
                  <<BACK, 117, 43, 48, 52, 49>>, Escape(55357, FALSE), Escape(56832, FALSE), Escape(55357, FALSE) \o Escape(97, FALSE), <<BACK>> }

----------------------------------------------------------------------------
(* numbers: the parts; d8 stands for a digit string *)
IntParts == { <<48>>, <<55>>, <<49, 50>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>, <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>, <<49, 50, 51, 52, 53, 54, 55, 56, 57, 48, 49, 50, 51>>,
              <<49, 56, 52, 52, 54, 55, 52, 52, 48, 55, 51, 55, 48, 57, 53, 53, 49, 54, 49, 54>> }
FracParts == { <<>>, <<46, 48>>, <<46, 53>>, <<46, 50, 53>>, <<46, 49, 50, 53, 48>> }
ExpParts == { <<>>, <<101, 48>>, <<69, 49>>, <<101, 43, 50>>, <<69, 45, 49>>, <<101, 48, 50>> }
WrongNumbers == { <<43, 49>>, <<48, 49>>, <<46, 53>>, <<53, 46>>, <<49, 101>>, <<49, 101, 43>>, <<45>>, <<45, 45, 49>>, <<49, 46, 101, 49>>, <<48, 120, 49>>, <<105, 110, 102>>, <<78, 97, 78>>,
                  <<45, 105, 110, 102>>, <<49, 95, 48>>, <<49, 32, 50>>, <<49, 46, 46, 50>>, <<49, 101, 57, 57, 57>> , <<45, 48, 48>> }
Digit(x) == x >= 48 /\ x <= 57

RECURSIVE AllDigits(_)
AllDigits(s) == s = <<>> \/ (Digit(Head(s)) /\ AllDigits(Tail(s)))
TakeDigits(s) == LET k == CHOOSE k \in 0..Len(s) : AllDigits(SubSeq(s, 1, k)) /\ (k = Len(s) \/ ~Digit(s[k + 1])) IN k
Drop(s, k) == SubSeq(s, k + 1, Len(s))

(* -1: not a number; otherwise [neg, int, frac, exp] as digit strings *)
ReadNumber(s) ==
  LET neg == s # <<>> /\ s[1] = 45
      a == IF neg THEN Tail(s) ELSE s
      i == TakeDigits(a)
      b == Drop(a, i)
      dot == b # <<>> /\ b[1] = 46
      f == IF dot THEN TakeDigits(Tail(b)) ELSE 0
      c == IF dot THEN Drop(b, f + 1) ELSE b
      e == c # <<>> /\ c[1] \in {101, 69}
      sg == e /\ Len(c) > 1 /\ c[2] \in {43, 45}
      x == IF e THEN Drop(c, IF sg THEN 2 ELSE 1) ELSE <<>>
      xd == TakeDigits(x)
      rest == IF e THEN Drop(x, xd) ELSE c
      ok == i > 0 /\ (i > 1 => a[1] # 48) /\ (dot => f > 0) /\ (e => xd > 0) /\ rest = <<>>
  IN IF ~ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, neg |-> neg, int |-> SubSeq(a, 1, i), frac |-> IF dot THEN SubSeq(Tail(b), 1, f) ELSE <<>>,
           exp |-> SubSeq(x, 1, xd), nexp |-> sg /\ c[2] = 45, whole |-> ~dot /\ ~e]

----------------------------------------------------------------------------
VARIABLES text, val, ok, fin, r
vars == << text, val, ok, fin, r >>

(* the reader: plain, esc, hex (digits so far), pair (high surrogate seen) *)
R0 == [m |-> "plain", h |-> 0, n |-> 0, hi |-> 0, out |-> <<>>]
HexVal(x) == IF x >= 48 /\ x <= 57 THEN x - 48 ELSE IF x >= 65 /\ x <= 70 THEN x - 55 ELSE IF x >= 97 /\ x <= 102 THEN x - 87 ELSE -1
Bad == [m |-> "bad", h |-> 0, n |-> 0, hi |-> 0, out |-> <<>>]
Unshort(x) == IF \E c \in DOMAIN Short : Short[c] = x THEN CHOOSE c \in DOMAIN Short : Short[c] = x ELSE -1

ReadChar(q, x) ==
  CASE q.m = "bad" -> q
    [] q.m = "plain" -> IF q.hi # 0 /\ x # BACK THEN Bad
                        ELSE IF x = BACK THEN [q EXCEPT !.m = "esc"]
                        ELSE IF x < 32 \/ x = QUOTE THEN Bad
                        ELSE [q EXCEPT !.out = Append(@, x)]
    [] q.m = "esc" -> IF x = 117 THEN [q EXCEPT !.m = "hex", !.h = 0, !.n = 0]
                      ELSE IF Unshort(x) >= 0 /\ q.hi = 0 THEN [q EXCEPT !.m = "plain", !.out = Append(@, Unshort(x))]
                      ELSE Bad
    [] q.m = "hex" ->
         IF HexVal(x) < 0 THEN Bad
         ELSE LET h == q.h * 16 + HexVal(x)
              IN IF q.n < 3 THEN [q EXCEPT !.h = h, !.n = @ + 1]
                 ELSE IF q.hi # 0
                      THEN IF h >= 56320 /\ h < 57344
                           THEN [q EXCEPT !.m = "plain", !.hi = 0, !.out = Append(@, 65536 + (q.hi - 55296) * 1024 + (h - 56320))]
                           ELSE Bad
                      ELSE IF h >= 55296 /\ h < 56320 THEN [q EXCEPT !.m = "plain", !.hi = h]
                      ELSE IF h >= 56320 /\ h < 57344 THEN Bad
                      ELSE [q EXCEPT !.m = "plain", !.out = Append(@, h)]
RECURSIVE ReadAll(_, _)
ReadAll(q, s) == IF s = <<>> THEN q ELSE ReadAll(ReadChar(q, Head(s)), Tail(s))

IsValue(q) == q.m = "plain" /\ q.hi = 0

Init == text = <<>> /\ val = <<>> /\ ok = TRUE /\ fin = FALSE /\ r = R0

WriteChar(c, s) == /\ text' = text \o s
                   /\ val' = Append(val, c)
                   /\ r' = ReadAll(r, s)
                   /\ UNCHANGED <<ok, fin>>
WriteWrong(s) == /\ text' = text \o s /\ val' = Append(val, -1) /\ ok' = FALSE
                 /\ r' = ReadAll(r, s) /\ UNCHANGED fin

Emit(d) == PrintT("J " \o ToJson(d))

Finish == /\ ~fin /\ fin' = TRUE
          /\ Emit([k |-> "s", t |-> text, v |-> r.out, ok |-> IsValue(r)])
          /\ UNCHANGED <<text, val, ok, r>>

WriteNumber == \E neg \in BOOLEAN, i \in IntParts, f \in FracParts, e \in ExpParts :
                 LET s == (IF neg THEN <<45>> ELSE <<>>) \o i \o f \o e
                 IN /\ text = <<>> /\ text' = s /\ fin' = TRUE
                    /\ Emit([k |-> "n", t |-> s, v |-> ReadNumber(s), ok |-> TRUE])
                    /\ Assert(ReadNumber(s).ok /\ ReadNumber(s).whole = (f = <<>> /\ e = <<>>), s)
                    /\ UNCHANGED <<val, ok, r>>
WriteWrongNumber == \E s \in WrongNumbers :
                      /\ text = <<>> /\ text' = s /\ fin' = TRUE /\ ok' = FALSE
                      /\ Emit([k |-> "n", t |-> s, v |-> ReadNumber(s), ok |-> ReadNumber(s).ok])
                      /\ UNCHANGED <<val, r>>

Next == \/ /\ Mode = "string" /\ ~fin /\ Len(val) < MaxLen
           /\ \/ \E c \in Chars : \E s \in Spellings(c) : WriteChar(c, s)
              \/ Wrong /\ ok /\ \E s \in WrongSymbols : WriteWrong(s)
        \/ Mode = "string" /\ Finish
        \/ Mode = "number" /\ WriteNumber
        \/ Mode = "number" /\ Wrong /\ WriteWrongNumber

Spec == Init /\ [][Next]_vars

(* what was written is what is read *)
RoundTrip == ok => IsValue(r) /\ r.out = val
(* after a wrong symbol the reader may only accept a text that spells something else
   than was meant: a half pair completed by the next escape *)
Refused == ~ok /\ Len(val) = 1 => ~IsValue(r)
=============================================================================
