------------------------------ MODULE InkText ------------------------------
(* Text of an Ink story: character classes, the output stream and its rules  *)
(* (newline suppression, glue, trimming around functions), and how a stream  *)
(* reads as lines with tags.                                                 *)
(*                                                                           *)
(* An output stream is a sequence of items:                                  *)
(*   [k |-> "t", s |-> text]   text (never containing a newline)             *)
(*   [k |-> "n"]               a line end                                    *)
(*   [k |-> "g"]               glue                                          *)
(*   [k |-> "b"], [k |-> "e"]  begin / end of a tag                          *)
EXTENDS Integers, Sequences, TLC

Ch(s, i) == SubSeq(s, i, i)
IsSp(c) == c = " " \/ c = "\t"
RECURSIVE BlankFrom(_, _)
BlankFrom(s, i) == IF i > Len(s) THEN TRUE
                   ELSE IF IsSp(Ch(s, i)) THEN BlankFrom(s, i + 1) ELSE FALSE
Blank(s) == BlankFrom(s, 1)                   \* only spaces and tabs (or empty)

RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF Len(s) > 0 /\ IsSp(Ch(s, 1)) THEN TrimL(SubSeq(s, 2, Len(s))) ELSE s
TrimR(s) == IF Len(s) > 0 /\ IsSp(Ch(s, Len(s))) THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Trim(s) == TrimL(TrimR(s))

\* collapse runs of spaces/tabs to one space, drop them at both ends of a line
RECURSIVE CollapseFrom(_, _, _, _)
CollapseFrom(s, i, pend, acc) ==
  IF i > Len(s) THEN acc
  ELSE LET c == Ch(s, i) IN
       IF IsSp(c) THEN CollapseFrom(s, i + 1, TRUE, acc)
       ELSE CollapseFrom(s, i + 1, FALSE, IF pend /\ acc # "" THEN acc \o " " \o c ELSE acc \o c)
\* quick path: text without two adjacent spaces only needs trimming
RECURSIVE Dbl(_, _)
Dbl(s, i) == IF i >= Len(s) THEN FALSE
             ELSE IF IsSp(Ch(s, i)) THEN (IF IsSp(Ch(s, i + 1)) \/ Ch(s, i) = "\t" THEN TRUE ELSE Dbl(s, i + 2))
             ELSE Dbl(s, i + 1)
Clean(s) == CollapseFrom(s, 1, FALSE, "")

T(s) == [k |-> "t", s |-> s]
NL == [k |-> "n"]
GLUE == [k |-> "g"]
TB == [k |-> "b"]
TE == [k |-> "e"]

IsCmd(x) == x.k = "b" \/ x.k = "e"
IsTxt(x) == x.k = "t" \/ x.k = "n"
NonBlank(x) == x.k = "t" /\ ~Blank(x.s)

(* --- the rules for adding to a stream ------------------------------------ *)
\* index from which trailing newlines are trimmed (0: nothing to trim)
RECURSIVE TrimIdx(_, _, _)
TrimIdx(o, i, acc) ==
  IF i = 0 THEN acc
  ELSE IF IsCmd(o[i]) \/ NonBlank(o[i]) THEN acc
  ELSE TrimIdx(o, i - 1, IF o[i].k = "n" THEN i ELSE acc)
TrimNewlines(o) ==
  LET from == TrimIdx(o, Len(o), 0) IN
  IF from = 0 THEN o
  ELSE SubSeq(o, 1, from - 1) \o SelectSeq(SubSeq(o, from, Len(o)), LAMBDA x : ~IsTxt(x))

RECURSIVE GlueIdx(_, _)
GlueIdx(o, i) == IF i = 0 THEN 0 ELSE IF o[i].k = "g" THEN i ELSE GlueIdx(o, i - 1)
RECURSIVE LastCmd(_, _)
LastCmd(o, i) == IF i = 0 THEN 0 ELSE IF IsCmd(o[i]) THEN i ELSE LastCmd(o, i - 1)
RemoveGlue(o) ==
  LET c == LastCmd(o, Len(o)) IN
  SubSeq(o, 1, c) \o SelectSeq(SubSeq(o, c + 1, Len(o)), LAMBDA x : x.k # "g")

RECURSIVE EndsNL(_, _)
EndsNL(o, i) == IF i = 0 THEN FALSE
                ELSE IF IsCmd(o[i]) THEN FALSE
                ELSE IF o[i].k = "n" THEN TRUE
                ELSE IF NonBlank(o[i]) THEN FALSE ELSE EndsNL(o, i - 1)
HasContent(o) == \E i \in 1 .. Len(o) : IsTxt(o[i])

(* Add one item.  ft = TRUE: we are at the (so far empty) start of an Ink     *)
(* function whose leading line ends are swallowed.  Result: new stream and    *)
(* whether the item ends that state of the enclosing functions.               *)
Push(o, x, ft) ==
  CASE x.k = "g" -> [o |-> Append(TrimNewlines(o), x), nf |-> FALSE]
    [] IsCmd(x)  -> [o |-> Append(o, x), nf |-> FALSE]
    [] OTHER ->
       LET gi == GlueIdx(o, Len(o)) IN
       IF gi > 0 \/ ft THEN
            IF x.k = "n" THEN [o |-> o, nf |-> FALSE]
            ELSE IF NonBlank(x) THEN [o |-> Append(IF gi > 0 THEN RemoveGlue(o) ELSE o, x), nf |-> ft]
            ELSE [o |-> Append(o, x), nf |-> FALSE]
       ELSE IF x.k = "n" /\ (EndsNL(o, Len(o)) \/ ~HasContent(o)) THEN [o |-> o, nf |-> FALSE]
            ELSE [o |-> Append(o, x), nf |-> FALSE]

(* White space printed last by a function that returns is dropped, back to    *)
(* position `from' (where the function started printing).                     *)
RECURSIVE FnTrim(_, _, _)
FnTrim(o, i, from) ==
  IF i <= from \/ IsCmd(o[i]) THEN o
  ELSE IF o[i].k = "g" THEN FnTrim(o, i - 1, from)
  ELSE IF NonBlank(o[i]) THEN o
  ELSE FnTrim(SubSeq(o, 1, i - 1) \o SubSeq(o, i + 1, Len(o)), i - 1, from)

(* --- reading a stream ------------------------------------------------------ *)
\* fold over the items: text of the current line, its tags, open tag
RECURSIVE ReadFrom(_, _, _, _, _, _, _)
ReadFrom(o, i, txt, tags, intag, tag, lines) ==
  IF i > Len(o) THEN [lines |-> lines, txt |-> txt, tags |-> tags]
  ELSE LET x == o[i] IN
    CASE x.k = "b" -> ReadFrom(o, i + 1, txt, tags, TRUE, "", lines)
      [] x.k = "e" -> ReadFrom(o, i + 1, txt, Append(tags, Clean(tag)), FALSE, "", lines)
      [] x.k = "g" -> ReadFrom(o, i + 1, txt, tags, intag, tag, lines)
      [] x.k = "n" -> IF intag THEN ReadFrom(o, i + 1, txt, tags, intag, tag, lines)
                      ELSE ReadFrom(o, i + 1, "", <<>>, FALSE, "",
                                    Append(lines, [x |-> Clean(txt), nl |-> TRUE, tg |-> tags]))
      [] OTHER -> IF intag THEN ReadFrom(o, i + 1, txt, tags, intag, tag \o x.s, lines)
                  ELSE ReadFrom(o, i + 1, txt \o x.s, tags, intag, tag, lines)
Read(o) == ReadFrom(o, 1, "", <<>>, FALSE, "", <<>>)

\* the lines a host receives for the output of one turn
Lines(o) ==
  LET r == Read(o) IN
  IF Clean(r.txt) # "" \/ r.tags # <<>> \/ r.lines = <<>>
    THEN Append(r.lines, [x |-> Clean(r.txt), nl |-> FALSE, tg |-> r.tags])
    ELSE r.lines

\* the raw text and the tags of a captured string
RECURSIVE RawFrom(_, _, _, _)
RawFrom(o, i, intag, acc) ==
  IF i > Len(o) THEN acc
  ELSE LET x == o[i] IN
    CASE x.k = "b" -> RawFrom(o, i + 1, TRUE, acc)
      [] x.k = "e" -> RawFrom(o, i + 1, FALSE, acc)
      [] x.k = "n" -> RawFrom(o, i + 1, intag, IF intag THEN acc ELSE acc \o "\n")
      [] x.k = "g" -> RawFrom(o, i + 1, intag, acc)
      [] OTHER -> RawFrom(o, i + 1, intag, IF intag THEN acc ELSE acc \o x.s)
Raw(o) == RawFrom(o, 1, FALSE, "")
\* every line's: a captured string may hold several, when a function prints them
RECURSIVE TagsUpTo(_, _)
TagsUpTo(ls, i) == IF i = 0 THEN <<>> ELSE TagsUpTo(ls, i - 1) \o ls[i].tg
TagsOf(o) == LET r == Read(o) IN TagsUpTo(r.lines, Len(r.lines)) \o r.tags
=============================================================================
