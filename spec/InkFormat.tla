----------------------------- MODULE InkFormat -----------------------------
(* The format of compiled stories and of saves, and everything that can be wrong
   with a document that was one.

   A document is a tree of JSON values: node 1 is the top; a node is
     [t: "null" | "bool" | "int" | "big" | "flt" | "str" | "arr" | "obj",
      n: a small integer, s: a text, k: keys (of an object), c: children]
   ("big": an integer that is none of 32 bits).

   Fits says whether a document is a compiled story or a save; the documents
   given have to be (Sane).  TLC then damages them in every way (Mode "single"), or
   at random in several places (Mode "many"): a part is replaced by another value,
   left out, doubled, exchanged with the next one, given another key, or buried in
   arrays or objects.  What is damaged and whether the result still fits is
   printed; the damaged documents are given to the real loaders, which may refuse
   or accept them but must return (C15).  Mode "text" damages the text instead: it
   is cut off, a character is lost, doubled or another is put in its place.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS Mode, Most   \* "single" | "many" | "text"; number of faults

Docs == JsonDeserialize(IOEnv.FORMAT_DOCS)

----------------------------------------------------------------------------
(* the format *)
Commands == { "ev", "out", "/ev", "du", "pop", "->->", "~ret", "str", "/str", "nop", "choiceCnt", "turn", "turns", "readc", "rnd", "srnd",
              "visit", "seq", "thread", "done", "end", "listInt", "range", "lrnd", "#", "/#", "void", "<>", "\n" }
Functions == { "+", "-", "/", "*", "%", "_", "==", ">", "<", ">=", "<=", "!=", "!", "&&", "||", "MIN", "MAX", "POW", "FLOOR", "CEILING", "INT",
               "FLOAT", "?", "!?", "L^", "LIST_MIN", "LIST_MAX", "LIST_ALL", "LIST_COUNT", "LIST_VALUE", "LIST_INVERT" }

Is(m, x, t) == m[x].t = t
Key(m, x, k) == \E i \in 1..Len(m[x].k) : m[x].k[i] = k
At(m, x, k) == m[x].c[CHOOSE i \in 1..Len(m[x].k) : m[x].k[i] = k]
Has(m, x, k, t) == Key(m, x, k) /\ Is(m, At(m, x, k), t)
Opt(m, x, k, t) == Key(m, x, k) => Is(m, At(m, x, k), t)
Count(m, x, k) == Has(m, x, k, "int") /\ m[At(m, x, k)].n >= 0
OneOf(m, x) == Cardinality({ m[x].k[i] : i \in 1..Len(m[x].k) }) = Len(m[x].k)
Starts(s, c) == Len(s) > 0 /\ SubSeq(s, 1, 1) = c
AllInts(m, x) == Is(m, x, "obj") /\ \A i \in 1..Len(m[x].c) : Is(m, m[x].c[i], "int")

ListFits(m, x) == /\ Has(m, x, "list", "obj") /\ AllInts(m, At(m, x, "list"))
                  /\ Opt(m, x, "origins", "arr")
                  /\ Key(m, x, "origins") => \A i \in 1..Len(m[At(m, x, "origins")].c) : Is(m, m[At(m, x, "origins")].c[i], "str")
ChoiceFits(m, x) == /\ Is(m, x, "obj") /\ Has(m, x, "text", "str") /\ Count(m, x, "index") /\ Has(m, x, "originalChoicePath", "str")
                    /\ Count(m, x, "originalThreadIndex") /\ Has(m, x, "targetPath", "str")
                    /\ Opt(m, x, "tags", "arr") /\ Opt(m, x, "isInvisibleDefault", "bool")
                    /\ Key(m, x, "tags") => \A i \in 1..Len(m[At(m, x, "tags")].c) : Is(m, m[At(m, x, "tags")].c[i], "str")

ValueFits(m, x) == \/ m[x].t \in {"int", "flt", "bool"}
                   \/ Is(m, x, "str") /\ (Starts(m[x].s, "^") \/ m[x].s = "\n")
                   \/ Is(m, x, "obj") /\ OneOf(m, x) /\ \/ Has(m, x, "^->", "str")
                                                        \/ Has(m, x, "^var", "str") /\ Opt(m, x, "ci", "int")
                                                        \/ ListFits(m, x)
TokenObj(m, x) == /\ Is(m, x, "obj") /\ OneOf(m, x)
                  /\ \/ \E k \in {"->", "f()", "->t->"} : Has(m, x, k, "str") /\ Opt(m, x, "var", "bool") /\ Opt(m, x, "c", "bool")
                     \/ Has(m, x, "x()", "str") /\ (Key(m, x, "exArgs") => Count(m, x, "exArgs"))
                     \/ Has(m, x, "*", "str") /\ Opt(m, x, "flg", "int")
                     \/ \E k \in {"VAR?", "CNT?", "#"} : Has(m, x, k, "str")
                     \/ \E k \in {"VAR=", "temp="} : Has(m, x, k, "str") /\ Opt(m, x, "re", "bool")
RECURSIVE TokenFits(_, _), BoxFits(_, _)
TokenFits(m, x) == \/ ValueFits(m, x)
                   \/ Is(m, x, "str") /\ m[x].s \in Commands \cup Functions
                   \/ TokenObj(m, x)
                   \/ BoxFits(m, x)
BoxFits(m, x) ==
  /\ Is(m, x, "arr") /\ Len(m[x].c) > 0
  /\ \A i \in 1..(Len(m[x].c) - 1) : TokenFits(m, m[x].c[i])
  /\ LET z == m[x].c[Len(m[x].c)]
     IN \/ Is(m, z, "null")
        \/ Is(m, z, "obj") /\ OneOf(m, z) /\ \A i \in 1..Len(m[z].c) :
             CASE m[z].k[i] = "#f" -> Is(m, m[z].c[i], "int")
               [] m[z].k[i] = "#n" -> Is(m, m[z].c[i], "str")
               [] OTHER -> BoxFits(m, m[z].c[i])

StoryFits(m) == /\ Is(m, 1, "obj") /\ OneOf(m, 1)
                /\ Has(m, 1, "inkVersion", "int") /\ m[At(m, 1, "inkVersion")].n \in 18..21
                /\ Key(m, 1, "root") /\ BoxFits(m, At(m, 1, "root"))
                /\ Has(m, 1, "listDefs", "obj")
                /\ \A i \in 1..Len(m[At(m, 1, "listDefs")].c) : AllInts(m, m[At(m, 1, "listDefs")].c[i])

Dict(m, x, Good(_, _)) == Is(m, x, "obj") /\ OneOf(m, x) /\ \A i \in 1..Len(m[x].c) : Good(m, m[x].c[i])
Arr(m, x, Good(_, _)) == Is(m, x, "arr") /\ \A i \in 1..Len(m[x].c) : Good(m, m[x].c[i])
FrameFits(m, x) == /\ Is(m, x, "obj") /\ Count(m, x, "type") /\ m[At(m, x, "type")].n <= 2
                   /\ Has(m, x, "exp", "bool")
                   /\ Opt(m, x, "cPath", "str") /\ (Key(m, x, "cPath") => Has(m, x, "idx", "int"))
                   /\ Key(m, x, "temp") => Dict(m, At(m, x, "temp"), ValueFits)
ThreadFits(m, x) == /\ Is(m, x, "obj") /\ Count(m, x, "threadIndex") /\ Opt(m, x, "previousContentObject", "str")
                    /\ Key(m, x, "callstack") /\ Arr(m, At(m, x, "callstack"), FrameFits) /\ Len(m[At(m, x, "callstack")].c) > 0
StackFits(m, x) == /\ Is(m, x, "obj") /\ Count(m, x, "threadCounter")
                   /\ Key(m, x, "threads") /\ Arr(m, At(m, x, "threads"), ThreadFits) /\ Len(m[At(m, x, "threads")].c) > 0
FlowFits(m, x) == /\ Is(m, x, "obj") /\ Key(m, x, "callstack") /\ StackFits(m, At(m, x, "callstack"))
                  /\ Key(m, x, "outputStream") /\ Arr(m, At(m, x, "outputStream"), TokenFits)
                  /\ Key(m, x, "currentChoices") /\ Arr(m, At(m, x, "currentChoices"), ChoiceFits)
                  /\ Key(m, x, "choiceThreads") => Dict(m, At(m, x, "choiceThreads"), ThreadFits)
SaveFits(m) == /\ Is(m, 1, "obj") /\ OneOf(m, 1)
               /\ Count(m, 1, "inkSaveVersion") /\ Opt(m, 1, "inkFormatVersion", "int")
               /\ Key(m, 1, "flows") /\ Dict(m, At(m, 1, "flows"), FlowFits) /\ Len(m[At(m, 1, "flows")].c) > 0
               /\ Has(m, 1, "currentFlowName", "str") /\ Key(m, At(m, 1, "flows"), m[At(m, 1, "currentFlowName")].s)
               /\ Key(m, 1, "variablesState") /\ Dict(m, At(m, 1, "variablesState"), ValueFits)
               /\ Key(m, 1, "evalStack") /\ Arr(m, At(m, 1, "evalStack"), TokenFits)
               /\ Opt(m, 1, "currentDivertTarget", "str")
               /\ \A k \in {"visitCounts", "turnIndices"} : Key(m, 1, k) /\ AllInts(m, At(m, 1, k))
               /\ \A k \in {"turnIdx", "storySeed", "previousRandom"} : Has(m, 1, k, "int")
Fits(kind, m) == IF kind = "story" THEN StoryFits(m) ELSE SaveFits(m)

----------------------------------------------------------------------------
(* faults *)
Null == [t |-> "null", n |-> 0, s |-> "", k |-> <<>>, c |-> <<>>]
Val(t, n, s) == [Null EXCEPT !.t = t, !.n = n, !.s = s]
Wrong == << Null, Val("bool", 1, ""), Val("int", 0, ""), Val("int", -1, ""), Val("int", 1, ""), Val("int", 7, ""), Val("int", 2147483647, ""),
            Val("big", 0, "2147483648"), Val("big", 0, "99999999999999999999"), Val("big", 0, "18446744073709551615"), Val("big", 0, "-9223372036854775809"),
            Val("flt", 0, "1.5"), Val("flt", 0, "1e300"), Val("flt", 0, "-0.0"),
            Val("str", 0, ""), Val("str", 0, "^"), Val("str", 0, "nosuch"), Val("str", 0, "^text"), Val("str", 0, "\n"), Val("str", 0, "."), Val("str", 0, ".^.^.^.^.^"),
            Val("str", 0, "0.99.1"), Val("str", 0, "99999999999999999999"), Val("str", 0, "end"), Val("str", 0, "->->"), Val("str", 0, "ev"), Val("str", 0, "+"), Val("str", 0, "k.c-0"), Val("str", 0, "global decl"), Val("str", 0, "DEFAULT_FLOW"),
            Val("arr", 0, ""), Val("obj", 0, "") >>
Keys == << "", "#n", "#f", "->", "x()", "*", "list", "^var", "flows", "0", "text" >>
Depths == << 1, 3, 100, 130, 5000, 100000 >>

Faults(m, x, p, j) ==  \* of node x, child j of p (p = 0: the top)
  { [f |-> "put", x |-> x, i |-> i] : i \in 1..Len(Wrong) }
  \cup { [f |-> g, x |-> x, i |-> i] : g \in {"nestA", "nestO"}, i \in 1..Len(Depths) }
  \cup (IF p = 0 THEN {} ELSE { [f |-> "drop", x |-> x, i |-> 0], [f |-> "twice", x |-> x, i |-> 0] }
        \cup (IF j < Len(m[p].c) THEN { [f |-> "swap", x |-> x, i |-> 0] } ELSE {})
        \cup (IF m[p].t = "obj" THEN { [f |-> "key", x |-> x, i |-> i] : i \in 1..Len(Keys) } ELSE {}))

Cut(s, j) == SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s))
Double(s, j) == SubSeq(s, 1, j) \o SubSeq(s, j, Len(s))
Swap(s, j) == SubSeq(s, 1, j - 1) \o << s[j + 1], s[j] >> \o SubSeq(s, j + 2, Len(s))
\* the damaged document (nodes left out of it stay in the table)
Apply(m, q, p, j) ==
  CASE q.f = "put" -> [m EXCEPT ![q.x] = Wrong[q.i]]
    [] q.f \in {"nestA", "nestO"} -> [m EXCEPT ![q.x] = [t |-> IF q.f = "nestA" THEN "arr" ELSE "obj", n |-> 0, s |-> "deep", k |-> IF q.f = "nestO" THEN << "a" >> ELSE <<>>, c |-> << q.x >>]]
    [] q.f = "drop" -> [m EXCEPT ![p].c = Cut(@, j), ![p].k = IF @ = <<>> THEN @ ELSE Cut(@, j)]
    [] q.f = "twice" -> [m EXCEPT ![p].c = Double(@, j), ![p].k = IF @ = <<>> THEN @ ELSE Double(@, j)]
    [] q.f = "swap" -> [m EXCEPT ![p].c = Swap(@, j), ![p].k = IF @ = <<>> THEN @ ELSE Swap(@, j)]
    [] q.f = "key" -> [m EXCEPT ![p].k[j] = Keys[q.i]]

VARIABLES d, m, qs, fits, stop
vars == << d, m, qs, fits, stop >>
Emit(t, r) == PrintT(t \o ToJson(r))

\* where node x now hangs: <<parent, index>>, <<0, 0>> for the top and for what is no longer in the document
Holds(p, x) == \E j \in 1..Len(m[p].c) : m[p].c[j] = x
ParentOf(x) == IF x = 1 \/ ~(\E p \in 1..Len(m) : Holds(p, x)) THEN <<0, 0>>
               ELSE LET p == CHOOSE p \in 1..Len(m) : Holds(p, x) IN << p, CHOOSE j \in 1..Len(m[p].c) : m[p].c[j] = x >>

\* buried too deep to follow: no longer looked at
Buried(q) == q.f \in {"nestA", "nestO"}
Damage(x) ==
  LET pj == IF qs = <<>> THEN Docs[d].up[x] ELSE ParentOf(x)
  IN \E q \in Faults(m, x, pj[1], pj[2]) :
       /\ qs' = Append(qs, [f |-> q.f, x |-> q.x, i |-> q.i, p |-> pj[1], j |-> pj[2]])
       /\ m' = IF Buried(q) THEN m ELSE Apply(m, q, pj[1], pj[2])
       /\ fits' = IF Buried(q) THEN FALSE ELSE Fits(Docs[d].kind, m')
       /\ Emit("M ", [d |-> d, qs |-> qs', fits |-> fits'])

\* still part of the document
RECURSIVE Alive(_)
Alive(x) == IF x = 1 THEN TRUE ELSE LET p == ParentOf(x)[1] IN IF p = 0 THEN FALSE ELSE Alive(p)

(* the text of a document *)
Symbols == << "{", "}", "[", "]", "\"", ",", ":", "0", "-", ".", "e", "\\", " ", "t", "\t", "^" >>
TextNext == /\ Mode = "text" /\ qs = <<>> /\ stop' = TRUE
            /\ \E i \in 0..Docs[d].len, f \in {"cut", "lose", "twice", "put", "insert"} :
                 \E c \in IF f \in {"put", "insert"} THEN 1..Len(Symbols) ELSE {1} :
                   /\ f \in {"lose", "twice", "put"} => i < Docs[d].len
                   /\ f = "cut" => i < Docs[d].len
                   /\ qs' = << [f |-> f, x |-> i, c |-> Symbols[c]] >>
                   /\ Emit("X ", [d |-> d, qs |-> qs'])
            /\ UNCHANGED <<d, m, fits>>

Init == /\ d \in 1..Len(Docs)
        /\ m = Docs[d].m /\ qs = <<>> /\ fits = TRUE /\ stop = FALSE
Next == \/ /\ Mode \in {"single", "many"} /\ Len(qs) < Most /\ (IF qs = <<>> THEN TRUE ELSE ~Buried(qs[Len(qs)]))
           /\ IF Mode = "single" THEN \E x \in 1..Len(m) : Damage(x)
              ELSE LET x == RandomElement(1..Len(m)) IN IF Alive(x) THEN Damage(x) ELSE UNCHANGED <<m, qs, fits>>
           /\ UNCHANGED <<d, stop>>
        \/ TextNext
Spec == Init /\ [][Next]_vars

\* the documents the damage starts from are of the format
Sane == qs = <<>> /\ Mode # "text" => Fits(Docs[d].kind, m)
=============================================================================
