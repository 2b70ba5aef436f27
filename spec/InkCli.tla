------------------------------- MODULE InkCli -------------------------------
(* The protocol of the command-line player (C20).

   A document says what the library shows for a program: nodes (what is shown until a
   choice is needed), the node each choice leads to and the node each path leads to.
   The player shows a node, asks for input, and reacts to a line of it:

     a number from 1 to the number of choices   that choice
     -> path                                    a jump; one that fails is reported
     help                                       a message
     quit, exit                                 the end
     nothing, anything else, other numbers      it asks again
     no more input                              it says so, and the end

   Before that a source is compiled: when it cannot be, that and the message are all there
   is; when it is not to be played, the compiled story is written.

   TLC chooses the lines; every behaviour that has ended is printed: its input, the
   records the player must write in JSON mode, what it must write in plain mode and
   what it must report there, and whether it succeeds.  Texts are numbers of a table
   the driver keeps (0 < t); literal pieces of plain output are strings.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANTS Most, Drawn

Docs == JsonDeserialize(IOEnv.CLI_DOCS)
\* [nodes: <<[lines: <<[t, g: <<text>>, w: <<text>>, e: <<text>>]>>, dead: BOOLEAN, err: text,
\*            choices: <<[t, g: <<text>>]>>, choose: <<node or 0>>, jump: <<[to: node or 0, ok, msg: text]>>]>>,
\*  junk: how many other lines there are, keep, source, ok, play: BOOLEAN, message: text]

VARIABLES d, n, pc, inp, out, plain, told, code
vars == << d, n, pc, inp, out, plain, told, code >>
D == Docs[d]
N == D.nodes[n]

T(t) == [t |-> t]
S(s) == [s |-> s]
\* texts with commas between them
RECURSIVE Commas(_)
Commas(g) == IF g = <<>> THEN <<>> ELSE IF Len(g) = 1 THEN << T(g[1]) >> ELSE << T(g[1]), S(", ") >> \o Commas(Tail(g))
PlainTags(g) == IF g = <<>> THEN <<>> ELSE << S("# tags: ") >> \o Commas(g) \o << S("\n") >>

\* what one line of the story becomes
LineRecs(l) == << [k |-> "text", v |-> l.t] >>
               \o (IF l.g = <<>> THEN <<>> ELSE << [k |-> "tags", v |-> l.g] >>)
               \o (IF l.w \o l.e = <<>> THEN <<>> ELSE << [k |-> "issues", v |-> l.w \o l.e] >>)
LinePlain(l) == << T(l.t) >> \o PlainTags(l.g)
RECURSIVE Recs(_)
Recs(ls) == IF ls = <<>> THEN <<>> ELSE LineRecs(Head(ls)) \o Recs(Tail(ls))
RECURSIVE Plains(_)
Plains(ls) == IF ls = <<>> THEN <<>> ELSE LinePlain(Head(ls)) \o Plains(Tail(ls))
RECURSIVE Tolds(_)
Tolds(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls).w \o Head(ls).e \o Tolds(Tail(ls))
RECURSIVE PlainChoices(_, _)
PlainChoices(cs, i) == IF i > Len(cs) THEN <<>>
                       ELSE << S(ToString(i) \o ": "), T(cs[i].t), S("\n") >> \o PlainTags(cs[i].g) \o PlainChoices(cs, i + 1)

Compile ==
  /\ pc = "compile"
  /\ IF ~D.source THEN pc' = "show" /\ UNCHANGED << out, told, code >>
     ELSE IF ~D.ok THEN
       /\ out' = << [k |-> "compile-success", b |-> FALSE], [k |-> "issues", v |-> << D.message >>] >>
       /\ told' = << D.message >> /\ code' = 1 /\ pc' = "done"
     ELSE IF D.play THEN out' = << [k |-> "compile-success", b |-> TRUE] >> /\ pc' = "show" /\ UNCHANGED << told, code >>
     ELSE out' = << [k |-> "compile-success", b |-> TRUE], [k |-> "export-complete", b |-> TRUE] >> /\ code' = 0 /\ pc' = "done" /\ UNCHANGED told
  /\ UNCHANGED << d, n, inp, plain >>

Show ==
  /\ pc = "show"
  /\ told' = told \o Tolds(N.lines) \o (IF N.dead THEN << N.err >> ELSE <<>>)
  /\ IF N.dead THEN /\ out' = out \o Recs(N.lines) /\ plain' = plain \o Plains(N.lines)
                    /\ pc' = "done" /\ code' = 1
     ELSE IF N.choices = <<>> THEN
       /\ out' = out \o Recs(N.lines) \o (IF D.keep THEN << [k |-> "end"] >> ELSE <<>>)
       /\ plain' = plain \o Plains(N.lines) \o (IF D.keep THEN << S("--- End of story ---\n") >> ELSE <<>>)
       /\ pc' = "done" /\ code' = 0
     ELSE
       /\ out' = out \o Recs(N.lines) \o << [k |-> "choices", v |-> N.choices], [k |-> "needInput"] >>
       /\ plain' = plain \o Plains(N.lines) \o << S("\n") >> \o PlainChoices(N.choices, 1) \o << S("?> ") >>
       /\ pc' = "read" /\ code' = code
  /\ UNCHANGED << d, n, inp >>

Put(i, recs, pieces) == inp' = Append(inp, i) /\ out' = out \o recs /\ plain' = plain \o pieces /\ UNCHANGED d
Again == << [k |-> "needInput"] >>
Ask == << S("?> ") >>
Stay == UNCHANGED << n, pc, code, told >>

Choose(i) == /\ N.choose[i] # 0
             /\ Put([k |-> "num", n |-> i], <<>>, <<>>) /\ n' = N.choose[i] /\ pc' = "show" /\ UNCHANGED << code, told >>
Beyond(i) == Put([k |-> "num", n |-> i], Again, Ask) /\ Stay
Divert(p) ==
  LET j == N.jump[p] IN
  /\ j.to # 0
  /\ IF j.ok THEN Put([k |-> "divert", n |-> p], <<>>, <<>>) /\ UNCHANGED told
     ELSE Put([k |-> "divert", n |-> p], << [k |-> "failed", p |-> p, v |-> j.msg] >>, <<>>) /\ told' = Append(told, j.msg)
  /\ n' = j.to /\ pc' = "show" /\ code' = code
Help == Put([k |-> "help", n |-> 0], << [k |-> "cmdOutput"] >> \o Again, << [help |-> TRUE] >> \o Ask) /\ Stay
Blank == Put([k |-> "blank", n |-> 0], Again, Ask) /\ Stay
Junk(j) == Put([k |-> "junk", n |-> j], Again, Ask) /\ Stay
Quit == Put([k |-> "quit", n |-> 0], <<>>, <<>>) /\ pc' = "done" /\ code' = 0 /\ UNCHANGED << n, told >>
Close == /\ out' = Append(out, [k |-> "close"]) /\ plain' = Append(plain, S("<User input stream closed.>\n"))
         /\ pc' = "done" /\ code' = 0 /\ UNCHANGED << d, n, inp, told >>

C == Len(N.choices)
R(k) == RandomElement(1..k)
Read ==
  /\ pc = "read"
  /\ IF Len(inp) >= Most THEN Close
     ELSE IF Drawn THEN
       \E kind \in {R(20)} :
         IF kind <= 10 THEN \E i \in {R(C)} : IF N.choose[i] # 0 THEN Choose(i) ELSE Close
         ELSE IF kind <= 14 THEN IF N.jump = <<>> THEN Help ELSE \E p \in {R(Len(N.jump))} : IF N.jump[p].to # 0 THEN Divert(p) ELSE Help
         ELSE IF kind = 15 THEN Help ELSE IF kind = 16 THEN Blank
         ELSE IF kind <= 18 THEN \E j \in {R(D.junk)} : Junk(j)
         ELSE IF kind = 19 THEN \E i \in {RandomElement({0, C + 1, C + 2, 1000})} : Beyond(i)
         ELSE IF Len(inp) > 2 THEN \E q \in {R(2)} : IF q = 1 THEN Quit ELSE Close ELSE Help
     ELSE \/ \E i \in 1..C : Choose(i)
          \/ \E p \in 1..Len(N.jump) : Divert(p)
          \/ \E i \in {0, C + 1, 1000} : Beyond(i)
          \/ \E j \in 1..D.junk : Junk(j)
          \/ Help \/ Blank \/ Quit \/ Close

Tell == pc' = "done" => PrintT("C " \o ToJson([d |-> d, inp |-> inp', out |-> out', plain |-> plain', told |-> told', code |-> code']))
Init == /\ d \in 1..Len(Docs) /\ n = 1 /\ pc = "compile" /\ inp = <<>> /\ out = <<>> /\ plain = <<>> /\ told = <<>> /\ code = 2
Next == (Compile \/ Show \/ Read) /\ Tell
Spec == Init /\ [][Next]_vars

\* it asks for input exactly when it can take it, and every end is an end
Asked == pc = "read" => out # <<>> /\ out[Len(out)].k = "needInput"
Ends == (pc = "done") <=> (code # 2)
=============================================================================
