-------------------------------- MODULE Ink --------------------------------
(* The Ink language as a state machine.                                       *)
(*                                                                            *)
(* A program (read from JSON, produced together with its Ink source) is a     *)
(* set of statement nodes in blocks:                                          *)
(*   N[n]  = [k, b, i, c, f, ...]  kind, block, index in block, code, flow    *)
(*   BL[b] = [kids, role, own, pc] role: flow | body | code                   *)
(*   FL[f] = [b, enc, cid, par, fn] block, flows it is inside of (with        *)
(*           itself), visit counter, parameters, is it a function             *)
(* The code of a node is a sequence of stack instructions for its text,       *)
(* expressions and inline blocks; when the code is done the node acts.        *)
(*                                                                            *)
(* One transition executes one instruction or one node action of the thread   *)
(* on top.  A turn (from the start, or from a choice, until nothing can run)  *)
(* accumulates one output stream; the lines of the turn are read off the      *)
(* whole stream, so there is no look-ahead in this specification: whatever    *)
(* follows a line end has happened exactly once by the end of the turn.       *)
(*                                                                            *)
(* Programs with "events" also keep a log of what happened in the turn, each  *)
(* entry with the number of lines that were complete when it happened: global *)
(* assignments, calls of external functions and warnings.  InkEvents.tla      *)
(* reads off it what observers, bound functions and the error handler are to  *)
(* see in each continue.                                                      *)
EXTENDS InkText, InkValues, FiniteSets, Sequences, SequencesExt, Json, IOUtils

Progs == JsonDeserialize(IOEnv.INK_PROGS)
NP == Len(Progs)
Fuel == 4000

VARIABLES p,      \* which program
          r,      \* node of the recorded tree this behaviour is compared with
          m,      \* the machine
          st      \* "run" | "quiet" | "bad" | "done"
vars == <<p, r, m, st>>

N == Progs[p].N
BL == Progs[p].B
FL == Progs[p].flows
Lists == Progs[p].lists

Frame(ty, n, pc, tmp) == [ty |-> ty, n |-> n, pc |-> pc, tmp |-> tmp, fs |-> -1, fo |-> 0, gl |-> 0]
NoTmp == [x \in {} |-> 0]

RangeOf(q) == {q[i] : i \in 1 .. Len(q)}

Init0(q) ==
  LET P == Progs[q] IN
  [ th   |-> << <<Frame("root", P.B[P.flows.root.b].kids[1], 1, NoTmp)>> >>,
    es   |-> <<>>,
    os   |-> << <<>> >>,
    gl   |-> [x \in {P.globals[i].n : i \in 1 .. Len(P.globals)} |->
                Val(P.globals[CHOOSE i \in 1 .. Len(P.globals) : P.globals[i].n = x].v)],
    vc   |-> [x \in RangeOf(P.cnts) |-> 0],
    tc   |-> [x \in RangeOf(P.cnts) |-> -1],
    turn |-> 0, chs |-> <<>>, safe |-> FALSE, ended |-> FALSE,
    err  |-> "", fuel |-> Fuel,
    ev   |-> <<>>, done |-> <<>>,      \* events; lines that can no longer change
    gl0  |-> [x \in {} |-> 0] ]

Init == /\ p \in 1 .. NP
        /\ r = 1
        /\ m = LET M == Init0(p) IN [M EXCEPT !.gl0 = M.gl]
        /\ st = "run"

(* ------------------------------- helpers ---------------------------------- *)
Stack == m.th[Len(m.th)]
Top == Stack[Len(Stack)]
WithTop(M, f) == LET s == M.th[Len(M.th)] IN
                 [M EXCEPT !.th[Len(M.th)] = [s EXCEPT ![Len(s)] = f]]
TopOf(M) == LET s == M.th[Len(M.th)] IN s[Len(s)]
At(M, n, pc) == LET f == TopOf(M) IN WithTop(M, [f EXCEPT !.n = n, !.pc = pc])
Adv(M) == LET f == TopOf(M) IN WithTop(M, [f EXCEPT !.pc = f.pc + 1])
PushV(M, v) == [M EXCEPT !.es = Append(@, v)]
E1(M) == M.es[Len(M.es)]
E2(M) == M.es[Len(M.es) - 1]
PopN(M, k) == [M EXCEPT !.es = SubSeq(@, 1, Len(@) - k)]
Error(M, w) == [M EXCEPT !.err = w, !.th = << <<Frame("root", 0, 1, NoTmp)>> >>,
                         !.chs = <<>>, !.safe = TRUE]

Count(M, id) == [M EXCEPT !.vc[id] = @ + 1, !.tc[id] = M.turn]
RECURSIVE CountAll(_, _)
CountAll(M, ids) == IF ids = <<>> THEN M ELSE CountAll(Count(M, Head(ids)), Tail(ids))

(* --- output ---------------------------------------------------------------- *)
\* is the top frame at the still empty start of a function printing into the
\* current stream?
FnStart(M) == LET f == TopOf(M) IN
              f.ty = "function" /\ f.fs >= 0 /\ f.fo = Len(M.os)
RECURSIVE ClearFs(_, _)
ClearFs(s, i) == IF i = 0 THEN s
                 ELSE IF s[i].ty = "function" THEN ClearFs([s EXCEPT ![i].fs = -1], i - 1) ELSE s
\* events: what happened after lines 1 .. line of the turn were complete
Events == Progs[p].events
LinesDone(M) == Len(M.done) + Len(Read(M.os[1]).lines)
Log(M, e) == IF Events THEN [M EXCEPT !.ev = Append(@, [e |-> e, line |-> LinesDone(M)])] ELSE M
\* a line end was taken back
Reopen(M) == IF ~Events \/ M.ev = <<>> THEN M
             ELSE LET k == LinesDone(M) IN
                  [M EXCEPT !.ev = [i \in 1 .. Len(M.ev) |-> IF M.ev[i].line > k THEN [M.ev[i] EXCEPT !.line = k] ELSE M.ev[i]]]
Emit(M, x) ==
  LET k == Len(M.os)
      q == Push(M.os[k], x, FnStart(M))
      M0 == [M EXCEPT !.os[k] = q.o]
      M1 == IF x.k = "g" THEN Reopen(M0) ELSE M0 IN
  IF q.nf THEN [M1 EXCEPT !.th[Len(M1.th)] = ClearFs(@, Len(@))] ELSE M1

(* --- variables ------------------------------------------------------------- *)
\* frame d of the current thread (1..), or 0: a global
Read1(M, name) ==
  LET f == TopOf(M) IN
  IF name \in DOMAIN f.tmp THEN f.tmp[name]
  ELSE IF name \in DOMAIN M.gl THEN M.gl[name] ELSE ERR("variable not found")
Deref(M, v) == IF v.t = "p" THEN
                  IF v.d = 0 THEN M.gl[v.v] ELSE M.th[Len(M.th)][v.d].tmp[v.v]
               ELSE v
PtrTo(M, name) ==
  LET f == TopOf(M) IN
  IF name \in DOMAIN f.tmp
    THEN IF f.tmp[name].t = "p" THEN f.tmp[name]
         ELSE [t |-> "p", v |-> name, d |-> Len(M.th[Len(M.th)])]
    ELSE [t |-> "p", v |-> name, d |-> 0]
Store(M, ptr, v) ==
  IF ptr.d = 0 THEN LET M1 == [M EXCEPT !.gl[ptr.v] = Assigned(@, v)] IN
                    Log(M1, [k |-> "set", n |-> ptr.v, v |-> M1.gl[ptr.v]])
  ELSE [M EXCEPT !.th[Len(M.th)][ptr.d].tmp[ptr.v] = Assigned(@, v)]
Assign(M, name, v) == Store(M, PtrTo(M, name), v)
NewTemp(M, name, v) == LET f == TopOf(M) IN WithTop(M, [f EXCEPT !.tmp = (name :> v) @@ @])

(* --- where control goes ----------------------------------------------------- *)
Kids(b) == BL[b].kids

RECURSIVE After(_, _)
\* next gather of block b after index i, or out of the block
RECURSIVE NextGather(_, _, _)
RECURSIVE EndOf(_, _)

\* the thread on top has run out of content
Exhausted(M) ==
  IF Len(M.th) > 1 THEN [M EXCEPT !.th = SubSeq(@, 1, Len(@) - 1)]
  ELSE At(M, 0, 1)
PopFrame(M) == LET s == M.th[Len(M.th)] IN
               [M EXCEPT !.th[Len(M.th)] = SubSeq(s, 1, Len(s) - 1)]
\* leave a function with value v
Return(M, v) ==
  LET f == TopOf(M)
      k == Len(M.os)
      from == IF f.fs >= 0 /\ f.fo = k THEN f.fs ELSE 0
      M1 == Reopen([M EXCEPT !.os[k] = FnTrim(@, Len(@), from)]) IN
  PushV(Adv(PopFrame(M1)), v)
\* the top-level content ends with an implicit DONE
FlowEnd(M) == IF TopOf(M).ty = "function" THEN Return(M, VOID)
              ELSE IF Len(M.th) = 1 /\ N[TopOf(M).n].f = "root" THEN [At(M, 0, 1) EXCEPT !.safe = TRUE]
              ELSE Exhausted(M)

\* control passed a group of choices: it stops there to wait for the player.  Only the
\* first group of the top-level content is followed by the implicit DONE.
FirstGroup(n) ==
  LET b == N[n].b IN
  BL[b].role = "flow" /\ ~\E j \in 1 .. N[n].i : N[Kids(b)[j]].k = "gather"
                              /\ \E k \in 1 .. j : N[Kids(b)[k]].k = "choice"
ChoicesEnd(M, n) == IF TopOf(M).ty = "function" \/ FirstGroup(n) THEN FlowEnd(M) ELSE Exhausted(M)

EndOf(M, b) ==
  CASE BL[b].role = "flow" -> FlowEnd(M)
    [] BL[b].role = "code" -> At(M, BL[b].own, BL[b].pc + 1)
    [] OTHER -> \* body of a choice: the next gather of its weave
         LET c == BL[b].own IN NextGather(M, N[c].b, N[c].i + 1)
NextGather(M, b, i) ==
  IF i > Len(Kids(b)) THEN EndOf(M, b)
  ELSE IF N[Kids(b)[i]].k = "gather" THEN At(M, Kids(b)[i], 1) ELSE NextGather(M, b, i + 1)
After(M, n) ==
  LET b == N[n].b  i == N[n].i IN
  IF i < Len(Kids(b)) THEN
     LET x == Kids(b)[i + 1] IN
     \* choices do not fall through into the gather that collects them
     IF N[n].k = "choice" /\ N[x].k = "gather" THEN ChoicesEnd(M, n) ELSE At(M, x, 1)
  ELSE IF N[n].k = "choice" THEN ChoicesEnd(M, n)
  ELSE EndOf(M, b)

\* enter a block from the code of node n at pc (a missing block does nothing)
Enter(M, b) == IF b = 0 \/ Kids(b) = <<>> THEN Adv(M) ELSE At(M, Kids(b)[1], 1)

(* --- diverts ------------------------------------------------------------------ *)
\* counters of the flows entered when control moves from flow `from' to flow f
RECURSIVE EnteredIds(_, _)
EnteredIds(enc, skip) ==
  IF enc = <<>> THEN <<>>
  ELSE IF Head(enc) \in skip THEN EnteredIds(Tail(enc), skip)
  ELSE <<FL[Head(enc)].cid>> \o EnteredIds(Tail(enc), skip)
SrcEnc(n) == IF N[n].f = "root" THEN {} ELSE RangeOf(FL[N[n].f].enc)
\* control moves by name from node n: everything entered is counted
CountMove(M, n, f) == CountAll(M, EnteredIds(FL[f].enc, SrcEnc(n)))
\* control moves through a variable: only the target itself is counted
CountVar(M, f) == Count(M, FL[f].cid)
Start(f) == Kids(FL[f].b)[1]

\* a target is a flow, or a labelled gather/choice of a flow
IsFlow(x) == x \in DOMAIN FL
LabNode(x) == Progs[p].labels[x]
MoveTo(M, n, x) ==
  IF IsFlow(x) THEN At(CountMove(M, n, x), Start(x), 1)
  ELSE LET g == LabNode(x)
           M1 == CountAll(M, EnteredIds(IF N[g].f = "root" THEN <<>> ELSE FL[N[g].f].enc, SrcEnc(n))) IN
       IF N[g].k = "gather" THEN At(M1, g, 1)
       ELSE At(Count(M1, N[g].ct), Kids(N[g].body)[1], 1)

\* bind the parameters of f to the values on the stack, as temporaries of the top frame
RECURSIVE BindPars(_, _, _)
BindPars(M, par, vals) ==
  IF par = <<>> THEN M ELSE BindPars(NewTemp(M, Head(par), Head(vals)), Tail(par), Tail(vals))
Args(M, k) == SubSeq(M.es, Len(M.es) - k + 1, Len(M.es))
PushFrame(M, ty) ==
  [M EXCEPT !.th[Len(M.th)] = Append(@,
     [Frame(ty, 0, 1, NoTmp) EXCEPT !.fs = IF ty = "function" THEN Len(M.os[Len(M.os)]) ELSE -1,
                                    !.fo = Len(M.os)])]

(* ------------------------ external functions ---------------------------------- *)
\* exts[name] = [ret, v, safe]: what the bound function answers, and whether it may
\* run during look-ahead.  One that may not ends the line before it for good, and is
\* refused while a string is put together.
RECURSIVE SumI(_, _)
SumI(a, acc) == IF a = <<>> THEN acc ELSE SumI(Tail(a), Add32(acc, ToI(Head(a))))
Answer(x, a) == CASE x.ret = "int" -> I(x.v)
                  [] x.ret = "sum" -> I(SumI(a, x.v))
                  [] x.ret = "arg" -> a[1]
                  [] x.ret = "str" -> S(x.v)
                  [] x.ret = "bool" -> B(x.v = 1)
                  [] OTHER -> VOID
Vagues(a) == \E i \in 1 .. Len(a) : a[i].t \in {"u", "o"}
External(M, name, k) ==
  LET x == Progs[p].exts[name]
      a == Args(M, k)
      M1 == PopN(M, k)
      M2 == IF x.safe \/ ~EndsNL(M1.os[1], Len(M1.os[1])) THEN M1
            ELSE [M1 EXCEPT !.done = @ \o Read(M1.os[1]).lines, !.os[1] = <<>>]
      M3 == Log(M2, [k |-> "call", n |-> name, a |-> a]) IN
  IF ~x.safe /\ Len(M.os) > 1 THEN Error(M, "external in a string")
  ELSE Adv(PushV(M3, Answer(x, a)))

(* --------------------------- one instruction --------------------------------- *)
\* an instruction is a JSON array: <<name, operands...>>
Exec(M, n, c) ==
  LET o == c[1] IN
  CASE o = "v"   -> Adv(PushV(M, Val(c[2])))
    [] o = "t"   -> Adv(Emit(M, T(c[2])))
    [] o = "n"   -> Adv(Emit(M, NL))
    [] o = "gl"  -> Adv(Emit(M, GLUE))
    [] o = "tb"  -> Adv(Emit(M, TB))
    [] o = "te"  -> Adv(Emit(M, TE))
    [] o = "g"   -> LET v == Deref(M, Read1(M, c[2])) IN
                    IF IsErr(v) THEN (IF Events THEN Adv(PushV(Log(M, [k |-> "warn", n |-> c[2]]), I(0))) ELSE Error(M, v.v))
                    ELSE Adv(PushV(M, v))
    [] o = "ext" -> External(M, c[2], c[3])
    [] o = "cnt" -> Adv(PushV(M, I(M.vc[c[2]])))
    [] o = "ts"  -> Adv(PushV(M, I(IF M.tc[c[2]] < 0 THEN -1 ELSE M.turn - M.tc[c[2]])))
    [] o = "turns" -> Adv(PushV(M, I(M.turn)))
    [] o = "cc"  -> Adv(PushV(M, I(Len(M.chs))))
    [] o = "ref" -> Adv(PushV(M, PtrTo(M, c[2])))
    [] o = "op2" -> LET v == Binary(Lists, c[2], E2(M), E1(M)) IN
                    IF IsErr(v) THEN Error(M, v.v) ELSE Adv(PushV(PopN(M, 2), v))
    [] o = "op1" -> LET v == Unary(Lists, c[2], E1(M)) IN
                    IF IsErr(v) THEN Error(M, v.v) ELSE Adv(PushV(PopN(M, 1), v))
    [] o = "lfi" -> LET v == FromInt(Lists, c[2], E1(M)) IN
                    IF IsErr(v) THEN Error(M, v.v) ELSE Adv(PushV(PopN(M, 1), v))
    [] o = "rng" -> LET v == Range3(M.es[Len(M.es) - 2], E2(M), E1(M)) IN
                    IF IsErr(v) THEN Error(M, v.v) ELSE Adv(PushV(PopN(M, 3), v))
    [] o = "pop" -> Adv(PopN(M, 1))
    [] o = "out" -> LET v == E1(M) IN
                    IF v.t = "x" THEN Adv(PopN(M, 1))
                    ELSE Adv(Emit(PopN(M, 1), T(Show(v))))
    [] o = "set" -> Adv(Assign(PopN(M, 1), c[2], E1(M)))
    [] o = "tmp" -> Adv(NewTemp(PopN(M, 1), c[2], E1(M)))
    [] o = "sb"  -> Adv([M EXCEPT !.os = Append(@, <<>>)])
    [] o = "se"  -> LET k == Len(M.os) IN
                    Adv(PushV([M EXCEPT !.os = SubSeq(@, 1, k - 1)], S(Raw(M.os[k]))))
    [] o = "ce"  -> LET k == Len(M.os) IN    \* text of a choice, with its tags
                    Adv(PushV([M EXCEPT !.os = SubSeq(@, 1, k - 1)],
                              [t |-> "c", v |-> Raw(M.os[k]), tg |-> TagsOf(M.os[k])]))
    [] o = "if"  -> LET v == E1(M) IN
                    IF ~HasTruth(v) THEN Error(M, "not a condition")
                    ELSE Enter(PopN(M, 1), IF Truthy(v) THEN c[2] ELSE c[3])
    [] o = "sw"  -> \* switch: value on the stack, cases are constants
                    LET v == E1(M)
                        hit == {i \in 1 .. Len(c[2]) : Binary(Lists, "==", v, Val(c[2][i])) = B(TRUE)}
                        w == IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : i <= j IN
                    Enter(PopN(M, 1), IF w = 0 THEN c[4] ELSE c[3][w])
    [] o = "seq" -> \* c: name, kind, counter, branches
                    LET k == M.vc[c[3]]  \* evaluations so far
                        z == Len(c[4])
                        i == CASE c[2] = "stop" -> IF k < z THEN k + 1 ELSE z
                               [] c[2] = "cycle" -> (k % z) + 1
                               [] OTHER -> k + 1 IN
                    Enter(Count(M, c[3]), IF i > z THEN 0 ELSE c[4][i])
    [] o = "call" -> LET f == c[2]
                         k == Len(FL[f].par)
                         M1 == PushFrame(CountMove(PopN(M, k), n, f), "function") IN
                     At(BindPars(M1, FL[f].par, Args(M, k)), Start(f), 1)
    [] OTHER -> Error(M, "unknown instruction")

(* ----------------------------- node actions ----------------------------------- *)
NewChoice(M, n) ==
  \* on the stack: [start] [only] [condition], in that order
  LET x == N[n]
      cv == IF x.cond THEN E1(M) ELSE B(TRUE)
      M1 == IF x.cond THEN PopN(M, 1) ELSE M
      ov == IF x.only THEN E1(M1) ELSE [v |-> "", tg |-> <<>>]
      M2 == IF x.only THEN PopN(M1, 1) ELSE M1
      sv == IF x.start THEN E1(M2) ELSE [v |-> "", tg |-> <<>>]
      M3 == IF x.start THEN PopN(M2, 1) ELSE M2
      show == (IF HasTruth(cv) THEN Truthy(cv) ELSE FALSE) /\ (~x.once \/ M.vc[x.ct] = 0) IN
  IF x.cond /\ ~HasTruth(cv) THEN Error(M, "not a condition")
  ELSE IF ~show THEN After(M3, n)
  ELSE After([M3 EXCEPT !.chs = Append(@, [n |-> n, x |-> Trim(sv.v \o ov.v), tg |-> sv.tg \o ov.tg,
                                           inv |-> x.fb, th |-> M3.th[Len(M3.th)]])], n)

PopTunnel(M) ==
  LET f == TopOf(M) IN
  IF f.ty = "tunnel" THEN LET M1 == PopFrame(M) IN After(M1, TopOf(M1).n)
  ELSE Error(M, "no tunnel to return from")

Act(M, n) ==
  LET x == N[n] IN
  CASE x.k = "line"   -> After(M, n)
    [] x.k = "gather" -> After(M, n)
    [] x.k = "div"    -> LET par == IF IsFlow(x.to) THEN FL[x.to].par ELSE <<>> IN
                         BindPars(MoveTo(PopN(M, Len(par)), n, x.to), par, Args(M, Len(par)))
    [] x.k = "divv"   -> IF E1(M).t # "d" THEN Error(M, "not a divert target")
                         ELSE At(CountVar(PopN(M, 1), E1(M).v), Start(E1(M).v), 1)
    [] x.k = "tun"    -> LET k == Len(FL[x.to].par)
                             M1 == PushFrame(CountMove(PopN(M, k), n, x.to), "tunnel") IN
                         At(BindPars(M1, FL[x.to].par, Args(M, k)), Start(x.to), 1)
    [] x.k = "tunv"   -> IF E1(M).t # "d" THEN Error(M, "not a divert target")
                         ELSE At(PushFrame(CountVar(PopN(M, 1), E1(M).v), "tunnel"), Start(E1(M).v), 1)
    [] x.k = "thr"    -> LET k == Len(FL[x.to].par)
                             M0 == PopN(M, k)
                             old == At(M0, n, -1)         \* the starting thread goes on after this
                             M1 == [old EXCEPT !.th = Append(@, M0.th[Len(M0.th)])] IN
                         BindPars(At(CountMove(M1, n, x.to), Start(x.to), 1), FL[x.to].par, Args(M, k))
    [] x.k = "ret"    -> Return(PopN(M, 1), E1(M))
    [] x.k = "tret"   -> PopTunnel(M)
    [] x.k = "tretv"  -> \* ->-> target
                         IF TopOf(M).ty # "tunnel" THEN Error(M, "no tunnel to return from")
                         ELSE LET M1 == PopFrame(M) IN At(CountVar(M1, x.to), Start(x.to), 1)
    [] x.k = "done"   -> IF Len(M.th) > 1 THEN Exhausted(M)
                         ELSE [At(M, 0, 1) EXCEPT !.safe = TRUE]
    [] x.k = "end"    -> [M EXCEPT !.th = << <<Frame("root", 0, 1, NoTmp)>> >>, !.chs = <<>>,
                                   !.safe = TRUE, !.ended = TRUE]
    [] x.k = "choice" -> NewChoice(M, n)
    [] OTHER -> Error(M, "unknown statement")

\* a labelled gather is counted whenever control reaches its start
Step1(M) ==
  LET f == TopOf(M)  n == f.n IN
  IF f.pc = -1 THEN After(M, n)
  ELSE IF N[n].k = "gather" /\ f.pc = 1 /\ N[n].ct # "" /\ f.gl = 0
    THEN WithTop(Count(M, N[n].ct), [f EXCEPT !.gl = 1])
  ELSE LET M1 == IF f.gl = 1 THEN WithTop(M, [f EXCEPT !.gl = 0]) ELSE M IN
       IF f.pc <= Len(N[n].c) THEN Exec(M1, n, N[n].c[f.pc]) ELSE Act(M1, n)

Running(M) == TopOf(M).n # 0

(* --------------------------- choosing ------------------------------------------ *)
Choose(M, c, player) ==
  LET n == c.n
      M1 == [M EXCEPT !.th = <<c.th>>, !.chs = <<>>, !.turn = IF player THEN @ + 1 ELSE @, !.safe = FALSE] IN
  At(Count(M1, N[n].ct), Kids(N[n].body)[1], 1)
Visible(M) == SelectSeq(M.chs, LAMBDA c : ~c.inv)
Fallback(M) == M.chs # <<>> /\ Visible(M) = <<>>

(* --------------------------- comparison ---------------------------------------- *)
\* node r of the recorded tree:
\*  [lines, chs: <<[x, tg]>>, vars: <<values>>, visits: <<ints>>, err: BOOLEAN, kids: <<node or 0>>]
Rec == Progs[p].tree[r]
Expected ==
  [ lines  |-> m.done \o Lines(m.os[1]),
    chs    |-> LET v == Visible(m) IN [i \in 1 .. Len(v) |-> [x |-> v[i].x, tg |-> v[i].tg]],
    vars   |-> [i \in 1 .. Len(Progs[p].globals) |-> Enc(m.gl[Progs[p].globals[i].n])],
    visits |-> [i \in 1 .. Len(Progs[p].watch) |-> m.vc[Progs[p].watch[i]]],
    err    |-> m.err # "" ]
\* running out of content with nothing to choose, neither DONE nor END, is an error
OutOfContent == m.err = "" /\ ~m.safe /\ Visible(m) = <<>>
\* (a failing continue that has produced no text delivers no line)
NoBlank(l) == IF l # <<>> /\ l[Len(l)].x = "" /\ ~l[Len(l)].nl THEN SubSeq(l, 1, Len(l) - 1) ELSE l
Exp == IF OutOfContent \/ m.err # "" THEN [Expected EXCEPT !.err = TRUE, !.lines = NoBlank(@)] ELSE Expected
Same(a, b) == /\ a.lines = b.lines /\ a.chs = b.chs /\ a.vars = b.vars
              /\ a.visits = b.visits /\ a.err = b.err
Vague == \E x \in DOMAIN m.gl : m.gl[x].t \in {"u", "o"}

(* ------------------------------- transitions ------------------------------------ *)
Step == /\ st = "run" /\ Running(m) /\ m.fuel > 0
        /\ m' = [Step1(m) EXCEPT !.fuel = @ - 1]
        /\ UNCHANGED <<p, r, st>>

\* nothing visible to choose: the invisible default is taken
TakeFallback ==
        /\ st = "run" /\ ~Running(m) /\ m.err = "" /\ Fallback(m)
        /\ m' = Choose(m, m.chs[1], FALSE)
        /\ UNCHANGED <<p, r, st>>

\* the turn is over: what the host saw must be what the rules say
Quiesce ==
        /\ st = "run" /\ ~Running(m) /\ (m.err # "" \/ ~Fallback(m))
        /\ IF Same(Exp, Rec)
             THEN st' = "quiet" /\ PrintT("TURN " \o ToString(p) \o " " \o ToString(r))
             ELSE st' = "bad" /\ PrintT("BAD " \o ToJson([p |-> p, r |-> r, exp |-> Exp, got |->
                     [lines |-> Rec.lines, chs |-> Rec.chs, vars |-> Rec.vars, visits |-> Rec.visits, err |-> Rec.err]]))
        /\ UNCHANGED <<p, r, m>>

OutOfFuel ==
        /\ st = "run" /\ Running(m) /\ m.fuel = 0
        /\ st' = "done" /\ PrintT("FUEL " \o ToString(p) \o " " \o ToString(r))
        /\ UNCHANGED <<p, r, m>>

Pick ==
        /\ st = "quiet" /\ m.err = ""
        /\ \E k \in 1 .. Len(Visible(m)) :
             /\ k <= Len(Rec.kids) /\ Rec.kids[k] # 0
             /\ m' = [Choose(m, Visible(m)[k], TRUE) EXCEPT !.os = << <<>> >>, !.fuel = Fuel,
                                                            !.ev = <<>>, !.done = <<>>, !.gl0 = m.gl]
             /\ r' = Rec.kids[k]
             /\ st' = "run"
             /\ UNCHANGED p

Next == Step \/ TakeFallback \/ Quiesce \/ OutOfFuel \/ Pick
Spec == Init /\ [][Next]_vars

(* ------------------------ properties of the specification ------------------------ *)
TypeOK == /\ Len(m.th) >= 1 /\ \A i \in 1 .. Len(m.th) : Len(m.th[i]) >= 1
          /\ Len(m.os) >= 1
          /\ \A x \in DOMAIN m.vc : m.vc[x] >= 0 /\ m.tc[x] <= m.turn
\* between turns nothing is pending: no operand, no captured string, one thread
Settled == st = "quiet" /\ m.err = "" => m.es = <<>> /\ Len(m.os) = 1 /\ Len(m.th) = 1
\* a once-only choice that was taken is never offered again
OnceOnly == \A i \in 1 .. Len(m.chs) : N[m.chs[i].n].once /\ st = "quiet" => m.vc[N[m.chs[i].n].ct] = 0
Monotone == [][p' = p => \A x \in DOMAIN m.vc : m'.vc[x] >= m.vc[x]]_vars
=============================================================================
