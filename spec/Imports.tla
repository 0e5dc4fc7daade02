------------------------------- MODULE Imports ------------------------------
(* Hooks that run when a module is imported.                                 *)
(*                                                                           *)
(* A program p has bodies (sequences of operations) for modules, for hooks   *)
(* and a main one; p.mod[m], p.hook[h], p.main.  Modules:                    *)
(*   1 ia  2 ib  3 ic  4 ip (a package)  5 ip.x  6 ip.y  7 ip.s (a package)  *)
(*   8 ip.s.z   9 missing  10 ip.ib (missing)                                *)
(* Operations: [o |-> "when", m, hs, how], [o |-> "import", m, how, catch],  *)
(* [o |-> "fail", n] (the first n times), [o |-> "forget", m] (main only).   *)
(* how = "junk": something that cannot be called is registered.              *)
(*                                                                           *)
(* The machine executes a program; a state is                                *)
(*   st[m]     "no", "loading", "done"                                       *)
(*   pend[m]   what waits for m: pairs <<hook, number of registration>>      *)
(*   stack     frames, the last is on top                                    *)
(*   exc       "" or the exception on its way up                             *)
(*   ev        the events so far                                             *)
(*   reg, ran  registrations <<number, module>> made, and run                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

NMods == 10
Exists(m) == m <= 8
Chain(m) == CASE m \in {5, 6, 10} -> <<4, m>> [] m = 7 -> <<4, 7>> [] m = 8 -> <<4, 7, 8>> [] OTHER -> <<m>>
Within(m) == CASE m = 4 -> 4..8 [] m = 7 -> {7, 8} [] OTHER -> {m}
Body(p, w) == CASE w[1] = "mod" -> p.mod[w[2]] [] w[1] = "hook" -> p.hook[w[2]] [] w[1] = "main" -> p.main

OpsF(w, n) == [f |-> "ops", w |-> w, i |-> 1, n |-> n]     \* n: this is the n-th time
HooksF(m, hs) == [f |-> "hooks", m |-> m, hs |-> hs]
ImpF(chain) == [f |-> "imp", chain |-> chain]
OpF(o, m, catch) == [f |-> "op", o |-> o, m |-> m, catch |-> catch]

Init0 == [st |-> [m \in 1..NMods |-> "no"], pend |-> [m \in 1..NMods |-> <<>>],
          times |-> [m \in 1..NMods |-> 0], stack |-> <<OpsF(<<"main">>, 1)>>, exc |-> "",
          ev |-> <<>>, reg |-> {}, ran |-> <<>>, drop |-> {}, called |-> [h \in 1..8 |-> 0]]
Over(s) == s.stack = <<>>
Top(s) == s.stack[Len(s.stack)]
Pop(s) == [s EXCEPT !.stack = SubSeq(s.stack, 1, Len(s.stack) - 1)]
Push(s, fr) == [s EXCEPT !.stack = Append(s.stack, fr)]
Swap(s, fr) == [s EXCEPT !.stack[Len(s.stack)] = fr]
Log(s, e) == [s EXCEPT !.ev = Append(s.ev, e)]

\* registering: now = the module being loaded counts as imported
When(s, o, now) ==
  LET n == Cardinality(s.reg)
      hs == [i \in DOMAIN o.hs |-> <<o.hs[i], n + i>>]
      r == [s EXCEPT !.reg = @ \cup {<<n + i, o.m>> : i \in DOMAIN hs}] IN
  IF s.st[o.m] = "done" \/ (s.st[o.m] = "loading" /\ now)
  THEN Push(r, HooksF(o.m, hs))
  ELSE [r EXCEPT !.pend[o.m] = @ \o hs]

StepOp(p, s, now) ==
  LET fr == Top(s)
      o == Body(p, fr.w)[fr.i]
      n == Swap(s, [fr EXCEPT !.i = @ + 1]) IN
  CASE o.o = "when" /\ o.how = "junk" -> [Push(n, OpF("when", o.m, o.catch)) EXCEPT !.exc = "TypeError"]
    [] o.o = "when" -> When(Push(n, OpF("when", o.m, o.catch)), o, now)
    [] o.o = "import" -> Push(Push(n, OpF("import", o.m, o.catch)), ImpF(Chain(o.m)))
    [] o.o = "fail" -> IF fr.n <= o.n THEN [n EXCEPT !.exc = "Boom"] ELSE n
    [] o.o = "forget" -> IF s.st[o.m] # "done" THEN n
                         ELSE [n EXCEPT !.st = [m \in 1..NMods |-> IF m \in Within(o.m) THEN "no" ELSE @[m]]]
\* the end of a body
StepEnd(p, s) ==
  LET fr == Top(s)
      w == fr.w
      n == Pop(s) IN
  IF w[1] # "mod" THEN n
  ELSE LET m == w[2] IN
       Push([Log(n, <<"end", m>>) EXCEPT !.st[m] = "done", !.pend[m] = <<>>], HooksF(m, s.pend[m]))
\* one step without an exception
StepOk(p, s, now) ==
  LET fr == Top(s) IN
  CASE fr.f = "ops" -> IF fr.i <= Len(Body(p, fr.w)) THEN StepOp(p, s, now) ELSE StepEnd(p, s)
    [] fr.f = "hooks" ->
         IF fr.hs = <<>> THEN Pop(s)
         ELSE LET h == Head(fr.hs)
                  n == [Swap(s, [fr EXCEPT !.hs = Tail(@)]) EXCEPT !.ran = Append(@, h[2]), !.called[h[1]] = @ + 1] IN
              Push(Log(n, <<"hook", h[1], fr.m, s.st[fr.m]>>), OpsF(<<"hook", h[1]>>, n.called[h[1]]))
    [] fr.f = "imp" ->
         IF fr.chain = <<>> THEN Pop(s)
         ELSE LET m == Head(fr.chain)
                  n == Swap(s, [fr EXCEPT !.chain = Tail(@)]) IN
              IF s.st[m] # "no" THEN n
              ELSE IF ~Exists(m) THEN [n EXCEPT !.exc = "ImportError"]
              ELSE Push([Log(n, <<"body", m>>) EXCEPT !.st[m] = "loading", !.times[m] = @ + 1],
                        OpsF(<<"mod", m>>, s.times[m] + 1))
    [] fr.f = "op" -> Log(Pop(s), <<"ok", fr.o, fr.m>>)
\* one step of an exception on its way up
StepExc(s) ==
  LET fr == Top(s)
      n == Pop(s) IN
  CASE fr.f = "ops" -> IF fr.w[1] = "mod" THEN [n EXCEPT !.st[fr.w[2]] = "no"]
                       ELSE IF fr.w[1] = "main" THEN Log([n EXCEPT !.exc = ""], <<"died", s.exc>>) ELSE n
    \* what follows a hook that raises is dropped
    [] fr.f = "hooks" -> [n EXCEPT !.drop = @ \cup {fr.hs[i][2] : i \in DOMAIN fr.hs}]
    [] fr.f = "imp" -> n
    [] fr.f = "op" -> LET l == Log(n, <<"exc", fr.o, fr.m, s.exc>>) IN
                      IF fr.catch THEN [l EXCEPT !.exc = ""] ELSE l
StepI(p, s, now) == IF s.exc = "" THEN StepOk(p, s, now) ELSE StepExc(s)

\* ------------------------------------------------------------ what follows
\* no registration runs twice
Once(s) == \A i, j \in DOMAIN s.ran : i # j => s.ran[i] # s.ran[j]
OnlyRegistered(s) == \A i \in DOMAIN s.ran : \E r \in s.reg : r[1] = s.ran[i]
\* nothing waits for a module that is there, unless it is being loaded
NothingWaits(s) == \A m \in 1..NMods : s.st[m] = "done" => s.pend[m] = <<>>
\* what was registered is waiting, has run, was dropped, or is about to run
Accounted(s) ==
  LET waiting == UNION {{s.pend[m][i][2] : i \in DOMAIN s.pend[m]} : m \in 1..NMods}
      soon == UNION {{s.stack[k].hs[i][2] : i \in DOMAIN s.stack[k].hs} : k \in {j \in DOMAIN s.stack : s.stack[j].f = "hooks"}}
      ran == {s.ran[i] : i \in DOMAIN s.ran} IN
  \A r \in s.reg : Cardinality({X \in {waiting, soon, ran, s.drop} : r[1] \in X}) = 1
\* in the order of registration, as far as one module is concerned
InOrder(s) == \A m \in 1..NMods : \A i, j \in DOMAIN s.pend[m] : i < j => s.pend[m][i][2] < s.pend[m][j][2]
=============================================================================
