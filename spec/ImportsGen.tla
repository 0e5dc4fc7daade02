----------------------------- MODULE ImportsGen -----------------------------
(* Programs; each is executed by the machine of the specification, and the   *)
(* properties of Imports.tla are checked in every state.                     *)
EXTENDS Imports, Json, IOUtils
CONSTANTS NOps, MaxSteps
Tapes == ndJsonDeserialize(IOEnv.TAPES)
VARIABLES c, p, s, k
vars == <<c, p, s, k>>
T(t, i) == Tapes[t][1 + ((i - 1) % Len(Tapes[t]))]
Pick(q, r) == q[1 + (r % Len(q))]
NHooks == 6

\* does this program have hooks that raise?
Raising(t) == (T(t, 1) % 4) = 0
\* most operations of a program are about few modules
Focus(t) == Pick(<< <<1, 2>>, <<1, 2, 3>>, <<2, 1, 4>>, <<4, 5>>, <<4, 5, 1>>, <<5, 6>>, <<7, 8, 4>>, <<8, 1>>, <<5, 2, 7>>,
                    <<1, 2, 3, 4, 5, 6, 7, 8>> >>, T(t, 2))
SomeMod(t, r) == IF (r % 16) = 15 THEN 9 ELSE IF (r % 16) = 14 THEN 1 + ((r \div 16) % 8) ELSE Pick(Focus(t), r)
\* hooks h0+1..NHooks may be registered
Hs(t, at, h0) == LET n == Pick(<<1, 1, 1, 2, 2, 3>>, T(t, at)) IN
                 [i \in 1..n |-> h0 + 1 + (T(t, at + i) % (NHooks - h0))]
WhenOp(t, at, h0) ==
  LET hs == Hs(t, at + 2, h0)
      how == T(t, at + 1) % 3 IN
  [o |-> "when", m |-> SomeMod(t, T(t, at)),
   hs |-> IF how = 1 THEN SubSeq(hs, 1, 1) ELSE hs, how |-> IF (T(t, at + 1) % 25) = 24 THEN "junk" ELSE IF how = 1 THEN "adapter" ELSE "when",
   catch |-> (T(t, at + 6) % 3) # 0]
\* how a module can be imported from the body w
Ways(t, w, m) == IF w[1] = "main" /\ ~Raising(t) /\ m \in 5..8 THEN <<"import", "from", "dunder">>
                 ELSE IF w[1] = "mod" /\ w[2] \in {4, 5, 6} /\ m \in {1, 2, 3, 5, 6, 7} THEN <<"import", "rel", "rel">>
                 ELSE <<"import", "dunder">>
ImportOp(t, at, w) ==
  LET m == SomeMod(t, T(t, at)) IN
  [o |-> "import", m |-> m, how |-> Pick(Ways(t, w, m), T(t, at + 1)),
   catch |-> (w[1] = "main" /\ (T(t, at + 2) % 8) # 0) \/ (T(t, at + 2) % 2) = 0]
Ops(t, at, w, n, h0) ==
  [i \in 1..n |->
     LET b == at + 8 * i
         r == T(t, b) % 8 IN
     IF r < 3 /\ h0 < NHooks THEN WhenOp(t, b + 1, h0)
     ELSE IF r = 3 /\ w[1] = "main" THEN [o |-> "forget", m |-> Pick(Focus(t), T(t, b + 1))]
     ELSE ImportOp(t, b + 1, w)]
\* packages fail before anything else, other modules somewhere
ModBody(t, m) ==
  LET at == 100 + 40 * m
      b == Ops(t, at, <<"mod", m>>, Pick(<<0, 0, 1, 1, 2, 3>>, T(t, at)), 0)
      fails == (T(t, at + 1) % 3) = 0
      times == Pick(<<1, 1, 1, 2, 3, 99>>, T(t, at + 2))
      where == IF m \in {4, 7} THEN 0 ELSE T(t, at + 3) % (Len(b) + 1) IN
  IF ~fails THEN b
  ELSE SubSeq(b, 1, where) \o <<[o |-> "fail", n |-> times]>> \o SubSeq(b, where + 1, Len(b))
HookBody(t, h) ==
  LET at == 600 + 40 * h
      b == Ops(t, at, <<"hook", h>>, Pick(<<0, 0, 0, 1, 1, 2>>, T(t, at)), h) IN
  IF Raising(t) /\ (T(t, at + 1) % 4) = 0 THEN Append(b, [o |-> "fail", n |-> Pick(<<1, 99>>, T(t, at + 2))]) ELSE b
Program(t) == [mod |-> [m \in 1..8 |-> ModBody(t, m)], hook |-> [h \in 1..NHooks |-> HookBody(t, h)],
               main |-> Ops(t, 900, <<"main">>, NOps, 0)]
\* a hook waits for a module of the package that does not exist, while the
\* package imports a module of that name from outside
Imp(m, how) == [o |-> "import", m |-> m, how |-> how, catch |-> FALSE]
Odd == [mod |-> [m \in 1..8 |-> IF m = 4 THEN <<Imp(2, "rel")>> ELSE <<>>], hook |-> [h \in 1..NHooks |-> <<>>],
        main |-> <<[o |-> "when", m |-> 10, hs |-> <<1>>, how |-> "when", catch |-> FALSE], Imp(4, "import")>>]

Init == c \in 1..Len(Tapes) /\ p = TLCEval(IF c = 1 THEN Odd ELSE Program(c)) /\ s = Init0 /\ k = 0
Exec == /\ ~Over(s) /\ k < MaxSteps
        /\ s' = StepI(p, s, (T(c, 2 + k) % 2) = 0) /\ k' = k + 1 /\ UNCHANGED <<c, p>>
Emit == /\ Over(s) /\ k >= 0 /\ k < MaxSteps
        /\ PrintT(ToJson([id |-> c, p |-> p, steps |-> k])) /\ k' = -1 /\ UNCHANGED <<c, p, s>>
Next == Exec \/ Emit
Spec == Init /\ [][Next]_vars
PropOnce == Once(s) /\ OnlyRegistered(s)
PropWaits == NothingWaits(s)
PropAccounted == Accounted(s)
PropOrder == InOrder(s)
=============================================================================
