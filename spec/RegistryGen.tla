---------------------------- MODULE RegistryGen ----------------------------
(* Histories of the registry: random ones, or every operation of a small    *)
(* set in every state reachable with at most Max operations.                *)
EXTENDS Registry, Json, IOUtils
CONSTANTS Mode, Max, NOps
VARIABLES c, r, hist, ph
vars == <<c, r, hist, ph>>
Tapes == IF Mode = "tape" THEN ndJsonDeserialize(IOEnv.TAPES) ELSE <<>>

As == {"a.A", "b.B"}
SmallA ==
  {[op |-> "reg", c |-> k, a |-> a] : k \in {1, 2}, a \in As \cup {""}}
  \cup {[op |-> x, a |-> a] : x \in {"unregA", "getA"}, a \in As}
  \cup {[op |-> x, c |-> k] : x \in {"unregC", "getC"}, k \in {1, 2}}
  \cup {[op |-> "dec", a |-> a, strict |-> x, v |-> IF x THEN 3 ELSE 0] : a \in As, x \in BOOLEAN}
  \cup {[op |-> "enc", c |-> k, v |-> 3] : k \in {1, 2}}
  \cup {[op |-> "type", s |-> 1, c |-> 1, fn |-> FALSE], [op |-> "type", s |-> 1, c |-> 1, fn |-> TRUE], [op |-> "untype", s |-> 1]}
SmallB ==
  {[op |-> "reg", c |-> k, a |-> a] : k \in {7}, a \in {"l.F", "vmod.M"}}
  \cup {[op |-> x, a |-> a] : x \in {"unregA", "getA"}, a \in {"l.F", "l.G", "vmod.M", "vmod.R"}}
  \cup {[op |-> "getA", a |-> a] : a \in {"l.X", "l.Y", "vmod.f", "vmod.no", "no"}}
  \cup {[op |-> "unregC", c |-> k] : k \in {5, 6, 7, 8}}
  \cup {[op |-> "dec", a |-> a, strict |-> x, v |-> IF x THEN 3 ELSE 0] : a \in {"l.F", "l.G", "vmod.R"}, x \in BOOLEAN}
  \cup {[op |-> x, l |-> l] : x \in {"load", "unload"}, l \in {1, 2}}
Ops == IF Mode = "allA" THEN SmallA ELSE SmallB
Small == {o \in Ops : Allowed(r, o)}
Seqs(S) == LET RECURSIVE F(_)
               F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
           IN F(S)

T(k) == Tapes[c][1 + (k % Len(Tapes[c]))]
Pick(q, x) == q[1 + (x % Len(q))]
Aliases == <<"a.A", "b.B", "m.D", "n", "vmod.M", "l.F", "nonascii.E", "vpkg.N">>
Wire == Aliases \o <<"vmod.R", "vmod.f", "vmod.no", "l.F", "l.G", "l.X", "l.Y", "u.U", "no", "pk.N", "pk:O", "vpkg.O", "pk.K1", "nonascii.X">>
RandOp(b) ==
  LET o == Pick(<<"reg", "reg", "reg", "reg", "reg", "unregA", "unregA", "unregC", "unregC", "getA", "getA", "getC", "dec", "dec", "dec", "dec",
                  "enc", "enc", "enc", "load", "load", "unload", "badload", "type", "untype", "pack", "pack">>, T(b))
      x == T(b + 1)  y == T(b + 2)
      k == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1, 11, 11>>[1 + (x % 13)]
      v == IF (T(b + 3) % 2) = 0 THEN 0 ELSE 3
  IN
  CASE o = "reg" -> [op |-> o, c |-> k, a |-> IF (y % 5) = 0 THEN "" ELSE Pick(Aliases, y)]
    [] o \in {"unregA", "getA"} -> [op |-> o, a |-> Pick(Wire, x)]
    [] o \in {"unregC", "getC"} -> [op |-> o, c |-> k]
    [] o = "dec" -> [op |-> o, a |-> Pick(Wire, x), strict |-> (y % 3) = 0, v |-> v]
    [] o = "enc" -> [op |-> o, c |-> k, v |-> v]
    [] o \in {"load", "unload"} -> [op |-> o, l |-> 1 + (x % 5)]
    [] o = "badload" -> [op |-> o]
    [] o = "type" -> [op |-> o, s |-> 1 + (x % 2), c |-> <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1, 11>>[1 + (y % 12)], fn |-> ((y \div 16) % 4) = 0]
    [] o = "untype" -> [op |-> o, s |-> 1 + (x % 2)]
    [] o = "pack" -> [op |-> o, kind |-> Pick(<<"module", "dict", "list", "frame">>, x),
                      pkg |-> IF (x % 4) \in {2, 3} \/ (y % 2) = 0 THEN "pk" ELSE "", sep |-> Pick(<<".", ".", ":">>, y),
                      all |-> Pick(<<"", "", "", "N", "K1">>, y \div 8), strict |-> ((y \div 64) % 3) # 0,
                      ignore |-> Pick(<< <<>>, <<>>, <<"N">>, <<"O", "K1">> >>, y \div 256)]

Init == /\ c \in (IF Mode = "tape" THEN 1..Len(Tapes) ELSE {0})
        /\ r = Start /\ hist = <<>> /\ ph = "go"
Grow == /\ Mode = "tape" /\ ph = "go" /\ Len(hist) < NOps
        /\ LET o0 == RandOp(4 * Len(hist))
               o == IF Allowed(r, o0) THEN o0 ELSE [op |-> "badload"]
           IN r' = Do(r, o).r /\ hist' = Append(hist, o)
        /\ UNCHANGED <<c, ph>>
Emit == /\ Mode = "tape" /\ ph = "go" /\ Len(hist) = NOps
        /\ PrintT(ToJson([id |-> c, ops |-> hist, tails |-> <<>>]))
        /\ ph' = "end" /\ UNCHANGED <<c, r, hist>>
EmitAll == /\ Mode # "tape" /\ ph = "go"
           /\ PrintT(ToJson([id |-> ToString(r), ops |-> hist, tails |-> Seqs(Small)]))
           /\ ph' = "out" /\ UNCHANGED <<c, r, hist>>
GrowAll == /\ Mode # "tape" /\ ph = "out" /\ Len(hist) < Max
           /\ \E o \in Small : r' = Do(r, o).r /\ hist' = Append(hist, o)
           /\ ph' = "go" /\ UNCHANGED c
Next == Grow \/ Emit \/ EmitAll \/ GrowAll
Spec == Init /\ [][Next]_vars
View == IF Mode = "tape" THEN <<c, hist, ph>> ELSE <<r, ph>>

Rules == Sound(r) /\ (Mode # "tape" => \A o \in Small : Effects(r, o))
TapeRules == [][hist' # hist => Effects(r, hist'[Len(hist')])]_vars
=============================================================================
