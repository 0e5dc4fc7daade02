------------------------------ MODULE TypesGen ------------------------------
(* Histories of adding, asking for and removing mappings, and of encoding    *)
(* graphs with values of the types in question.                              *)
EXTENDS Types, Json, IOUtils, SequencesExt
CONSTANTS NOps
Tapes == ndJsonDeserialize(IOEnv.TAPES)
VARIABLES c, tm, hist, ph
vars == <<c, tm, hist, ph>>
T(k) == Tapes[c][1 + ((k - 1) % Len(Tapes[c]))]
Pick(q, r) == q[1 + (r % Len(q))]

AllKeys == << <<"type", 1>>, <<"type", 2>>, <<"type", 3>>, <<"type", 4>>, <<"type", 5>>, <<"type", 6>>,
              <<"tuple", 1, 3>>, <<"tuple", 4, 5>>, <<"tuple", 2>>, <<"test", 2>>, <<"test", 3>>, <<"test", 5>>,
              <<"test", 4>> >>
Convs == <<"list", "dict", "obj", "text", "int", "null", "first", "same", "self", "list", "dict", "first", "bad", "raise">>
Fits(key) == key \in DOMAIN tm \/ Unambiguous(tm @@ (key :> ""))
\* a random graph of up to seven nodes: values of content of a mapped type
\* lead only to later nodes of that kind
Atoms == << <<"null">>, <<"int", 3>>, <<"int", -7>>, <<"str", <<97>>>>, <<"str", <<84, 49>>>>, <<"bool", TRUE>>, <<"int", 1>> >>
Classes == <<1, 1, 2, 2, 3, 3, 4, 4, 5, 6, 11, 12, 13, 13, 14, 15, 16, 17, 18, 19, 20, 21>>
KindOf(at, i) == IF (T(at + i) % 5) < 3 THEN "cust" ELSE IF (T(at + i) % 5) = 3 THEN "list" ELSE "obj"
ClassOf(at, i) == Pick(Classes, T(at + i) \div 8)
Graph(at) ==
  LET n == 1 + (T(at) % 7)
      V(i, r) ==
        IF (r % 3) = 0 THEN Pick(Atoms, r \div 4)
        ELSE LET j == 1 + ((r \div 4) % n) IN
             IF KindOf(at, i) = "cust" /\ KindOf(at, j) = "cust" /\ j <= i THEN Pick(Atoms, r \div 4)
             ELSE IF KindOf(at, j) = "cust" /\ ClassOf(at, j) = 6 THEN <<"str", <<115, 117, 98>>>>
             ELSE <<"ref", j>>
      \* weak references are to objects
      WeakRef(i) == LET J == {j \in (i+1)..n : KindOf(at, j) = "cust" /\ ClassOf(at, j) \in {1, 2, 3}} IN
                    IF J = {} THEN <<>> ELSE <<<<"ref", CHOOSE j \in J : \A x \in J : j <= x>>>>
      Len_(i) == T(at + 20 + 4 * i) % 4
      Content(i) ==
        LET vals == [q \in 1..Len_(i) |-> V(i, T(at + 20 + 4 * i + q))]
            k == IF KindOf(at, i) = "cust" THEN ClassOf(at, i) ELSE 0 IN
        IF k \in {11, 12} THEN (IF Len_(i) = 0 THEN <<>> ELSE <<Pick(Atoms, T(at + 20 + 4 * i + 1))>>)
        ELSE IF k \in {16, 17} THEN [q \in 1..Len_(i) |-> <<"int", (T(at + 20 + 4 * i + q) % 100) + 2>>]
        ELSE IF k = 18 THEN <<>>
        ELSE IF k \in {19, 20, 21} THEN WeakRef(i) ELSE vals
      Node_(i) ==
        LET k == KindOf(at, i) IN
        IF k = "cust"
        THEN IF ClassOf(at, i) = 6 \/ (ClassOf(at, i) = 19 /\ WeakRef(i) = <<>>) THEN [AsList(<<>>) EXCEPT !.k = "list"]
             ELSE [k |-> "cust", c |-> <<ClassOf(at, i)>>, e |-> <<>>, d |-> Content(i), b |-> <<>>]
        ELSE IF k = "list" THEN AsList(Content(i)) ELSE AsObject(<<>>, Content(i))
  IN [i \in 1..n |-> Node_(i)]
Values(at) == LET n == Len(Graph(at)) IN
  [q \in 1..(1 + (T(at + 60) % 3)) |-> IF (T(at + 60 + q) % 7) = 0 THEN <<"str", <<115, 117, 98>>>> ELSE <<"ref", 1 + (T(at + 60 + q) % n)>>]

Op(at) ==
  LET a == T(at) % 10
      key == Pick(AllKeys, T(at + 1))
      conv == Pick(Convs, T(at + 2)) IN
  IF a < 3 /\ Fits(key) THEN [op |-> "add", key |-> key, conv |-> conv, how |-> T(at + 3) % 3]
  ELSE IF a = 3 THEN [op |-> "get", key |-> key, how |-> T(at + 3) % 3]
  ELSE IF a = 4 THEN [op |-> "remove", key |-> key, how |-> T(at + 3) % 3]
  ELSE IF a = 5 /\ (T(at + 1) % 8) = 0 THEN [op |-> "add", key |-> <<"junk">>, conv |-> conv, how |-> T(at + 3) % 3]
  ELSE IF a = 5 THEN [op |-> "remove", key |-> IF DOMAIN tm = {} THEN key ELSE Pick(SetToSeq(DOMAIN tm), T(at + 2)), how |-> T(at + 3) % 3]
  ELSE [op |-> "encode", v |-> Pick(<<0, 3, 3, 4>>, T(at + 2)), nd |-> Graph(at + 4), vals |-> Values(at + 4), how |-> T(at + 3) % 3]
Do(o) == CASE o.op = "add" -> Add(tm, o.key, o.conv)[1]
           [] o.op = "remove" -> Remove(tm, o.key)[1]
           [] OTHER -> tm
Init == c \in 1..Len(Tapes) /\ tm = <<>> /\ hist = <<>> /\ ph = "go"
Grow == /\ ph = "go" /\ Len(hist) < NOps
        /\ LET o == Op(1 + 70 * Len(hist)) IN hist' = Append(hist, o) /\ tm' = Do(o)
        /\ UNCHANGED <<c, ph>>
Emit == /\ ph = "go" /\ Len(hist) = NOps
        /\ PrintT(ToJson([id |-> c, ops |-> hist])) /\ ph' = "end" /\ UNCHANGED <<c, tm, hist>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars
\* no two mappings compete, and after adding and removing the former ones are left
Clear == Unambiguous(tm)
Undo == \A i \in DOMAIN AllKeys : AllKeys[i] \notin DOMAIN tm => Remove(Add(tm, AllKeys[i], "list")[1], AllKeys[i])[1] = tm
\* what is expanded has no values of mapped types any more
Expanded == hist # <<>> /\ hist[Len(hist)].op = "encode" =>
  LET o == hist[Len(hist)]
      x == Expand(tm, o.nd, o.vals)
      R == Reaches(x[2], {x[1][i][2] : i \in {k \in DOMAIN x[1] : x[1][k][1] = "ref"}}, {})
  IN \A i \in R : x[2][i].k # "cust"
=============================================================================
