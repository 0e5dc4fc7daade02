------------------------------- MODULE FlexGen ------------------------------
(* Histories of collections and of proxies, graphs to be sent wrapped, and   *)
(* messages.                                                                 *)
EXTENDS Flex, Json, IOUtils
CONSTANTS NOps
Tapes == ndJsonDeserialize(IOEnv.TAPES)
VARIABLES c, s, hist, ph
vars == <<c, s, hist, ph>>
T(k) == Tapes[c][1 + ((k - 1) % Len(Tapes[c]))]
Pick(q, r) == q[1 + (r % Len(q))]
Kind == <<"coll", "graph", "msg", "proxy", "graph", "msg">>[1 + (c % 6)]

Items == << <<"int", 1>>, <<"int", 2>>, <<"int", -5>>, <<"str", <<97>>>>, <<"str", <<>>>>, <<"str", <<49>>>>, <<"null">>, <<"int", 2>>,
            <<"str", <<195, 169>>>>, <<"int", 268435455>> >>
Item(r) == Pick(Items, r)
ItemsAt(at, n) == [i \in 1..n |-> Item(T(at + i))]

CollOp(at) ==
  LET a == T(at) % 32
      i == (T(at + 1) % (Len(s) + 4)) - 2
      x == IF s # <<>> /\ (T(at + 2) % 3) = 0 THEN s[1 + (T(at + 3) % Len(s))] ELSE Item(T(at + 3))
      O(op) == [op |-> op, i |-> i, x |-> x] IN
  CASE hist = <<>> \/ a = 0 -> [op |-> "new", src |-> Pick(<<"list", "list", "tuple", "none", "dict", "number", "coll", "generator">>, T(at + 4)),
                                q |-> ItemsAt(at + 5, T(at + 1) % 6)]
    [] a \in 1..3 -> O("addItem") [] a \in 4..7 -> O("addItemAt") [] a \in 8..10 -> O("getItemAt")
    [] a \in 11..13 -> O("getItemIndex") [] a = 14 -> O("removeAll") [] a \in 15..18 -> O("removeItemAt")
    [] a \in 19..21 -> O("setItemAt") [] a = 22 -> O("toArray") [] a = 23 -> O("list") [] a = 24 -> O("length")
    [] a = 25 -> O("setLength") [] a = 26 -> O("append") [] a = 27 -> O("contains")
    [] OTHER -> [op |-> "encode", v |-> Pick(<<3, 0>>, T(at + 1))]
Names == << <<97>>, <<98>>, <<110, 97, 109, 101>>, <<95, 120>>, <<107, 101, 121, 115, 50>> >>
SomeAttrs(at) == [k \in {Names[i] : i \in {j \in DOMAIN Names : (T(at + j) % 3) = 0}} |-> Item(T(at + 10 + k[1]))]
PxOp(at) ==
  LET a == T(at) % 16
      O(op) == [op |-> op, k |-> Pick(Names, T(at + 1)), x |-> Item(T(at + 2))] IN
  CASE hist = <<>> \/ a = 0 -> [op |-> "wrap", c |-> Pick(<<<<>>, <<>>, TA>>, T(at + 3)), a |-> SomeAttrs(at + 4),
                                how |-> Pick(<<"given", "given", "assigned">>, T(at + 3) \div 8)]
    [] a \in 1..4 -> O("set") [] a \in 5..7 -> O("get") [] a = 8 -> O("inner")
    [] a \in {9, 10} -> [op |-> "box", v |-> Pick(<<3, 0>>, T(at + 1)),
                        x |-> LET r == T(at + 2) IN Pick(<<Item(r \div 8), <<"null">>, <<"bool", FALSE>>, <<"int", 0>>, <<"str", <<>>>>, <<"l", <<>>>>,
                                                         <<"l", ItemsAt(at + 4, 1 + ((r \div 8) % 4))>>>>, r)]
    [] a = 11 -> [op |-> Pick(<<"proxied", "unproxied">>, T(at + 1)),
                  x |-> Pick(<<"list", "tuple", "dict", "asobject", "mixed", "coll", "proxy", "number", "text", "typed", "none">>, T(at + 2))]
    [] OTHER -> [op |-> "encode", v |-> Pick(<<3, 0>>, T(at + 1))]

\* a random graph of lists, anonymous objects and typed objects
Num1(i) == <<97>> \o IntDigits(i)
Graph(at) ==
  LET n == 1 + (T(at) % 8)
      V(r) == IF (r % 3) = 0 THEN Item(r \div 4) ELSE <<"ref", 1 + ((r \div 4) % n)>>
      L(i) == T(at + 5 * i) % 4
      K(i) == T(at + 5 * i) \div 4
      Vals(i) == [j \in 1..L(i) |-> V(T(at + 5 * i + j))] IN
  [i \in 1..n |-> IF (K(i) % 5) < 2 THEN [Node("list", <<>>, <<>>) EXCEPT !.d = Vals(i)]
                  ELSE [Node("obj", IF (K(i) % 5) = 4 THEN TA ELSE <<>>, <<>>)
                        EXCEPT !.e = [j \in 1..L(i) |-> <<<<"k", Num1(j)>>, Vals(i)[j]>>]]]
Roots(at, n) == [q \in 1..(1 + (T(at) % 3)) |-> <<"ref", 1 + (T(at + q) % n)>>]
GraphCase ==
  LET g == Graph(10) IN
  [nd |-> g, vals |-> Roots(90, Len(g)), how |-> Pick(<<"kw", "default">>, T(95)),
   dict |-> Pick(<<"dict", "asobject", "mixed">>, T(96))]

\* messages: nodes 1.. are a graph for bodies, then dates, then uuids
DateBytes == << <<66,115,34,36,143,128,0,0>>, <<0,0,0,0,0,0,0,0>>, <<66,119,83,10,193,250,112,0>>, <<64,147,72,0,0,0,0,0>>, <<193,148,153,111,252,0,0,0>> >>
Uuid(r) == [i \in 1..16 |-> (T(700 + r + i) \div 4) % 256]
Kinds == <<"Async", "Ack", "Command", "Async", "Ack", "Command", "Error", "Remoting">>
SmallKinds == <<"Async", "Ack", "Command">>
MsgCase ==
  LET g == Graph(10)
      n == Len(g)
      nd == g \o [i \in 1..5 |-> Node("date", <<>>, DateBytes[i])]
            \o << Node("obj", <<>>, <<>>), [Node("obj", <<>>, <<>>) EXCEPT !.e = <<<<<<"k", <<68, 83, 73, 100>>>>, Item(T(120))>>>>] >>
      uu == T(100) % 2 = 0
      AnyOf(r) == IF (r % 4) = 0 THEN Item(r \div 8) ELSE IF (r % 4) = 1 THEN <<"null">> ELSE <<"ref", 1 + ((r \div 8) % n)>>
      Id(r) == CASE uu /\ (r % 4) < 2 -> <<"uuid", Uuid(r % 64)>>
                 [] (r % 4) = 2 -> <<"null">> [] OTHER -> Pick(<<<<"str", <<>>>>, <<"str", <<97>>>>, <<"str", <<49, 45>>>>>>, r \div 4)
      Time(r) == CASE (r % 4) = 0 -> <<"null">> [] (r % 4) = 1 -> <<"int", Pick(<<0, 0, 1234, 5, 268435455>>, r \div 4)>>
                   [] OTHER -> <<"ref", n + 1 + ((r \div 4) % 5)>>
      V(at, r) == CASE at \in {"clientId", "messageId", "correlationId"} -> Id(r)
                    [] at \in Times -> Time(r)
                    [] at = "headers" -> Pick(<< <<"ref", n + 6>>, <<"ref", n + 7>>, <<"null">> >>, r)
                    [] at = "destination" -> Pick(<<<<"null">>, <<"str", <<>>>>, <<"str", <<97>>>>>>, r)
                    [] at = "operation" -> Pick(<<<<"null">>, <<"int", 0>>, <<"int", 5>>, <<"int", 12>>, <<"str", <<97>>>>>>, r)
                    [] OTHER -> AnyOf(r)
      Attrs_(k, i) == [at \in AllAttrs(k) |-> V(at, T(200 + 40 * i + (CHOOSE j \in 1..18 : <<"body", "clientId", "destination", "headers", "messageId",
                         "timestamp", "timeToLive", "correlationId", "operation", "source", "extendedData", "faultCode", "faultDetail",
                         "faultString", "rootCause", "x", "y", "z">>[j] = at)))]
      small == (T(101) % 4) # 0 \/ uu
      msgs == [i \in 1..(1 + (T(102) % 3)) |-> LET k == Pick(IF small THEN SmallKinds ELSE Kinds, T(110 + i)) IN [k |-> k, a |-> Attrs_(k, i)]]
  IN [nd |-> nd, msgs |-> msgs, small |-> small]

Init == c \in 1..Len(Tapes) /\ s = <<>> /\ hist = <<>> /\ ph = "go"
N == IF Kind \in {"coll", "proxy"} THEN NOps ELSE 0
Grow == /\ ph = "go" /\ Len(hist) < N
        /\ LET o == IF Kind = "coll" THEN CollOp(1 + 20 * Len(hist)) ELSE PxOp(1 + 30 * Len(hist)) IN
           hist' = Append(hist, o) /\ s' = (IF Kind = "coll" THEN Coll(s, o)[1] ELSE ProxyOp(s, o)[1])
        /\ UNCHANGED <<c, ph>>
Names_(a) == FnToSeq(DOMAIN a)
\* functions from names are sent as pairs
Flat(o) == IF o.op = "wrap" THEN [o EXCEPT !.a = Entries(o.a)] ELSE o
Emit == /\ ph = "go" /\ Len(hist) = N
        /\ PrintT(ToJson([id |-> c, kind |-> Kind,
             ops |-> IF Kind = "proxy" THEN [i \in DOMAIN hist |-> Flat(hist[i])] ELSE hist,
             g |-> IF Kind = "graph" THEN GraphCase ELSE IF Kind = "msg" THEN MsgCase ELSE [x |-> 0]]))
        /\ ph' = "end" /\ UNCHANGED <<c, s, hist>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars
\* adding and removing again changes nothing; what is put somewhere is there
Undo == Kind = "coll" => \A i \in 0..Len(s) :
          /\ Coll(Coll(s, [op |-> "addItemAt", i |-> i, x |-> <<"int", 77>>])[1], [op |-> "removeItemAt", i |-> i])
             = <<s, <<"int", 77>>>>
          /\ Coll(Coll(s, [op |-> "addItemAt", i |-> i, x |-> <<"int", 77>>])[1], [op |-> "getItemIndex", x |-> <<"int", 77>>])[2]
             = <<"int", IndexOf(Append(SubSeq(s, 1, i), <<"int", 77>>), <<"int", 77>>)>>
Found == Kind = "coll" => \A i \in DOMAIN s : LET k == IndexOf(s, s[i]) IN k < i /\ s[k + 1] = s[i]
=============================================================================
