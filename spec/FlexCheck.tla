------------------------------ MODULE FlexCheck -----------------------------
(* Judges what collections, proxies, wrapped graphs and messages were        *)
(* observed to do.                                                           *)
EXTENDS Flex, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, s, why
vars == <<c, i, s, why>>
C == Cases[c]
Mode(v) == IF v = 0 THEN "enc0" ELSE "enc3"
ReadAll(inp, v) == Run(Start(v), inp, 1)
Whole(x, inp) == x[1].err = "" /\ x[2] = Len(inp) + 1 /\ AtTop(x[1])
Fn(es) == [k \in {es[j][1][2] : j \in DOMAIN es} |-> es[CHOOSE j \in DOMAIN es : es[j][1][2] = k][2]]

\* an encoding r = [inp, err, nd, out] of the value <<"ref", 1>> of the graph g,
\* with what it was decoded to
WhyEnc(v, r, g) ==
  LET x == ReadAll(r.inp, v) IN
  IF r.err # "" THEN "encoding or decoding failed with " \o r.err
  ELSE IF ~Whole(x, r.inp) THEN "the encoding is not valid (" \o x[1].err \o ")"
  ELSE LET w == SameGraph(Mode(v), x[1].nd, x[1].out, g, <<<<"ref", 1>>>>) IN
  IF w # "" THEN w ELSE LET d == SameGraph(IF v = 0 THEN "dec0" ELSE "dec3", x[1].nd, x[1].out, r.nd, r.out) IN
  IF d # "" THEN "decoded: " \o d ELSE ""
WhyHist(o, r) ==
  LET x == IF C.kind = "coll" THEN Coll(s, o) ELSE ProxyOp(s, IF o.op = "wrap" THEN [o EXCEPT !.a = Fn(o.a)] ELSE o) IN
  <<x[1], IF o.op \in {"encode", "box"} THEN WhyEnc(o.v, r, IF o.op = "box" THEN BoxNodes(o.x) ELSE IF C.kind = "coll" THEN <<CollNode(s)>> ELSE ProxyNodes(s))
          ELSE IF o.op = "inner" THEN (IF r[1] = "attrs" /\ Len(r[2]) = Cardinality(DOMAIN Fn(r[2])) /\ Fn(r[2]) = s.a THEN "" ELSE "the object within has other attributes")
          ELSE IF r = x[2] THEN "" ELSE "expected " \o ToString(x[2]) \o " but got " \o ToString(r)>>

WhyGraph ==
  LET g == C.g
      x == ReadAll(C.res.inp, 3)
      n == Len(g.nd) IN
  IF C.res.err # "" THEN "encoding or decoding failed with " \o C.res.err
  ELSE IF ~Whole(x, C.res.inp) THEN "the encoding is not valid (" \o x[1].err \o ")"
  ELSE LET e == SameGraph("enc3", x[1].nd, x[1].out, Wrapped(g.nd), g.vals)
           u == SameGraph("dec3", Read_(g.nd), g.vals, C.res.nd, C.res.out)
           p == SameGraph("dec3", x[1].nd, x[1].out, C.res.ndp, C.res.outp) IN
  IF e # "" THEN "sent wrapped: " \o e
  ELSE IF u # "" THEN "received unwrapped: " \o u
  ELSE IF p # "" THEN "received as it is: " \o p ELSE ""

\* the messages one after the other
RECURSIVE WhySmall(_, _, _)
WhySmall(m, p, k) ==
  LET q == C.g.msgs IN
  IF k > Len(q) THEN IF p = Len(C.res.inp) + 1 THEN "" ELSE "something follows the messages"
  ELSE LET r == ReadCompact([m EXCEPT !.out = <<>>], C.res.inp, p, q[k].k) IN
       IF r.bad # "" THEN r.bad
       ELSE LET w == Judge1(q[k].k, r, r.m.out, C.g.nd, q[k].a) IN
            IF w # "" THEN w ELSE WhySmall(r.m, r.p, k + 1)
WhyFull ==
  LET x == ReadAll(C.res.inp, 3)
      q == C.g.msgs
      n == Len(C.g.nd)
      nodes == C.g.nd \o [k \in DOMAIN q |-> [Node("obj", LongName(q[k].k), <<>>) EXCEPT !.e =
                  LET A_ == FnToSeq(DOMAIN q[k].a) IN [j \in DOMAIN A_ |-> <<<<"k", NameOf(A_[j])>>, q[k].a[A_[j]]>>]]] IN
  IF ~Whole(x, C.res.inp) THEN "the encoding is not valid (" \o x[1].err \o ")"
  ELSE SameGraph("enc3", x[1].nd, x[1].out, nodes, [k \in DOMAIN q |-> <<"ref", n + k>>])
WhyBack(k) ==
  LET q == C.g.msgs[k]
      b == C.res.back[k] IN
  IF b.k # q.k \o (IF C.g.small THEN "Ext" ELSE "") THEN "decoded to another kind of message (" \o b.k \o ")"
  ELSE Expanded(q.k, C.g.nd, q.a, C.res.nd, b.a)
WhyMsg ==
  LET e == IF C.res.err # "" THEN "encoding or decoding failed with " \o C.res.err
           ELSE IF C.g.small THEN WhySmall(Start(3), 1, 1) ELSE WhyFull IN
  IF e # "" THEN e
  ELSE LET B == {k \in DOMAIN C.g.msgs : WhyBack(k) # ""} IN IF B = {} THEN "" ELSE WhyBack(CHOOSE k \in B : TRUE)

Init == c \in 1..Len(Cases) /\ i = 0 /\ s = <<>> /\ why = ""
Do == /\ i < Len(C.ops) /\ why = ""
      /\ LET r == WhyHist(C.ops[i + 1], C.res[i + 1]) IN
         /\ s' = r[1]
         /\ why' = (IF r[2] = "" THEN "" ELSE r[2] \o " (operation " \o ToString(i + 1) \o ", " \o C.ops[i + 1].op \o ")")
      /\ i' = i + 1 /\ UNCHANGED c
End == /\ i <= Len(C.ops) /\ (i = Len(C.ops) \/ why # "")
       /\ LET w == IF C.kind = "graph" THEN WhyGraph ELSE IF C.kind = "msg" THEN WhyMsg ELSE why IN
          PrintT("V " \o ToString(C.id) \o " " \o (IF w = "" THEN "ok" ELSE "FAIL " \o w))
       /\ i' = Len(C.ops) + 1 /\ UNCHANGED <<c, s, why>>
Next == Do \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
