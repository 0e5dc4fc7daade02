--------------------------- MODULE EnvelopeCheck ---------------------------
(* mode "dec": inp was given; v, hs (name, req, value), bs (id, kind,       *)
(* target, status, values) with heap nd, and err were observed              *)
(* mode "enc": ops, out and nd were given, inp and err were observed        *)
EXTENDS Envelope, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, e, ph
vars == <<c, e, ph>>
C == Cases[c]

\* --------------------------------------------------------------- reading
RECURSIVE Reach(_, _, _)
Reach(nd, todo, seen) ==
  IF todo \subseteq seen THEN seen
  ELSE LET new == todo \ seen
           Vals(n) == {n.d[i] : i \in DOMAIN n.d} \cup {n.e[i][2] : i \in DOMAIN n.e}
           nx == UNION {{v[2] : v \in {w \in Vals(nd[i]) : w[1] = "ref"}} : i \in new}
       IN Reach(nd, nx, seen \cup new)
Roots(vals) == {vals[i][2] : i \in {k \in DOMAIN vals : vals[k][1] = "ref"}}
Parts == [i \in DOMAIN C.hs |-> Reach(C.nd, Roots(<<C.hs[i].val>>), {})]
      \o [i \in DOMAIN C.bs |-> Reach(C.nd, Roots(C.bs[i].vals), {})]
FirstOf(S, F(_)) == IF S = {} THEN "" ELSE LET x == CHOOSE x \in S : F(x) # "" IN IF \E y \in S : F(y) # "" THEN F(x) ELSE ""
HeadAt(nm) == {i \in DOMAIN C.hs : C.hs[i].name = nm}
WhyHead(i) ==
  LET h == e.hs[i]  S == HeadAt(h.name) IN
  IF Cardinality(S) # 1 THEN "a header is missing"
  ELSE LET o == C.hs[CHOOSE x \in S : TRUE] IN
       IF o.req # h.req THEN "a header has another flag"
       ELSE SameGraph("dec0", h.m.nd, h.m.out, C.nd, <<o.val>>)
WhyBody(i) ==
  LET x == e.bs[i]  o == C.bs[i]
      m == IF x.kind = "res" /\ x.status = 1 THEN AsFault(x.m) ELSE x.m
  IN IF o.id # x.id THEN "a body has another id"
     ELSE IF o.kind # x.kind THEN "a request arrives as a response, or the other way round"
     ELSE IF o.target # x.target \/ o.status # x.status THEN "a body has another target or status"
     ELSE SameGraph("dec0", m.nd, m.out, C.nd, o.vals)
JudgeDec ==
  IF e.err = "any" THEN ""
  ELSE IF e.err # "" THEN (IF C.err # "" THEN "" ELSE "a malformed message was read as an envelope (" \o e.err \o ")")
  ELSE IF C.err # "" THEN "reading a message failed with " \o C.err
  ELSE IF C.v # e.v THEN "another version was read"
  ELSE IF Len(C.hs) # Len(e.hs) THEN "the number of headers differs"
  ELSE IF Len(C.bs) # Len(e.bs) THEN "the number of bodies differs"
  ELSE LET w1 == FirstOf(DOMAIN e.hs, WhyHead)
           w2 == FirstOf(DOMAIN e.bs, WhyBody) IN
       IF w1 # "" THEN "header: " \o w1
       ELSE IF w2 # "" THEN "body: " \o w2
       ELSE IF \E x, y \in DOMAIN Parts : x < y /\ Parts[x] \cap Parts[y] # {}
       THEN "values of different headers or bodies are shared" ELSE ""

\* ---------------------------------------------------------------- writing
\* (faults have an anonymous description of their own)
Twice(m) == IF m.ds > 0 THEN "text in the table was written again"
            ELSE IF \E k \in Range(m.dt) : Count(m.dt, k) > (IF k = <<>> THEN 3 ELSE 1)
            THEN "a class was described twice" ELSE ""
RECURSIVE BuildAll(_, _)
BuildAll(b, ops) == IF ops = <<>> THEN b ELSE BuildAll(Build(b, Head(ops)), Tail(ops))
B == BuildAll(NewEnv(C.v), C.ops)
\* the heap, with a node for each fault that is sent
FaultNode(x) == [Node("obj", <<>>, <<>>) EXCEPT !.e =
   << <<<<"k", Key5[1]>>, <<"str", ErrorText>>>> >> \o [i \in 1..4 |-> <<<<"k", Key5[i + 1]>>, C.out[x.vals[i]]>>]]
Heap == C.nd \o [i \in DOMAIN B.bs |-> IF B.bs[i].kind = "fault" THEN FaultNode(B.bs[i]) ELSE Node("list", <<>>, <<>>)]
SentVals(i) == LET x == B.bs[i] IN
  IF x.kind = "fault" THEN << <<"ref", Len(C.nd) + i>> >> ELSE [k \in DOMAIN x.vals |-> C.out[x.vals[k]]]
Mode == IF C.v = 3 THEN "enc3" ELSE "enc0"
WhyHead2(i) ==
  LET h == B.hs[i]
      S == {k \in DOMAIN e.hs : e.hs[k].name = h.name} IN
  IF Cardinality(S) # 1 THEN "a header is missing"
  ELSE LET o == e.hs[CHOOSE x \in S : TRUE] IN
       IF o.req # h.req THEN "a header has another flag"
       ELSE LET w == SameGraph(Mode, o.m.nd, o.m.out, Heap, <<C.out[h.val]>>) IN
            IF w # "" THEN w ELSE Twice(o.m)
Kind(k) == IF k = "req" THEN "req" ELSE "res"
WhyBody2(i) ==
  LET x == B.bs[i]  o == e.bs[i] IN
  IF o.id # x.id THEN "a body has another id"
  ELSE IF o.kind # Kind(x.kind) THEN "a request is sent as a response, or the other way round"
  ELSE IF o.target # x.target \/ o.status # x.status THEN "a body has another target or status"
  ELSE LET w == SameGraph(Mode, o.m.nd, o.m.out, Heap, SentVals(i)) IN
       IF w # "" THEN w ELSE Twice(o.m)
Used == {B.hs[i].val : i \in DOMAIN B.hs} \cup UNION {Range(B.bs[i].vals) : i \in DOMAIN B.bs}
Bad(v) == v[1] = "bad"
HasBad == \/ \E i \in Used : Bad(C.out[i])
          \/ \E i \in Reach(C.nd, Roots([k \in 1..Len(C.out) |-> IF k \in Used THEN C.out[k] ELSE <<"null">>]), {}) :
               \/ \E k \in DOMAIN C.nd[i].d : Bad(C.nd[i].d[k])
               \/ \E k \in DOMAIN C.nd[i].e : Bad(C.nd[i].e[k][2])
JudgeEnc ==
  IF HasBad THEN (IF C.err = "enc" THEN "" ELSE "expected an encode error but got '" \o C.err \o "'")
  ELSE IF TooLong(B) THEN (IF C.err # "" THEN "" ELSE "a name that is too long was sent")
  ELSE IF C.err # "" THEN "encoding failed with " \o C.err
  ELSE IF e.err # "" \/ e.p # Len(C.inp) + 1 THEN "the message that was sent is not valid (" \o e.err \o ")"
  ELSE IF e.v # C.v THEN "another version was sent"
  ELSE IF Len(B.hs) # Len(e.hs) THEN "the number of headers differs"
  ELSE IF Len(B.bs) # Len(e.bs) THEN "the number of bodies differs"
  ELSE LET w1 == FirstOf(DOMAIN B.hs, WhyHead2)
           w2 == FirstOf(DOMAIN B.bs, WhyBody2) IN
       IF w1 # "" THEN "header: " \o w1
       ELSE IF w2 # "" THEN "body: " \o w2
       ELSE ""

Init == c \in 1..Len(Cases) /\ e = Reader /\ ph = "go"
Read == /\ ph = "go" /\ e.ph # "end" /\ e' = ReadNext(e, C.inp) /\ UNCHANGED <<c, ph>>
Judge == /\ ph = "go" /\ e.ph = "end"
         /\ LET v == IF C.mode = "dec" THEN JudgeDec ELSE JudgeEnc IN
            PrintT("V " \o ToString(C.id) \o " " \o (IF v = "" THEN "ok" ELSE "FAIL " \o v)
                   \o (IF e.err = "any" THEN " (open)" ELSE ""))
         /\ ph' = "end" /\ UNCHANGED <<c, e>>
Next == Read \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
