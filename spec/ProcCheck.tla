------------------------------ MODULE ProcCheck -----------------------------
(* kinds and ops were given; res[i]: <<"ok">>, or what taking gave:          *)
(* <<how, calls, term>> with how = "value", "eos", "io" or the name of an    *)
(* error, and calls <<p, term, counter>>.  An observed term is               *)
(* <<"box", p, term>> or <<"val", value over the heap ond>>.  "decode" gives *)
(* <<"all", those of each element, how it stopped>>.                         *)
EXTENDS Proc, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
ND == 2
VARIABLES c, i, ps, dec, seen, why
vars == <<c, i, ps, dec, seen, why>>
C == Cases[c]
DMode == IF C.v = 3 THEN "dec3" ELSE "dec0"
\* does the observed term have the shape of the expected one?
RECURSIVE Shape(_, _)
Shape(e, o) == CASE e[1] = "box" -> o[1] = "box" /\ o[2] = e[2] /\ Shape(e[3], o[3])
                 [] e[1] = "none" -> o = <<"val", <<"null">> >>
                 [] OTHER -> o[1] = "val"
RECURSIVE Leaf(_, _)
Leaf(e, o) == CASE e[1] = "box" -> Leaf(e[3], o[3]) [] e[1] = "none" -> <<>> [] OTHER -> <<o[2]>>
RECURSIVE Leaves(_, _)
Leaves(es, os) == IF es = <<>> THEN <<>> ELSE Leaf(Head(es), Head(os)) \o Leaves(Tail(es), Tail(os))
\* one element: what is expected (h) and what was observed (r)
WhyOne(h, r) ==
  IF Len(r[2]) < Len(h.log) THEN "a processor was not called"
  ELSE IF Len(r[2]) > Len(h.log) THEN "a processor was called once too often"
  ELSE IF \E k \in DOMAIN h.log : r[2][k][1] # h.log[k][1] THEN "the processors were called in another order"
  ELSE IF \E k \in DOMAIN h.log : ~Shape(h.log[k][2], r[2][k][2]) THEN "a processor got something else"
  ELSE IF \E k \in DOMAIN h.log : r[2][k][3] # h.log[k][3] THEN "the processors do not share what is extra"
  ELSE IF ~h.ok THEN (IF r[1] = "boom" THEN "" ELSE "the failure of a processor got lost")
  ELSE IF r[1] # "value" THEN "decoding stopped with " \o r[1]
  ELSE IF ~Shape(h.t, r[3]) THEN "something else came out" ELSE ""
\* the values that were seen of one element
SeenOf(h, r) == Leaves([k \in DOMAIN h.log |-> h.log[k][2]], [k \in DOMAIN h.log |-> r[2][k][2]])
                \o (IF h.ok THEN Leaf(h.t, r[3]) ELSE <<>>)
\* decoding everything in b, which stops where a processor fails
RECURSIVE All(_, _, _, _)
All(d, n, rs, acc) ==
  LET t == TakeOf(d) IN
  IF t.r # "value" THEN [w |-> IF rs # <<>> THEN "more elements were decoded than there are" ELSE "", acc |-> acc, d |-> d, stop |-> "stop"]
  ELSE IF rs = <<>> THEN [w |-> "not all elements were decoded", acc |-> acc, d |-> d, stop |-> "stop"]
  ELSE LET h == Through(C.kinds, ps, n)
           w == WhyOne(h, Head(rs)) IN
       IF w # "" \/ ~h.ok THEN [w |-> w, acc |-> Append(acc, IF w = "" THEN SeenOf(h, Head(rs)) ELSE <<>>), d |-> t.d, stop |-> "boom"]
       ELSE All(t.d, h.n, Tail(rs), Append(acc, SeenOf(h, Head(rs))))
\* acc[k]: what was seen of the k-th value that the machine delivered
RECURSIVE Pairs(_, _, _)
Pairs(out, acc, k) == IF k > Len(acc) THEN <<>> ELSE [j \in DOMAIN acc[k] |-> out[k]] \o Pairs(out, acc, k + 1)
RECURSIVE Flat(_)
Flat(acc) == IF acc = <<>> THEN <<>> ELSE Head(acc) \o Flat(Tail(acc))
WhySeen(m, acc) == SameGraph(DMode, m.nd, Pairs(m.out, acc, 1), C.ond, Flat(acc))
R0 == [w |-> "", ps |-> ps, d |-> dec, s |-> seen]
Judge(o, r) ==
  CASE o.op = "add" -> [R0 EXCEPT !.ps = Append(ps, o.p)]
    [] o.op = "remove" -> [R0 EXCEPT !.ps = Without(ps, o.p)]
    [] o.op = "feed" -> [R0 EXCEPT !.d = [dec EXCEPT ![o.x].d = DecFed(@, o.b)]]
    [] o.op = "take" ->
         LET t == TakeOf(dec[o.x].d)
             h == Through(C.kinds, ps, dec[o.x].n) IN
         IF t.r # "value" THEN [R0 EXCEPT !.w = IF r[1] # t.r THEN "expected " \o t.r \o " but got " \o r[1]
                                                ELSE IF r[2] # <<>> THEN "a processor was called without an element" ELSE ""]
         ELSE LET w == WhyOne(h, r) IN
              [R0 EXCEPT !.w = w, !.d = [dec EXCEPT ![o.x] = [d |-> t.d, n |-> h.n]],
                         !.s = IF w = "" THEN [seen EXCEPT ![o.x] = Append(@, SeenOf(h, r))] ELSE seen]
    [] o.op = "dclear" -> [R0 EXCEPT !.w = WhySeen(dec[o.x].d.m, seen[o.x]),
                                     !.d = [dec EXCEPT ![o.x] = [d |-> DecCleared(@.d), n |-> 0]],
                                     !.s = [seen EXCEPT ![o.x] = <<>>]]
    [] o.op = "decode" ->
         LET a == All(DecFed(NewDec(C.v), o.b), 0, r[2], <<>>) IN
         [R0 EXCEPT !.w = IF a.w # "" THEN a.w ELSE IF r[3] # a.stop THEN "decoding stopped with " \o r[3] ELSE WhySeen(a.d.m, a.acc)]
Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ why = "" /\ ps = <<>>
        /\ dec = [x \in 1..ND |-> [d |-> NewDec(Cases[c].v), n |-> 0]]
        /\ seen = [x \in 1..ND |-> <<>>]
Do == /\ i < Len(C.ops) /\ why = ""
      /\ LET r == Judge(C.ops[i + 1], C.res[i + 1]) IN
         /\ why' = (IF r.w = "" THEN "" ELSE r.w \o " (operation " \o ToString(i + 1) \o ", " \o C.ops[i + 1].op \o ")")
         /\ ps' = r.ps /\ dec' = r.d /\ seen' = r.s
      /\ i' = i + 1 /\ UNCHANGED c
AtEnd == LET D == {x \in 1..ND : WhySeen(dec[x].d.m, seen[x]) # ""} IN
         IF D = {} THEN "" ELSE LET x == CHOOSE x \in D : TRUE IN WhySeen(dec[x].d.m, seen[x])
End == /\ i <= Len(C.ops) /\ (i = Len(C.ops) \/ why # "")
       /\ LET w == IF why # "" THEN why ELSE AtEnd IN
          PrintT("V " \o ToString(C.id) \o " " \o (IF w = "" THEN "ok" ELSE "FAIL " \o w))
       /\ i' = Len(C.ops) + 1 /\ UNCHANGED <<c, ps, dec, seen, why>>
Next == Do \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
