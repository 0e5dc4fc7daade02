------------------------------ MODULE Envelope -----------------------------
(* Remoting envelopes: how they are built, what they look like on the wire  *)
(* and how a reader of the bytes proceeds.                                  *)
(*                                                                          *)
(* b = [v, hs, bs]: an envelope under construction.  hs: sequence of        *)
(* [name, req, val], bs: sequence of [id, kind, target, status, vals].      *)
(* Names are UTF-8; val and vals are opaque.                                *)
(*                                                                          *)
(* e: the state of a reader; the values of each header and body are read    *)
(* by an AMF machine of its own (so no reference leads out of a body).      *)
EXTENDS AMF

\* -------------------------------------------------------------- building
NewEnv(v) == [v |-> v, hs |-> <<>>, bs |-> <<>>]
At(q, F(_)) == {i \in DOMAIN q : F(q[i])}
PutAt(q, S, x) == IF S = {} THEN Append(q, x) ELSE [q EXCEPT ![CHOOSE i \in S : TRUE] = x]
Build(b, o) ==
  CASE o.op = "head" ->
         LET S == At(b.hs, LAMBDA h : h.name = o.name) IN
         [b EXCEPT !.hs = PutAt(@, S, [name |-> o.name, val |-> o.val,
                                       req |-> S # {} /\ b.hs[CHOOSE i \in S : TRUE].req])]
    [] o.op = "req" ->
         LET S == At(b.hs, LAMBDA h : h.name = o.name) IN
         IF S = {} THEN b ELSE [b EXCEPT !.hs[CHOOSE i \in S : TRUE].req = o.on]
    [] o.op = "body" ->
         [b EXCEPT !.bs = PutAt(@, At(@, LAMBDA x : x.id = o.id),
             [id |-> o.id, kind |-> o.kind, target |-> o.target, status |-> o.status, vals |-> o.vals])]

\* ---------------------------------------------------------------- wire form
Suffix == << <<47,111,110,82,101,115,117,108,116>>,                      \* /onResult
             <<47,111,110,83,116,97,116,117,115>>,                       \* /onStatus
             <<47,111,110,68,101,98,117,103,69,118,101,110,116,115>> >>  \* /onDebugEvents
EndsWith(t, s) == Len(t) >= Len(s) /\ SubSeq(t, Len(t) - Len(s) + 1, Len(t)) = s
StatusOf(t) == {k \in 0..2 : EndsWith(t, Suffix[k + 1])}
Text(b) == U16(Len(b)) \o b
None == <<110, 117, 108, 108>>       \* "null"
\* data: the bytes of the value (or arguments); n: the length that is stated
\* (any byte but 0 says that the header is required)
HeaderBytes(h, flag, data, n) == Text(h.name) \o <<flag>> \o n \o data
\* names have at most 65535 bytes
LongBody(x) == IF x.kind = "req" THEN Len(x.id) > 65535 \/ Len(x.target) > 65535 ELSE Len(x.id) + Len(Suffix[x.status + 1]) > 65535
TooLong(b) == (\E i \in DOMAIN b.hs : Len(b.hs[i].name) > 65535) \/ (\E i \in DOMAIN b.bs : LongBody(b.bs[i]))
BodyBytes(x, data, n) ==
  IF x.kind = "req" THEN Text(x.target) \o Text(x.id) \o n \o data
  ELSE Text(x.id \o Suffix[x.status + 1]) \o Text(None) \o n \o data

\* ------------------------------------------------------------------ reading
Reader == [ph |-> "start", p |-> 1, v |-> 0, nh |-> 0, nb |-> 0, hs |-> <<>>, bs |-> <<>>, err |-> ""]
Refuse(e, x) == [e EXCEPT !.err = x, !.ph = "end"]

\* n values, from position p on
RECURSIVE RunN(_, _, _, _)
RunN(m, s, p, n) ==
  IF m.err # "" \/ (AtTop(m) /\ Len(m.out) >= n) THEN <<m, p>>
  ELSE LET l == Lex(m, s, p) IN
       IF l[1].t = "more" THEN <<Fail(m, "io"), p>> ELSE RunN(Step(m, l[1]), s, l[2], n)

\* text at p: <<text, position>>, position 0 if the bytes end before
TextAt(s, p) == LET h == U16At(s, p) IN
                IF h[1] = Need \/ h[2] + h[1] - 1 > Len(s) THEN <<<<>>, 0>>
                ELSE <<Slice(s, h[2], h[1]), h[2] + h[1]>>

\* the stated length does not matter unless lengths are known
WrongLen(len, from, to) == Strict /\ len # to - from

ReadStart(e, s) ==
  LET v == U16At(s, 1)  n == U16At(s, 3) IN
  IF v[1] = Need THEN Refuse(e, "io")
  ELSE IF v[1] > 9 THEN Refuse(e, "dec")
  ELSE IF n[1] = Need THEN Refuse(e, "io")
  ELSE [e EXCEPT !.ph = "heads", !.p = 5, !.v = v[1], !.nh = n[1]]

ReadHeader(e, s) ==
  LET nm == TextAt(s, e.p)
      fl == nm[2]
      ln == U32At(s, fl + 1)
      r == RunN(Start(0), s, fl + 5, 1)
  IN IF nm[2] = 0 \/ fl > Len(s) THEN Refuse(e, "io")
     ELSE IF ~IsUtf8(nm[1]) THEN Refuse(e, "any")
     ELSE IF ln[1] = Need THEN Refuse(e, "io")
     ELSE IF r[1].err # "" THEN Refuse(e, r[1].err)
     ELSE IF WrongLen(ln[1], fl + 5, r[2]) THEN Refuse(e, "dec")
     ELSE IF \E i \in DOMAIN e.hs : e.hs[i].name = nm[1] THEN Refuse(e, "any")
     ELSE [e EXCEPT !.p = r[2], !.hs = Append(@, [name |-> nm[1], req |-> s[fl] # 0, m |-> r[1]])]

ReadCount(e, s) ==
  LET n == U16At(s, e.p) IN
  IF n[1] = Need THEN Refuse(e, "io") ELSE [e EXCEPT !.ph = "bodies", !.p = n[2], !.nb = n[1]]

\* the arguments of a request: an AMF0 array that has no place in the table
\* of references, or a list behind the AMF3 marker
ReadArgs(e, s, q) ==
  IF q > Len(s) THEN <<Fail(Start(0), "io"), q>>
  ELSE IF s[q] = 17 THEN
       (IF e.v # 3 THEN <<Fail(Start(0), "dec"), q>>
        ELSE LET r == RunN(Start(0), s, q, 1)
                 x == r[1].out
             IN IF r[1].err # "" THEN r
                ELSE IF x[1][1] # "ref" \/ r[1].nd[x[1][2]].k # "list" THEN <<Fail(r[1], "any"), q>>
                ELSE <<[r[1] EXCEPT !.out = r[1].nd[x[1][2]].d], r[2]>>)
  ELSE IF s[q] # 10 THEN <<Fail(Start(0), "dec"), q>>
  ELSE LET n == U32At(s, q + 1) IN
       IF n[1] = Need THEN <<Fail(Start(0), "io"), q>>
       ELSE IF n[1] = Huge THEN <<Fail(Start(0), "any"), q>>
       ELSE RunN(Start(0), s, n[2], n[1])

Key5 == << <<108,101,118,101,108>>, <<99,111,100,101>>, <<116,121,112,101>>,
           <<100,101,116,97,105,108,115>>, <<100,101,115,99,114,105,112,116,105,111,110>> >>
\* level, code, type, details, description
ErrorText == <<101, 114, 114, 111, 114>>
FaultClass(isError) == IF isError THEN <<69>> ELSE <<66>>
\* an object sent with the status of an error arrives as a fault
AsFault(m) ==
  LET x == m.out[1]
      E == m.nd[x[2]].e
      Val(k) == LET S == {i \in DOMAIN E : E[i][1] = k} IN
                IF S = {} THEN <<"str", <<>>>> ELSE E[CHOOSE i \in S : \A y \in S : y <= i][2]
      isE == (\A i \in DOMAIN E : E[i][1] # Key5[1]) \/ Val(Key5[1]) = <<"str", ErrorText>>
      f == [Node("obj", FaultClass(isE), <<>>) EXCEPT
              !.e = [i \in 1..4 |-> <<Key5[i + 1], Val(Key5[i + 1])>>]]
  IN IF x[1] # "ref" \/ m.nd[x[2]].k # "obj" \/ m.nd[x[2]].c # <<>> THEN m
     ELSE [m EXCEPT !.nd = Append(@, f), !.out = << <<"ref", Len(m.nd) + 1>> >>]

ReadBody(e, s) ==
  LET t == TextAt(s, e.p)
      i == TextAt(s, t[2])
      ln == U32At(s, i[2])
      st == StatusOf(t[1])
      k == CHOOSE x \in st : TRUE
      from == i[2] + 4
      r == IF st = {} THEN ReadArgs(e, s, from) ELSE RunN(Start(0), s, from, 1)
      id == IF st = {} THEN i[1] ELSE SubSeq(t[1], 1, Len(t[1]) - Len(Suffix[k + 1]))
  IN IF t[2] = 0 \/ i[2] = 0 THEN Refuse(e, "io")
     ELSE IF ~IsUtf8(t[1]) \/ ~IsUtf8(i[1]) THEN Refuse(e, "any")
     ELSE IF ln[1] = Need THEN Refuse(e, "io")
     ELSE IF r[1].err # "" THEN Refuse(e, r[1].err)
     ELSE IF WrongLen(ln[1], from, r[2]) THEN Refuse(e, "dec")
     ELSE IF \E x \in DOMAIN e.bs : e.bs[x].id = id THEN Refuse(e, "any")
     ELSE [e EXCEPT !.p = r[2], !.bs = Append(@,
             IF st = {} THEN [id |-> id, kind |-> "req", target |-> t[1], status |-> 0, m |-> r[1], len |-> ln[1], n |-> r[2] - from]
             ELSE [id |-> id, kind |-> "res", target |-> <<>>, status |-> k, m |-> r[1], len |-> ln[1], n |-> r[2] - from])]

ReadNext(e, s) ==
  CASE e.ph = "start" -> ReadStart(e, s)
    [] e.ph = "heads" /\ Len(e.hs) < e.nh -> ReadHeader(e, s)
    [] e.ph = "heads" -> ReadCount(e, s)
    [] e.ph = "bodies" /\ Len(e.bs) < e.nb -> ReadBody(e, s)
    [] e.ph = "bodies" -> IF Strict /\ e.p <= Len(s) THEN Refuse(e, "rest") ELSE [e EXCEPT !.ph = "end"]
RECURSIVE ReadAll(_, _)
ReadAll(e, s) == IF e.ph = "end" THEN e ELSE ReadAll(ReadNext(e, s), s)
=============================================================================
