---------------------------- MODULE GatewayCheck ---------------------------
(* gw and ops were given; for every operation res says what was observed:   *)
(* err (of add, remove), or status, ctype, clen ("ok", "none", "wrong"),    *)
(* allow, leak (the text of a traceback is in it), ev, v and rs: id, status,*)
(* kind, val, code, corr, dsid, details                                     *)
EXTENDS Gateway, Json, IOUtils
CONSTANT What
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, g, i, why
vars == <<c, g, i, why>>
C == Cases[c]
E(j) == C.ops[j]
R(j) == C.res[j]
Fault(a) == a.err # ""

\* ------------------------------------------------------------- responses
\* (x, a, r: what was asked, what should be answered, what was answered)
WhyOne(x, a, r) ==
  IF r.id # x.id THEN "a response is not for the request in its place"
  ELSE IF ~IsRo(x) THEN
    IF Fault(a) THEN (IF r.kind # "fault" \/ r.status # 1 THEN "a request that failed is not answered with a fault"
                      ELSE IF a.err # "any" /\ r.code # a.err THEN "fault " \o r.code \o " instead of " \o a.err
                      ELSE "")
    ELSE IF r.kind # "value" \/ r.status # 0 THEN "a request that succeeded is answered with a fault: " \o r.code
    ELSE IF r.val # a.ret THEN "another result is returned" ELSE ""
  ELSE
    IF Fault(a) THEN (IF r.kind # "error" \/ r.status # 1 THEN "a message that failed is not answered with an error message"
                      ELSE IF a.err # "any" /\ r.code # a.err THEN "error " \o r.code \o " instead of " \o a.err
                      ELSE "")
    ELSE IF r.kind # "ack" \/ r.status # 0 THEN "a message that succeeded is not acknowledged: " \o r.code
    ELSE IF r.val # a.ret THEN "another result is returned" ELSE ""
IsMsg(x) == x.form \in {"rpc", "ping", "async", "disconnect", "login", "command", "noop", "nobody"}
WhyRo(x, r) ==
  IF ~IsRo(x) THEN ""
  ELSE IF IsMsg(x) /\ r.corr # x.mid THEN "the answer is for another message"
  ELSE IF IsMsg(x) /\ x.dsid \notin {"", "nil"} /\ r.dsid # x.dsid THEN "the answer has another client id"
  ELSE IF r.dsid \in {"", "nil"} THEN "the answer has no client id"
  ELSE ""
FirstWhy(n, W(_)) == IF \E k \in 1..n : W(k) # "" THEN W(CHOOSE k \in 1..n : W(k) # "" /\ \A m \in 1..(k - 1) : W(m) = "") ELSE ""
Full1(q) == IF Len(q) = 0 THEN "" ELSE q[1]
WhyBatch(o, r) ==
  LET b == Batch(g, o.hd, o.xs) IN
  IF b.fatal THEN (IF What # "C12" /\ r.status # 500 THEN "a request that cannot be answered has status " \o ToString(r.status) ELSE
                   IF What = "C12" /\ r.ev # b.ev THEN "something else ran" ELSE "")
  ELSE IF r.status # 200 THEN "a valid request has status " \o ToString(r.status)
  ELSE IF r.v # o.v THEN "the answer has another version"
  ELSE IF Len(r.rs) # Len(o.xs) THEN "the number of responses differs"
  ELSE LET W(k) == LET x == o.xs[k] a == b.rs[k] IN
             LET w == WhyOne(x, a, r.rs[k]) IN IF w # "" THEN w ELSE IF What = "C11" THEN WhyRo(x, r.rs[k]) ELSE ""
           w1 == FirstWhy(Len(o.xs), W) IN
       IF w1 # "" THEN w1
       ELSE IF What \in {"C11", "C13"} /\ \E k \in DOMAIN r.rs : \E m \in DOMAIN r.rs : k # m /\ r.rs[k].mid # "" /\ r.rs[k].mid = r.rs[m].mid
       THEN "two answers have the same message id"
       ELSE IF What = "C12" /\ r.ev # b.ev THEN "something else ran than what is allowed"
       ELSE ""
\* ------------------------------------------------------------------- http
Plain200 == {"application/x-amf"}
WhyHttp(o, r, want) ==
  IF r.status \notin want THEN "status " \o ToString(r.status) \o " instead of " \o ToString(want)
  ELSE IF r.clen = "wrong" \/ (r.status = 200 /\ r.clen # "ok") THEN "the content length is wrong"
  ELSE IF r.status = 200 /\ r.ctype # "application/x-amf" THEN "the content type is " \o r.ctype
  ELSE IF r.status # 200 /\ r.ctype = "application/x-amf" THEN "an error has the content type of AMF"
  ELSE IF r.status # 200 /\ r.leak /\ ~C.gw.debug THEN "an error page tells how the server is made"
  ELSE IF r.status \in {400, 500} /\ o.op # "method" /\ C.gw.debug /\ ~r.leak THEN "debugging tells nothing"
  ELSE ""
\* faults carry details if and only if debugging
Denied(x, a) == a.err = "AuthenticationError" /\ ~IsRo(x)
WhyDetails(o, r) ==
  LET b == Batch(g, o.hd, o.xs)
      W(k) == LET a == b.rs[k] IN
              IF ~Fault(a) THEN (IF r.rs[k].details THEN "a result has details of the server" ELSE "")
              ELSE IF ~C.gw.debug /\ r.rs[k].details THEN "a fault has details of the server"
              ELSE IF C.gw.debug /\ ~r.rs[k].details /\ ~Denied(o.xs[k], a) THEN "debugging gives no details"
              ELSE ""
  IN IF b.fatal \/ r.status # 200 \/ Len(r.rs) # Len(o.xs) THEN ""
     ELSE IF r.leak /\ ~C.gw.debug THEN "a response contains a traceback"
     ELSE FirstWhy(Len(o.xs), W)

WhyOp(o, r) ==
  IF o.op \in {"add", "scalar", "rmname", "rmsvc"} THEN
    IF r.err # DoG(g, o).err THEN o.op \o ": '" \o r.err \o "' instead of '" \o DoG(g, o).err \o "'" ELSE ""
  ELSE IF o.op = "method" THEN
    IF r.ev # <<>> THEN "a request that is refused ran code"
    ELSE IF C.gw.kind = "django" /\ r.allow # "POST" THEN "the method to use is not named"
    ELSE IF C.gw.kind = "wsgi" /\ ~r.names THEN "the method to use is not named"
    ELSE WhyHttp(o, r, IF C.gw.kind = "django" THEN {405} ELSE {400})
  ELSE IF o.op = "broken" THEN
    IF r.ev # <<>> THEN "a request that cannot be read ran code"
    ELSE WhyHttp(o, r, IF o.how = "utf8" THEN {400, 500} ELSE {400})
  ELSE LET w == WhyBatch(o, r) IN
       IF w # "" THEN w
       ELSE IF What # "C13" THEN ""
       ELSE LET w2 == WhyHttp(o, r, IF Batch(g, o.hd, o.xs).fatal THEN {500} ELSE {200}) IN
            IF w2 # "" THEN w2 ELSE WhyDetails(o, r)

Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ why = ""
        /\ g = New(Cases[c].gw.auth, Cases[c].gw.pre, Cases[c].gw.exp)
Do == /\ i < Len(C.ops) /\ why = ""
      /\ i' = i + 1 /\ why' = WhyOp(E(i + 1), R(i + 1)) /\ g' = DoG(g, E(i + 1)).g /\ UNCHANGED c
Judge == /\ (i = Len(C.ops) \/ why # "") /\ i < 1000000
         /\ PrintT("V " \o ToString(C.id) \o " " \o (IF why = "" THEN "ok" ELSE "FAIL operation " \o ToString(i) \o ": " \o why))
         /\ i' = 1000000 /\ UNCHANGED <<c, g, why>>
Next == Do \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
