----------------------------- MODULE ClientCheck ----------------------------
(* set and ops were given; res says what was observed: err, text, val (of a *)
(* call), all (of an execution), req (what the server got; n: how often)    *)
EXTENDS Client, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, s, i, why
vars == <<c, s, i, why>>
C == Cases[c]
\* records of JSON: maps are given as sequences of pairs
SameMap(f, q) == Len(q) = Cardinality(DOMAIN f) /\ \A k \in DOMAIN f : \E j \in DOMAIN q : q[j].name = k /\ q[j].val = f[k]
SameHeads(f, q) == Len(q) = Cardinality(DOMAIN f) /\ \A k \in DOMAIN f : \E j \in DOMAIN q : q[j].name = k /\ q[j].val = f[k].val /\ q[j].req = f[k].req
WhyReq(e, r) ==
  IF ~e.sent THEN (IF r.n # 0 THEN "something was sent" ELSE "")
  ELSE IF r.n # 1 THEN "a request was sent " \o ToString(r.n) \o " times"
  ELSE IF r.url # e.url THEN "sent to " \o r.url \o " instead of " \o e.url
  ELSE IF r.proxied # e.proxied THEN "the proxy is ignored"
  ELSE IF r.v # e.v THEN "sent in another version"
  ELSE IF ~SameHeads(e.heads, r.heads) THEN "other headers were sent"
  ELSE IF r.bodies # e.bodies THEN "other requests were sent"
  ELSE IF r.ctype # e.ctype \/ (e.ua # "" /\ r.ua # e.ua) \/ (e.ua = "" /\ r.ua = "") \/ r.ref # e.ref THEN "other HTTP headers were sent"
  ELSE IF ~SameMap(e.http, r.http) THEN "other HTTP headers were sent" ELSE ""
WhyErr(e, x) == IF e = "any" THEN (IF x = "" THEN "no error was reported" ELSE "")
                ELSE IF e # x THEN "'" \o x \o "' instead of '" \o e \o "'" ELSE ""
\* what an execution shows for an answer
Shows(a) == CASE a[1] = "missing" -> a [] OTHER -> a
WhyOp(o, r) ==
  LET d == DoC(s, o) IN
  LET w1 == WhyReq(d.req, r.req)  w2 == WhyErr(d.err, r.err) IN
  IF w1 # "" THEN w1 ELSE IF w2 # "" THEN w2
  ELSE IF o.op = "call" /\ o.rp.kind = "ok" THEN
    LET x == OfCall(s.errs, o.rp.ans[1]) IN
    IF x.err = "" /\ r.val # x.val THEN "a call got another result"
    ELSE IF x.err # "" /\ x.text # "any" /\ r.text # x.text THEN "a fault has another text" ELSE ""
  ELSE IF o.op = "exec" /\ o.rp.kind = "ok" THEN
    IF Len(r.all) # Len(s.q) \/ \E j \in DOMAIN s.q : r.all[j] # Shows(o.rp.ans[j]) THEN "a request got another answer"
    ELSE IF \E j \in DOMAIN s.q : r.told[j] # OfWait(s.errs, o.rp.ans[j]) THEN "a request that waited has another result" ELSE ""
  ELSE ""
Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ why = ""
        /\ s = NewClient(Cases[c].set.v, Cases[c].set.ua, Cases[c].set.ref, Cases[c].set.url)
Do == /\ i < Len(C.ops) /\ why = ""
      /\ i' = i + 1 /\ why' = WhyOp(C.ops[i + 1], C.res[i + 1]) /\ s' = DoC(s, C.ops[i + 1]).s /\ UNCHANGED c
Judge == /\ (i = Len(C.ops) \/ why # "") /\ i < 1000000
         /\ PrintT("V " \o ToString(C.id) \o " " \o (IF why = "" THEN "ok" ELSE "FAIL operation " \o ToString(i) \o ": " \o why))
         /\ i' = 1000000 /\ UNCHANGED <<c, s, why>>
Next == Do \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
