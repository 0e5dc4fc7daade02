----------------------------- MODULE TypesCheck -----------------------------
(* res[i]: what operation i gave: a name, or [inp |-> bytes, err |-> error]   *)
EXTENDS Types, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, i, tm, why
vars == <<c, i, tm, why>>
C == Cases[c]
Mode(v) == IF v = 0 THEN "enc0" ELSE "enc3"
WhyEnc(o, r) ==
  LET x == Expand(tm, o.nd, o.vals)
      E == Errors(x[1], x[2])
      m == Run(Start(IF o.v = 3 THEN 3 ELSE 0), r.inp, 1) IN
  IF E # {} THEN IF r.err \in E THEN "" ELSE "expected a refusal but got '" \o r.err \o "'"
  ELSE IF r.err # "" THEN "encoding failed with " \o r.err
  ELSE IF m[1].err # "" THEN "the encoding is not valid (" \o m[1].err \o ")"
  ELSE IF m[2] # Len(r.inp) + 1 \/ ~AtTop(m[1]) THEN "the encoding is incomplete"
  ELSE SameGraph(Mode(o.v), m[1].nd, m[1].out, x[2], x[1])
Judge(o, r) ==
  IF o.op = "encode" THEN <<tm, WhyEnc(o, r)>>
  ELSE LET d == CASE o.op = "add" -> Add(tm, o.key, o.conv)
                  [] o.op = "get" -> Get(tm, o.key)
                  [] o.op = "remove" -> Remove(tm, o.key)
       IN <<d[1], IF r = d[2] THEN "" ELSE "expected " \o d[2] \o " but got " \o r>>
Init == c \in 1..Len(Cases) /\ i = 0 /\ tm = <<>> /\ why = ""
Do == /\ i < Len(C.ops) /\ why = ""
      /\ LET o == C.ops[i + 1]
             r == Judge(o, C.res[i + 1]) IN
         /\ tm' = r[1]
         /\ why' = (IF r[2] = "" THEN "" ELSE r[2] \o " (operation " \o ToString(i + 1) \o ", " \o o.op \o ")")
      /\ i' = i + 1 /\ UNCHANGED c
End == /\ i <= Len(C.ops) /\ (i = Len(C.ops) \/ why # "")
       /\ PrintT("V " \o ToString(C.id) \o " " \o (IF why = "" THEN "ok" ELSE "FAIL " \o why))
       /\ i' = Len(C.ops) + 1 /\ UNCHANGED <<c, tm, why>>
Next == Do \/ End
Spec == Init /\ [][Next]_vars
=============================================================================
