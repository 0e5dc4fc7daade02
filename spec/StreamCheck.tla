---------------------------- MODULE StreamCheck ----------------------------
(* A case is a history with what was observed after each operation:         *)
(*   err, r  how the operation failed and what it returned                  *)
(*   b, p    content and cursor afterwards                                  *)
(* and tails: operations each executed in the state at the end of it.       *)
EXTENDS Stream, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, s, bad
vars == <<c, k, s, bad>>
C == Cases[c]

Float(o) == o.op = "r" /\ o.t \in {"float", "double"}
NaN4(b) == Len(b) = 4 /\ (b[1] % 128) = 127 /\ b[2] >= 128 /\ (b[2] > 128 \/ b[3] # 0 \/ b[4] # 0)
SameRet(o, x, y) == x = y \/ (Float(o) /\ o.t = "double" /\ Len(x) = 8 /\ Len(y) = 8 /\ DSame(x, y))
                          \/ (Float(o) /\ NaN4(x) /\ NaN4(y))
Why(st, o) ==
  LET d == Do(st, o) IN
  IF o.err # d.err THEN o.op \o ": expected '" \o d.err \o "' but got '" \o o.err \o "'"
  ELSE IF o.p # d.s.p THEN o.op \o ": the cursor is elsewhere"
  ELSE IF o.b # d.s.b THEN o.op \o ": the content is another"
  ELSE IF ~SameRet(o, o.r, d.r) THEN o.op \o ": returned something else"
  ELSE ""
Init == c \in 1..Len(Cases) /\ k = 1 /\ bad = "" /\ s = St(Cases[c].begin.d, 0, FALSE)
Step == /\ bad = "" /\ k <= Len(C.ops)
        /\ bad' = Why(s, C.ops[k])
        /\ s' = Do(s, C.ops[k]).s /\ k' = k + 1 /\ UNCHANGED c
FirstBad == LET B == {i \in DOMAIN C.tails : Why(s, C.tails[i]) # ""} IN
            IF B = {} THEN "" ELSE Why(s, C.tails[CHOOSE i \in B : \A j \in B : i <= j])
Judge == /\ bad # "end" /\ (bad # "" \/ k > Len(C.ops))
         /\ LET v == IF bad # "" THEN bad ELSE IF C.bad # "" THEN C.bad ELSE FirstBad IN
            PrintT("V " \o ToString(C.id) \o " " \o (IF v = "" THEN "ok" ELSE "FAIL " \o v))
         /\ bad' = "end" /\ UNCHANGED <<c, k, s>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
