---------------------------- MODULE ImportsCheck ----------------------------
(* Are the events of an execution those of the machine?  ev: the events      *)
(* recorded.  A hook for a module that is just being loaded may run at once  *)
(* or when it is loaded.                                                     *)
EXTENDS Imports, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, s, why
vars == <<c, s, why>>
C == Cases[c]
Follows == LET n == Len(s.ev) IN n < Len(C.ev) /\ C.ev[n + 1][1] = "hook"
Where(i) == "event " \o ToString(i) \o ": expected " \o ToString(s.ev[i]) \o " but got "
            \o (IF i > Len(C.ev) THEN "nothing" ELSE ToString(C.ev[i]))
            \o (IF s.pend[10] # <<>> THEN " (a hook waits for the missing ip.ib)" ELSE "")
Bad == IF s.ev = <<>> THEN "" ELSE LET n == Len(s.ev) IN IF n > Len(C.ev) \/ C.ev[n] # s.ev[n] THEN Where(n) ELSE ""
Init == c \in 1..Len(Cases) /\ s = Init0 /\ why = "run"
Exec == /\ why = "run" /\ Bad = "" /\ ~Over(s)
        /\ s' = StepI(C.p, s, Follows) /\ UNCHANGED <<c, why>>
End == /\ why = "run" /\ (Bad # "" \/ Over(s))
       /\ why' = (IF Bad # "" THEN Bad ELSE IF Len(C.ev) > Len(s.ev) THEN "unexpected " \o ToString(C.ev[Len(s.ev) + 1]) ELSE "")
       /\ PrintT("V " \o ToString(C.id) \o " " \o (IF why' = "" THEN "ok" ELSE "FAIL " \o why'))
       /\ UNCHANGED <<c, s>>
Next == Exec \/ End
Spec == Init /\ [][Next]_vars
PropOnce == Once(s) /\ OnlyRegistered(s) /\ NothingWaits(s) /\ Accounted(s)
=============================================================================
