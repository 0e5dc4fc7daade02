--------------------------- MODULE RegistryCheck ---------------------------
(* Observed for each operation: err, ret, and used, the loaders asked       *)
EXTENDS Registry, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, r, bad
vars == <<c, k, r, bad>>
C == Cases[c]
SetOf(s) == {s[i] : i \in DOMAIN s}
Why(st, o) ==
  LET d == Do(st, o) IN
  IF o.err # d.err THEN o.op \o ": expected '" \o d.err \o "' but got '" \o o.err \o "'"
  ELSE IF o.op = "pack"
  THEN (IF SetOf(o.ret) = {<<x, PackAlias(o, x), Type(st, x)>> : x \in Taken(o)} THEN "" ELSE "pack: other classes were registered")
  ELSE IF o.ret # d.ret THEN o.op \o ": something else was found"
  ELSE IF Len(o.used) # Cardinality(SetOf(o.used)) THEN "a class loader was asked twice"
  ELSE IF ~UsedOk(st, o, SetOf(o.used)) THEN "the wrong class loaders were asked"
  ELSE ""
Init == c \in 1..Len(Cases) /\ k = 1 /\ bad = "" /\ r = Start
Step == /\ bad = "" /\ k <= Len(C.ops)
        /\ bad' = Why(r, C.ops[k])
        /\ r' = Do(r, C.ops[k]).r /\ k' = k + 1 /\ UNCHANGED c
FirstBad == LET B == {i \in DOMAIN C.tails : Why(r, C.tails[i]) # ""} IN
            IF B = {} THEN "" ELSE Why(r, C.tails[CHOOSE i \in B : \A j \in B : i <= j])
Judge == /\ bad # "end" /\ (bad # "" \/ k > Len(C.ops))
         /\ LET v == IF bad # "" THEN bad ELSE FirstBad IN
            PrintT("V " \o ToString(C.id) \o " " \o (IF v = "" THEN "ok" ELSE "FAIL " \o v))
         /\ bad' = "end" /\ UNCHANGED <<c, k, r>>
Next == Step \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
