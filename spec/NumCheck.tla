------------------------------ MODULE NumCheck -----------------------------
(* Observed: for every step of a history the bytes written (w) or the error *)
(* (err), and what reading each encoder's bytes back gives (back).          *)
EXTENDS Num, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, bad
vars == <<c, k, bad>>
P(e) == IF e < 2 THEN 3 ELSE 0
Init == c \in 1..Len(Cases) /\ k = 1 /\ bad = ""
Why(s) ==
  IF s.err # "" THEN "encoding a number failed with " \o s.err
  ELSE IF ~SameWire(s.w, Wire(P(s.e), s.x)) THEN "a number was not written in its canonical form"
  ELSE IF ~ReadsAs(P(s.e), s.x, s.back) THEN "a number was not read back"
  ELSE ""
Next ==
  \/ /\ bad = "" /\ k <= Len(Cases[c].h)
     /\ bad' = Why(Cases[c].h[k]) /\ k' = k + 1 /\ UNCHANGED c
  \/ /\ bad # "end" /\ (bad # "" \/ k > Len(Cases[c].h))
     /\ PrintT("V " \o ToString(Cases[c].id) \o " " \o (IF bad = "" THEN "ok" ELSE "FAIL " \o bad))
     /\ bad' = "end" /\ UNCHANGED <<c, k>>
Spec == Init /\ [][Next]_vars
=============================================================================
