------------------------------ MODULE SolCheck -----------------------------
(* mode "dec": inp and strict were given; name, names, out, nd and err were *)
(* observed.  mode "enc": name, v, strict and out (name, value, ...) with   *)
(* nd were given, inp and err were observed, and for files: old (what was   *)
(* there before), new (what is there afterwards)                            *)
EXTENDS Sol, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, f, ph
vars == <<c, f, ph>>
C == Cases[c]
Perm(A, B) == Len(A) = Len(B) /\ {A[i] : i \in DOMAIN A} = {B[i] : i \in DOMAIN B}
Pos(q, x) == CHOOSE i \in DOMAIN q : q[i] = x /\ \A j \in DOMAIN q : q[j] = x => j <= i
Distinct(q) == Cardinality({q[i] : i \in DOMAIN q}) = Len(q)
JudgeDec ==
  IF f.err = "any" THEN ""
  ELSE IF f.err = "version" THEN (IF C.err = "" THEN "a file of another version was read" ELSE "")
  ELSE IF f.err \in {"io", "dec"} THEN (IF C.err \in {"io", "dec", "eos"} THEN "" ELSE "a malformed file was not refused: " \o C.err)
  ELSE IF f.err # "" THEN (IF C.err # "" THEN "" ELSE "a malformed file was read")
  ELSE IF C.err # "" THEN "reading a file failed with " \o C.err
  ELSE IF C.name # f.name THEN "the object has another name"
  ELSE LET ns == NamesOf(f.m) IN
       IF {C.names[i] : i \in DOMAIN C.names} # {ns[i] : i \in DOMAIN ns} \/ ~Distinct(C.names) THEN "other values are there"
       ELSE LET vs == ValsOf(f.m) IN
            SameGraph(IF f.v = 3 THEN "dec3" ELSE "dec0", f.m.nd, [i \in DOMAIN C.names |-> vs[Pos(ns, C.names[i])]], C.nd, C.out)
IsBad(v) == v[1] = "bad"
HasBad == \/ \E i \in DOMAIN C.out : IsBad(C.out[i])
          \/ \E i \in DOMAIN C.nd : \/ \E k \in DOMAIN C.nd[i].d : IsBad(C.nd[i].d[k])
                                    \/ \E k \in DOMAIN C.nd[i].e : IsBad(C.nd[i].e[k][2])
JudgeEnc ==
  IF HasBad THEN
    IF C.err # "enc" THEN "expected an encode error but got '" \o C.err \o "'"
    ELSE IF C.old # C.new THEN "a save that failed changed the file" ELSE ""
  ELSE IF Len(C.name) > 65535 \/ (C.v = 0 /\ \E i \in 1..(Len(C.out) \div 2) : Len(C.out[2 * i - 1][2]) > 65535) THEN
    (IF C.err = "" THEN "a name that is too long was saved" ELSE IF C.old # C.new THEN "a save that failed changed the file" ELSE "")
  ELSE IF C.err # "" THEN "saving failed with " \o C.err
  ELSE IF f.err # "" THEN "what was saved is not a valid file (" \o f.err \o ")"
  ELSE IF C.name # f.name THEN "saved with another name"
  ELSE IF C.v # f.v THEN "saved in another version"
  ELSE LET given == [i \in 1..(Len(C.out) \div 2) |-> C.out[2 * i - 1][2]]
           vals == [i \in 1..(Len(C.out) \div 2) |-> C.out[2 * i]]
           ns == NamesOf(f.m) IN
       IF ~Perm(ns, given) THEN "other names were saved"
       ELSE LET g == SameGraph(IF C.v = 3 THEN "enc3" ELSE "enc0", f.m.nd, ValsOf(f.m), C.nd, [i \in DOMAIN ns |-> vals[Pos(given, ns[i])]]) IN
            IF g # "" THEN g ELSE Compact(f.m)
Init == c \in 1..Len(Cases) /\ f = FileReader /\ ph = "go"
Read == ph = "go" /\ f.ph # "end" /\ f' = FileNext(f, C.inp, C.strict) /\ UNCHANGED <<c, ph>>
Judge == /\ ph = "go" /\ f.ph = "end"
         /\ LET v == IF C.mode = "dec" THEN JudgeDec ELSE JudgeEnc IN
            PrintT("V " \o ToString(C.id) \o " " \o (IF v = "" THEN "ok" ELSE "FAIL " \o v)
                   \o (IF C.mode = "dec" /\ f.err = "any" THEN " (open)" ELSE ""))
         /\ ph' = "end" /\ UNCHANGED <<c, f>>
Next == Read \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
