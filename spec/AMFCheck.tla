------------------------------ MODULE AMFCheck -----------------------------
(* Conformance of observed encodings and decodings with AMF.tla.  Each line *)
(* of the file of cases is one observation of the implementation:           *)
(*   inp: bytes; out, nd: the values and their heap on the Python side;     *)
(*   ends: where each value ended; err: how it stopped ("" if it did not)   *)
(*   mode "dec*": inp was given and out, nd, ends, err were observed        *)
(*   mode "enc*": out, nd were given and inp, ends, err were observed       *)
(* The machine reads inp token by token; where it stops, the observation is *)
(* judged and the verdict printed.                                          *)
EXTENDS AMF, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
N == Len(Cases)

VARIABLES c, m, p, ends, ph
vars == <<c, m, p, ends, ph>>

C == Cases[c]
Init == /\ c \in 1..N
        /\ m = Start(Cases[c].v) /\ p = 1 /\ ends = <<>> /\ ph = "go"

Tk == Lex(m, C.inp, p)
Stuck == m.err # "" \/ Tk[1].t = "more"

Read == /\ ph = "go" /\ ~Stuck
        /\ LET t == Tk
               mm == Step(m, t[1])
           IN /\ m' = mm /\ p' = t[2]
              /\ ends' = IF Len(mm.out) > Len(m.out) THEN Append(ends, t[2] - 1) ELSE ends
        /\ UNCHANGED <<c, ph>>

\* ------------------------------------------------------------- judgement
Whole == AtTop(m) /\ p = Len(C.inp) + 1

\* how a reader of inp has to stop
StopsWith == IF m.err # "" THEN m.err ELSE IF Whole THEN "eos" ELSE "io"

\* the stream was handed to the decoder piece by piece: <<bytes handed over,
\* values delivered, position, how it stopped>> after each piece
FeedOk == \A i \in DOMAIN C.feed :
  LET f == C.feed[i]
      k == Cardinality({x \in DOMAIN ends : ends[x] <= f[1]})
      at == IF k = 0 THEN 0 ELSE ends[k]
  IN f[2] = k /\ f[3] = at /\ f[4] = (IF at = f[1] THEN "eos" ELSE "io")

JudgeDec ==
  LET k == Len(m.out)
      pre == SubSeq(C.out, 1, k)
      g == SameGraph(C.mode, m.nd, m.out, C.nd, pre)
  IN
  IF Len(C.out) < k THEN "stopped (" \o C.err \o ") before all complete values were delivered"
  ELSE IF StopsWith # "any" /\ Len(C.out) > k THEN "a value was made up"
  ELSE IF g # "" THEN g
  ELSE IF SubSeq(C.ends, 1, k) # ends THEN "the wrong number of bytes was consumed"
  ELSE IF StopsWith # "any" /\ C.err # StopsWith
       THEN "expected to stop with " \o StopsWith \o " but got " \o C.err
  ELSE IF "feed" \in DOMAIN C /\ StopsWith = "eos" /\ ~FeedOk
       THEN "handing over the stream piece by piece gave other values, or at other points"
  ELSE ""

RECURSIVE Reach(_, _, _)
Reach(nd, todo, seen) ==
  IF todo \subseteq seen THEN seen
  ELSE LET new == todo \ seen
           Vals(n) == {n.d[i] : i \in DOMAIN n.d} \cup {n.e[i][2] : i \in DOMAIN n.e}
           nx == UNION {{v[2] : v \in {w \in Vals(nd[i]) : w[1] = "ref"}} : i \in new}
       IN Reach(nd, nx, seen \cup new)
\* names that the format has no place for: empty ones in AMF3, long ones in
\* AMF0 (what lies behind a collection or proxy is AMF3)
Key(e) == IF e[1][1] = "k" THEN e[1][2] ELSE <<48>>
BadName(n) == n.k \in {"obj", "mixed"} /\
  \E i \in DOMAIN n.e : IF C.mode = "enc3" THEN Key(n.e[i]) = <<>> ELSE Len(Key(n.e[i])) > 65535
Reach0 ==
  LET roots == {C.out[i][2] : i \in {k \in DOMAIN C.out : C.out[k][1] = "ref"}}
      cutnd == [i \in DOMAIN C.nd |-> IF C.mode = "enc0" /\ C.nd[i].k \in {"ext", "ba"}
                                      THEN [C.nd[i] EXCEPT !.e = <<>>, !.d = <<>>] ELSE C.nd[i]]
  IN Reach(cutnd, roots, {})
HasBadName == \E i \in Reach0 : BadName(C.nd[i])

HasBad ==
  LET roots == {C.out[i][2] : i \in {k \in DOMAIN C.out : C.out[k][1] = "ref"}}
      R == Reach(C.nd, roots, {})
  IN \/ \E i \in DOMAIN C.out : C.out[i][1] = "bad"
     \/ \E i \in R : \/ \E k \in DOMAIN C.nd[i].d : C.nd[i].d[k][1] = "bad"
                     \/ \E k \in DOMAIN C.nd[i].e : C.nd[i].e[k][2][1] = "bad"
     \/ HasBadName

\* everything was to be written behind the AMF3 marker
Has(f) == f \in DOMAIN C
All3Ok == \A i \in DOMAIN ends : C.inp[1 + (IF i = 1 THEN 0 ELSE ends[i - 1])] = 17

JudgeEnc ==
  IF HasBad THEN IF C.err = "enc" THEN "" ELSE "expected an encode error but got '" \o C.err \o "'"
  ELSE IF C.err # "" THEN "encoding failed with " \o C.err
  ELSE IF m.err # "" THEN "the encoding is not valid (" \o m.err \o ")"
  ELSE IF ~Whole THEN "the encoding is incomplete"
  ELSE LET g == SameGraph(C.mode, m.nd, m.out, C.nd, C.out) IN
  IF g # "" THEN g
  ELSE IF C.ends # ends THEN "the pieces of the encoding do not match the values"
  ELSE IF Has("all3") /\ C.all3 /\ ~All3Ok THEN "a value is not written as AMF3"
  ELSE Compact(m)

Verdict == IF IsEnc(C.mode) THEN JudgeEnc ELSE JudgeDec

Judge == /\ ph = "go" /\ Stuck
         /\ LET v == Verdict IN
            PrintT("V " \o ToString(C.id) \o " " \o (IF v = "" THEN "ok" ELSE "FAIL " \o v)
                   \o (IF m.err = "any" THEN " (open)" ELSE ""))
         /\ ph' = "end" /\ UNCHANGED <<c, m, p, ends>>
Next == Read \/ Judge
Spec == Init /\ [][Next]_vars

WellFormed == TypeOK(m)
=============================================================================
