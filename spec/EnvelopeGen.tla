---------------------------- MODULE EnvelopeGen ----------------------------
(* Envelopes: histories of building one (Mode "build"), or bytes, possibly  *)
(* broken (Mode "wire").  POOL is a file of values with their bytes         *)
(* (one value each; from AMFGen), ARGS one of argument lists, LISTS one of  *)
(* AMF3 lists.                                                              *)
EXTENDS Envelope, Json, IOUtils
CONSTANTS Mode, NVals     \* how many values there are to build with

Tapes == ndJsonDeserialize(IOEnv.TAPES)
Pool == IF Mode = "wire" THEN ndJsonDeserialize(IOEnv.POOL) ELSE <<>>
Args == IF Mode = "wire" THEN ndJsonDeserialize(IOEnv.ARGS) ELSE <<>>
Lists == IF Mode = "wire" THEN ndJsonDeserialize(IOEnv.LISTS) ELSE <<>>

VARIABLES c, j, b, hist, bs, ph
vars == <<c, j, b, hist, bs, ph>>
T(k) == Tapes[c][1 + (k % Len(Tapes[c]))]
Pick(q, r) == q[1 + (r % Len(q))]

Names == << <<97>>, <<98>>, <<67,114,101,100>>, <<>>, <<195,169>>, <<226,130,172>>, <<97,98>>, <<110,117,108,108>>,
            [i \in 1..300 |-> 110] >>
Ids == << <<47,49>>, <<47,50>>, <<47,51>>, <<>>, <<195,169>>, <<110,117,108,108>>, <<47,49,48>>, <<120>>,
          <<47,49>> \o Suffix[2], Suffix[1], <<49>> \o Suffix[1] \o <<47>> >>
Targets == << <<97,46,98>>, <<115>>, <<195,169,46,120>>, <<>>, Suffix[1] \o <<88>>, <<110,117,108,108>>,
              <<111,110,82,101,115,117,108,116>>, [i \in 1..260 |-> 116] >>
\* names at the limit of their length
Limit(r) == LET n == Pick(<<65535, 65536, 65525, 65526, 65521, 65522, 65300>>, r) IN TLCEval([i \in 1..n |-> 110])
Val(r) == 1 + (r % NVals)
VAL(k) == Val(T(k))

\* ---------------------------------------------------------------- building
Op(k) ==
  LET a == T(k) % 10 IN
  IF a < 3 THEN [op |-> "head", name |-> Pick(Names, T(k + 1)), val |-> VAL(k + 2)]
  ELSE IF a < 5 THEN [op |-> "req", name |-> Pick(Names, T(k + 1)), on |-> (T(k + 2) % 3) # 0]
  ELSE LET kind == Pick(<<"req", "req", "res", "fault">>, T(k + 1))
           n == T(k + 2) % 5
       IN [op |-> "body", id |-> Pick(Ids, T(k + 3)), kind |-> kind,
           target |-> IF kind = "req" THEN Pick(Targets, T(k + 4)) ELSE <<>>,
           status |-> IF kind = "req" THEN 0 ELSE IF kind = "fault" THEN 1 ELSE (T(k + 4) % 3),
           vals |-> [i \in 1..(IF kind = "req" THEN n ELSE IF kind = "fault" THEN 4 ELSE 1) |-> VAL(k + 4 + i)]]
NOps == T(0) % 9
Grow == /\ Mode = "build" /\ ph = "go" /\ Len(hist) < NOps
        /\ LET o1 == Op(10 * Len(hist) + 1)
               far == (T(7) % 24) = 0 /\ Len(hist) = T(8) % 4
               o == IF ~far THEN o1
                    ELSE IF o1.op = "body" THEN (IF (T(9) % 2) = 0 \/ o1.kind # "req" THEN [o1 EXCEPT !.id = Limit(T(11))] ELSE [o1 EXCEPT !.target = Limit(T(11))])
                    ELSE [o1 EXCEPT !.name = Limit(T(11))]
           IN b' = Build(b, o) /\ hist' = Append(hist, o)
        /\ UNCHANGED <<c, j, bs, ph>>
Emit == /\ Mode = "build" /\ ph = "go" /\ Len(hist) >= NOps
        /\ PrintT(ToJson([id |-> c, v |-> b.v, ops |-> hist]))
        /\ ph' = "end" /\ UNCHANGED <<c, j, b, hist, bs>>
\* names and ids stay distinct, a header keeps its flag when it is set again
Distinct == (T(7) % 24) = 0 \/
            /\ \A x, y \in DOMAIN b.hs : b.hs[x].name = b.hs[y].name => x = y
            /\ \A x, y \in DOMAIN b.bs : b.bs[x].id = b.bs[y].id => x = y

\* ------------------------------------------------------------------- bytes
\* what is wrong with the stream: 0 nothing
Flaw == T(1) % 16
Header(k) == [name |-> Pick(Names, T(k))]
Body(k) == LET kind == Pick(<<"req", "req", "res">>, T(k)) IN
  [id |-> Pick(Ids, T(k + 1)), kind |-> kind, target |-> Pick(Targets, T(k + 2)), status |-> (T(k + 2) % 3)]
\* stated lengths: exact, or unknown
Length(n, r) == IF Strict THEN (IF Flaw = 1 /\ (r % 3) = 0 THEN Pick(<<U32(n + 1 + (r % 5)), U32(0), U32(n - 1), <<255,255,255,255>>, U32(n + 256)>>, r \div 3) ELSE U32(n))
                ELSE Pick(<<U32(n), U32(0), <<255,255,255,255>>, U32(n + 1)>>, r)
ArgsOf(k, v) ==
  IF v = 3 /\ (T(k) % 3) = 0 THEN <<17>> \o Pick(Lists, T(k + 1)).inp
  ELSE IF (Flaw = 2 /\ (T(k) % 3) = 1) THEN Pick(Pool, T(k + 1)).inp       \* not an array
  ELSE IF (Flaw = 3 /\ v # 3 /\ (T(k) % 3) = 1) THEN <<17>> \o Pick(Lists, T(k + 1)).inp
  ELSE LET a == Pick(Args, T(k + 1)) IN <<10>> \o U32(Len(a.out)) \o a.inp
NH == T(2) % 4
NB == T(3) % 5
Version == IF Flaw = 4 THEN Pick(<<10, 17, 256, 1024>>, T(4)) ELSE Pick(<<0, 3, 0, 3, 0, 3, 1, 9>>, T(4))
Cut == IF Flaw \in {5, 6} THEN 1 + (T(5) % (Len(bs) + 1)) ELSE 0
\* one part after the other
Wire == /\ Mode = "wire" /\ ph = "go" /\ j <= NH + NB
        /\ LET k == 10 + 8 * j IN
           bs' = bs \o (IF j = 0 THEN U16(Version) \o U16(NH)
             ELSE IF j <= NH THEN LET d == Pick(Pool, T(k + 2)).inp IN HeaderBytes(Header(k), Pick(<<0, 1, 0, 1, 2, 255>>, T(k + 1)), d, Length(Len(d), T(k + 3)))
             ELSE LET x == Body(k)
                      d == IF x.kind = "req" THEN ArgsOf(k + 3, Version) ELSE Pick(Pool, T(k + 4)).inp
                  IN BodyBytes(x, d, Length(Len(d), T(k + 6))))
             \o (IF j = NH THEN U16(IF Flaw = 7 THEN Pick(<<NB + 1, 32768 + NB, 65535>>, T(6)) ELSE NB) ELSE <<>>)
             \o (IF j = NH + NB /\ Flaw = 8 THEN <<0>> ELSE <<>>)
        /\ j' = j + 1
        /\ UNCHANGED <<c, b, hist, ph>>
EmitWire == /\ Mode = "wire" /\ ph = "go" /\ j > NH + NB
            /\ PrintT(ToJson([id |-> c, flaw |-> Flaw, inp |-> IF Cut = 0 THEN bs ELSE SubSeq(bs, 1, Cut - 1)]))
            /\ ph' = "end" /\ UNCHANGED <<c, j, b, hist, bs>>
Init == c \in 1..Len(Tapes) /\ j = 0 /\ b = NewEnv(IF (Tapes[c][10] % 2) = 0 THEN 0 ELSE 3) /\ hist = <<>> /\ bs = <<>> /\ ph = "go"
Next == Grow \/ Emit \/ Wire \/ EmitWire
Spec == Init /\ [][Next]_vars
\* a stream without flaws is read to its end, and nothing that is cut is read
ReadsBack == (Mode = "wire" /\ ph = "end") =>
  LET e == ReadAll(Reader, bs)
      d == ReadAll(Reader, SubSeq(bs, 1, Cut - 1)) IN
  /\ (Flaw \in {0, 5, 6, 9, 10, 11, 12, 13, 14, 15}) =>
       \/ e.err \in {"any", "unk"}
       \/ e.err = "" /\ e.p = Len(bs) + 1 /\ Len(e.hs) = NH /\ Len(e.bs) = NB
  /\ (Flaw \in {5, 6} /\ Cut <= Len(bs)) => d.err # ""
  /\ (Flaw \in {4, 7}) => e.err # ""
=============================================================================
