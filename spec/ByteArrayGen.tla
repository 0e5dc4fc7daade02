---------------------------- MODULE ByteArrayGen ---------------------------
EXTENDS ByteArray, Json, IOUtils
CONSTANTS NOps, NObj,
          Long      \* TRUE: long text is likely

Tapes == ndJsonDeserialize(IOEnv.TAPES)
\* n items have been written, the cursor is in front of item cur
VARIABLES c, n, cur, le, hist, ph
vars == <<c, n, cur, le, hist, ph>>

T(k) == Tapes[c][1 + (k % Len(Tapes[c]))]
Pick(q, r) == q[1 + (r % Len(q))]
Kinds == <<"bool", "byte", "ubyte", "short", "ushort", "int", "uint", "float", "double", "utf", "utfb", "multi", "obj", "obj",
           "byte", "ubyte", "short", "ushort", "int", "uint", "utf", "multi", "notbool">>
Edges == <<0, 1, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65535>>
RandInt(r1, r2) ==
  << Pick(<<0, 0, 0, 0, -1, -1, 1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536>>, r1),
     IF (r2 % 4) = 0 THEN (r2 \div 8) % 65536 ELSE Pick(IF (r1 % 3) = 0 THEN Edges ELSE <<65535, 65408, 65407, 32768, 32767, 65280, 128, 255>>, r2 \div 4) >>
Doubles == << <<0,0,0,0,0,0,0,0>>, <<63,240,0,0,0,0,0,1>>, <<64,9,33,251,84,68,45,24>>, <<191,185,153,153,153,153,153,154>>,
              <<127,240,0,0,0,0,0,0>>, <<255,240,0,0,0,0,0,0>>, <<127,248,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,1>>,
              <<128,0,0,0,0,0,0,0>>, <<127,239,255,255,255,255,255,255>> >>
Floats == << <<0,0,0,0>>, <<63,128,0,1>>, <<191,192,0,0>>, <<127,128,0,0>>, <<255,128,0,0>>, <<127,192,0,0>>,
             <<64,73,15,219>>, <<128,0,0,0>>, <<0,128,0,0>> >>
Texts == << <<>>, <<97>>, <<97, 98, 99>>, <<233>>, <<8364>>, <<128512>>, <<0, 97>>, <<233, 97, 255>>, <<-1, 300, 233>>,
            <<65279, 98>>, <<27, 1055, 1056>> >>
LongTexts == << <<-1, 65535, 120>>, <<-1, 65536, 120>>, <<-1, 32768, 233>>, <<-1, 32767, 255>> >>
NewItem(b) ==
  LET k == Pick(Kinds, T(b))  r2 == T(b + 1)  r3 == T(b + 2)
      v == CASE k = "bool" -> (r2 % 2) = 0
             [] k = "float" -> Pick(Floats, r2)
             [] k = "double" -> Pick(Doubles, r2)
             [] k = "notbool" -> r2 % 4
             [] k \in {"utf", "utfb"} -> IF Long /\ (r3 % 2) = 0 THEN Pick(LongTexts, r2) ELSE Pick(Texts, r2)
             [] k = "multi" -> Pick(SelectSeq(Texts, LAMBDA x : ~Repeat(x) /\ x # <<65279, 98>>), r2)
             [] k = "obj" -> 1 + (r2 % NObj)
             [] OTHER -> RandInt(r2, r3)
  IN [k |-> k, v |-> v, cs |-> Pick(<<"latin-1", "utf-8", "utf-16-be", "ascii">>, r3 \div 8), how |-> (r3 % 2)]
Op(b) ==
  LET a == IF cur <= n THEN Pick(<<"read", "read", "read", "read", "seek", "end">>, T(b))
           ELSE IF n > 3 THEN Pick(<<"w", "w", "w", "w", "w", "w", "w", "order", "seek", "seek", "travel", "compress">>, T(b))
           ELSE Pick(<<"w", "w", "order">>, T(b))
  IN CASE a = "seek" -> [op |-> "seek", i |-> 1 + (T(b + 1) % (n + 1))]
       [] a = "end" -> [op |-> "seek", i |-> n + 1]
       [] a = "order" -> [op |-> "order", le |-> (T(b + 1) % 2) = 0]
       [] a = "w" -> [op |-> "w", x |-> NewItem(b + 1), le |-> le]
       [] a = "read" -> [op |-> "read", i |-> cur]
       [] a = "travel" -> [op |-> "travel", v |-> Pick(<<0, 3>>, T(b + 1))]
       [] a = "compress" -> [op |-> "compress"]
Init == c \in 1..Len(Tapes) /\ n = 0 /\ cur = 1 /\ le = FALSE /\ hist = <<>> /\ ph = "go"
Grow == /\ ph = "go" /\ Len(hist) < NOps
        /\ LET o == Op(5 * Len(hist)) IN
           /\ hist' = Append(hist, o)
           /\ n' = IF o.op = "w" /\ Refused(o.x) = "" THEN n + 1 ELSE n
           /\ cur' = CASE o.op = "w" -> n' + 1 [] o.op = "seek" -> o.i [] o.op = "read" -> cur + 1 [] OTHER -> cur
           /\ le' = IF o.op = "order" THEN o.le ELSE le
        /\ UNCHANGED <<c, ph>>
Emit == /\ ph = "go" /\ Len(hist) = NOps
        /\ PrintT(ToJson([id |-> c, ops |-> hist])) /\ ph' = "end" /\ UNCHANGED <<c, n, cur, le, hist>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars
\* numbers read back from their bytes are the numbers written
Rules == hist = <<>> \/ LET o == hist[Len(hist)] IN
  (o.op = "w" /\ o.x.k \in NumKinds /\ Refused(o.x) = "") =>
     ReadTyped(St(BytesOf(o.le, o.x), 0, o.le), TypeOf[o.x.k]).r = o.x.v
=============================================================================
