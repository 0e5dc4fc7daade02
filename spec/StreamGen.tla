----------------------------- MODULE StreamGen -----------------------------
(* Histories of a byte stream.  Mode "tape": one for each line of random    *)
(* choices.  Mode "all": every operation of a small set in every state      *)
(* reachable with at most Max bytes of content, one history each; the way   *)
(* to the state is the shortest.                                            *)
EXTENDS Stream, Json, IOUtils

CONSTANTS Mode, Max, NOps
VARIABLES c, s, hist, ph
vars == <<c, s, hist, ph>>

Tapes == IF Mode = "tape" THEN ndJsonDeserialize(IOEnv.TAPES) ELSE <<>>

\* the limits of each type, and their neighbours
Limits(t) ==
  CASE t = "uchar" -> << <<0, 255>>, <<0, 256>>, <<0, 0>>, <<-1, 65535>> >>
    [] t = "char" -> << <<0, 127>>, <<0, 128>>, <<-1, 65408>>, <<-1, 65407>>, <<-1, 65535>> >>
    [] t = "ushort" -> << <<0, 65535>>, <<1, 0>>, <<0, 0>>, <<-1, 65535>> >>
    [] t = "short" -> << <<0, 32767>>, <<0, 32768>>, <<-1, 32768>>, <<-1, 32767>>, <<-1, 65535>> >>
    [] t = "uint24" -> << <<255, 65535>>, <<256, 0>>, <<0, 0>>, <<-1, 65535>>, <<128, 0>> >>
    [] t = "int24" -> << <<127, 65535>>, <<128, 0>>, <<-128, 0>>, <<-129, 65535>>, <<-1, 65535>>, <<-128, 1>> >>
    [] t = "ulong" -> << <<65535, 65535>>, <<65536, 0>>, <<0, 0>>, <<-1, 65535>>, <<32768, 0>> >>
    [] OTHER -> << <<32767, 65535>>, <<32768, 0>>, <<-32768, 0>>, <<-32769, 65535>>, <<-1, 65535>> >>
\* --------------------------------------------------------- small operations
Ds == {<<>>, <<0>>, <<255>>, <<7, 128>>}
SmallOps ==
  {[op |-> "read", n |-> n] : n \in {-2, -1, 0, 1, 2, 3}}
  \cup {[op |-> "peek", n |-> n] : n \in {-2, -1, 0, 1, 2, 5}}
  \cup {[op |-> "write", d |-> d] : d \in Ds} \cup {[op |-> "append", d |-> d] : d \in Ds}
  \cup {[op |-> "seek", n |-> n, how |-> h] : n \in -4..4, h \in 0..2}
  \cup {[op |-> "trunc", n |-> n] : n \in {0, 1, 2, 5}}
  \cup {[op |-> x] : x \in {"consume", "len", "eof", "remaining"}}
  \cup {[op |-> "add", d |-> d, n |-> n] : d \in {<<>>, <<9, 9>>}, n \in {0, 1}}
  \cup {[op |-> "order", le |-> x] : x \in BOOLEAN}
  \cup {[op |-> "w", t |-> t, v |-> v] : t \in IntTypes, v \in {<<0, 1>>, <<-1, 65535>>, <<0, 200>>, <<70000, 0>>}}
  \cup (IF Len(s.b) = 0 THEN UNION {{[op |-> "w", t |-> t, v |-> Limits(t)[i]] : i \in DOMAIN Limits(t)} : t \in IntTypes} ELSE {})
  \cup {[op |-> "r", t |-> t] : t \in Types}
  \cup {[op |-> "odd", t |-> "ushort", k |-> 0], [op |-> "odd", t |-> "double", k |-> 1]}
Enabled == {o \in SmallOps : Allowed(s, o) /\ Len(Do(s, o).s.b) <= Max}
Seqs(S) == LET RECURSIVE F(_)
               F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE x \in T : TRUE IN <<x>> \o F(T \ {x})
           IN F(S)
Small == {o \in SmallOps : Allowed(s, o)}

\* -------------------------------------------------------- random operations
T(k) == Tapes[c][1 + (k % Len(Tapes[c]))]
Pick(q, r) == q[1 + (r % Len(q))]
RandBytes(r1, r2) == LET n == Pick(<<0, 1, 1, 2, 3, 4, 8>>, r1) IN
  [i \in 1..n |-> ((r2 \div Pow2(2 * i)) + i * (r1 \div 64)) % 256]
Texts == << <<>>, <<97>>, <<97, 98, 99>>, <<195, 169>>, <<226, 130, 172>>, <<240, 159, 152, 128>>, <<0, 97>> >>
Edges == <<0, 1, 127, 128, 129, 255, 256, 32767, 32768, 32769, 65535>>
RandInt(r1, r2) ==
  << Pick(<<0, 0, 0, 0, -1, -1, 1, 127, 128, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536>>, r1),
     IF (r2 % 4) = 0 THEN (r2 \div 8) % 65536 ELSE Pick(IF (r1 % 3) = 0 THEN Edges ELSE <<65535, 65408, 65407, 32768, 32767, 65280, 128, 255>>, r2 \div 4) >>
Doubles == << <<0,0,0,0,0,0,0,0>>, <<63,240,0,0,0,0,0,1>>, <<64,9,33,251,84,68,45,24>>, <<191,185,153,153,153,153,153,154>>,
              <<127,240,0,0,0,0,0,0>>, <<255,240,0,0,0,0,0,0>>, <<127,248,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,1>>,
              <<128,0,0,0,0,0,0,0>>, <<127,239,255,255,255,255,255,255>>, <<66,17,34,51,68,85,102,119>> >>
Floats == << <<0,0,0,0>>, <<63,128,0,1>>, <<191,192,0,0>>, <<127,128,0,0>>, <<255,128,0,0>>, <<127,192,0,0>>,
             <<64,73,15,219>>, <<65,17,34,51>>, <<128,0,0,0>>, <<0,128,0,0>> >>
TypeSeq == <<"uchar", "char", "ushort", "short", "uint24", "int24", "ulong", "long", "float", "double">>
RandOp(b) ==
  LET r1 == T(b)  r2 == T(b + 1)  r3 == T(b + 2)
      t == Pick(TypeSeq, r2)
      o == Pick(<<"read", "read", "peek", "write", "write", "wutf8", "rutf8", "append", "seek", "seek", "seek",
                  "trunc", "consume", "len", "len", "eof", "remaining", "add", "order", "w", "w", "w", "w", "r", "r", "r", "r", "odd">>, r1)
  IN
  CASE o = "read" -> [op |-> o, n |-> Pick(<<-2, -1, 0, 1, 2, 3, 4, 100, 65536>>, r2)]
    [] o = "peek" -> [op |-> o, n |-> Pick(<<-2, -1, 0, 1, 2, 3, 100>>, r2)]
    [] o \in {"write", "append"} -> [op |-> o, d |-> RandBytes(r2, r3), n |-> (r1 \div 64) % 4]
    [] o = "wutf8" -> [op |-> o, d |-> Pick(Texts, r2), n |-> (r1 \div 64) % 4]
    [] o = "rutf8" -> [op |-> o, n |-> Pick(<<0, 1, 2, 3, 4, 50>>, r2)]
    [] o = "seek" -> LET h == (r3 % 3)
                         at == IF Len(s.b) = 0 THEN 0 ELSE (r2 % (1 + Len(s.b)))
                     IN [op |-> o, how |-> h, n |-> at - Target(s, 0, h)]
    [] o = "trunc" -> [op |-> o, n |-> IF (r2 % 3) = 0 THEN 0 ELSE (r3 % (3 + Len(s.b)))]
    [] o \in {"consume", "len", "eof", "remaining"} -> [op |-> o]
    [] o = "add" -> LET d == RandBytes(r2, r3) IN [op |-> o, d |-> d, n |-> (r2 \div 8) % (1 + Len(d))]
    [] o = "order" -> [op |-> o, le |-> (r2 % 2) = 0, n |-> (r3 % 2)]
    [] o = "w" -> [op |-> o, t |-> t, v |-> CASE t = "double" -> Pick(Doubles, r3) [] t = "float" -> Pick(Floats, r3)
                                              [] OTHER -> IF (T(b + 3) % 3) = 0 THEN Pick(Limits(t), r3) ELSE RandInt(r3, T(b + 3))]
    [] o = "r" -> [op |-> o, t |-> t]
    [] o = "odd" -> [op |-> o, t |-> t, k |-> (r3 % 4)]
\* how the stream comes into being: its content and the kind of source
Begin == LET d == RandBytes(T(0), T(1)) \o RandBytes(T(2), T(3)) IN
         [d |-> d, how |-> (T(4) % 6), n |-> (T(5) % (1 + Len(d)))]

\* ---------------------------------------------------------------- behaviour
Init == \/ /\ Mode = "tape" /\ c \in 1..Len(Tapes)
           /\ s = St(Begin.d, 0, FALSE) /\ hist = <<>> /\ ph = "go"
        \/ /\ Mode = "all" /\ c = 0 /\ s = St(<<>>, 0, FALSE) /\ hist = <<>> /\ ph = "go"
Grow == /\ Mode = "tape" /\ ph = "go" /\ Len(hist) < NOps
        /\ LET o0 == RandOp(6 + 4 * Len(hist))
               o == IF Allowed(s, o0) THEN o0 ELSE [op |-> "seek", n |-> 0, how |-> 0]
           IN s' = Do(s, o).s /\ hist' = Append(hist, o)
        /\ UNCHANGED <<c, ph>>
Emit == /\ Mode = "tape" /\ ph = "go" /\ Len(hist) = NOps
        /\ PrintT(ToJson([id |-> c, begin |-> Begin, ops |-> hist, tails |-> <<>>]))
        /\ ph' = "end" /\ UNCHANGED <<c, s, hist>>
\* every operation in this state, and on to the next states
EmitAll == /\ Mode = "all" /\ ph = "go"
           /\ PrintT(ToJson([id |-> s, begin |-> [d |-> <<>>, how |-> 0, n |-> 0],
                             ops |-> hist, tails |-> Seqs(Small)]))
           /\ ph' = "out" /\ UNCHANGED <<c, s, hist>>
GrowAll == /\ Mode = "all" /\ ph = "out"
           /\ \E o \in Enabled : s' = Do(s, o).s /\ hist' = Append(hist, o)
           /\ ph' = "go" /\ UNCHANGED c
Next == Grow \/ Emit \/ EmitAll \/ GrowAll
Spec == Init /\ [][Next]_vars
View == IF Mode = "all" THEN <<s, ph>> ELSE <<c, hist, ph>>

Rules == \A o \in (IF Mode = "all" THEN Small ELSE IF hist = <<>> THEN {} ELSE {}) :
            FailureFree(s, o) /\ Pure(s, o) /\ InverseInt(s, o)
TapeRules == [][Mode = "tape" /\ hist' # hist =>
                 LET o == hist'[Len(hist')] IN FailureFree(s, o) /\ Pure(s, o) /\ InverseInt(s, o)]_vars
=============================================================================
