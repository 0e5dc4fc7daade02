------------------------------- MODULE NumGen ------------------------------
(* Histories: which encoder is given which number.                          *)
EXTENDS Num, Json, IOUtils

CONSTANT K            \* length of a history
Tapes == ndJsonDeserialize(IOEnv.TAPES)

VARIABLES c, h
vars == <<c, h>>
Pick(s, r) == s[1 + (r % Len(s))]

\* every power of two and its neighbours, of either sign
Bounds == LET P == [i \in 1..31 |-> IF i = 31 THEN 2147483647 ELSE Pow2(i)]
              D == <<-2, -1, 0, 1>>
          IN [i \in 1..(31 * 4 * 2) |->
               LET k == 1 + ((i - 1) \div 8)
                   n == P[k] + (IF k = 31 THEN -Abs(Pick(D, i)) ELSE Pick(D, i))
               IN IF ((i \div 4) % 2) = 0 THEN n ELSE -n]
Doubles == << <<63,240,0,0,0,0,0,1>>, <<64,9,33,251,84,68,45,24>>, <<191,185,153,153,153,153,153,154>>,
   <<127,240,0,0,0,0,0,0>>, <<255,240,0,0,0,0,0,0>>, <<127,248,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,1>>,
   <<128,0,0,0,0,0,0,0>>, <<0,0,0,0,0,0,0,0>>, <<127,239,255,255,255,255,255,255>>, <<0,15,255,255,255,255,255,255>>,
   <<128,0,0,0,0,0,0,1>>, <<67,63,255,255,255,255,255,255>>, <<126,55,228,60,136,0,117,156>>,
   <<0,16,0,0,0,0,0,0>>, <<63,185,153,153,153,153,153,154>>, <<63,211,51,51,51,51,51,51>>,
   <<192,94,221,47,26,159,190,119>>, <<65,239,255,255,255,224,0,0>> >>
\* integers that only a double can hold (as doubles)
BigInts == << <<65,224,0,0,0,0,0,0>>, <<193,224,0,0,0,0,0,0>>, <<65,240,0,0,0,0,0,0>>, <<67,64,0,0,0,0,0,0>>,
   <<195,64,0,0,0,0,0,0>>, <<67,63,255,255,255,255,255,255>>, <<67,224,0,0,0,0,0,0>>, <<195,224,0,0,0,0,0,0>>,
   <<67,240,0,0,0,0,0,0>>, <<68,1,2,3,4,5,6,7>>, <<65,239,255,255,255,224,0,0>>, <<84,0,0,0,0,0,0,0>> >>
RD(a, b) == << (a \div 65536) % 256, (a \div 256) % 256, a % 256, (a \div 16777216) % 64,
               (b \div 65536) % 256, (b \div 256) % 256, b % 256, (b \div 16777216) % 64 >>
RI(a, b) == LET n == (a % Pow2(1 + (b % 30))) IN IF ((b \div 64) % 2) = 0 THEN n ELSE -n

Number(r1, r2, r3) ==
  CASE (r1 % 16) < 6 -> [ty |-> Pick(<<"int", "int", "long">>, r3), v |-> <<"int", Pick(Bounds, r2)>>]
    [] (r1 % 16) < 8 -> [ty |-> Pick(<<"int", "long">>, r1 \div 16), v |-> <<"int", RI(r2, r3)>>]
    [] (r1 % 16) < 9 -> [ty |-> "bool", v |-> <<"int", r2 % 2>>]
    [] (r1 % 16) < 10 -> [ty |-> Pick(<<"int", "float", "long">>, r2), v |-> <<"int", r3 % 2>>]
    [] (r1 % 16) < 11 -> [ty |-> "float", v |-> <<"int", Pick(Bounds, r2)>>]
    [] (r1 % 16) < 13 -> [ty |-> "float", v |-> <<"num", Pick(Doubles, r2)>>]
    [] (r1 % 16) < 15 -> [ty |-> "long", v |-> <<"num", Pick(BigInts, r2)>>]
    [] OTHER -> [ty |-> "float", v |-> <<"num", RD(r2, r3)>>]

Init == c \in 1..Len(Tapes) /\ h = <<>>
Tape(k) == Tapes[c][1 + (k % Len(Tapes[c]))]
Next ==
  \/ /\ Len(h) < K
     /\ LET k == 4 * Len(h) IN
        h' = Append(h, [e |-> Tape(k) % 4, x |-> Number(Tape(k+1), Tape(k+2), Tape(k+3))])
     /\ UNCHANGED c
  \/ /\ Len(h) = K
     /\ PrintT(ToJson([id |-> c, h |-> h]))
     /\ h' = Append(h, [e |-> 0, x |-> [ty |-> "int", v |-> <<"int", 0>>]])
     /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
\* the layer below is consistent: what I29 writes, U29At reads
Inverse == \A i \in DOMAIN h : h[i].x.v[1] = "int" /\ IsI29(h[i].x.v[2]) =>
             LET b == I29(h[i].x.v[2])  u == U29At(b, 1) IN
             /\ ToI29(u[1]) = h[i].x.v[2] /\ u[2] = Len(b) + 1
             /\ \A k \in 1..3 : k < Len(b) => U29Pad(u[1], k) = b   \* no shorter form
=============================================================================
