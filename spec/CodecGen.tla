------------------------------ MODULE CodecGen -----------------------------
(* Histories of three encoders and two decoders.  POOL: messages on the     *)
(* wire of version V, some of them broken at their end.  Values to be encoded are numbers 1..NV of a graph    *)
(* that is chosen later; BadVals of them may not be encodable.              *)
EXTENDS Codec, Json, IOUtils
CONSTANTS V, NV, NOps, BadVal     \* BadVal: 0, or a value that cannot be encoded
Tapes == ndJsonDeserialize(IOEnv.TAPES)
Pool == ndJsonDeserialize(IOEnv.POOL)
NE == 3
ND == 2
VARIABLES c, enc, dec, left, hist, ph
vars == <<c, enc, dec, left, hist, ph>>
T(k) == Tapes[c][k]
Pick(q, r) == q[1 + (r % Len(q))]
Msg(r) == Pick(Pool, r).inp
Val(r) == 1 + (r % NV)
Item(r1, r2) == CASE (r1 % 8) = 0 -> <<>>
                  [] (r1 % 8) \in {1, 2} -> <<Val(r2), Val(r2 \div 16)>>
                  [] (r1 % 8) = 3 -> <<Val(r2), Val(r2 \div 16), Val(r2 \div 256)>>
                  [] OTHER -> <<Val(r2)>>
Spoils(item) == \E i \in DOMAIN item : item[i] = BadVal
EncOp(x, k) ==
  LET a == T(k + 2) % 16
      v == Val(T(k + 3)) IN
  IF enc[x].broken THEN [op |-> "clear", x |-> x]
  ELSE IF a < 5 THEN [op |-> "send", x |-> x, vals |-> <<v>>]
  ELSE IF a = 5 THEN [op |-> "gen", x |-> x, vals |-> Item(T(k + 3), T(k + 4))]
  ELSE IF a < 10 THEN [op |-> "next", x |-> x]
  ELSE IF a = 10 THEN [op |-> "write", x |-> x, vals |-> <<v>>]
  ELSE IF a = 11 THEN [op |-> "rest", x |-> x]
  ELSE IF a < 14 THEN [op |-> "call", vals |-> Item(T(k + 3), T(k + 4))]
  ELSE [op |-> "clear", x |-> x]
DecOp(x, k) ==
  LET a == T(k + 2) % 8 IN
  IF dec[x].dead THEN [op |-> "dclear", x |-> x, next |-> T(k + 3)]
  ELSE IF a < 3 /\ left[x] # <<>> THEN
     LET n == IF (T(k + 3) % 3) > 0 THEN Len(left[x]) ELSE 1 + (T(k + 3) % Len(left[x])) IN [op |-> "feed", x |-> x, b |-> SubSeq(left[x], 1, n)]
  ELSE IF a = 3 THEN [op |-> "decode", b |-> Msg(T(k + 3))]
  ELSE IF a = 4 \/ left[x] # <<>> \/ ~Exhausted(dec[x]) THEN [op |-> "take", x |-> x]
  ELSE [op |-> "dclear", x |-> x, next |-> T(k + 3)]
Op(k) == IF (T(k) % 5) < 3 THEN EncOp(1 + (T(k + 1) % NE), k) ELSE DecOp(1 + (T(k + 1) % ND), k)
\* what the bucket hands out next
RECURSIVE Drain(_)
Drain(e) == IF e.q = <<>> THEN e
            ELSE IF Spoils(Head(e.q)) THEN [Popped(e) EXCEPT !.broken = TRUE]
            ELSE Drain(Popped(e))
Do(o) ==
  CASE o.op \in {"send", "gen"} -> [e |-> [enc EXCEPT ![o.x] = Fed(@, o.vals)], d |-> dec, l |-> left]
    [] o.op = "next" -> [e |-> IF enc[o.x].q = <<>> THEN enc
                               ELSE [enc EXCEPT ![o.x] = IF Spoils(Head(enc[o.x].q)) THEN [Popped(@) EXCEPT !.broken = TRUE] ELSE Popped(@)],
                         d |-> dec, l |-> left]
    [] o.op = "rest" -> [e |-> [enc EXCEPT ![o.x] = Drain(@)], d |-> dec, l |-> left]
    [] o.op = "write" -> [e |-> [enc EXCEPT ![o.x].broken = Spoils(o.vals)], d |-> dec, l |-> left]
    [] o.op = "clear" -> [e |-> [enc EXCEPT ![o.x] = EncCleared(@)], d |-> dec, l |-> left]
    [] o.op = "feed" -> [e |-> enc, d |-> [dec EXCEPT ![o.x] = DecFed(@, o.b)],
                         l |-> [left EXCEPT ![o.x] = SubSeq(@, Len(o.b) + 1, Len(@))]]
    [] o.op = "take" -> [e |-> enc, d |-> [dec EXCEPT ![o.x] = TakeOf(@).d], l |-> left]
    [] o.op = "dclear" -> [e |-> enc, d |-> [dec EXCEPT ![o.x] = DecCleared(@)], l |-> [left EXCEPT ![o.x] = Msg(o.next)]]
    [] OTHER -> [e |-> enc, d |-> dec, l |-> left]
Init == /\ c \in 1..Len(Tapes) /\ hist = <<>> /\ ph = "go"
        /\ enc = [i \in 1..NE |-> NewEnc(V)] /\ dec = [i \in 1..ND |-> NewDec(V)]
        /\ left = [i \in 1..ND |-> Pick(Pool, Tapes[c][i]).inp]
Grow == /\ ph = "go" /\ Len(hist) < NOps
        /\ LET o == Op(ND + 1 + 5 * Len(hist))
               r == Do(o)
           IN hist' = Append(hist, o) /\ enc' = r.e /\ dec' = r.d /\ left' = r.l
        /\ UNCHANGED <<c, ph>>
Emit == /\ ph = "go" /\ Len(hist) = NOps
        /\ PrintT(ToJson([id |-> c, v |-> V, ops |-> hist])) /\ ph' = "end" /\ UNCHANGED <<c, enc, dec, left, hist>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars
WellFormed == \A i \in DOMAIN dec : TypeOK(dec[i].m) /\ dec[i].m.err = "" /\ AtTop(dec[i].m)
\* what was handed out and what waits is what was fed, in order
FifoOK == \A i \in DOMAIN enc : enc[i].fed = enc[i].out \o enc[i].q
=============================================================================
