----------------------------- MODULE CodecCheck ----------------------------
(* ops were given, on a graph (vals, nd); res[i] says what operation i gave: *)
(* <<"ok">>, <<"bytes", b, together>>, <<"stop">>, <<"err", name>>,          *)
(* <<"value", v>>, <<"rest", chunks, how it stopped>>, <<"values", vs, err>>;*)
(* ond is the heap of the values that were decoded.                          *)
EXTENDS Codec, Json, IOUtils
Cases == ndJsonDeserialize(IOEnv.CASES)
NE == 3
ND == 2
VARIABLES c, i, enc, dec, got, why
vars == <<c, i, enc, dec, got, why>>
C == Cases[c]
Bad(item) == \E k \in DOMAIN item : item[k] = C.badval
Vals(item) == [k \in DOMAIN item |-> C.vals[item[k]]]
EMode == IF C.v = 3 \/ C.all3 THEN "enc3" ELSE "enc0"
DMode == IF C.v = 3 THEN "dec3" ELSE "dec0"
Msg(e) == WhyMessage(EMode, e.m, C.nd, Vals(e.vals))
\* the bytes that one item gave
WhyItem(e, item, r) ==
  IF Bad(item) THEN (IF r = <<"err", "enc">> THEN "" ELSE "what cannot be encoded was not refused")
  ELSE IF r[1] # "bytes" THEN "encoding failed: " \o r[Len(r)]
  ELSE WhyChunk(e, item, r[2])
AfterItem(e, item, r) == IF Bad(item) THEN [e EXCEPT !.broken = TRUE] ELSE Took(e, item, r[2])
R0 == [w |-> "", e |-> enc, d |-> dec, g |-> got]
OnEnc(x, w, e) == [R0 EXCEPT !.w = w, !.e = IF w = "" THEN [enc EXCEPT ![x] = e] ELSE enc]
RECURSIVE Rest(_, _, _)
Rest(e, ch, how) ==
  IF e.q = <<>> THEN [w |-> IF ch # <<>> THEN "more was handed out than was fed" ELSE IF how # "stop" THEN "iterating stopped with " \o how ELSE "", e |-> e]
  ELSE IF Bad(Head(e.q)) THEN [w |-> IF ch = <<>> /\ how = "enc" THEN "" ELSE "what cannot be encoded was not refused", e |-> [Popped(e) EXCEPT !.broken = TRUE]]
  ELSE IF ch = <<>> THEN [w |-> "not everything was handed out (" \o how \o ")", e |-> e]
  ELSE LET w == WhyChunk(e, Head(e.q), Head(ch)) IN
       IF w # "" THEN [w |-> w, e |-> e] ELSE Rest(Popped(Took(e, Head(e.q), Head(ch))), Tail(ch), how)
Handed(x) == LET d == dec[x] IN SameGraph(DMode, d.m.nd, d.m.out, C.ond, got[x])
Judge(o, r) ==
  CASE o.op \in {"send", "gen"} -> OnEnc(o.x, IF r = <<"ok">> THEN "" ELSE "feeding gave something", Fed(enc[o.x], o.vals))
    [] o.op = "next" ->
         LET e == enc[o.x] IN
         IF e.q = <<>> THEN OnEnc(o.x, IF r = <<"stop">> THEN "" ELSE "something was handed out of an empty bucket", e)
         ELSE LET w == WhyItem(e, Head(e.q), r) IN OnEnc(o.x, w, IF w = "" THEN Popped(AfterItem(e, Head(e.q), r)) ELSE e)
    [] o.op = "rest" -> LET x == Rest(enc[o.x], r[2], r[3]) IN OnEnc(o.x, x.w, x.e)
    [] o.op = "write" -> LET w == WhyItem(enc[o.x], o.vals, r) IN OnEnc(o.x, w, IF w = "" THEN AfterItem(enc[o.x], o.vals, r) ELSE enc[o.x])
    [] o.op = "clear" ->
         \* together: all values of this message at once, in an encoder of its own
         LET e == enc[o.x]
             w == IF e.broken THEN "" ELSE Msg(e) IN
         OnEnc(o.x, IF w # "" THEN w ELSE IF ~e.broken /\ r[2] # r[3] THEN "encoding value by value differs from encoding together" ELSE "", EncCleared(e))
    [] o.op = "call" ->
         LET w == WhyItem(NewEnc(C.ev), o.vals, r) IN
         [R0 EXCEPT !.w = IF w # "" \/ Bad(o.vals) THEN w ELSE Msg(AfterItem(NewEnc(C.ev), o.vals, r))]
    [] o.op = "feed" -> [R0 EXCEPT !.d = [dec EXCEPT ![o.x] = DecFed(@, o.b)]]
    [] o.op = "take" ->
         LET t == TakeOf(dec[o.x]) IN
         [R0 EXCEPT !.w = IF t.r = r[1] THEN "" ELSE "expected " \o t.r \o " but got " \o r[Len(r)],
                    !.d = [dec EXCEPT ![o.x] = t.d],
                    !.g = IF t.r = r[1] /\ t.r = "value" THEN [got EXCEPT ![o.x] = Append(@, r[2])] ELSE got]
    [] o.op = "dclear" -> [R0 EXCEPT !.w = Handed(o.x), !.d = [dec EXCEPT ![o.x] = DecCleared(@)], !.g = [got EXCEPT ![o.x] = <<>>]]
    [] o.op = "decode" ->
         LET m == Run(Start(C.v), o.b, 1)[1] IN
         [R0 EXCEPT !.w = IF r[3] # (IF m.err = "" THEN "stop" ELSE m.err) THEN "decoding stopped with " \o r[3] ELSE SameGraph(DMode, m.nd, m.out, C.ond, r[2])]
Init == /\ c \in 1..Len(Cases) /\ i = 0 /\ why = ""
        /\ enc = [x \in 1..NE |-> NewEnc(Cases[c].ev)] /\ dec = [x \in 1..ND |-> NewDec(Cases[c].v)]
        /\ got = [x \in 1..ND |-> <<>>]
Do == /\ i < Len(C.ops) /\ why = ""
      /\ LET r == Judge(C.ops[i + 1], C.res[i + 1]) IN
         /\ why' = (IF r.w = "" THEN "" ELSE r.w \o " (operation " \o ToString(i + 1) \o ", " \o C.ops[i + 1].op \o ")")
         /\ enc' = r.e /\ dec' = r.d /\ got' = r.g
      /\ i' = i + 1 /\ UNCHANGED c
AtEnd == LET E == {x \in 1..NE : ~enc[x].broken /\ Msg(enc[x]) # ""}
             D == {x \in 1..ND : Handed(x) # ""} IN
         IF E # {} THEN Msg(enc[CHOOSE x \in E : TRUE]) ELSE IF D # {} THEN Handed(CHOOSE x \in D : TRUE) ELSE ""
End == /\ i <= Len(C.ops) /\ (i = Len(C.ops) \/ why # "")
       /\ LET w == IF why # "" THEN why ELSE AtEnd IN
          PrintT("V " \o ToString(C.id) \o " " \o (IF w = "" THEN "ok" ELSE "FAIL " \o w))
       /\ i' = Len(C.ops) + 1 /\ UNCHANGED <<c, enc, dec, got, why>>
Next == Do \/ End
Spec == Init /\ [][Next]_vars
WellFormed == (\A x \in DOMAIN enc : TypeOK(enc[x].m)) /\ \A x \in DOMAIN dec : TypeOK(dec[x].m)
=============================================================================
