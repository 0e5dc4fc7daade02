--------------------------- MODULE ByteArrayCheck --------------------------
(* Observed: for each operation err, p (cursor afterwards), and             *)
(*   w: new, the bytes added; read: r, the value (objects: nd and out)      *)
(*   travel: content, wire and flags of the encoded array                   *)
(* objs: the value graphs that were written                                 *)
EXTENDS ByteArray, AMF, Json, IOUtils

Cases == ndJsonDeserialize(IOEnv.CASES)
VARIABLES c, k, b, items, cur, comp, bad
vars == <<c, k, b, items, cur, comp, bad>>
C == Cases[c]
O == C.ops[k]

\* items: <<start, end, item, machine that read the object's bytes>>
EndOf(i) == IF i = 0 THEN 0 ELSE items[i][2]
PosOf(i) == IF i > Len(items) THEN Len(b) ELSE items[i][1]
ObjRun(new) == IF new = <<>> THEN <<Start(3), 0>> ELSE Run(Start(3), new, 1)
SameNum(x, y, kind) == x = y \/ (kind = "double" /\ Len(x) = 8 /\ Len(y) = 8 /\ DSame(x, y))
\* one NaN for all
NaN4(x) == Len(x) = 4 /\ (x[1] % 128) = 127 /\ x[2] = 192 /\ x[3] = 0 /\ x[4] = 0
Expand(v) == IF Repeat(v) THEN [i \in 1..v[2] |-> v[3]] ELSE v

WhyWrite ==
  LET x == O.x  ref == Refused(x) IN
  IF O.err # ref THEN "writing " \o x.k \o ": expected '" \o ref \o "' but got '" \o O.err \o "'"
  ELSE IF ref # "" THEN (IF O.new # <<>> \/ O.p # Len(b) THEN "a refused value was written in part" ELSE "")
  ELSE IF O.p # Len(b) + Len(O.new) THEN "the cursor is not behind what was written"
  ELSE IF x.k # "obj" THEN (IF O.new # BytesOf(O.le, x) THEN "other bytes were written for " \o x.k ELSE "")
  ELSE LET r == ObjRun(O.new)  g == C.objs[x.v] IN
       IF r[1].err # "" \/ Len(r[1].out) # 1 \/ r[2] # Len(O.new) + 1 THEN "an object is not written as one AMF3 value"
       ELSE SameGraph("enc3", r[1].nd, r[1].out, g.nd, g.out)
WhyRead ==
  LET it == items[O.i]  x == it[3] IN
  IF O.err # "" THEN "reading " \o x.k \o " failed with " \o O.err
  ELSE IF O.p # it[2] THEN "the cursor is not behind what was read"
  ELSE IF x.k = "obj" THEN SameGraph("dec3", it[4].nd, it[4].out, O.nd, O.out)
  ELSE IF x.k \in TextKinds THEN (IF O.r # Expand(x.v) THEN "other text was read" ELSE "")
  ELSE IF SameNum(O.r, x.v, x.k) THEN "" ELSE "another " \o x.k \o " was read"
WhyTravel ==
  IF O.err # "" THEN "encoding or decoding a byte array failed with " \o O.err
  ELSE IF O.content # b THEN "a byte array did not arrive with its contents"
  ELSE IF O.wire # b THEN "other contents were sent"
  ELSE IF BaOk(b) /\ (O.zipped # comp \/ O.comp # comp) THEN "a byte array was not sent in its form"
  ELSE IF O.p # PosOf(cur) THEN "sending a byte array moved its cursor"
  ELSE ""
Why == CASE O.op = "w" -> WhyWrite
         [] O.op = "read" -> WhyRead
         [] O.op = "travel" -> WhyTravel
         [] O.op = "seek" -> IF O.p # PosOf(O.i) THEN "the cursor is elsewhere" ELSE ""
         [] OTHER -> IF O.p # PosOf(cur) THEN "the cursor moved" ELSE ""
Init == c \in 1..Len(Cases) /\ k = 1 /\ b = <<>> /\ items = <<>> /\ cur = 1 /\ comp = FALSE /\ bad = ""
Replay == /\ bad = "" /\ k <= Len(C.ops)
        /\ LET w == Why IN
           /\ bad' = w
           /\ IF O.op = "w" /\ w = "" /\ Refused(O.x) = ""
              THEN /\ b' = b \o O.new
                   /\ items' = Append(items, <<Len(b), Len(b) + Len(O.new), O.x,
                                               IF O.x.k = "obj" THEN ObjRun(O.new)[1] ELSE <<>> >>)
              ELSE UNCHANGED <<b, items>>
        /\ cur' = (CASE O.op = "w" -> Len(items') + 1 [] O.op = "seek" -> O.i [] O.op = "read" -> cur + 1 [] OTHER -> cur)
        /\ comp' = (comp \/ O.op = "compress")
        /\ k' = k + 1 /\ UNCHANGED c
Judge == /\ bad # "end" /\ (bad # "" \/ k > Len(C.ops))
         /\ LET v == IF bad # "" THEN bad ELSE IF C.final # b THEN "the content of the byte array is not what was written" ELSE "" IN
            PrintT("V " \o ToString(C.id) \o " " \o (IF v = "" THEN "ok" ELSE "FAIL " \o v))
         /\ bad' = "end" /\ UNCHANGED <<c, k, b, items, cur, comp>>
Next == Replay \/ Judge
Spec == Init /\ [][Next]_vars
=============================================================================
