------------------------------- MODULE SolGen ------------------------------
(* Files made of streams of name, value, name, value, ... (POOL), some with *)
(* a flaw.  A tape: which stream, which name, which flaw and where.         *)
EXTENDS Sol, Json, IOUtils
Tapes == ndJsonDeserialize(IOEnv.TAPES)
Pool == ndJsonDeserialize(IOEnv.POOL)
VARIABLES c, ph, inp, f
vars == <<c, ph, inp, f>>
T(k) == Tapes[c][k]
Pick(q, r) == q[1 + (r % Len(q))]
P == Pool[1 + (T(1) % Len(Pool))]
RootNames == << <<97>>, <<>>, <<104, 105>>, <<195, 169>>, [i \in 1..200 |-> 110], <<226, 130, 172>> >>
Root == Pick(RootNames, T(2))
\* without the markers of the names, and with a zero behind each value
From(i) == IF i = 1 THEN 1 ELSE P.ends[i - 1] + 1
RECURSIVE Entries(_)
Entries(i) == IF 2 * i > Len(P.ends) THEN <<>>
              ELSE SubSeq(P.inp, From(2 * i - 1) + 1, P.ends[2 * i]) \o <<0>> \o Entries(i + 1)
Good == SolFile(Root, P.v, Entries(1))
Put(s, i, b) == [s EXCEPT ![i] = b]
Flaw == T(3) % 16
Made ==
  LET g == Good
      q == 18 + Len(Root)
      at == 1 + (T(4) % Len(g))
      r == T(5) % 256
  IN CASE Flaw = 0 -> SubSeq(g, 1, at - 1)
       [] Flaw = 1 -> Put(g, 1 + (T(4) % 2), r)
       [] Flaw = 2 -> Put(g, 3 + (T(4) % 4), r)
       [] Flaw = 3 -> Put(g, 7 + (T(4) % 10), r)
       [] Flaw = 4 -> Put(g, q + 1 + (T(4) % 3), r)
       [] Flaw = 5 -> Put(g, q + 4, r)
       [] Flaw = 6 -> Put(g, at, r)
       [] Flaw = 7 -> g \o <<r>>
       [] Flaw = 8 /\ Len(g) > q + 4 -> Put(g, Len(g), 1 + (r % 255))
       [] Flaw = 9 -> \* the size fits, but the end is missing
            LET b == SubSeq(g, 7, (IF at < 7 THEN 6 ELSE at - 1)) IN Magic \o U32(Len(b)) \o b
       [] OTHER -> g
Init == c \in 1..Len(Tapes) /\ ph = "go" /\ inp = Made /\ f = FileReader
Read == ph = "go" /\ f.ph # "end" /\ f' = FileNext(f, inp, (T(6) % 4) # 0) /\ UNCHANGED <<c, ph, inp>>
Emit == /\ ph = "go" /\ f.ph = "end"
        /\ PrintT(ToJson([id |-> c, inp |-> inp, strict |-> (T(6) % 4) # 0])) /\ ph' = "end" /\ UNCHANGED <<c, inp, f>>
Next == Read \/ Emit
Spec == Init /\ [][Next]_vars
\* what is made is read
ReadsBack == (ph = "end" /\ inp = Good) =>
  /\ f.err = "" /\ f.name = Root /\ f.m.nd = P.nd /\ f.m.out = SubSeq(P.out, 1, 2 * (Len(P.out) \div 2))
=============================================================================
