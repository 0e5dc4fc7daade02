------------------------------- MODULE Stream ------------------------------
(* A byte stream: a sequence of bytes with a cursor and a byte order.       *)
(*                                                                          *)
(* s = [b |-> bytes, p |-> cursor (0 based), le |-> little endian].         *)
(* Do(s, o) gives what operation o does: the stream afterwards (s), the     *)
(* error it reports (err, "" if none) and what it returns (r).              *)
(*                                                                          *)
(* Integers are pairs <<hi, lo>> standing for hi * 65536 + lo with lo in    *)
(* 0..65535; floats are their bytes, most significant first.                *)
EXTENDS Bytes

St(b, p, le) == [b |-> b, p |-> p, le |-> le]
Res(s, err, r) == [s |-> s, err |-> err, r |-> r]

Rev(b) == [i \in DOMAIN b |-> b[Len(b) + 1 - i]]
Order(s, b) == IF s.le THEN Rev(b) ELSE b

Zeros(n) == [i \in 1..n |-> 0]
\* bytes d put at offset p (what lies between the end and p becomes zero)
Put(b, p, d) ==
  IF d = <<>> THEN b ELSE
  LET c == IF p > Len(b) THEN b \o Zeros(p - Len(b)) ELSE b
  IN SubSeq(c, 1, p) \o d \o SubSeq(c, p + Len(d) + 1, Len(c))
Write(s, d) == [s EXCEPT !.b = Put(s.b, s.p, d), !.p = s.p + Len(d)]
Avail(s) == IF s.p >= Len(s.b) THEN 0 ELSE Len(s.b) - s.p
Rest(s) == SubSeq(s.b, s.p + 1, Len(s.b))
Take(s, n) == SubSeq(s.b, s.p + 1, s.p + n)
Skip(s, n) == [s EXCEPT !.p = s.p + n]

\* ------------------------------------------------------------ typed numbers
Width == [uchar |-> 1, char |-> 1, ushort |-> 2, short |-> 2, uint24 |-> 3, int24 |-> 3,
          ulong |-> 4, long |-> 4, float |-> 4, double |-> 8]
IntTypes == {"uchar", "char", "ushort", "short", "uint24", "int24", "ulong", "long"}
Signed == {"char", "short", "int24", "long"}
Types == IntTypes \cup {"float", "double"}

InRange(t, v) == LET hi == v[1] lo == v[2] IN
  CASE t = "uchar"  -> hi = 0 /\ lo < 256
    [] t = "char"   -> (hi = 0 /\ lo < 128) \/ (hi = -1 /\ lo >= 65408)
    [] t = "ushort" -> hi = 0
    [] t = "short"  -> (hi = 0 /\ lo < 32768) \/ (hi = -1 /\ lo >= 32768)
    [] t = "uint24" -> hi \in 0..255
    [] t = "int24"  -> hi \in -128..127
    [] t = "ulong"  -> hi \in 0..65535
    [] t = "long"   -> hi \in -32768..32767
\* most significant byte first
IntBytes(t, v) ==
  LET hi == IF v[1] < 0 THEN v[1] + 65536 ELSE v[1]      \* 16 bits
      all == <<hi \div 256, (hi % 256), v[2] \div 256, (v[2] % 256)>>
  IN SubSeq(all, 5 - Width[t], 4)
BytesInt(t, b) ==
  LET neg == t \in Signed /\ b[1] >= 128
      fill == IF neg THEN 255 ELSE 0
      all == [i \in 1..4 |-> IF i > 4 - Len(b) THEN b[i - (4 - Len(b))] ELSE fill]
      hi == all[1] * 256 + all[2]
  IN <<IF neg THEN hi - 65536 ELSE hi, all[3] * 256 + all[4]>>

\* --------------------------------------------------------------- operations
WriteTyped(s, t, v) ==
  IF t \in IntTypes
  THEN IF InRange(t, v) THEN Res(Write(s, Order(s, IntBytes(t, v))), "", <<>>)
       ELSE Res(s, "range", <<>>)
  ELSE Res(Write(s, Order(s, v)), "", <<>>)
\* a value of the wrong Python type
WriteOdd(s) == Res(s, "type", <<>>)
ReadTyped(s, t) ==
  IF Avail(s) < Width[t] THEN Res(s, "io", <<>>)
  ELSE LET b == Order(s, Take(s, Width[t])) IN
       Res(Skip(s, Width[t]), "", IF t \in IntTypes THEN BytesInt(t, b) ELSE b)

Read(s, n) ==
  IF n < -1 THEN Res(s, "io", <<>>)
  ELSE IF n = -1 THEN IF Avail(s) = 0 THEN Res(s, "io", <<>>)
                      ELSE Res([s EXCEPT !.p = Len(s.b)], "", Rest(s))
  ELSE IF n > Avail(s) THEN Res(s, "io", <<>>)
  ELSE Res(Skip(s, n), "", Take(s, n))
Peek(s, n) ==
  IF n < -1 THEN Res(s, "value", <<>>)
  ELSE IF n = -1 \/ n > Avail(s) THEN Res(s, "", Rest(s))
  ELSE Res(s, "", Take(s, n))
\* how: 0 from the start, 1 from the cursor, 2 from the end
Target(s, n, how) == n + (IF how = 1 THEN s.p ELSE IF how = 2 THEN Len(s.b) ELSE 0)
Trunc(s, n) ==
  IF n = 0 THEN [s EXCEPT !.b = <<>>, !.p = 0]
  ELSE IF n >= Len(s.b) THEN s
  ELSE [s EXCEPT !.b = SubSeq(s.b, 1, n)]

Do(s, o) ==
  CASE o.op = "read" -> Read(s, o.n)
    [] o.op = "peek" -> Peek(s, o.n)
    [] o.op = "write" -> Res(Write(s, o.d), "", <<>>)
    [] o.op = "wutf8" -> Res(Write(s, o.d), "", <<>>)
    [] o.op = "rutf8" -> Read(s, o.n)
    [] o.op = "append" -> Res([s EXCEPT !.b = s.b \o o.d], "", <<>>)
    [] o.op = "seek" -> Res([s EXCEPT !.p = Target(s, o.n, o.how)], "", <<>>)
    [] o.op = "trunc" -> Res(Trunc(s, o.n), "", <<>>)
    [] o.op = "consume" -> Res(St(Rest(s), 0, s.le), "", <<>>)
    [] o.op = "len" -> Res(s, "", <<Len(s.b)>>)
    [] o.op = "eof" -> Res(s, "", <<IF s.p = Len(s.b) THEN 1 ELSE 0>>)
    [] o.op = "remaining" -> Res(s, "", <<Len(s.b) - s.p>>)
    \* another stream with content d whose cursor is n: the sum starts at 0
    [] o.op = "add" -> Res(s, "", s.b \o o.d \o <<0, o.n>>)
    [] o.op = "order" -> Res([s EXCEPT !.le = o.le], "", <<>>)
    [] o.op = "w" -> WriteTyped(s, o.t, o.v)
    [] o.op = "odd" -> WriteOdd(s)
    [] o.op = "r" -> ReadTyped(s, o.t)

\* within what is claimed: cursors stay in front of the end, except that
\* truncation may leave one behind it; from there one can only seek, write,
\* append, ask, or fail to read
Allowed(s, o) ==
  CASE o.op = "seek" -> Target(s, o.n, o.how) \in 0..Len(s.b)
    [] o.op \in {"read", "rutf8"} -> /\ s.p > Len(s.b) => o.n > 0
                                     /\ o.op = "rutf8" => (o.n <= Avail(s) => IsUtf8(Take(s, o.n)))
    [] o.op = "peek" -> s.p <= Len(s.b) \/ o.n < -1
    [] o.op \in {"write", "wutf8"} -> s.p <= Len(s.b) \/ o.d # <<>>
    [] o.op \in {"consume", "add"} -> s.p <= Len(s.b)
    [] OTHER -> TRUE

\* --------------------------------------------------------------- properties
\* a failed operation changes nothing; only writers change the content
FailureFree(s, o) == Do(s, o).err # "" => Do(s, o).s = s
Readers == {"read", "peek", "seek", "len", "eof", "remaining", "add", "r", "rutf8", "order", "odd"}
Pure(s, o) == o.op \in Readers => Do(s, o).s.b = s.b
InverseInt(s, o) ==
  (o.op = "w" /\ Do(s, o).err = "") =>
     LET a == Do(s, o).s  back == Do([a EXCEPT !.p = s.p], [op |-> "r", t |-> o.t])
     IN back.err = "" /\ back.r = o.v /\ back.s.p = a.p
=============================================================================
