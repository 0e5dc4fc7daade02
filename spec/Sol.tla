-------------------------------- MODULE Sol --------------------------------
(* Local shared objects: a header, and named values that share one AMF      *)
(* machine.  In AMF3 the names take part in the table of text.  The machine *)
(* delivers name, value, name, value, ...                                   *)
EXTENDS AMF
Magic == <<0, 191>>
Sign == <<84, 67, 83, 79, 0, 4, 0, 0, 0, 0>>
Pad3 == <<0, 0, 0>>
SolBody(name, v, entries) == Sign \o U16(Len(name)) \o name \o Pad3 \o <<v>> \o entries
SolFile(name, v, entries) == LET b == SolBody(name, v, entries) IN Magic \o U32(Len(b)) \o b

\* f: the state of a reader
FileReader == [ph |-> "head", p |-> 1, v |-> 0, name |-> <<>>, m |-> Start(0), err |-> ""]
Bad_(f, x) == [f EXCEPT !.err = x, !.ph = "end"]
Have(s, p, n) == p + n - 1 <= Len(s)
ReadHead(f, s, strict) ==
  LET len == U32At(s, 3)
      n == U16At(s, 17)
      q == 19 + n[1]
  IN IF ~Have(s, 1, 2) THEN Bad_(f, "io")
     ELSE IF Slice(s, 1, 2) # Magic THEN Bad_(f, "dec")
     ELSE IF ~Have(s, 3, 4) THEN Bad_(f, "io")
     ELSE IF strict /\ len[1] # Len(s) - 6 THEN Bad_(f, "dec")
     ELSE IF ~Have(s, 7, 10) THEN Bad_(f, "io")
     ELSE IF Slice(s, 7, 10) # Sign THEN Bad_(f, "dec")
     ELSE IF n[1] = Need \/ ~Have(s, 19, n[1]) THEN Bad_(f, "io")
     ELSE IF ~IsUtf8(Slice(s, 19, n[1])) THEN Bad_(f, "any")
     ELSE IF ~Have(s, q, 3) THEN Bad_(f, "io")
     ELSE IF Slice(s, q, 3) # Pad3 THEN Bad_(f, "dec")
     ELSE IF ~Have(s, q + 3, 1) THEN Bad_(f, "io")
     ELSE IF s[q + 3] \notin {0, 3} THEN Bad_(f, "version")
     ELSE [f EXCEPT !.ph = "name", !.p = q + 4, !.v = s[q + 3], !.name = Slice(s, 19, n[1]), !.m = Start(s[q + 3])]
ReadName(f, s) ==
  IF f.p > Len(s) THEN [f EXCEPT !.ph = "end"]
  ELSE IF f.v = 3 THEN
    LET l == LexStr3(s, f.p) IN
    IF l[1].t = "more" THEN Bad_(f, "io")
    ELSE LET m == Step3(f.m, l[1]) IN
         IF m.err # "" THEN Bad_(f, m.err) ELSE [f EXCEPT !.ph = "value", !.m = m, !.p = l[2]]
  ELSE LET h == U16At(s, f.p) IN
    IF h[1] = Need \/ ~Have(s, h[2], h[1]) THEN Bad_(f, "io")
    ELSE IF ~IsUtf8(Slice(s, h[2], h[1])) THEN Bad_(f, "any")
    ELSE [f EXCEPT !.ph = "value", !.m = Deliver(@, <<"str", Slice(s, h[2], h[1])>>), !.p = h[2] + h[1]]
\* one token of a value, or the byte behind it
ReadValue(f, s) ==
  IF AtTop(f.m) /\ (Len(f.m.out) % 2) = 0 THEN
    (IF f.p > Len(s) THEN Bad_(f, "io")
     ELSE IF s[f.p] # 0 THEN Bad_(f, "dec")
     ELSE [f EXCEPT !.ph = "name", !.p = @ + 1])
  ELSE LET l == Lex(f.m, s, f.p) IN
       IF l[1].t = "more" THEN Bad_(f, "io")
       ELSE LET m == Step(f.m, l[1]) IN
            IF m.err # "" THEN Bad_(f, m.err) ELSE [f EXCEPT !.m = m, !.p = l[2]]
FileNext(f, s, strict) ==
  CASE f.ph = "head" -> ReadHead(f, s, strict)
    [] f.ph = "name" -> ReadName(f, s)
    [] f.ph = "value" -> ReadValue(f, s)
NamesOf(m) == [i \in 1..(Len(m.out) \div 2) |-> m.out[2 * i - 1][2]]
ValsOf(m) == [i \in 1..(Len(m.out) \div 2) |-> m.out[2 * i]]
=============================================================================
