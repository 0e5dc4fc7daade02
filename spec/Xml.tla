-------------------------------- MODULE Xml --------------------------------
(* XML documents as bytes (UTF-8) and what they mean.                       *)
(*                                                                          *)
(* The meaning of a document is written down as its plain text: names with  *)
(* their namespace, attributes in order, nothing but & < > " (and line ends in attributes) escaped, no    *)
(* comments, instructions or declarations.  ReadXml(b) is the reader of        *)
(* documents; besides the meaning it finds out what a document declares,    *)
(* which is what the two options are about.                                 *)
EXTENDS Bytes

Rng(s) == {s[i] : i \in DOMAIN s}
Space == {9, 10, 13, 32}
NameEnd == Space \cup {47, 62, 61, 60, 34, 39, 59, 38, 91, 93, 37}  \* / > = < " ' ; & [ ] %
Quotes == {34, 39}
At(b, i, p) == i + Len(p) - 1 <= Len(b) /\ \A k \in DOMAIN p : b[i + k - 1] = p[k]
\* the first place from i on where p is, or 0
RECURSIVE Find(_, _, _)
Find(b, i, p) == IF i + Len(p) - 1 > Len(b) THEN 0 ELSE IF At(b, i, p) THEN i ELSE Find(b, i + 1, p)
RECURSIVE Skip(_, _)
Skip(b, i) == IF i <= Len(b) /\ b[i] \in Space THEN Skip(b, i + 1) ELSE i
RECURSIVE NameTo(_, _)
NameTo(b, i) == IF i <= Len(b) /\ b[i] \notin NameEnd THEN NameTo(b, i + 1) ELSE i
RECURSIVE UpTo(_, _, _)          \* the first place with a byte of S, or behind the end
UpTo(b, i, S) == IF i > Len(b) \/ b[i] \in S THEN i ELSE UpTo(b, i + 1, S)

sPiOpen == <<60, 63>>
sPiEnd == <<63, 62>>
sComment == <<60, 33, 45, 45>>
sCommentEnd == <<45, 45, 62>>
sCdata == <<60, 33, 91, 67, 68, 65, 84, 65, 91>>
sCdataEnd == <<93, 93, 62>>
sDoctype == <<60, 33, 68, 79, 67, 84, 89, 80, 69>>
sEntity == <<60, 33, 69, 78, 84, 73, 84, 89>>
sSystem == <<83, 89, 83, 84, 69, 77>>
sPublic == <<80, 85, 66, 76, 73, 67>>
sXmlns == <<120, 109, 108, 110, 115>>
sAmp == <<38, 97, 109, 112, 59>>
sLt == <<38, 108, 116, 59>>
sGt == <<38, 103, 116, 59>>
sQuot == <<38, 113, 117, 111, 116, 59>>
sApos == <<38, 97, 112, 111, 115, 59>>

Utf8(n) == IF n < 128 THEN <<n>>
           ELSE IF n < 2048 THEN <<192 + n \div 64, 128 + (n % 64)>>
           ELSE IF n < 65536 THEN <<224 + n \div 4096, 128 + ((n \div 64) % 64), 128 + (n % 64)>>
           ELSE <<240 + n \div 262144, 128 + ((n \div 4096) % 64), 128 + ((n \div 64) % 64), 128 + (n % 64)>>

\* ------------------------------------------------------------ plain text
RECURSIVE Esc(_, _)
Esc(b, quot) == IF b = <<>> THEN <<>> ELSE
  (CASE Head(b) = 38 -> sAmp [] Head(b) = 60 -> sLt [] Head(b) = 62 -> sGt
     [] Head(b) = 34 /\ quot -> sQuot [] Head(b) = 10 /\ quot -> <<38, 35, 49, 48, 59>> [] OTHER -> <<Head(b)>>) \o Esc(Tail(b), quot)
RECURSIVE Less(_, _)
Less(x, y) == IF y = <<>> THEN FALSE ELSE IF x = <<>> THEN TRUE
              ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE Less(Tail(x), Tail(y))
RECURSIVE AttrText(_)
AttrText(S) == IF S = {} THEN <<>> ELSE
  LET a == CHOOSE x \in S : \A y \in S : x = y \/ Less(x[1], y[1]) IN
  <<32>> \o a[1] \o <<61, 34>> \o Esc(a[2], TRUE) \o <<34>> \o AttrText(S \ {a})

\* ------------------------------------------------------------- character data
RECURSIVE Digits(_, _, _)
Digits(b, base, acc) == IF b = <<>> THEN acc ELSE
  LET d == IF Head(b) <= 57 THEN Head(b) - 48 ELSE IF Head(b) <= 70 THEN Head(b) - 55 ELSE Head(b) - 87 IN
  IF d < 0 \/ d >= base THEN -1 ELSE Digits(Tail(b), base, acc * base + d)
Ents(x, nm) == {i \in DOMAIN x.ents : x.ents[i][1] = nm}
\* x: what was declared; <<text>> or <<>> (not well formed) or Beyond (from outside)
Beyond == << <<>>, <<>> >>
RECURSIVE Chars(_, _, _, _)
RefText(x, nm, attr, deep) ==
  IF nm = <<>> THEN <<>>
  ELSE IF nm[1] = 35 THEN
    LET n == IF Len(nm) > 1 /\ nm[2] = 120 THEN Digits(SubSeq(nm, 3, Len(nm)), 16, 0)
             ELSE Digits(Tail(nm), 10, 0) IN IF n < 1 THEN <<>> ELSE <<Utf8(n)>>
  ELSE IF nm = <<97, 109, 112>> THEN << <<38>> >> ELSE IF nm = <<108, 116>> THEN << <<60>> >>
  ELSE IF nm = <<103, 116>> THEN << <<62>> >> ELSE IF nm = <<113, 117, 111, 116>> THEN << <<34>> >>
  ELSE IF nm = <<97, 112, 111, 115>> THEN << <<39>> >>
  ELSE IF Ents(x, nm) = {} THEN <<>>
  ELSE LET e == x.ents[CHOOSE i \in Ents(x, nm) : \A k \in Ents(x, nm) : i <= k] IN
       IF e[2] # "in" THEN Beyond ELSE IF deep = 0 THEN <<>> ELSE Chars(x, e[3], attr, deep - 1)
Chars(x, b, attr, deep) ==
  IF b = <<>> THEN << <<>> >>
  ELSE IF b[1] = 38 THEN
    LET k == Find(b, 1, <<59>>)
        t == IF k = 0 THEN <<>> ELSE RefText(x, SubSeq(b, 2, k - 1), attr, deep)
        r == IF t = <<>> \/ t = Beyond THEN t ELSE Chars(x, SubSeq(b, k + 1, Len(b)), attr, deep)
    IN IF r = <<>> \/ r = Beyond THEN r ELSE <<t[1] \o r[1]>>
  ELSE IF b[1] = 60 THEN <<>>
  ELSE LET k == UpTo(b, 1, {38, 60})
           raw == SubSeq(b, 1, k - 1)
           t == IF attr THEN [i \in DOMAIN raw |-> IF raw[i] \in Space THEN 32 ELSE raw[i]] ELSE raw
           r == Chars(x, SubSeq(b, k, Len(b)), attr, deep)
       IN IF r = <<>> \/ r = Beyond THEN r ELSE <<t \o r[1]>>

\* ----------------------------------------------------------------- namespaces
Colon(nm) == Find(nm, 1, <<58>>)
Prefix(nm) == IF Colon(nm) = 0 THEN <<>> ELSE SubSeq(nm, 1, Colon(nm) - 1)
Local(nm) == IF Colon(nm) = 0 THEN nm ELSE SubSeq(nm, Colon(nm) + 1, Len(nm))
\* <<name>> or <<>> if the prefix is not declared; env: the latest comes first
Full(nm, env, isAttr) ==
  LET p == Prefix(nm)
      S == {i \in DOMAIN env : env[i][1] = p}
      u == IF S = {} THEN <<>> ELSE env[CHOOSE i \in S : \A k \in S : i <= k][2]
  IN IF p = <<>> /\ (isAttr \/ u = <<>>) THEN <<nm>>
     ELSE IF u = <<>> THEN <<>> ELSE << <<123>> \o u \o <<125>> \o Local(nm) >>

\* ------------------------------------------------------------------- the reader
\* i: position; st: open elements (name as written, full name, namespaces);
\* bare: nothing was found in the element yet; ents: declared entities
Begin == [i |-> 1, ok |-> TRUE, out |-> <<>>, st |-> <<>>, bare |-> FALSE, root |-> FALSE,
          dtd |-> FALSE, decl |-> FALSE, ext |-> FALSE, ents |-> <<>>]
Bad(x) == [x EXCEPT !.ok = FALSE]
\* the content of the open element goes on
Content(x) == IF x.bare THEN [x EXCEPT !.out = @ \o <<62>>, !.bare = FALSE] ELSE x
AddText(x, t) == IF t = <<>> THEN x ELSE LET y == Content(x) IN [y EXCEPT !.out = @ \o Esc(t, FALSE)]
Close(x) == [x EXCEPT !.out = @ \o (IF x.bare THEN <<32, 47, 62>> ELSE <<60, 47>> \o x.st[1][2] \o <<62>>),
                      !.st = Tail(@), !.bare = FALSE]
\* raw attributes: <<pairs, position behind the tag, closed>>, position 0: not well formed
RECURSIVE Attrs(_, _, _)
Attrs(b, i0, acc) ==
  LET i == Skip(b, i0) IN
  IF i > Len(b) THEN <<acc, 0, FALSE>>
  ELSE IF b[i] = 62 THEN <<acc, i + 1, FALSE>>
  ELSE IF At(b, i, <<47, 62>>) THEN <<acc, i + 2, TRUE>>
  ELSE LET n == NameTo(b, i)
           q == Skip(b, IF Skip(b, n) <= Len(b) /\ b[Skip(b, n)] = 61 THEN Skip(b, n) + 1 ELSE Len(b) + 1)
           k == IF q > Len(b) \/ b[q] \notin Quotes THEN 0 ELSE Find(b, q + 1, <<b[q]>>)
       IN IF n = i \/ k = 0 \/ i = i0 THEN <<acc, 0, FALSE>>
          ELSE Attrs(b, k + 1, Append(acc, <<SubSeq(b, i, n - 1), SubSeq(b, q + 1, k - 1)>>))
Open(x, b) ==
  LET n == NameTo(b, x.i + 1)
      a == Attrs(b, n, <<>>)
      raw == a[1]
      vals == [i \in DOMAIN raw |-> Chars(x, raw[i][2], TRUE, 4)]
      S == {i \in DOMAIN raw : raw[i][1] = sXmlns \/ Prefix(raw[i][1]) = sXmlns}
      RECURSIVE Decl(_)
      Decl(T) == IF T = {} THEN <<>> ELSE LET i == CHOOSE i \in T : TRUE IN
                 << <<IF raw[i][1] = sXmlns THEN <<>> ELSE Local(raw[i][1]), vals[i][1]>> >> \o Decl(T \ {i})
  IN IF n = x.i + 1 \/ a[2] = 0 \/ (x.st = <<>> /\ x.root) THEN Bad(x)
     ELSE IF \E i \in DOMAIN raw : vals[i] = <<>> \/ vals[i] = Beyond THEN Bad(x)
     ELSE LET env == Decl(S) \o (IF x.st = <<>> THEN <<>> ELSE x.st[1][3])
              name == SubSeq(b, x.i + 1, n - 1)
              full == Full(name, env, FALSE)
              keys == [i \in DOMAIN raw |-> Full(raw[i][1], env, TRUE)]
              mine == DOMAIN raw \ S
          IN IF full = <<>> \/ (\E i \in mine : keys[i] = <<>>)
                \/ (\E i, k \in DOMAIN raw : i < k /\ raw[i][1] = raw[k][1])
                \/ (\E i, k \in mine : i < k /\ keys[i] = keys[k]) THEN Bad(x)
             ELSE LET y == Content(x)
                      z == [y EXCEPT !.i = a[2], !.root = TRUE, !.bare = TRUE,
                              !.st = << <<name, full[1], env>> >> \o @,
                              !.out = @ \o <<60>> \o full[1] \o AttrText({<<keys[i][1], vals[i][1]>> : i \in mine})]
                  IN IF a[3] THEN Close(z) ELSE z
End(x, b) ==
  LET n == NameTo(b, x.i + 2)
      k == Skip(b, n)
  IN IF x.st = <<>> \/ k > Len(b) THEN Bad(x)
     ELSE IF SubSeq(b, x.i + 2, n - 1) # x.st[1][1] \/ b[k] # 62 THEN Bad(x)
     ELSE [Close(x) EXCEPT !.i = k + 1]

\* ------------------------------------------------------------ declarations
\* a quoted text: <<position behind it, text>>
Quoted(b, i) ==
  LET k == IF i > Len(b) \/ b[i] \notin Quotes THEN 0 ELSE Find(b, i + 1, <<b[i]>>)
  IN IF k = 0 THEN <<0, <<>>>> ELSE <<k + 1, SubSeq(b, i + 1, k - 1)>>
\* SYSTEM or PUBLIC at i: the position behind it, or 0
Outside(b, i) ==
  IF At(b, i, sSystem) THEN Quoted(b, Skip(b, i + 6))[1]
  ELSE IF At(b, i, sPublic)
       THEN LET p == Quoted(b, Skip(b, i + 6))[1] IN IF p = 0 THEN 0 ELSE Quoted(b, Skip(b, p))[1]
  ELSE 0
EntityDecl(x, b) ==
  LET i == Skip(b, x.i + 8)
      par == i <= Len(b) /\ b[i] = 37
      s == IF par THEN Skip(b, i + 1) ELSE i
      n == NameTo(b, s)
      v == Skip(b, n)
      q == Quoted(b, v)
      o == Outside(b, v)
      e == IF q[1] # 0 THEN q[1] ELSE o
      \* an unparsed entity names a notation
      z == IF e = 0 THEN 0 ELSE Find(b, e, <<62>>)
      nm == (IF par THEN <<37>> ELSE <<>>) \o SubSeq(b, s, n - 1)
  IN IF s = n \/ e = 0 \/ z = 0 THEN Bad(x)
     ELSE [x EXCEPT !.i = z + 1, !.decl = TRUE,
                    !.ents = Append(@, IF q[1] # 0 THEN <<nm, "in", q[2]>> ELSE <<nm, "out", <<>>>>)]
RECURSIVE Subset(_, _)
Subset(x, b) ==
  LET i == Skip(b, x.i)
      y == [x EXCEPT !.i = i]
      To(p) == LET k == Find(b, i, p) IN IF k = 0 THEN Bad(x) ELSE Subset([x EXCEPT !.i = k + Len(p)], b)
  IN IF ~x.ok \/ i > Len(b) THEN Bad(x)
     ELSE IF b[i] = 93 THEN [x EXCEPT !.i = i + 1]
     ELSE IF At(b, i, sComment) THEN To(sCommentEnd)
     ELSE IF At(b, i, sPiOpen) THEN To(sPiEnd)
     ELSE IF At(b, i, sEntity) THEN Subset(EntityDecl(y, b), b)
     ELSE IF At(b, i, <<60, 33>>) THEN To(<<62>>)
     ELSE IF b[i] = 37 THEN
       LET n == NameTo(b, i + 1)
           S == Ents(x, SubSeq(b, i, n - 1))
       IN IF n > Len(b) \/ S = {} THEN Bad(x) ELSE IF b[n] # 59 THEN Bad(x)
          ELSE Subset([x EXCEPT !.i = n + 1, !.ext = @ \/ \E k \in S : x.ents[k][2] = "out"], b)
     ELSE Bad(x)
Doctype(x, b) ==
  LET n == NameTo(b, Skip(b, x.i + 9))
      i == Skip(b, n)
      o == Outside(b, i)
      k == Skip(b, IF o = 0 THEN i ELSE o)
      y == [x EXCEPT !.dtd = TRUE]
      z == IF k <= Len(b) /\ b[k] = 91 THEN Subset([y EXCEPT !.i = k + 1], b) ELSE [y EXCEPT !.i = k]
      e == Skip(b, z.i)
  IN IF x.root \/ x.dtd \/ ~z.ok \/ e > Len(b) THEN Bad(y)
     ELSE IF b[e] # 62 THEN Bad(y) ELSE [z EXCEPT !.i = e + 1]

RECURSIVE Go(_, _)
Go(x, b) ==
  LET i == x.i
      Past(p) == LET k == Find(b, i + 2, p) IN IF k = 0 THEN Bad(x) ELSE Go([x EXCEPT !.i = k + Len(p)], b)
  IN IF ~x.ok THEN x
     ELSE IF i > Len(b) THEN (IF x.root /\ x.st = <<>> THEN x ELSE Bad(x))
     ELSE IF b[i] # 60 THEN
       LET k == UpTo(b, i, {60})
           t == Chars(x, SubSeq(b, i, k - 1), FALSE, 4)
       IN IF x.st = <<>> THEN (IF Skip(b, i) = k THEN Go([x EXCEPT !.i = k], b) ELSE Bad(x))
          ELSE IF t = <<>> THEN Bad(x) ELSE IF t = Beyond THEN [Bad(x) EXCEPT !.ext = TRUE]
          ELSE Go([AddText(x, t[1]) EXCEPT !.i = k], b)
     ELSE IF At(b, i, sComment) THEN Past(sCommentEnd)
     ELSE IF At(b, i, sPiOpen) THEN Past(sPiEnd)
     ELSE IF At(b, i, sCdata) THEN
       LET k == Find(b, i, sCdataEnd) IN
       IF k = 0 \/ x.st = <<>> THEN Bad(x) ELSE Go([AddText(x, SubSeq(b, i + 9, k - 1)) EXCEPT !.i = k + 3], b)
     ELSE IF At(b, i, sDoctype) THEN Go(Doctype(x, b), b)
     ELSE IF At(b, i, <<60, 47>>) THEN Go(End(x, b), b)
     ELSE Go(Open(x, b), b)
ReadXml(b) == Go(Begin, b)

\* ------------------------------------------------------------- the options
\* "doc": it is read; "xml": it is refused; "any": what happens is not said
Decide(x, forbidDtd, forbidEnts) ==
  IF (x.dtd /\ forbidDtd) \/ (x.decl /\ forbidEnts) THEN <<"xml", <<>>>>
  ELSE IF ~x.ok THEN <<"xml", <<>>>>
  ELSE IF x.ext THEN <<"any", <<>>>>
  ELSE <<"doc", x.out>>
Answer(b, forbidDtd, forbidEnts) == Decide(ReadXml(b), forbidDtd, forbidEnts)
=============================================================================
