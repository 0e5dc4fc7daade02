------------------------------- MODULE XmlGen ------------------------------
(* The writer of documents: as it writes, it knows what the document means. *)
(* The reader has to find the same.                                         *)
EXTENDS Xml, Json, IOUtils
Tapes == ndJsonDeserialize(IOEnv.TAPES)
VARIABLES c, j, w, ph
vars == <<c, j, w, ph>>
T(k) == Tapes[c][1 + ((k - 1) % Len(Tapes[c]))]
Pick(s, r) == s[1 + (r % Len(s))]
Budget == T(1)
Dtd == Pick(<<0, 0, 0, 0, 1, 2, 3, 4>>, T(2))     \* how much of a declaration: 0 none, 1 no entities
Flaw == IF (T(3) % 12) = 0 THEN 1 + ((T(3) \div 12) % 8) ELSE 0

\* ---------------------------------------------------------------- alphabets
Names == << <<97>>, <<98>>, <<99, 45, 49>>, <<195, 169>>, <<112, 58, 97>>, <<112, 58, 98>>, <<95, 120>> >>
Plain == << <<97>>, <<195, 169>>, <<95, 120>>, <<98>> >>   \* without prefix
\* a prefix
sP == <<112>>
Uris == << <<117, 58, 49>>, <<104, 116, 116, 112, 58, 47, 47, 120, 47, 121>> >>
\* code points
Chs == <<97, 98, 32, 10, 60, 38, 62, 34, 39, 233, 20320, 128512, 65, 48, 45>>
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Dec(n \div 10), 48 + (n % 10))
Hx(d) == IF d < 10 THEN 48 + d ELSE 87 + d
RECURSIVE Hex(_)
Hex(n) == IF n < 16 THEN <<Hx(n)>> ELSE Append(Hex(n \div 16), Hx(n % 16))
Named(ch) == CASE ch = 60 -> sLt [] ch = 62 -> sGt [] ch = 38 -> sAmp [] ch = 34 -> sQuot [] ch = 39 -> sApos
\* one character, as itself if that is allowed
Char(ch, never, r) ==
  LET s == (r % 4) IN
  IF s = 0 THEN <<38, 35>> \o Dec(ch) \o <<59>>
  ELSE IF s = 1 THEN <<38, 35, 120>> \o Hex(ch) \o <<59>>
  ELSE IF ch \in {60, 62, 38, 34, 39} /\ (s = 2 \/ ch \in never) THEN Named(ch)
  ELSE IF ch \in never THEN <<38, 35>> \o Dec(ch) \o <<59>>
  ELSE Utf8(ch)

\* ------------------------------------------------------------- declarations
\* entities: e is text, n leads to e, x is outside, %p is a parameter
sE == <<101>>
sN == <<110>>
sX == <<120>>
EText == <<118, 195, 169>>
DeclE == sEntity \o <<32, 101, 32, 34>> \o EText \o <<34, 62>>
DeclN == sEntity \o <<32, 110, 32, 39, 60>> \o <<39, 62>>          \* never used: not well formed where used
DeclN2 == sEntity \o <<32, 110, 32, 39, 38, 101, 59, 38, 101, 59, 39, 62>>   \* &e;&e;
DeclX == sEntity \o <<32, 120, 32>> \o sSystem \o <<32, 34, 102, 105, 108, 101, 58, 47, 47, 47, 110, 111, 110, 101, 34, 62>>
DeclXP == sEntity \o <<10, 120, 32>> \o sPublic \o <<32, 34, 45, 34, 32, 39, 110, 111, 110, 101, 39, 62>>
DeclP == sEntity \o <<32, 37, 32, 112, 32, 34, 60, 33, 69, 76, 69, 77, 69, 78, 84, 32, 122, 32, 65, 78, 89, 62, 34, 62>>
UseP == <<37, 112, 59>>
DeclU == <<60, 33, 78, 79, 84, 65, 84, 73, 79, 78, 32, 103, 32>> \o sSystem \o <<32, 34, 103, 34, 62>>
         \o sEntity \o <<32, 117, 32>> \o sSystem \o <<32, 34, 117, 34, 32, 78, 68, 65, 84, 65, 32, 103, 62>>
Element == <<60, 33, 69, 76, 69, 77, 69, 78, 84, 32, 97, 32, 65, 78, 89, 62>>
Attlist == <<60, 33, 65, 84, 84, 76, 73, 83, 84, 32, 97, 32, 98, 32, 67, 68, 65, 84, 65, 32, 35, 73, 77, 80, 76, 73, 69, 68, 62>>
Harmless == <<Element, Attlist, <<10>>, sComment \o <<32, 60, 33, 69, 78, 84, 73, 84, 89, 32>> \o sCommentEnd,
              sPiOpen \o <<112, 32, 37>> \o sPiEnd>>
Decls == CASE Dtd = 1 -> Pick(Harmless, T(5)) \o Pick(Harmless, T(6))
           [] Dtd = 2 -> Pick(Harmless, T(5)) \o DeclE \o DeclN2
           [] Dtd = 3 -> DeclE \o DeclN2 \o Pick(<<DeclX, DeclXP, DeclU>>, T(5))
           [] Dtd = 4 -> Pick(<<DeclP, DeclP \o UseP, DeclP, DeclN \o DeclP>>, T(5)) \o Pick(Harmless, T(6))
           [] OTHER -> <<>>
HasE == Dtd \in {2, 3}
HasX == Dtd = 3 /\ (T(5) % 3) # 2
UsesX == (T(11) % 2) = 0
Subsets == IF Dtd = 1 /\ (T(4) % 3) = 0 THEN <<>> ELSE <<32, 91>> \o Decls \o <<93>>
External == CASE (T(4) % 5) = 0 -> <<32>> \o sSystem \o <<32, 34, 104, 116, 116, 112, 58, 47, 47, 49, 50, 55, 46, 48, 46, 48, 46, 49, 58, 49, 47, 120, 34>>
              [] (T(4) % 5) = 1 /\ Dtd # 3 -> <<10>> \o sPublic \o <<32, 39, 45, 39, 32, 34, 102, 105, 108, 101, 58, 47, 47, 47, 110, 111, 34>>
              [] OTHER -> <<>>
Declaration == IF Dtd = 0 THEN <<>> ELSE sDoctype \o <<32, 97>> \o External \o Subsets \o Pick(<< <<>>, <<32>> >>, T(6)) \o <<62>>
Prolog == Pick(<< <<>>, <<>>, <<>>,
   <<60,63,120,109,108,32,118,101,114,115,105,111,110,61,34,49,46,48,34,63,62,10>>,
   <<60,63,120,109,108,32,118,101,114,115,105,111,110,61,39,49,46,48,39,32,101,110,99,111,100,105,110,103,61,39,117,116,102,45,56,39,63,62>>
   >>, T(7))
Misc(r) == Pick(<< <<>>, <<>>, <<>>, <<10>>, sComment \o <<60, 98, 62, 32>> \o sCommentEnd, sPiOpen \o <<113, 32, 60>> \o sPiEnd >>, r)

\* -------------------------------------------------------------- the writer
\* st: <<name as written, full name, namespaces>>; bare as in the reader
Start == [b |-> Prolog \o Misc(T(8)) \o Declaration \o Misc(T(9)), out |-> <<>>, st |-> <<>>, bare |-> FALSE, n |-> 0]
Env(x) == IF x.st = <<>> THEN <<>> ELSE x.st[1][3]
Put(x, b, t) == [x EXCEPT !.b = @ \o b, !.out = IF t = <<>> THEN @ ELSE @ \o (IF x.bare THEN <<62>> ELSE <<>>) \o t,
                          !.bare = IF t = <<>> THEN @ ELSE FALSE]
Url(env, p) == LET S == {i \in DOMAIN env : env[i][1] = p} IN
               IF S = {} THEN <<>> ELSE env[CHOOSE i \in S : \A k \in S : i <= k][2]
FullOf(nm, env, isAttr) ==
  LET p == IF Len(nm) > 2 /\ nm[2] = 58 THEN sP ELSE <<>>
      l == IF p = sP THEN SubSeq(nm, 3, Len(nm)) ELSE nm
      u == IF p = <<>> /\ isAttr THEN <<>> ELSE Url(env, p)
  IN IF u = <<>> THEN l ELSE <<123>> \o u \o <<125>> \o l
RECURSIVE AttrVal(_, _, _, _)
AttrVal(q, k, n, acc) ==      \* n characters
  IF n = 0 THEN acc ELSE
  LET ch == Pick(Chs, T(k)) IN
  IF HasE /\ (T(k) % 5) = 0 THEN AttrVal(q, k + 1, n - 1, <<acc[1] \o <<38, 101, 59>>, acc[2] \o EText>>)
  ELSE AttrVal(q, k + 1, n - 1, <<acc[1] \o Char(ch, {60, 38, q, 10}, T(k) \div 16), acc[2] \o Utf8(ch)>>)
Quoting == <<34, 39>>
Gap(r) == Pick(<< <<32>>, <<32>>, <<10, 32>> >>, r)
OpenTag(x, k) ==
  LET d == T(k) % 7                       \* declares a namespace
      new == (IF d \in {0, 1} THEN << <<sP, Pick(Uris, T(k + 1))>> >> ELSE <<>>)
             \o (IF d \in {1, 2} THEN << << <<>>, Pick(<<Uris[1], Uris[2], <<>>>>, T(k + 2))>> >> ELSE <<>>)
      env == new \o Env(x)
      hasP == Url(env, sP) # <<>>
      nm == IF x.st = <<>> /\ Dtd # 0 THEN <<97>> ELSE IF hasP THEN Pick(Names, T(k + 3)) ELSE Pick(Plain, T(k + 3))
      NsText(i) == <<32>> \o sXmlns \o (IF new[i][1] = <<>> THEN <<>> ELSE <<58>> \o sP) \o <<61, 34>> \o new[i][2] \o <<34>>
      na == T(k + 4) % 3
      an(i) == IF hasP /\ (T(k + 5) % 2) = 0 THEN << <<112, 58, 97>>, <<97>> >>[i] ELSE << <<195, 169>>, <<95, 120>> >>[i]
      av(i) == AttrVal(Pick(Quoting, T(k + 6)), k + 6 + i, T(k + 5) % 4, << <<>>, <<>> >>)
      q == Pick(Quoting, T(k + 6))
      AText(i) == Gap(T(k + 6 + i)) \o an(i) \o Pick(<< <<61>>, <<61>>, <<32, 61, 10>> >>, T(k + i)) \o <<q>> \o av(i)[1] \o <<q>>
      attrs == {<<FullOf(an(i), env, TRUE), av(i)[2]>> : i \in 1..na}
      b == <<60>> \o nm \o (IF Len(new) > 0 THEN NsText(1) ELSE <<>>)
           \o (IF na > 0 THEN AText(1) ELSE <<>>)
           \o (IF na > 1 THEN AText(IF Flaw = 1 THEN 1 ELSE 2) ELSE <<>>)
           \o (IF Len(new) > 1 THEN NsText(2) ELSE <<>>)
      full == FullOf(nm, env, FALSE)
      y == Put(x, b, <<60>> \o full \o AttrText(attrs))
  IN IF T(k + 7) % 5 = 0
     THEN [y EXCEPT !.b = @ \o Pick(<< <<47, 62>>, <<32, 47, 62>> >>, T(k + 8)), !.out = @ \o <<32, 47, 62>>]
     ELSE [y EXCEPT !.b = @ \o Pick(<< <<62>>, <<32, 62>> >>, T(k + 8)), !.bare = TRUE,
                    !.st = << <<nm, full, env>> >> \o @]
CloseTag(x, r) ==
  LET nm == IF Flaw = 2 THEN x.st[1][1] \o <<120>> ELSE x.st[1][1] IN
  [x EXCEPT !.b = @ \o <<60, 47>> \o nm \o (IF (r % 8) = 0 THEN <<32>> ELSE <<>>) \o <<62>>,
            !.out = @ \o (IF x.bare THEN <<32, 47, 62>> ELSE <<60, 47>> \o x.st[1][2] \o <<62>>),
            !.st = Tail(@), !.bare = FALSE]
Inner(x, k) ==
  LET r == T(k) % 16
      ch == Pick(Chs, T(k + 1))
      ch2 == Pick(Chs, T(k + 2))
  IN CASE r < 4 -> Put(x, Char(ch, {60, 38}, T(k + 3)) \o Char(ch2, {60, 38}, T(k + 4)),
                       Esc(Utf8(ch) \o Utf8(ch2), FALSE))
       [] r = 4 -> Put(x, sCdata \o Utf8(ch) \o Utf8(ch2) \o sCdataEnd, Esc(Utf8(ch) \o Utf8(ch2), FALSE))
       [] r = 5 -> Put(x, sCdata \o sCdataEnd, <<>>)
       [] r = 6 -> Put(x, sComment \o <<60, 38, 32>> \o sCommentEnd, <<>>)
       [] r = 7 -> Put(x, sPiOpen \o <<112, 32, 60, 47, 97, 62>> \o sPiEnd, <<>>)
       [] r \in {8, 9} /\ HasX /\ UsesX -> [Put(x, <<38, 120, 59>>, <<>>) EXCEPT !.n = 1]
       [] r = 8 /\ HasE -> Put(x, <<38, 101, 59>>, EText)
       [] r = 9 /\ HasE -> Put(x, <<38, 110, 59>>, EText \o EText)
       [] r = 8 /\ ~HasE /\ Flaw = 3 -> Put(x, <<38, 101, 59>>, EText)
       [] r < 12 /\ Len(x.st) > 1 -> CloseTag(x, T(k + 1))
       [] OTHER -> OpenTag(x, k + 1)

Init == c \in DOMAIN Tapes /\ j = 16 /\ w = Start /\ ph = "root"
Root == ph = "root" /\ w' = OpenTag(w, j) /\ j' = j + 12 /\ ph' = "in" /\ c' = c
Grow == ph = "in" /\ w.st # <<>> /\ j < 16 + 12 * Budget
        /\ w' = Inner(w, j) /\ j' = j + 12 /\ UNCHANGED <<c, ph>>
Shut == ph = "in" /\ w.st # <<>> /\ j >= 16 + 12 * Budget
        /\ (IF Flaw = 4 THEN w' = [w EXCEPT !.st = <<>>] ELSE w' = CloseTag(w, T(j)))
        /\ j' = j + 1 /\ UNCHANGED <<c, ph>>
\* flaws behind the root
After == CASE Flaw = 5 -> <<60, 97, 47, 62>> [] Flaw = 6 -> <<120>> [] Flaw = 7 -> <<60, 98>> [] Flaw = 8 -> Misc(T(10)) \o sCdata \o sCdataEnd
           [] OTHER -> Misc(T(10))
Whole == w.b \o After
R == ReadXml(Whole)
Finish == ph = "in" /\ w.st = <<>> /\ ph' = "end" /\ UNCHANGED <<c, j, w>>
          /\ PrintT(ToJson([id |-> c, w |-> Whole, c |-> w.out, dtd |-> Dtd # 0, decl |-> Dtd > 1, flaw |-> Flaw,
                            ok |-> R.ok, found |-> [ok |-> R.ok, dtd |-> R.dtd, decl |-> R.decl, ext |-> R.ext, out |-> R.out]]))
Next == Root \/ Grow \/ Shut \/ Finish
Spec == Init /\ [][Next]_vars
\* the reader finds what was written
Found == ph = "end" =>
  /\ Flaw = 0 /\ w.n = 0 => R.ok /\ R.out = w.out
  /\ w.n = 1 => ~R.ok
  /\ Flaw \in 5..8 => ~R.ok
  /\ R.ok => R.out = w.out \/ Flaw # 0
  /\ (Flaw = 0 /\ w.n = 0 => R.dtd = (Dtd # 0) /\ R.decl = (Dtd > 1))
\* what a document means is a document that means itself (without namespaces)
Fixed == (ph = "end" /\ R.ok /\ {i \in DOMAIN R.out : R.out[i] = 123} = {}) =>
         LET x == ReadXml(R.out) IN x.ok /\ x.out = R.out /\ ~x.dtd
\* more permission never changes the meaning
Monotone == ph = "end" =>
  \A d, e \in BOOLEAN : LET v == Answer(Whole, d, e) IN
     /\ (v[1] = "doc" => Answer(Whole, FALSE, FALSE) = v)
     /\ (d /\ R.dtd) => v[1] = "xml"
=============================================================================
