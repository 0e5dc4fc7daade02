----------------------------- MODULE ByteArray -----------------------------
(* Typed values written to and read from a byte array.                      *)
(* An item is [k |-> kind, v |-> value, cs |-> character set]: integers are *)
(* pairs (see Stream.tla), floats their bytes, text its code points,        *)
(* objects an index into a table of value graphs.                           *)
EXTENDS Stream

TypeOf == [byte |-> "char", ubyte |-> "uchar", short |-> "short", ushort |-> "ushort",
           int |-> "long", uint |-> "ulong", float |-> "float", double |-> "double"]
NumKinds == DOMAIN TypeOf
TextKinds == {"utf", "utfb", "multi"}
Charsets == {"latin-1", "utf-8", "utf-16-be", "ascii"}

Utf8Of(cp) ==
  IF cp < 128 THEN <<cp>>
  ELSE IF cp < 2048 THEN <<192 + cp \div 64, 128 + (cp % 64)>>
  ELSE IF cp < 65536 THEN <<224 + cp \div 4096, 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
  ELSE <<240 + cp \div 262144, 128 + ((cp \div 4096) % 64), 128 + ((cp \div 64) % 64), 128 + (cp % 64)>>
Utf16Of(cp) ==
  IF cp < 65536 THEN <<cp \div 256, (cp % 256)>>
  ELSE LET x == cp - 65536  h == 55296 + x \div 1024  l == 56320 + (x % 1024)
       IN <<h \div 256, (h % 256), l \div 256, (l % 256)>>
Flat(ss) == LET RECURSIVE F(_)
                F(i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o F(i + 1)
            IN F(1)
\* many equal characters are given as <<-1, n, cp>>
Repeat(v) == v # <<>> /\ v[1] = -1
Utf8(v) == IF Repeat(v)
           THEN LET u == Utf8Of(v[3]) IN [i \in 1..(v[2] * Len(u)) |-> u[1 + ((i - 1) % Len(u))]]
           ELSE Flat([i \in DOMAIN v |-> Utf8Of(v[i])])
Fits(cs, v) == CASE cs = "latin-1" -> \A i \in DOMAIN v : v[i] < 256
                 [] cs = "ascii" -> \A i \in DOMAIN v : v[i] < 128
                 [] OTHER -> TRUE
InCharset(cs, v) == CASE cs \in {"latin-1", "ascii"} -> v
                      [] cs = "utf-8" -> Utf8(v)
                      [] cs = "utf-16-be" -> Flat([i \in DOMAIN v |-> Utf16Of(v[i])])

\* why an item is refused
Refused(x) ==
  CASE x.k \in NumKinds /\ TypeOf[x.k] \in IntTypes -> IF InRange(TypeOf[x.k], x.v) THEN "" ELSE "range"
    [] x.k = "notbool" -> "value"
    [] x.k = "utf" -> IF Len(Utf8(x.v)) > 65535 THEN "range" ELSE ""
    [] x.k = "multi" -> IF Fits(x.cs, x.v) THEN "" ELSE "value"
    [] OTHER -> ""
\* the bytes of every kind but objects
BytesOf(le, x) ==
  LET s == St(<<>>, 0, le) IN
  CASE x.k = "bool" -> <<IF x.v THEN 1 ELSE 0>>
    [] x.k \in NumKinds -> Order(s, IF TypeOf[x.k] \in IntTypes THEN IntBytes(TypeOf[x.k], x.v) ELSE x.v)
    [] x.k = "utf" -> LET u == Utf8(x.v) IN Order(s, U16(Len(u))) \o u
    [] x.k = "utfb" -> Utf8(x.v)
    [] x.k = "multi" -> InCharset(x.cs, x.v)
=============================================================================
