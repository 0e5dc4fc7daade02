------------------------------- MODULE Bytes -------------------------------
(* Numbers and text as sequences of bytes (0..255): the lowest layer of the *)
(* AMF wire formats.  TLC integers are 32 bit, so doubles are byte strings. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Pow2(n) == 2^n

U8(n)  == <<n>>
U16(n) == <<n \div 256, (n % 256)>>
\* n is a non negative TLC integer
U32(n) == <<n \div 16777216, ((n \div 65536) % 256), ((n \div 256) % 256), (n % 256)>>

\* --------------------------------------------------------------- AMF3 U29
\* 0 <= n < 2^29, written with as few bytes as possible
U29(n) ==
  IF n < 128 THEN <<n>>
  ELSE IF n < 16384 THEN <<128 + n \div 128, (n % 128)>>
  ELSE IF n < 2097152 THEN <<128 + n \div 16384, 128 + ((n \div 128) % 128), (n % 128)>>
  ELSE <<128 + n \div 4194304, 128 + ((n \div 32768) % 128),
         128 + ((n \div 256) % 128), (n % 256)>>

\* the same number with exactly k bytes (k at least the minimum): legal on
\* the wire although no encoder should produce it
U29Pad(n, k) ==
  IF k = 4 THEN <<128 + n \div 4194304, 128 + ((n \div 32768) % 128),
                  128 + ((n \div 256) % 128), (n % 256)>>
  ELSE IF k = 3 /\ n < 2097152
       THEN <<128 + n \div 16384, 128 + ((n \div 128) % 128), (n % 128)>>
  ELSE IF k = 2 /\ n < 16384 THEN <<128 + n \div 128, (n % 128)>>
  ELSE U29(n)

I29(n) == IF n < 0 THEN U29(n + 536870912) ELSE U29(n)
ToI29(u) == IF u >= 268435456 THEN u - 536870912 ELSE u
MinI29 == -268435456
MaxI29 == 268435455
IsI29(n) == n >= MinI29 /\ n <= MaxI29

Need == -1   \* "more bytes are needed"

\* U29 at position p (1 based): <<value or Need, position after it>>
U29At(s, p) ==
  LET L == Len(s) IN
  IF p > L THEN <<Need, p>>
  ELSE IF s[p] < 128 THEN <<s[p], p + 1>>
  ELSE IF p + 1 > L THEN <<Need, p>>
  ELSE IF s[p+1] < 128 THEN <<(s[p] - 128) * 128 + s[p+1], p + 2>>
  ELSE IF p + 2 > L THEN <<Need, p>>
  ELSE IF s[p+2] < 128
       THEN <<(s[p] - 128) * 16384 + (s[p+1] - 128) * 128 + s[p+2], p + 3>>
  ELSE IF p + 3 > L THEN <<Need, p>>
  ELSE <<(s[p] - 128) * 4194304 + (s[p+1] - 128) * 32768 + (s[p+2] - 128) * 256
         + s[p+3], p + 4>>

U16At(s, p) == IF p + 1 > Len(s) THEN <<Need, p>>
               ELSE <<s[p] * 256 + s[p+1], p + 2>>
\* counts of 2^30 and more do not fit: 2^30 stands for all of them
Huge == 1073741824
U32At(s, p) == IF p + 3 > Len(s) THEN <<Need, p>>
               ELSE <<IF s[p] >= 64 THEN Huge
                      ELSE s[p] * 16777216 + s[p+1] * 65536 + s[p+2] * 256 + s[p+3],
                      p + 4>>

\* ------------------------------------------------------------ IEEE doubles
RECURSIVE Log2(_)
Log2(n) == IF n < 2 THEN 0 ELSE 1 + Log2(n \div 2)

Abs(n) == IF n < 0 THEN -n ELSE n

\* the double equal to the integer n, |n| < 2^31
I2D(n) ==
  IF n = 0 THEN <<0, 0, 0, 0, 0, 0, 0, 0>>
  ELSE
    LET a == Abs(n)
        e == Log2(a)
        x == (IF n < 0 THEN 2048 ELSE 0) + 1023 + e    \* sign and exponent
        f == a - Pow2(e)                               \* e bits of fraction
        Bit(i) ==                                      \* i in 0..63, MSB first
          IF i < 12 THEN (x \div Pow2(11 - i)) % 2
          ELSE IF i - 12 < e THEN (f \div Pow2(e - 1 - (i - 12))) % 2
          ELSE 0
        Byte(j) == Bit(8*j)*128 + Bit(8*j+1)*64 + Bit(8*j+2)*32 + Bit(8*j+3)*16
                 + Bit(8*j+4)*8 + Bit(8*j+5)*4 + Bit(8*j+6)*2 + Bit(8*j+7)
    IN  [j \in 1..8 |-> Byte(j - 1)]

IsNaN(b) == /\ (b[1] % 128) = 127
            /\ b[2] >= 240
            /\ \/ b[2] # 240
               \/ \E i \in 3..8 : b[i] # 0
IsZero(b) == b[1] \in {0, 128} /\ \A i \in 2..8 : b[i] = 0

\* numerically equal (and, for zeros, whatever their sign)
DEq(a, b) == \/ a = b
             \/ IsNaN(a) /\ IsNaN(b)
             \/ IsZero(a) /\ IsZero(b)
\* bit for bit, with one NaN
DSame(a, b) == a = b \/ (IsNaN(a) /\ IsNaN(b))

\* the integer nearest to a double x, |x| < 2^53: <<sign, hi, lo>> stands for
\* sign * (hi * 2^26 + lo)
BitAt(b, i) == (b[1 + (i \div 8)] \div Pow2(7 - (i % 8))) % 2    \* i in 0..63
\* bits i..k (at most 26 of them) as a number
RECURSIVE WholeBytes(_, _, _, _)
WholeBytes(b, i, j, acc) == IF i >= j THEN acc ELSE WholeBytes(b, i + 1, j, acc * 256 + b[1 + i])
BitsVal(b, i, k) ==
  IF k < i THEN 0 ELSE
  LET j0 == i \div 8
      j1 == k \div 8
      tail == b[1 + j1] \div Pow2(7 - (k % 8))
  IN IF j0 = j1 THEN tail % Pow2(k - i + 1)
     ELSE WholeBytes(b, j0 + 1, j1, b[1 + j0] % Pow2(8 - (i % 8))) * Pow2(1 + (k % 8)) + tail
Nearest(b) ==
  LET e == (b[1] % 128) * 16 + (b[2] \div 16) - 1023
      \* bits 12.. are the fraction; bit f + 11 is the last of the integer
      last == 11 + e
      up == IF e < -1 THEN 0 ELSE IF e = -1 THEN 1 ELSE IF e >= 52 THEN 0 ELSE BitAt(b, last + 1)
      Top1(n) == IF n >= 0 THEN Pow2(n) ELSE 0     \* the implicit leading bit
      lo0 == IF e < 0 THEN 0
             ELSE IF e < 26 THEN Top1(e) + BitsVal(b, 12, last)
             ELSE BitsVal(b, last - 25, last)
      hi0 == IF e < 26 THEN 0 ELSE Top1(e - 26) + BitsVal(b, 12, last - 26)
      lo1 == lo0 + up
      lo == lo1 % 67108864
      hi == hi0 + (lo1 \div 67108864)
  IN IF IsZero(b) \/ (hi = 0 /\ lo = 0) THEN <<0, 0, 0>>
     ELSE <<IF b[1] >= 128 THEN -1 ELSE 1, hi, lo>>

\* ------------------------------------------------------------------- UTF-8
\* every byte is a continuation of a character that began before it, or the
\* beginning of one that is all there (no overlong forms, no surrogates)
Utf8Len(x) == IF x < 128 THEN 1 ELSE IF x < 194 THEN 0 ELSE IF x < 224 THEN 2
              ELSE IF x < 240 THEN 3 ELSE IF x < 245 THEN 4 ELSE 0
IsCont(x) == x >= 128 /\ x < 192
Utf8Begins(b, i) ==
  LET n == Utf8Len(b[i]) IN
  /\ n > 0 /\ i + n - 1 <= Len(b)
  /\ \A k \in 1..(n - 1) : IsCont(b[i + k])
  /\ b[i] = 224 => b[i+1] >= 160
  /\ b[i] = 237 => b[i+1] < 160
  /\ b[i] = 240 => b[i+1] >= 144
  /\ b[i] = 244 => b[i+1] < 144
Utf8Goes(b, i) == \E k \in 1..3 : /\ i > k /\ Utf8Len(b[i - k]) > k
                                /\ \A j \in 1..(k - 1) : IsCont(b[i - j])
IsUtf8(b) == \/ \A i \in DOMAIN b : b[i] < 128
             \/ \A i \in DOMAIN b : IF IsCont(b[i]) THEN Utf8Goes(b, i) ELSE Utf8Begins(b, i)

\* ------------------------------------------------------- decimal names
Digit(x) == x >= 48 /\ x <= 57
\* the canonical decimal of an integer: "0", "12", "-7" but not "007", "-0"
IsDecimal(b) ==
  LET d == IF Len(b) > 0 /\ b[1] = 45 THEN Tail(b) ELSE b IN
  /\ Len(d) \in 1..9
  /\ \A i \in DOMAIN d : Digit(d[i])
  /\ d[1] = 48 => (Len(d) = 1 /\ Len(b) = 1)
\* something that might be read as an integer although it is not canonical
MaybeInt(b) == /\ ~IsDecimal(b)
               /\ \E i \in DOMAIN b : Digit(b[i])
               /\ \A i \in DOMAIN b : Digit(b[i]) \/ b[i] \in {9, 10, 11, 12, 13, 32, 43, 45, 76, 95, 108}
RECURSIVE DecVal(_, _)
DecVal(d, acc) == IF d = <<>> THEN acc ELSE DecVal(Tail(d), acc * 10 + Head(d) - 48)
DecimalToInt(b) == IF b[1] = 45 THEN -DecVal(Tail(b), 0) ELSE DecVal(b, 0)
RECURSIVE IntDigits(_)
IntDigits(n) == IF n < 10 THEN <<48 + n>> ELSE Append(IntDigits(n \div 10), 48 + (n % 10))
IntToDecimal(n) == IF n < 0 THEN <<45>> \o IntDigits(-n) ELSE IntDigits(n)

Slice(s, p, n) == SubSeq(s, p, p + n - 1)
=============================================================================
