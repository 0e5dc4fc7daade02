-------------------------------- MODULE Dates -------------------------------
(* The proleptic Gregorian calendar and instants, in milliseconds since     *)
(* 1970-01-01 UTC.  An instant is <<hi, lo>> for hi * 2^26 + lo with        *)
(* 0 <= lo < 2^26 (TLC integers have 32 bits).                              *)
EXTENDS Bytes
M26 == 67108864
\* days since 1970-01-01 of a date
DaysOf(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy - era * 400
      doy == ((153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5) + d - 1
      doe == yoe * 365 + (yoe \div 4) - (yoe \div 100) + doy
  IN era * 146097 + doe - 719468
\* and back: <<y, m, d>>
DateOf(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - (doe \div 1460) + (doe \div 36524) - (doe \div 146096)) \div 365
      doy == doe - (365 * yoe + (yoe \div 4) - (yoe \div 100))
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - ((153 * mp + 2) \div 5) + 1>>
\* days * 86400000 + ms; 86400000 = 2^26 + 9419 * 2^11 + 2^10
Norm(hi, lo) == <<hi + (lo \div M26), lo % M26>>
Plus(a, b) == Norm(a[1] + b[1], a[2] + b[2])
InstantOf(day, ms) ==
  LET a == day \div 2048    b == day % 2048
      x == b * 9419         y == a * 9419
      t0 == Norm(day, ms)
      t1 == Norm(x \div 32768, (x % 32768) * 2048)
      t2 == Norm(y \div 16, (y % 16) * 4194304)
      t3 == Norm(day \div 65536, (day % 65536) * 1024)
  IN Plus(Plus(t0, t1), Plus(t2, t3))
Minus(i, ms) == Norm(i[1], i[2] - ms)
\* from the magnitude with a sign that Nearest gives
OfNearest(n) == IF n[1] >= 0 THEN <<n[2], n[3]>>
                ELSE IF n[3] = 0 THEN <<-n[2], 0>> ELSE <<-n[2] - 1, M26 - n[3]>>
\* the double of an instant
ToDouble(i) ==
  IF i = <<0, 0>> THEN I2D(0)
  ELSE
  LET neg == i[1] < 0
      hi == IF ~neg THEN i[1] ELSE IF i[2] = 0 THEN -i[1] ELSE -i[1] - 1
      lo == IF ~neg THEN i[2] ELSE IF i[2] = 0 THEN 0 ELSE M26 - i[2]
      e == IF hi > 0 THEN 26 + Log2(hi) ELSE Log2(lo)
      x == (IF neg THEN 2048 ELSE 0) + 1023 + e
      MagBit(k) == IF k < 0 THEN 0 ELSE IF k >= 26 THEN (hi \div Pow2(k - 26)) % 2 ELSE (lo \div Pow2(k)) % 2
      Bit(k) == IF k < 12 THEN (x \div Pow2(11 - k)) % 2 ELSE MagBit(e - (k - 11))
      Byte(j) == Bit(8*j)*128 + Bit(8*j+1)*64 + Bit(8*j+2)*32 + Bit(8*j+3)*16
               + Bit(8*j+4)*8 + Bit(8*j+5)*4 + Bit(8*j+6)*2 + Bit(8*j+7)
  IN [j \in 1..8 |-> Byte(j - 1)]
\* the instant of what a calendar and a clock show: y, m, d, h, mi, s, us, and
\* the minutes that the clock is ahead of UTC; to the nearest millisecond
InstantAt(f) ==
  LET ms == ((f[4] * 60 + f[5]) * 60 + f[6]) * 1000 + ((f[7] + 500) \div 1000) - f[8] * 60000
  IN InstantOf(DaysOf(f[1], f[2], f[3]), ms)
\* the double that stands for a date, with an offset (ms) taken off
Wire(f, tz) == ToDouble(Minus(InstantAt(f), tz))
IsDateBytes(b) == Len(b) = 8
=============================================================================
