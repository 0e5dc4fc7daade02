----------------------------- MODULE DatesModel ----------------------------
(* The calendar, day by day: the state is a date that is stepped through    *)
(* To days from several places on; DaysOf and DateOf must agree with the stepping.    *)
EXTENDS Dates, TLC
CONSTANT To
VARIABLES n, d
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
Days(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
Tomorrow(x) == IF x[3] < Days(x[1], x[2]) THEN <<x[1], x[2], x[3] + 1>>
               ELSE IF x[2] < 12 THEN <<x[1], x[2] + 1, 1>> ELSE <<x[1] + 1, 1, 1>>
\* the calendar repeats after 400 years; start in several places
Starts == {-719162, -146097, -1, 0, 10956, 2932896 - 146097 - 400}
Init == n \in Starts /\ d = DateOf(n)
Next == n' = n + 1 /\ d' = Tomorrow(d) /\ (\E s \in Starts : n >= s /\ n < s + To) /\ n < 2932896
Spec == Init /\ [][Next]_<<n, d>>
Agree == DaysOf(d[1], d[2], d[3]) = n /\ DateOf(n) = d
Epoch == n = 0 => d = <<1970, 1, 1>>
First == n = -719162 => d = <<1, 1, 1>>
Last == n = 2932896 => d = <<9999, 12, 31>>
\* an instant survives being a double
Double == \A ms \in {0, 1, 86399999} : OfNearest(Nearest(ToDouble(InstantOf(n, ms)))) = InstantOf(n, ms)
Order == InstantOf(n, 86400000) = InstantOf(n + 1, 0)
=============================================================================
