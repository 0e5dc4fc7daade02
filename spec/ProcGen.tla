------------------------------- MODULE ProcGen ------------------------------
(* Histories: adding and removing processors, feeding and taking.           *)
EXTENDS Proc, Json, IOUtils
CONSTANTS V, NP, NOps
Tapes == ndJsonDeserialize(IOEnv.TAPES)
Pool == ndJsonDeserialize(IOEnv.POOL)
ND == 2
VARIABLES c, ps, dec, left, hist, ph, log
vars == <<c, ps, dec, left, hist, ph, log>>
T(k) == Tapes[c][k]
Pick(q, r) == q[1 + (r % Len(q))]
Msg(r) == Pick(Pool, r).inp
KindOf == [p \in 1..NP |-> IF p <= 5 THEN Kinds[p] ELSE Pick(Kinds, T(p))]
Base == NP + ND
Op(k) ==
  LET a == T(k) % 16
      p == 1 + (T(k + 1) % NP)
      x == 1 + (T(k + 1) % ND) IN
  IF a < 2 \/ (a = 2 /\ ps = <<>>) THEN [op |-> "add", p |-> p]
  ELSE IF a < 5 THEN (IF ps # <<>> THEN [op |-> "remove", p |-> Pick(ps, T(k + 1))] ELSE [op |-> "add", p |-> p])
  ELSE IF a < 8 /\ left[x] # <<>> THEN
     LET n == 1 + (T(k + 2) % Len(left[x])) IN [op |-> "feed", x |-> x, b |-> SubSeq(left[x], 1, n)]
  ELSE IF a = 15 /\ Exhausted(dec[x].d) /\ left[x] = <<>> THEN [op |-> "dclear", x |-> x, next |-> T(k + 2)]
  ELSE IF a = 14 THEN [op |-> "decode", b |-> Msg(T(k + 2))]
  ELSE [op |-> "take", x |-> x]
Init == /\ c \in 1..Len(Tapes) /\ hist = <<>> /\ ph = "go" /\ ps = <<>> /\ log = <<>>
        /\ dec = [i \in 1..ND |-> [d |-> NewDec(V), n |-> 0]]
        /\ left = [i \in 1..ND |-> Pick(Pool, Tapes[c][NP + i]).inp]
Grow ==
  /\ ph = "go" /\ Len(hist) < NOps
  /\ LET o == Op(Base + 1 + 3 * Len(hist)) IN
     /\ hist' = Append(hist, o)
     /\ ps' = (CASE o.op = "add" -> Append(ps, o.p) [] o.op = "remove" -> Without(ps, o.p) [] OTHER -> ps)
     /\ LET t == IF o.op = "take" THEN TakeOf(dec[o.x].d) ELSE <<>>
            h == IF o.op = "take" THEN Through(KindOf, ps, dec[o.x].n) ELSE <<>> IN
        /\ dec' = (CASE o.op = "feed" -> [dec EXCEPT ![o.x].d = DecFed(@, o.b)]
                     [] o.op = "take" -> [dec EXCEPT ![o.x] = IF t.r = "value" THEN [d |-> t.d, n |-> h.n] ELSE @]
                     [] o.op = "dclear" -> [dec EXCEPT ![o.x] = [d |-> DecCleared(@.d), n |-> 0]]
                     [] OTHER -> dec)
        /\ log' = (IF o.op = "take" /\ t.r = "value" THEN h.log ELSE <<>>)
     /\ left' = (CASE o.op = "feed" -> [left EXCEPT ![o.x] = SubSeq(@, Len(o.b) + 1, Len(@))]
                   [] o.op = "dclear" -> [left EXCEPT ![o.x] = Msg(o.next)]
                   [] OTHER -> left)
  /\ UNCHANGED <<c, ph>>
Emit == /\ ph = "go" /\ Len(hist) = NOps
        /\ PrintT(ToJson([id |-> c, v |-> V, kinds |-> KindOf, ops |-> hist])) /\ ph' = "end"
        /\ UNCHANGED <<c, ps, dec, left, hist, log>>
Next == Grow \/ Emit
Spec == Init /\ [][Next]_vars
\* the calls for an element are a prefix of the list, all of it unless one fails
InOrder == LET k == Len(log) IN
  /\ k <= Len(ps) /\ \A i \in 1..k : log[i][1] = ps[i]
  /\ (k > 0 /\ k < Len(ps)) => KindOf[ps[k]] = "fail"
=============================================================================
