------------------------------------------------ MODULE Deadline ------------------------------------------------
(* Timeouts: which instant a count of some unit, on some clock, denotes, and how a timed operation on a resource    *)
(* that becomes available at most once must end. Instants are exact: signed integers of nanoseconds of arbitrary    *)
(* size, as sign and little-endian base 1000 digits (TLC's integers have 32 bits).                                  *)
(* The cases, with what the real operation did, are read from a file.                                               *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
----------------------------------------------------------------------------------------------------------------
B == 1000
RECURSIVE Trim(_)
Trim(d) == IF d = <<>> THEN d ELSE IF d[Len(d)] = 0 THEN Trim(SubSeq(d, 1, Len(d) - 1)) ELSE d
At(d, i) == IF i <= Len(d) THEN d[i] ELSE 0
Max(a, b) == IF a > b THEN a ELSE b
(* magnitudes *)
RECURSIVE MAdd(_, _, _, _)
MAdd(x, y, i, c) == IF i > Max(Len(x), Len(y)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                    ELSE LET s == At(x, i) + At(y, i) + c IN <<s % B>> \o MAdd(x, y, i + 1, s \div B)
RECURSIVE MSub(_, _, _, _)          \* x >= y
MSub(x, y, i, c) == IF i > Len(x) THEN <<>>
                    ELSE LET s == x[i] - At(y, i) - c IN <<(s + B) % B>> \o MSub(x, y, i + 1, IF s < 0 THEN 1 ELSE 0)
RECURSIVE MCmp(_, _, _)             \* trimmed, same length, from digit i downwards: -1, 0, 1
MCmp(x, y, i) == IF i = 0 THEN 0 ELSE IF x[i] < y[i] THEN -1 ELSE IF x[i] > y[i] THEN 1 ELSE MCmp(x, y, i - 1)
MLess(x, y) == IF Len(x) # Len(y) THEN Len(x) < Len(y) ELSE MCmp(x, y, Len(x)) < 0
RECURSIVE MMul(_, _, _, _)          \* by a small number
MMul(x, k, i, c) == IF i > Len(x) THEN (IF c = 0 THEN <<>> ELSE <<c % B>> \o (IF c \div B = 0 THEN <<>> ELSE <<c \div B>>))
                    ELSE LET s == x[i] * k + c IN <<s % B>> \o MMul(x, k, i + 1, s \div B)
RECURSIVE MDiv(_, _, _, _)          \* by a small number, from the top; the quotient's digits
MDiv(x, k, i, r) == IF i = 0 THEN <<>> ELSE LET s == r * B + x[i] IN Append(MDiv(x, k, i - 1, s % k), s \div k)
RECURSIVE MRem(_, _, _, _)
MRem(x, k, i, r) == IF i = 0 THEN r ELSE MRem(x, k, i - 1, (r * B + x[i]) % k)
(* signed numbers *)
N(neg, d) == LET t == Trim(d) IN [neg |-> neg /\ t # <<>>, d |-> t]
Zero == N(FALSE, <<>>)
Small(k) == IF k < 0 THEN [N(FALSE, <<(-k) % B, ((-k) \div B) % B, (-k) \div (B * B)>>) EXCEPT !.neg = TRUE] ELSE N(FALSE, <<k % B, (k \div B) % B, k \div (B * B)>>)
Neg(x) == N(~ x.neg, x.d)
Add(x, y) == IF x.neg = y.neg THEN N(x.neg, MAdd(x.d, y.d, 1, 0))
             ELSE IF MLess(x.d, y.d) THEN N(y.neg, MSub(y.d, x.d, 1, 0)) ELSE N(x.neg, MSub(x.d, y.d, 1, 0))
Sub(x, y) == Add(x, Neg(y))
Less(x, y) == IF x.neg # y.neg THEN x.neg ELSE IF x.neg THEN MLess(y.d, x.d) ELSE MLess(x.d, y.d)
Leq(x, y) == ~ Less(y, x)
MaxN(x, y) == IF Less(x, y) THEN y ELSE x
Mul(x, k) == N(x.neg, MMul(x.d, k, 1, 0))
Shift(x, k) == N(x.neg, [i \in 1..k |-> 0] \o x.d)                \* times 1000^k
(* quotient rounded towards zero *)
Div(x, k) == N(x.neg, MDiv(x.d, k, Len(x.d), 0))
Exact(x, k) == MRem(x.d, k, Len(x.d), 0) = 0
----------------------------------------------------------------------------------------------------------------
(* Units: a count of the unit is  count * mul * 1000^sh / div  nanoseconds *)
Units == [ns |-> [mul |-> 1, sh |-> 0, div |-> 1], hns |-> [mul |-> 100, sh |-> 0, div |-> 1], us |-> [mul |-> 1, sh |-> 1, div |-> 1], ms |-> [mul |-> 1, sh |-> 2, div |-> 1],
          s |-> [mul |-> 1, sh |-> 3, div |-> 1], third |-> [mul |-> 1, sh |-> 3, div |-> 3], min |-> [mul |-> 60, sh |-> 3, div |-> 1], h |-> [mul |-> 3600, sh |-> 3, div |-> 1]]
Nanos(u, c) == LET w == Units[u] IN Div(Shift(Mul(c, w.mul), w.sh), w.div)
Fractional(u, c) == LET w == Units[u] IN ~ Exact(Shift(Mul(c, w.mul), w.sh), w.div)
----------------------------------------------------------------------------------------------------------------
(* Clocks: when, in nanoseconds since the start, does the clock first show the value T (nanoseconds since its epoch)? *)
(* c: the case. rb, sb: what the system and the steady clock show at the start.                                      *)
Shows(c, T) == CASE c.clock = "sys" -> Sub(T, c.rb)
                 [] c.clock = "steady" -> Sub(T, c.sb)
                 [] c.clock = "half" -> Mul(T, 2)
                 [] c.clock = "coarse" -> T
                 [] c.clock = "future" -> Add(T, Shift(Small(5), 4))
(* the instant denoted by the timeout of the case, for a call at c.t0 *)
Instant(c) == LET v == Nanos(c.unit, c.count) IN MaxN(c.t0, IF c.clock = "rel" THEN Add(c.t0, v) ELSE Shows(c, v))
(* the resolution of the clock or representation: how far from the instant the operation may end *)
(* (c.grain: the native unit of durations, where it is coarser than a nanosecond; that of time points is then 100 ns) *)
Early(c) == IF c.grain > 0 THEN Small(100) ELSE IF c.float THEN Small(1) ELSE Zero
Late(c) == CASE c.grain > 0 -> Small(c.grain) [] c.clock = "half" -> Small(2) [] c.clock = "coarse" -> Small(1000000) [] c.clock = "future" -> Small(1000)
             [] OTHER -> IF c.float \/ Fractional(c.unit, c.count) THEN Small(1) ELSE Zero
----------------------------------------------------------------------------------------------------------------
(* A timed operation. The resource becomes available at c.a, if c.act.                                              *)
Cases == ndJsonDeserialize(IOEnv.CASES)
Big(x) == N(x[1] = 1, x[2])
C(i) == LET r == Cases[i] IN [unit |-> r.unit, clock |-> r.clock, count |-> Big(r.count), rb |-> Big(r.rb), sb |-> Big(r.sb), t0 |-> Big(r.t0), float |-> r.float = 1,
                              act |-> r.act = 1, grain |-> r.grain, a |-> Big(r.a), t1 |-> Big(r.t1), res |-> r.res]
VARIABLES i, ph, clk, res
vars == <<i, ph, clk, res>>
Init == i \in 1..Len(Cases) /\ ph = "call" /\ clk = Zero /\ res = -1
Call == ph = "call" /\ ph' = "wait" /\ clk' = C(i).t0 /\ UNCHANGED <<i, res>>
(* it is taken as soon as it is available, before the timeout *)
Obtain == LET c == C(i) IN /\ ph = "wait" /\ c.act /\ Leq(c.a, Add(Instant(c), Late(c)))
                           /\ ph' = "done" /\ clk' = MaxN(c.a, c.t0) /\ res' = 1 /\ UNCHANGED i
(* it expires at the instant, not earlier and not later: the model follows the observed time within that window *)
Expire == LET c == C(i)  I == Instant(c) IN
          /\ ph = "wait" /\ Leq(Sub(I, Early(c)), c.t1) /\ Leq(c.t1, Add(I, Late(c)))
          /\ ~ (c.act /\ Less(c.a, Sub(I, Early(c))))
          /\ ph' = "done" /\ clk' = c.t1 /\ res' = 0 /\ UNCHANGED i
Seen == LET c == C(i) IN ph = "done" /\ clk = c.t1 /\ res = c.res /\ ph' = "seen" /\ PrintT(<<"ACC", i>>) /\ UNCHANGED <<i, clk, res>>
Next == Call \/ Obtain \/ Expire \/ Seen
Spec == Init /\ [][Next]_vars
(* properties of the model *)
NeverEarly == LET c == C(i) IN ph = "done" /\ res = 0 => Leq(Instant(c), Add(clk, Small(Max(1, c.grain))))
Truthful == LET c == C(i) IN ph = "done" /\ res = 1 => c.act /\ Leq(c.a, clk)
UnitsAgree == \A k \in {0, 1, 7, 59, 61, 3599, 86399, 999999} : LET n == Small(k) IN
                /\ Nanos("s", n) = Nanos("ms", Mul(n, 1000)) /\ Nanos("ms", n) = Nanos("us", Mul(n, 1000)) /\ Nanos("us", n) = Nanos("ns", Mul(n, 1000))
                /\ Nanos("min", n) = Nanos("s", Mul(n, 60)) /\ Nanos("h", n) = Nanos("min", Mul(n, 60)) /\ Nanos("s", n) = Nanos("third", Mul(n, 3)) /\ Nanos("us", n) = Nanos("hns", Mul(n, 10))
                /\ Sub(Nanos("s", Neg(n)), Nanos("s", n)) = Nanos("s", Mul(Neg(n), 2)) /\ Add(n, Neg(n)) = Zero
ASSUME UnitsAgree
================================================================================================================
