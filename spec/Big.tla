-------------------------------- MODULE Big --------------------------------
(* Exact natural numbers of any size: sequences of digits to the base 10^4, *)
(* the least significant one first, without leading zeros (zero: <<>>).     *)
EXTENDS Integers, Sequences
LOCAL Base == 10000
LOCAL Min2(a, b) == IF a < b THEN a ELSE b
LOCAL Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)] = 0 THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Digit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
\* sums of columns (each less than 2*10^9) to digits
RECURSIVE Carry(_, _, _, _)
Carry(s, i, c, out) == IF i > Len(s) /\ c = 0 THEN Trim(out)
                       ELSE Carry(s, i + 1, (Digit(s, i) + c) \div Base, Append(out, (Digit(s, i) + c) % Base))
RECURSIVE Col(_, _, _, _)
Col(a, b, k, i) == IF i > Min2(k, Len(a)) THEN 0
                   ELSE (IF k + 1 - i <= Len(b) THEN a[i] * b[k + 1 - i] ELSE 0) + Col(a, b, k, i + 1)
BAdd(a, b) == Carry([i \in 1..Max2(Len(a), Len(b)) |-> Digit(a, i) + Digit(b, i)], 1, 0, <<>>)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Col(a, b, k, Max2(1, k + 1 - Len(b)))], 1, 0, <<>>)
BNat(n) == Carry(<<n>>, 1, 0, <<>>)
RECURSIVE BPow(_, _)
BPow(a, k) == IF k = 0 THEN <<1>> ELSE BMul(a, BPow(a, k - 1))
RECURSIVE LessAt(_, _, _)
LessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE LessAt(a, b, i - 1)
BLess(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LessAt(a, b, Len(a))
\* a - b for a >= b
RECURSIVE Borrow(_, _, _, _, _)
Borrow(a, b, i, c, out) == IF i > Len(a) THEN Trim(out)
                           ELSE LET d == a[i] - Digit(b, i) - c
                                IN Borrow(a, b, i + 1, IF d < 0 THEN 1 ELSE 0, Append(out, IF d < 0 THEN d + Base ELSE d))
BDiff(a, b) == IF BLess(a, b) THEN Borrow(b, a, 1, 0, <<>>) ELSE Borrow(a, b, 1, 0, <<>>)

\* the arithmetic against that of TLC
LOCAL Some == {0, 1, 7, 9999, 10000, 10001, 12345, 19999, 46340, 20000}
ASSUME \A a, b \in Some : /\ BAdd(BNat(a), BNat(b)) = BNat(a + b) /\ BMul(BNat(a), BNat(b)) = BNat(a * b)
                          /\ (BLess(BNat(a), BNat(b)) <=> a < b)
                          /\ BDiff(BNat(a), BNat(b)) = BNat(IF a < b THEN b - a ELSE a - b)
ASSUME BMul(<<9999, 9999, 9999>>, <<9999, 9999, 9999>>) = <<1, 0, 0, 9998, 9999, 9999>>
=============================================================================
