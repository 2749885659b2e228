------------------------------- MODULE BigNat -------------------------------
(* Natural numbers beyond TLC's 32 bits: little-endian limbs in base 10^4.    *)
EXTENDS Integers, Sequences, TLC
LOCAL B == 10000
Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0
LOCAL MaxLen(a, b) == IF Len(a) >= Len(b) THEN Len(a) ELSE Len(b)

RECURSIVE Carry(_, _, _, _)
\* normalise the raw limb sums c from position i on, with carry k, onto acc
Carry(c, i, k, acc) ==
  IF i > Len(c) THEN IF k = 0 THEN acc ELSE Carry(c, i + 1, k \div B, Append(acc, k % B))
  ELSE LET v == c[i] + k IN Carry(c, i + 1, v \div B, Append(acc, v % B))

Add(a, b) == Carry([i \in 1..MaxLen(a, b) |-> Limb(a, i) + Limb(b, i)], 1, 0, << >>)

RECURSIVE Conv(_, _, _, _, _)
Conv(a, b, k, i, s) == IF i > Len(a) \/ i > k THEN s ELSE Conv(a, b, k, i + 1, s + a[i] * Limb(b, k + 1 - i))
Mul(a, b) == IF Len(a) = 0 \/ Len(b) = 0 THEN << >>
             ELSE Carry([k \in 1..(Len(a) + Len(b) - 1) |-> Conv(a, b, k, 1, 0)], 1, 0, << >>)

RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i = 0 THEN TRUE
                    ELSE IF Limb(a, i) # Limb(b, i) THEN Limb(a, i) < Limb(b, i) ELSE LeqFrom(a, b, i - 1)
Leq(a, b) == LeqFrom(a, b, MaxLen(a, b))
Eq(a, b) == Leq(a, b) /\ Leq(b, a)
Lt(a, b) == ~Leq(b, a)
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0

RECURSIVE SubFrom(_, _, _, _, _)
SubFrom(a, b, i, k, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET v == a[i] - Limb(b, i) - k
       IN SubFrom(a, b, i + 1, IF v < 0 THEN 1 ELSE 0, Append(acc, IF v < 0 THEN v + B ELSE v))
\* a - b for b <= a
Sub(a, b) == SubFrom(a, b, 1, 0, << >>)

Nat2Big(n) == IF n = 0 THEN << >> ELSE Carry(<<n>>, 1, 0, << >>)
\* floor(a / 10^4), floor(a / 10^8)
Drop1(a) == IF Len(a) <= 1 THEN << >> ELSE SubSeq(a, 2, Len(a))
Drop2(a) == IF Len(a) <= 2 THEN << >> ELSE SubSeq(a, 3, Len(a))
=============================================================================
