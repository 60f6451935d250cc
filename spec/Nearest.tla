------------------------------- MODULE Nearest -------------------------------
(***************************************************************************)
(* What the value of a number literal is: the double nearest to its decimal *)
(* text, of two equally near ones the even one, decided with exact natural  *)
(* numbers (little-endian limbs of base 10^4).  Every number is a record    *)
(* [i, f, neg, e, hi, lo]: digits before and after the dot, and sign,       *)
(* biased exponent and mantissa (two halves of 26 bits) of the double that  *)
(* the implementation made of it.                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Numbers == JsonDeserialize(IOEnv.NUMBERS)
Base == 10000

RECURSIVE Carry(_, _)
Carry(c, acc) == IF c = 0 THEN acc ELSE Carry(c \div Base, Append(acc, c % Base))
\* a * m + c for small m and c.
RECURSIVE MulAt(_, _, _, _, _)
MulAt(a, m, j, c, acc) ==
  IF j > Len(a) THEN Carry(c, acc)
  ELSE LET t == a[j] * m + c IN MulAt(a, m, j + 1, t \div Base, Append(acc, t % Base))
MulAdd(a, m, c) == MulAt(a, m, 1, c, <<>>)
RECURSIVE Times2(_, _)
Times2(a, s) == IF s = 0 THEN a
                ELSE IF s >= 13 THEN Times2(MulAdd(a, 8192, 0), s - 13)
                ELSE Times2(MulAdd(a, 2, 0), s - 1)
RECURSIVE Times10(_, _)
Times10(a, d) == IF d = 0 \/ a = <<>> THEN a
                 ELSE IF d >= 4 THEN Times10(<<0>> \o a, d - 4)
                 ELSE Times10(MulAdd(a, 10, 0), d - 1)
RECURSIVE OfDigits(_, _, _)
OfDigits(ds, j, a) == IF j > Len(ds) THEN a ELSE OfDigits(ds, j + 1, MulAdd(a, 10, ds[j]))
\* The natural number without leading zero limbs.
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, j) == IF j = 0 THEN 0
                  ELSE IF a[j] # b[j] THEN (IF a[j] < b[j] THEN -1 ELSE 1)
                  ELSE CmpAt(a, b, j - 1)
Cmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
             ELSE CmpAt(a, b, Len(a))

\* The decimal n / 10^d against a * 2^s.
CmpText(n, d, a, s) ==
  IF s >= 0 THEN Cmp(Trim(n), Trim(Times10(Times2(a, s), d)))
  ELSE Cmp(Trim(Times2(n, -s)), Trim(Times10(a, d)))

TwoTo26 == 67108864
Two(k) == Times2(<<1>>, k)
\* a - 1 for a > 0.
RECURSIVE Dec(_, _)
Dec(a, j) == IF a[j] > 0 THEN [a EXCEPT ![j] = @ - 1] ELSE Dec([a EXCEPT ![j] = Base - 1], j + 1)
Mantissa(x) ==
  MulAdd(MulAdd(MulAdd(Carry(x.hi + (IF x.e > 0 THEN TwoTo26 ELSE 0), <<>>), 8192, 0), 8192, 0), 1, x.lo)

IsNearest(x) ==
  LET n == OfDigits(x.i \o x.f, 1, <<>>)
      d == Len(x.f)
      m == Mantissa(x)                                 \* the double is m * 2^q
      q == (IF x.e = 0 THEN 1 ELSE x.e) - 1075
      even == x.lo % 2 = 0
      zero == Trim(m) = <<>>
      \* The midpoints to the next greater and the next smaller double; below a
      \* power of two the doubles are closer.
      power == x.hi = 0 /\ x.lo = 0 /\ x.e > 1
      upper == CmpText(n, d, MulAdd(m, 2, 1), q - 1)
      lower == IF power THEN CmpText(n, d, Dec(Times2(m, 2), 1), q - 2)
               ELSE CmpText(n, d, Dec(Times2(m, 1), 1), q - 1)
  IN /\ x.neg = 0
     /\ IF x.e = 2047       \* infinity, from halfway above the greatest double
        THEN x.hi = 0 /\ x.lo = 0 /\ CmpText(n, d, Dec(Two(54), 1), 970) >= 0
        ELSE /\ upper < 0 \/ (upper = 0 /\ even)
             /\ zero \/ lower > 0 \/ (lower = 0 /\ even)

VARIABLES at, verdict
Init == at \in 1..Len(Numbers) /\ verdict = "open"
Decide == /\ verdict = "open"
          /\ verdict' = IF IsNearest(Numbers[at]) THEN "nearest" ELSE "wrong"
          /\ (verdict' = "wrong" => JsonSerialize(IOEnv.OUT \o "/" \o ToString(at), <<at>>))
          /\ UNCHANGED at
NearestSpec == Init /\ [][Decide]_<<at, verdict>>
=============================================================================
