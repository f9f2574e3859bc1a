---------------------------------- MODULE Num ----------------------------------
(* Numbers shared by the specifications. An f32 is represented by its key: the   *)
(* bit pattern of its magnitude, negated for negative values, so that the order  *)
(* of keys is the order of floats. Grid coordinates are integers; with scale sh  *)
(* the integer n stands for n / 2^sh. Every intermediate value fits 32 bits.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144,
        524288, 1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456,
        536870912, 1073741824>>
Pow2(i) == P2[i + 1]

Abs(n) == IF n < 0 THEN -n ELSE n
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
SetMax(S) == CHOOSE x \in S : \A y \in S : x >= y

(* floor(log2 n) for 1 <= n < 2^31 *)
Log2(n) ==
  LET a == IF n >= 65536 THEN 16 ELSE 0
      n1 == n \div Pow2(a)
      b == IF n1 >= 256 THEN 8 ELSE 0
      n2 == n1 \div Pow2(b)
      d == IF n2 >= 16 THEN 4 ELSE 0
      n3 == n2 \div Pow2(d)
  IN a + b + d + (IF n3 >= 8 THEN 3 ELSE IF n3 >= 4 THEN 2 ELSE IF n3 >= 2 THEN 1 ELSE 0)

M23 == 8388608
Inf == 2139095040            \* key of +infinity
NanKey == 2147483647

(* Key of n / 2^sh, exact for |n| < 2^24 *)
Key(n, sh) ==
  IF n = 0 THEN 0
  ELSE LET m == Abs(n)
           e == Log2(m)
           k == (127 + e - sh) * M23 + (IF e <= 23 THEN (m - Pow2(e)) * Pow2(23 - e)
                                                   ELSE (m - Pow2(e)) \div Pow2(e - 23))
       IN IF n < 0 THEN -k ELSE k

(* floor(|value| * 2^f) and ceiling for a key k >= 0, saturating at 2^30 *)
MagFloor(k, f) ==
  IF k < M23 THEN 0
  ELSE LET s == (k \div M23) - 150 + f
           m == M23 + (k % M23)
       IN IF s >= 6 THEN Pow2(30) ELSE IF s >= 0 THEN m * Pow2(s) ELSE IF s < -24 THEN 0 ELSE m \div Pow2(-s)
MagCeil(k, f) ==
  IF k = 0 THEN 0 ELSE IF k < M23 THEN 1
  ELSE LET s == (k \div M23) - 150 + f
           m == M23 + (k % M23)
       IN IF s >= 6 THEN Pow2(30) ELSE IF s >= 0 THEN m * Pow2(s) ELSE IF s < -24 THEN 1
          ELSE (m + Pow2(-s) - 1) \div Pow2(-s)
FixFloor(k, f) == IF k >= 0 THEN MagFloor(k, f) ELSE -MagCeil(-k, f)
FixCeil(k, f)  == IF k >= 0 THEN MagCeil(k, f)  ELSE -MagFloor(-k, f)

RECURSIVE Divide(_, _, _)
Divide(q, r, den) ==
  IF q >= M23 THEN q
  ELSE LET r2 == 2 * r IN IF r2 >= den THEN Divide(2 * q + 1, r2 - den, den) ELSE Divide(2 * q, r2, den)
RECURSIVE NormUp(_, _, _)
NormUp(num, den, e) == IF num >= den THEN <<num, e>> ELSE NormUp(2 * num, den, e - 1)

(* Key of the largest float <= (num/den) / 2^sh, for num >= 0, 0 < den < 2^29 *)
RatKey(num, den, sh) ==
  IF num = 0 THEN 0
  ELSE LET nu == NormUp(num, den, 0)
           q == nu[1] \div den
           e == Log2(q)
           m == IF e > 23 THEN q \div Pow2(e - 23) ELSE Divide(q, nu[1] % den, den)
       IN (127 + e + nu[2] - sh) * M23 + (m - M23)

(* Sign of a/b - c/d for b, d > 0 without overflow *)
RECURSIVE RatCmp(_, _, _, _)
RatCmp(a, b, c, d) ==
  LET q1 == a \div b
      q2 == c \div d
      r1 == a % b
      r2 == c % d
  IN IF q1 # q2 THEN (IF q1 < q2 THEN -1 ELSE 1)
     ELSE IF r1 = 0 /\ r2 = 0 THEN 0
     ELSE IF r1 = 0 THEN -1
     ELSE IF r2 = 0 THEN 1
     ELSE RatCmp(d, r2, b, r1)
================================================================================
