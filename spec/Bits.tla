-------------------------------- MODULE Bits --------------------------------
(* Fixed width two's complement integers.  TLC's integers have 32 bits, so   *)
(* a number of width w in {8,16,32,64} is a sequence of 16 bit limbs, least  *)
(* significant first (width 8: one limb below 256).                          *)
EXTENDS Integers, Sequences, Bitwise

NL(w) == IF w <= 16 THEN 1 ELSE w \div 16
Base(w) == IF w = 8 THEN 256 ELSE 65536
Zero(w) == [i \in 1..NL(w) |-> 0]
IsZero(a) == \A i \in 1..Len(a) : a[i] = 0
Neg1(w) == [i \in 1..NL(w) |-> Base(w) - 1]

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
P2(n) == Pow2[n + 1]

\* a small natural number as a limb sequence
FromNat(n, w) == IF w <= 16 THEN <<n % Base(w)>>
                 ELSE [i \in 1..NL(w) |-> IF i = 1 THEN n % 65536 ELSE IF i = 2 THEN n \div 65536 ELSE 0]
\* the value of limbs known to be a natural below 2^31
ToNat(a) == IF Len(a) = 1 THEN a[1] ELSE a[1] + 65536 * a[2]
FitsNat(a) == \A i \in 2..Len(a) : IF i = 2 THEN a[i] < 32768 ELSE a[i] = 0

SignBit(a, w) == IF w = 8 THEN a[1] >= 128 ELSE a[Len(a)] >= 32768

RECURSIVE AddC(_, _, _, _, _)
AddC(a, b, c, i, B) ==
  IF i > Len(a) THEN <<>>
  ELSE LET s == a[i] + b[i] + c IN <<s % B>> \o AddC(a, b, s \div B, i + 1, B)
Add(a, b, w) == IF w <= 16 THEN <<(a[1] + b[1]) % Base(w)>> ELSE AddC(a, b, 0, 1, 65536)
BNot(a, w) == [i \in 1..Len(a) |-> Base(w) - 1 - a[i]]
Sub(a, b, w) == IF w <= 16 THEN <<(a[1] - b[1]) % Base(w)>> ELSE AddC(a, BNot(b, w), 1, 1, 65536)
Neg(a, w) == Sub(Zero(w), a, w)

BAnd(a, b) == [i \in 1..Len(a) |-> a[i] & b[i]]
BOr(a, b) == [i \in 1..Len(a) |-> a[i] | b[i]]
BXor(a, b) == [i \in 1..Len(a) |-> a[i] ^^ b[i]]

\* 16 x 16 -> <<low, high>>
Mul16(x, y) ==
  LET p0 == (x % 256) * y
      p1 == (x \div 256) * y
      t == p0 + (p1 % 256) * 256
  IN <<t % 65536, (p1 \div 256) + (t \div 65536)>>
RECURSIVE ColLo(_, _, _, _), ColHi(_, _, _, _), MulC(_, _, _, _)
ColLo(a, b, k, i) == IF i > k THEN 0 ELSE Mul16(a[i], b[k - i + 1])[1] + ColLo(a, b, k, i + 1)
ColHi(a, b, k, i) == IF i > k THEN 0 ELSE Mul16(a[i], b[k - i + 1])[2] + ColHi(a, b, k, i + 1)
MulC(a, b, k, c) ==
  IF k > Len(a) THEN <<>>
  ELSE LET s == ColLo(a, b, k, 1) + (IF k = 1 THEN 0 ELSE ColHi(a, b, k - 1, 1)) + c
       IN <<s % 65536>> \o MulC(a, b, k + 1, s \div 65536)
Mul(a, b, w) == IF w = 8 THEN <<(a[1] * b[1]) % 256>>
                ELSE IF w = 16 THEN <<Mul16(a[1], b[1])[1]>>
                ELSE MulC(a, b, 1, 0)

RECURSIVE ULtR(_, _, _)
ULtR(a, b, i) == IF i = 0 THEN FALSE
                 ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE ULtR(a, b, i - 1)
ULt(a, b) == ULtR(a, b, Len(a))
SLt(a, b, w) == LET x == SignBit(a, w) y == SignBit(b, w) IN IF x # y THEN x ELSE ULt(a, b)
Lt(a, b, w, s) == IF s THEN SLt(a, b, w) ELSE ULt(a, b)

\* shifts by a native count 0 <= k < w
Shl(a, k, w) ==
  IF w = 8 THEN <<(a[1] * P2(k)) % 256>>
  ELSE LET q == k \div 16 r == k % 16
           A(i) == IF i < 1 THEN 0 ELSE a[i]
       IN [i \in 1..Len(a) |-> ((A(i - q) * P2(r)) % 65536) + (A(i - q - 1) \div P2(16 - r))]
ShrF(a, k, fill) ==
  LET q == k \div 16 r == k % 16
      A(i) == IF i > Len(a) THEN fill ELSE a[i]
  IN [i \in 1..Len(a) |-> (A(i + q) \div P2(r)) + ((A(i + q + 1) * P2(16 - r)) % 65536)]
\* r = 0: A * 65536 would overflow for limbs above 2^15, so it is treated apart
ShrG(a, k, fill) ==
  IF k % 16 = 0
  THEN [i \in 1..Len(a) |-> IF i + (k \div 16) > Len(a) THEN fill ELSE a[i + (k \div 16)]]
  ELSE ShrF(a, k, fill)
Shr(a, k, w, s) ==
  IF w = 8
  THEN IF s /\ a[1] >= 128 THEN <<(ShrG(<<a[1] + 65280>>, k, 65535)[1]) % 256>>
       ELSE <<a[1] \div P2(k)>>
  ELSE ShrG(a, k, IF s /\ SignBit(a, w) THEN 65535 ELSE 0)

\* conversion from width fw (signed if fs) to width tw
Ext(a, fw, fs, tw) ==
  IF tw = fw THEN a
  ELSE IF tw < fw
  THEN IF tw = 8 THEN <<a[1] % 256>> ELSE SubSeq(a, 1, NL(tw))
  ELSE LET neg == fs /\ SignBit(a, fw)
           low == IF fw = 8 THEN <<IF neg THEN a[1] + 65280 ELSE a[1]>> ELSE a
       IN [i \in 1..NL(tw) |-> IF i <= Len(low) THEN low[i] ELSE IF neg THEN 65535 ELSE 0]

\* unsigned division, bit by bit, one spare limb for the remainder
RECURSIVE DivR(_, _, _, _, _)
DivR(a, b, i, q, r) ==     \* i: next bit of a, from the top
  IF i < 0 THEN <<q, r>>
  ELSE LET bit == (a[(i \div 16) + 1] \div P2(i % 16)) % 2
           r2 == Add(r, r, 32)
           r1 == [r2 EXCEPT ![1] = @ + bit]
           ge == ~ULt(r1, b)
       IN DivR(a, b, i - 1,
               IF ge THEN [q EXCEPT ![(i \div 16) + 1] = @ + P2(i % 16)] ELSE q,
               IF ge THEN Sub(r1, b, 32) ELSE r1)
UDivMod(a, b, w) ==
  IF FitsNat(a) /\ FitsNat(b)
  THEN <<FromNat(ToNat(a) \div ToNat(b), w), FromNat(ToNat(a) % ToNat(b), w)>>
  ELSE LET r == DivR(a, Append(b, 0), w - 1, Zero(w), Append(Zero(w), 0))
       IN <<r[1], SubSeq(r[2], 1, Len(a))>>
\* division truncating towards zero; the remainder has the sign of a
DivMod(a, b, w, s) ==
  IF ~s THEN UDivMod(a, b, w)
  ELSE LET na == SignBit(a, w) nb == SignBit(b, w)
           r == UDivMod(IF na THEN Neg(a, w) ELSE a, IF nb THEN Neg(b, w) ELSE b, w)
       IN <<IF na # nb THEN Neg(r[1], w) ELSE r[1], IF na THEN Neg(r[2], w) ELSE r[2]>>
=============================================================================
