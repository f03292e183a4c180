-------------------------------- MODULE Big --------------------------------
(***************************************************************************)
(* Natural numbers of any size, as little-endian sequences of base-256     *)
(* limbs without trailing zero limbs (zero is <<>>).  TLC integers are     *)
(* 32-bit, the sizes and offsets of the NetCDF-3 format are 64-bit.        *)
(***************************************************************************)
EXTENDS Integers, Sequences

RECURSIVE BNorm(_)
BNorm(a) == IF a = <<>> THEN <<>>
            ELSE IF a[Len(a)] = 0 THEN BNorm(SubSeq(a, 1, Len(a) - 1))
            ELSE a

RECURSIVE BFromInt(_)
BFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % 256>> \o BFromInt(n \div 256)

BZero == <<>>
BOne  == <<1>>

RECURSIVE BAddC(_, _, _)
BAddC(a, b, c) ==
    IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE IF a = <<>> /\ c = 0 THEN b
    ELSE IF b = <<>> /\ c = 0 THEN a
    ELSE LET x == IF a = <<>> THEN 0 ELSE Head(a)
             y == IF b = <<>> THEN 0 ELSE Head(b)
             s == x + y + c
         IN <<s % 256>> \o BAddC(IF a = <<>> THEN <<>> ELSE Tail(a),
                                 IF b = <<>> THEN <<>> ELSE Tail(b), s \div 256)
BAdd(a, b) == BAddC(a, b, 0)

(* a times a small integer k < 2^22 *)
RECURSIVE BMulIntC(_, _, _)
BMulIntC(a, k, c) ==
    IF a = <<>> THEN BFromInt(c)
    ELSE LET s == Head(a) * k + c
         IN <<s % 256>> \o BMulIntC(Tail(a), k, s \div 256)
BMulInt(a, k) == BNorm(BMulIntC(a, k, 0))

RECURSIVE BMul(_, _)
BMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>>
              ELSE BNorm(BAdd(BMulInt(a, Head(b)),
                              LET r == BMul(a, Tail(b)) IN IF r = <<>> THEN <<>> ELSE <<0>> \o r))

RECURSIVE BLtTop(_, _, _)
BLtTop(a, b, i) == IF i = 0 THEN FALSE
                   ELSE IF a[i] # b[i] THEN a[i] < b[i]
                   ELSE BLtTop(a, b, i - 1)
BLt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLtTop(a, b, Len(a))
BLe(a, b) == a = b \/ BLt(a, b)
BMax(a, b) == IF BLt(a, b) THEN b ELSE a

(* a - b, for b <= a *)
RECURSIVE BSubC(_, _, _)
BSubC(a, b, c) ==
    IF a = <<>> THEN <<>>
    ELSE LET y == (IF b = <<>> THEN 0 ELSE Head(b)) + c
             x == Head(a)
         IN IF x >= y THEN <<x - y>> \o BSubC(Tail(a), IF b = <<>> THEN <<>> ELSE Tail(b), 0)
            ELSE <<x + 256 - y>> \o BSubC(Tail(a), IF b = <<>> THEN <<>> ELSE Tail(b), 1)
BSub(a, b) == BNorm(BSubC(a, b, 0))

(* [q, r] such that a = q * b + r and r < b, for b > 0: long division, bit by bit *)
Bit(a, k) == LET j == (k \div 8) + 1 IN IF j > Len(a) THEN 0 ELSE (a[j] \div (2 ^ (k % 8))) % 2
RECURSIVE BDivBits(_, _, _, _, _)
BDivBits(a, b, k, q, r) ==
    IF k < 0 THEN [q |-> q, r |-> r]
    ELSE LET r2 == BAdd(BAdd(r, r), BFromInt(Bit(a, k)))
             q2 == BAdd(q, q)
         IN IF BLe(b, r2) THEN BDivBits(a, b, k - 1, BAdd(q2, BOne), BSub(r2, b))
            ELSE BDivBits(a, b, k - 1, q2, r2)
BDiv(a, b) == BDivBits(a, b, 8 * Len(a) - 1, BZero, BZero)

(* number of bytes needed to reach a multiple of four *)
Pad4(n) == (4 - (n % 4)) % 4
BPad4(a) == IF a = <<>> THEN 0 ELSE Pad4(a[1])
BRound4(a) == BAdd(a, BFromInt(BPad4(a)))

(* big-endian, on w bytes (the value must fit) *)
BToBE(a, w) == [i \in 1..w |-> LET j == w - i + 1 IN IF j <= Len(a) THEN a[j] ELSE 0]
BFromBE(bytes) == BNorm([i \in 1..Len(bytes) |-> bytes[Len(bytes) - i + 1]])

IntToBE(n, w) == BToBE(BFromInt(n), w)

(* values that are TLC integers *)
BIsInt(a) == Len(a) <= 3 \/ (Len(a) = 4 /\ a[4] < 128)
RECURSIVE BToInt(_)
BToInt(a) == IF a = <<>> THEN 0 ELSE Head(a) + 256 * BToInt(Tail(a))

MaxI32 == <<255, 255, 255, 127>>          \* 2^31 - 1
MaxU32 == <<255, 255, 255, 255>>          \* 2^32 - 1
MaxDim == <<252, 255, 255, 127>>          \* NC_MAX_DIM_SIZE = 2^31 - 4
FitsU64(a) == Len(a) <= 8
FitsI64(a) == Len(a) < 8 \/ (Len(a) = 8 /\ a[8] < 128)
=============================================================================
