------------------------------- MODULE MC_Big -------------------------------
(* Big agrees with the integers of TLC where both are defined. *)
EXTENDS Big, TLC
VARIABLES x, y
S == 0..70 \cup {127, 128, 254, 255, 256, 257, 511, 512, 1000, 32767, 32768, 65535, 65536, 65537}
L == S \cup {8388607, 16777215, 16777216, 16777217, 1073741823, 2147483646, 2147483647}
Init == x \in L /\ y \in L
Next == UNCHANGED <<x, y>>
B(n) == BFromInt(n)
Inv == /\ BToInt(B(x)) = x
       /\ BNorm(B(x)) = B(x)
       /\ BIsInt(B(x))
       /\ (x + 0 <= 1000000000 /\ y <= 1000000000 => BAdd(B(x), B(y)) = B(x + y))
       /\ (x <= 32768 /\ y <= 65535 => BMul(B(x), B(y)) = B(x * y) /\ BMulInt(B(x), y) = B(x * y))
       /\ (BLt(B(x), B(y)) <=> x < y) /\ (BLe(B(x), B(y)) <=> x <= y)
       /\ (y <= x => BSub(B(x), B(y)) = B(x - y))
       /\ (y > 0 => BDiv(B(x), B(y)) = [q |-> B(x \div y), r |-> B(x % y)])
       /\ BFromBE(BToBE(B(x), 4)) = B(x) /\ Len(BToBE(B(x), 4)) = 4
       /\ (x <= 65537 => BRound4(B(x)) = B(((x + 3) \div 4) * 4))
       /\ (y > 0 => LET d == BDiv(BMul(BMul(B(x), B(y)), B(x)), B(y)) IN d = [q |-> BMul(B(x), B(x)), r |-> BZero])
=============================================================================
