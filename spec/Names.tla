------------------------------- MODULE Names -------------------------------
(***************************************************************************)
(* NetCDF-3 names, as sequences of UTF-8 bytes.                            *)
(***************************************************************************)
EXTENDS Naturals, Sequences

MaxNameSize == 256

AlphaNum(b) == b \in 48..57 \/ b \in 65..90 \/ b \in 97..122
FirstByteOk(b) == b >= 128 \/ AlphaNum(b) \/ b = 95
OtherByteOk(b) == b >= 128 \/ (b \in 32..126 /\ b # 47)

(* For a sequence of bytes that is valid UTF-8. *)
ValidName(n) ==
    /\ Len(n) >= 1
    /\ Len(n) <= MaxNameSize
    /\ FirstByteOk(n[1])
    /\ \A i \in 2..Len(n) : OtherByteOk(n[i])

Cont(n, i) == i <= Len(n) /\ n[i] \in 128..191
InR(n, i, lo, hi) == i <= Len(n) /\ n[i] \in lo..hi

RECURSIVE Utf8From(_, _)
Utf8From(n, i) ==
    IF i > Len(n) THEN TRUE
    ELSE LET b == n[i] IN
         CASE b < 128 -> Utf8From(n, i + 1)
           [] b \in 194..223 -> Cont(n, i+1) /\ Utf8From(n, i + 2)
           [] b = 224 -> InR(n, i+1, 160, 191) /\ Cont(n, i+2) /\ Utf8From(n, i + 3)
           [] b \in (225..236) \cup {238, 239} -> Cont(n, i+1) /\ Cont(n, i+2) /\ Utf8From(n, i + 3)
           [] b = 237 -> InR(n, i+1, 128, 159) /\ Cont(n, i+2) /\ Utf8From(n, i + 3)
           [] b = 240 -> InR(n, i+1, 144, 191) /\ Cont(n, i+2) /\ Cont(n, i+3) /\ Utf8From(n, i + 4)
           [] b \in 241..243 -> Cont(n, i+1) /\ Cont(n, i+2) /\ Cont(n, i+3) /\ Utf8From(n, i + 4)
           [] b = 244 -> InR(n, i+1, 128, 143) /\ Cont(n, i+2) /\ Cont(n, i+3) /\ Utf8From(n, i + 4)
           [] OTHER -> FALSE
IsUtf8(n) == Utf8From(n, 1)
=============================================================================
