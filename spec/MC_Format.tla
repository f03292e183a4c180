------------------------------ MODULE MC_Format ------------------------------
(***************************************************************************)
(* The encoding, the layout and the meaning of bytes agree: for every      *)
(* small definition, version and minimum header size, the encoding means   *)
(* the definition, no part of it does, the layout is a partition of the    *)
(* file, and a header with a changed word means something else (except for *)
(* the stored sizes of variables and the tags of empty lists).             *)
(***************************************************************************)
EXTENDS Parse, TLC

CONSTANTS Sizes, Recs, TypesUsed, MaxVars, Hmins, WithAttr

VARIABLES ds, ver, hmin, step
vars == <<ds, ver, hmin, step>>

NmA == <<97>>           \* a
NmB == <<98, 99, 95, 49, 120>>   \* bc_1x
NmC == <<195, 169>>     \* e with an accent
VNames == <<NmB, NmA, NmC>>

DimSets == {<<>>} \cup {<<[n |-> NmA, u |-> FALSE, s |-> BFromInt(s)]>> : s \in Sizes}
           \cup {<<[n |-> NmC, u |-> TRUE, s |-> BFromInt(r)], [n |-> NmB, u |-> FALSE, s |-> BFromInt(s)]>> : s \in Sizes, r \in Recs}
           \cup {<<[n |-> NmB, u |-> FALSE, s |-> BFromInt(s)], [n |-> NmA, u |-> TRUE, s |-> BFromInt(r)]>> : s \in Sizes, r \in Recs}

At == [n |-> NmA, t |-> "i16", d |-> <<1, 2>>]
AtE == [n |-> NmC, t |-> "u8", d |-> <<>>]
AttrSets == IF WithAttr THEN {<<>>, <<At>>, <<AtE, At>>} ELSE {<<>>}

Ids(dims) == {d \in {<<>>} \cup {<<i>> : i \in 1..Len(dims)} \cup {<<i, j>> : i \in 1..Len(dims), j \in 1..Len(dims)} :
                /\ \A i, j \in 1..Len(d) : i # j => d[i] # d[j]
                /\ \A i \in 2..Len(d) : ~ dims[d[i]].u}

Init == /\ \E dims \in DimSets, a \in AttrSets : ds = [dims |-> dims, attrs |-> a, vars |-> <<>>]
        /\ ver \in {1, 2} /\ hmin \in Hmins /\ step = 0

AddVar == /\ Len(ds.vars) < MaxVars
          /\ \E t \in TypesUsed, d \in Ids(ds.dims), a \in (IF Len(ds.vars) = 0 THEN AttrSets ELSE {<<>>}) :
               ds' = [ds EXCEPT !.vars = Append(@, [n |-> VNames[Len(@) + 1], t |-> t, d |-> d, a |-> a])]
          /\ UNCHANGED <<ver, hmin, step>>
Next == AddVar
Spec == Init /\ [][Next]_vars

L == Layout(ds, ver, BFromInt(hmin))
CellSet == UNION {{<<i, c>> : c \in 0..(BToInt(NumChunks(ds, ds.vars[i])) - 1)} : i \in 1..Len(ds.vars)}
Lo(k) == BToInt(CellPos(L, k[1], BFromInt(k[2])))
Hi(k) == Lo(k) + BToInt(ChunkSize(ds, ds.vars[k[1]]))
H == Encode(ds, ver, L.begins)
Image == H \o Zeros(BToInt(L.end) - Len(H))

Inv ==
    LET h == H
        img == Image
        M == Meaning(img)
        los == [k \in CellSet |-> Lo(k)]
        his == [k \in CellSet |-> Hi(k)]
    IN /\ WellFormed(ds)
       /\ Len(h) = L.hl /\ L.hl <= BToInt(L.res) /\ hmin <= BToInt(L.res) /\ L.hl % 4 = 0
       /\ \A k \in CellSet : los[k] >= BToInt(L.res) /\ his[k] <= BToInt(L.end) /\ los[k] % 4 = 0
       /\ \A k, l \in CellSet : k = l \/ his[k] <= los[l] \/ his[l] <= los[k]
       \* contiguous: everything after the header belongs to a cell
       /\ \A k \in CellSet : his[k] = BToInt(L.end) \/ \E l \in CellSet : los[l] = his[k]
       /\ CellSet # {} => \E k \in CellSet : los[k] = BToInt(L.res)
       \* the fixed-size variables come first
       /\ \A i, j \in 1..Len(ds.vars) : IsRec(ds, ds.vars[i]) /\ ~ IsRec(ds, ds.vars[j]) => BLt(L.begins[j], L.begins[i])
       /\ \A i, j \in 1..Len(ds.vars) : i < j /\ IsRec(ds, ds.vars[i]) = IsRec(ds, ds.vars[j]) => BLt(L.begins[i], L.begins[j])
       /\ ClassicPossible(L)
       \* meaning
       /\ M.c = "ok" /\ M.ds = ds /\ M.ver = ver /\ M.begins = L.begins /\ M.hl = L.hl /\ ~ M.indet
       /\ \A n \in 0..(Len(h) - 1) : Meaning(SubSeq(h, 1, n)).c = "short"
       /\ \A n \in 0..(Len(h) - 1) : LET P == Meaning(SubSeq(h, 1, n)) IN P.why = "parse" /\ P.p <= n + 1 /\ ~ P.e /\ P.g = {}

(* A word of the header that is changed: the meaning changes, unless it is a size of a variable *)
Words == {p \in 0..(Len(H) - 4) : p % 4 = 0}
Values == {Zeros(4), AllOnes, I32(1), I32(2), I32(10), I32(11), I32(12), <<128, 0, 0, 0>>, <<127, 255, 255, 255>>}
Change(b, p, v) == [i \in 1..Len(b) |-> IF i > p /\ i <= p + 4 THEN v[i - p] ELSE b[i]]
Mutants ==
    LET img == Image
    IN \A p \in Words : \A v \in Values :
         SubSeq(img, p + 1, p + 4) # v =>
           LET M == Meaning(Change(img, p, v))
               old == SubSeq(img, p + 1, p + 4)
           IN /\ (M.c \in {"bad", "short"} /\ M.why = "parse") =>
                     \* what is before the change is not blamed, except a construct that ends with it (a tag of two words, a name)
                     /\ M.p > p - 7 \/ M.k = {"Utf8"}
                     /\ M.k # {}
              /\ (M.c = "bad" /\ M.why = "def") => M.errs # {}
              /\ M.c \in {"ok", "gray"} =>
                /\ WellFormed(M.ds)
                \* the same meaning: the tag of an empty list, or the stored size of a variable
                /\ M.ds = ds /\ M.ver = ver /\ M.begins = L.begins /\ ~ M.indet =>
                     \/ p = 4 /\ ~ HasUnlim(ds)        \* the number of records, without records
                     \/ old = Zeros(4) /\ v \in {I32(10), I32(11), I32(12)}
                     \/ \E i \in 1..Len(ds.vars) : old = SmallOrOnes(ChunkSize(ds, ds.vars[i]))
=============================================================================
