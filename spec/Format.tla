------------------------------- MODULE Format -------------------------------
(***************************************************************************)
(* The NetCDF-3 file of a definition: the encoding of the header, and the  *)
(* layout of the data.                                                     *)
(***************************************************************************)
EXTENDS DataSetModel

RECURSIVE FlatR(_, _, _)
FlatR(s, lo, hi) == IF lo > hi THEN <<>>
                    ELSE IF lo = hi THEN s[lo]
                    ELSE LET m == (lo + hi) \div 2 IN FlatR(s, lo, m) \o FlatR(s, m + 1, hi)
Flat(s) == FlatR(s, 1, Len(s))

Zeros(n) == [i \in 1..n |-> 0]
Repl(x, n) == [i \in 1..n |-> x]
I32(n) == IntToBE(n, 4)
AllOnes == <<255, 255, 255, 255>>

EncName(n) == I32(Len(n)) \o n \o Zeros(Pad4(Len(n)))
EncAttr(a) == EncName(a.n) \o I32(CodeOf(a.t)) \o I32(Len(a.d) \div SizeOf(a.t)) \o a.d \o Zeros(Pad4(Len(a.d)))
EncAttrs(s) == IF s = <<>> THEN Zeros(8)
               ELSE I32(12) \o I32(Len(s)) \o Flat([i \in 1..Len(s) |-> EncAttr(s[i])])
EncDims(ds) == IF ds.dims = <<>> THEN Zeros(8)
               ELSE I32(10) \o I32(Len(ds.dims))
                    \o Flat([i \in 1..Len(ds.dims) |-> EncName(ds.dims[i].n)
                                \o (IF ds.dims[i].u THEN Zeros(4) ELSE BToBE(ds.dims[i].s, 4))])
SmallOrOnes(b) == IF BLe(b, MaxI32) THEN BToBE(b, 4) ELSE AllOnes
EncVar(ds, v, ver, begin) ==
    EncName(v.n) \o I32(Len(v.d)) \o Flat([j \in 1..Len(v.d) |-> I32(v.d[j] - 1)])
    \o EncAttrs(v.a) \o I32(CodeOf(v.t)) \o SmallOrOnes(ChunkSize(ds, v))
    \o BToBE(begin, IF ver = 1 THEN 4 ELSE 8)
EncVars(ds, ver, begins) ==
    IF ds.vars = <<>> THEN Zeros(8)
    ELSE I32(11) \o I32(Len(ds.vars)) \o Flat([i \in 1..Len(ds.vars) |-> EncVar(ds, ds.vars[i], ver, begins[i])])
Encode(ds, ver, begins) ==
    <<67, 68, 70, ver>> \o SmallOrOnes(NumRecs(ds)) \o EncDims(ds) \o EncAttrs(ds.attrs) \o EncVars(ds, ver, begins)

HeaderLen(ds, ver) == Len(Encode(ds, ver, [i \in 1..Len(ds.vars) |-> BZero]))

---------------------------------------------------------------------------
(* The layout: the header and what is reserved for it, the fixed-size      *)
(* variables in the order of their definitions, then the records.          *)

RECURSIVE SumFixedBefore(_, _)
SumFixedBefore(ds, i) ==      \* the fixed-size variables before variable i
    IF i = 1 THEN BZero
    ELSE LET r == SumFixedBefore(ds, i - 1)
         IN IF IsRec(ds, ds.vars[i - 1]) THEN r ELSE BAdd(r, ChunkSize(ds, ds.vars[i - 1]))
RECURSIVE SumRecBefore(_, _)
SumRecBefore(ds, i) ==
    IF i = 1 THEN BZero
    ELSE LET r == SumRecBefore(ds, i - 1)
         IN IF IsRec(ds, ds.vars[i - 1]) THEN BAdd(r, ChunkSize(ds, ds.vars[i - 1])) ELSE r

Layout(ds, ver, hmin) ==
    LET hl == HeaderLen(ds, ver)
        res == BRound4(BMax(BFromInt(hl), hmin))
        fixed == SumFixedBefore(ds, Len(ds.vars) + 1)
        recs == BAdd(res, fixed)
        rs == RecordSize(ds)
    IN [ hl |-> hl, res |-> res, recs |-> recs, rs |-> rs,
         end |-> BAdd(recs, BMul(NumRecs(ds), rs)),
         begins |-> [i \in 1..Len(ds.vars) |-> IF IsRec(ds, ds.vars[i]) THEN BAdd(recs, SumRecBefore(ds, i))
                                               ELSE BAdd(res, SumFixedBefore(ds, i))] ]

(* the position of chunk c (from 0, Big) of variable i *)
CellPos(L, i, c) == BAdd(L.begins[i], BMul(c, L.rs))

ClassicPossible(L) == \A i \in 1..Len(L.begins) : BLe(L.begins[i], MaxI32)

FillBytes(t, n) == LET f == FillOf(t) IN [i \in 1..n |-> f[((i - 1) % Len(f)) + 1]]
=============================================================================
