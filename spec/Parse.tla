------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* What a sequence of bytes means as a NetCDF-3 file.                      *)
(*                                                                         *)
(* Every parser takes the bytes b and a position p (from 1), and returns   *)
(* [c, p, v, k, e, g].                                                     *)
(*   c = "ok"    p is the next position, v the value                       *)
(*   c = "bad"   a construct is not what it has to be                      *)
(*   c = "short" the bytes end inside of a construct                       *)
(* For the last two, p is the position of that construct and k the kinds   *)
(* by which a user may be told of it; e: what there is of it is already    *)
(* wrong.  g: the positions of constructs, before p, about which the       *)
(* format leaves open whether they may be refused.                         *)
(***************************************************************************)
EXTENDS Format

POk(p, v) == [c |-> "ok", p |-> p, v |-> v, k |-> {}, e |-> FALSE, g |-> {}]
PBad(p, k) == [c |-> "bad", p |-> p, v |-> <<>>, k |-> k, e |-> FALSE, g |-> {}]
PShort(p, k, e) == [c |-> "short", p |-> p, v |-> <<>>, k |-> k, e |-> e, g |-> {}]

PBytes(b, p, n, k) == IF n > Len(b) - p + 1 THEN PShort(p, k, FALSE) ELSE POk(p + n, SubSeq(b, p, p + n - 1))

(* a non-negative 32-bit number *)
Number == {"NonNegativeI32"}
PNumK(b, p, k) == LET r == PBytes(b, p, 4, k) IN
                  IF r.c # "ok" THEN r
                  ELSE IF r.v[1] >= 128 THEN PBad(p, k)
                  ELSE POk(r.p, BToInt(BFromBE(r.v)))
PNum(b, p) == PNumK(b, p, Number)
PZeros(b, p, n) == LET r == PBytes(b, p, n, {"ZeroPadding"}) IN
                   IF r.c # "ok" THEN r
                   ELSE IF \E i \in 1..n : r.v[i] # 0 THEN PBad(p, {"ZeroPadding"}) ELSE POk(r.p, <<>>)

(* a length, the bytes of a name, zeros up to a multiple of four *)
PName(b, p) == LET n == PNum(b, p) IN
               IF n.c # "ok" THEN n
               ELSE LET r == PBytes(b, n.p, n.v, {"Utf8"}) IN
                    IF r.c # "ok" THEN r
                    ELSE IF ~ IsUtf8(r.v) THEN PBad(n.p, {"Utf8"})
                    ELSE LET z == PZeros(b, r.p, Pad4(n.v)) IN IF z.c # "ok" THEN z ELSE POk(z.p, r.v)

(* "tag, number of items, items" or eight zeros *)
PrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
RECURSIVE PItems(_, _, _, _, _, _)
PItems(P(_, _), b, p, n, acc, g) ==
    IF n = 0 THEN [POk(p, acc) EXCEPT !.g = g]
    ELSE LET r == P(b, p) IN IF r.c # "ok" THEN [r EXCEPT !.g = @ \cup g] ELSE PItems(P, b, r.p, n - 1, Append(acc, r.v), r.g \cup g)
PList(P(_, _), b, p, tag, kind) ==
    LET rest == SubSeq(b, p, IF Len(b) < p + 7 THEN Len(b) ELSE p + 7)
    IN IF PrefixOf(I32(tag), rest)
       THEN LET n == PNum(b, p + 4) IN IF n.c # "ok" THEN n ELSE PItems(P, b, n.p, n.v, <<>>, {})
       ELSE IF rest = Zeros(8) THEN POk(p + 8, <<>>)
       ELSE IF Len(rest) = 8 THEN PBad(p, {kind})
       ELSE PShort(p, {kind} \cup (IF Len(rest) >= 4 THEN Number ELSE {}), ~ PrefixOf(rest, Zeros(8)) /\ ~ PrefixOf(rest, I32(tag)))

PDim(b, p) == LET n == PName(b, p) IN
              IF n.c # "ok" THEN n
              ELSE LET s == PNum(b, n.p) IN
                   IF s.c # "ok" THEN s ELSE POk(s.p, [n |-> n.v, u |-> s.v = 0, s |-> BFromInt(s.v)])

PType(b, p) == LET t == PNumK(b, p, {"DataType", "NonNegativeI32"}) IN
               IF t.c # "ok" THEN t
               ELSE IF t.v \notin 1..6 THEN PBad(p, {"DataType"})
               ELSE POk(t.p, Types[t.v])
PAttr(b, p) == LET n == PName(b, p) IN
               IF n.c # "ok" THEN n
               ELSE LET t == PType(b, n.p) IN
                    IF t.c # "ok" THEN t
                    ELSE LET k == PNum(b, t.p) IN
                         IF k.c # "ok" THEN k
                         ELSE IF k.v > Len(b) THEN PShort(k.p, {"DataElements"}, FALSE)
                         ELSE LET d == PBytes(b, k.p, k.v * SizeOf(t.v), {"DataElements"}) IN
                              IF d.c # "ok" THEN d
                              ELSE LET z == PZeros(b, d.p, Pad4(k.v * SizeOf(t.v))) IN
                                   IF z.c # "ok" THEN z ELSE POk(z.p, [n |-> n.v, t |-> t.v, d |-> d.v])
PAttrs(b, p) == PList(PAttr, b, p, 12, "AttrTag")
PVar(ver, b, p) ==
    LET n == PName(b, p) IN
    IF n.c # "ok" THEN n
    ELSE LET ids == LET k == PNum(b, n.p) IN IF k.c # "ok" THEN k ELSE PItems(PNum, b, k.p, k.v, <<>>, {})
         IN IF ids.c # "ok" THEN ids
            ELSE LET a == PAttrs(b, ids.p) IN
                 IF a.c # "ok" THEN a
                 ELSE LET t == PType(b, a.p) IN
                      IF t.c # "ok" THEN t
                      ELSE LET vs == PBytes(b, t.p, 4, Number) IN
                           IF vs.c # "ok" THEN vs
                           ELSE LET o == PBytes(b, vs.p, IF ver = 1 THEN 4 ELSE 8, {"Offset"})
                                    odd == vs.v[1] >= 128 /\ vs.v # AllOnes
                                    r == IF o.c # "ok" THEN o
                                         ELSE IF o.v[1] >= 128 THEN PBad(vs.p, {"Offset"})
                                         ELSE POk(o.p, [n |-> n.v, ids |-> ids.v, a |-> a.v, t |-> t.v, vs |-> vs.v, b |-> BFromBE(o.v)])
                                IN [r EXCEPT !.g = IF odd THEN {t.p} ELSE {}]
PVar1(b, p) == PVar(1, b, p)
PVar2(b, p) == PVar(2, b, p)

---------------------------------------------------------------------------
(* The meaning of the bytes: [c, ds, ver, begins, hl, alt].                *)
(*   c = "ok"     a well-formed file, that has to be opened                *)
(*   c = "gray"   not clearly one or the other: it may be refused; if it   *)
(*                is opened then with this meaning                         *)
(*   c = "bad"    not a well-formed header; c = "short": a part of one     *)
(* hl : the length of the header.  dsalt, special: see Special.            *)
(* For "bad" and "short", why is                                           *)
(*   "parse"  a construct (k, p, e and g as above)                         *)
(*   "def"    the definition breaks a rule: errs                           *)
(*   "count"  the records begin behind the end of the file                 *)

Class(c) == [c |-> c]
Fail(r) == [c |-> r.c, why |-> "parse", k |-> r.k, p |-> r.p, e |-> r.e, g |-> r.g]

(* The rules that a definition breaks, item by item; vl: the variables as they are parsed *)
DefErrors(ds, vl) ==
    LET at(dims, attrs, vs) == [dims |-> dims, attrs |-> attrs, vars |-> vs]
        upto(s, i) == SubSeq(s, 1, i - 1)
        dim(i) == LET d == ds.dims[i]
                  IN Errors(at(upto(ds.dims, i), <<>>, <<>>),
                            [op |-> IF d.u THEN "set_unlimited_dim" ELSE "add_fixed_dim", name |-> d.n, size |-> d.s])
        attr(i) == Errors(at(<<>>, upto(ds.attrs, i), <<>>), [op |-> "add_gattr", name |-> ds.attrs[i].n])
        var(i) == LET v == vl[i]
                      missing == SelectSeq(v.ids, LAMBDA x : x >= Len(ds.dims))
                      num(q) == [j \in 1..Len(q) |-> BFromInt(q[j])]
                  IN If(Has(upto(vl, i), v.n), Err("VariableAlreadyExists", <<v.n>>))
                     \cup If(~ ValidName(v.n), Err("VariableNameNotValid", <<v.n>>))
                     \cup (IF missing # <<>>
                           THEN {ErrX("DimensionIdsNotFound", <<>>, <<num([j \in 1..Len(ds.dims) |-> j - 1]), num(v.ids), num(missing)>>)}
                           ELSE VarDimErrors(ds, v.n, [j \in 1..Len(v.ids) |-> ds.dims[v.ids[j] + 1].n]))
                     \cup UNION {Errors(at(<<>>, <<>>, <<[n |-> v.n, a |-> upto(v.a, j)]>>),
                                        [op |-> "add_vattr", var |-> v.n, name |-> v.a[j].n, via |-> ""]) : j \in 1..Len(v.a)}
    IN UNION {dim(i) : i \in 1..Len(ds.dims)} \cup UNION {attr(i) : i \in 1..Len(ds.attrs)} \cup UNION {var(i) : i \in 1..Len(vl)}

RECURSIVE ProdAll(_, _, _)
ProdAll(ds, d, i) == IF i > Len(d) THEN BOne ELSE BMul(BMax(BOne, ds.dims[d[i]].s), ProdAll(ds, d, i + 1))
RECURSIVE SumAll(_, _)
SumAll(ds, i) == IF i > Len(ds.vars) THEN BZero ELSE BAdd(ProdAll(ds, ds.vars[i].d, 1), SumAll(ds, i + 1))
(* far from 2^63 bytes of data *)
Representable(ds) == FitsI64(BMulInt(SumAll(ds, 1), 16))

RecVars(ds) == {i \in 1..Len(ds.vars) : IsRec(ds, ds.vars[i])}
(* The format has one exception: the records of a single record variable are not padded *)
Special(ds) == Cardinality(RecVars(ds)) = 1 /\ \A i \in RecVars(ds) : ChunkBytes(ds, ds.vars[i]) # ChunkSize(ds, ds.vars[i])
Stride(ds) == IF Special(ds) THEN ChunkBytes(ds, ds.vars[CHOOSE i \in RecVars(ds) : TRUE]) ELSE RecordSize(ds)

RECURSIVE MinBegin(_, _)
MinBegin(bs, S) == LET i == CHOOSE x \in S : TRUE IN
                   IF S = {i} THEN bs[i]
                   ELSE LET r == MinBegin(bs, S \ {i}) IN IF BLt(bs[i], r) THEN bs[i] ELSE r

WithRecs(dims, n) == [i \in 1..Len(dims) |-> IF dims[i].u THEN [dims[i] EXCEPT !.s = n] ELSE dims[i]]

(* b: the first bytes of the file, with the whole header; len (Big): the length of the file *)
MeaningL(b, len) ==
    LET CDF == <<67, 68, 70>>
        magic == IF Len(b) < 3 THEN PShort(1, {"MagicWord"}, ~ PrefixOf(b, CDF))
                 ELSE IF SubSeq(b, 1, 3) # CDF THEN PBad(1, {"MagicWord"}) ELSE POk(4, <<>>)
        vb == LET r == PBytes(b, 4, 1, {"VersionNumber"}) IN IF r.c # "ok" THEN r ELSE IF r.v[1] \notin {1, 2} THEN PBad(4, {"VersionNumber"}) ELSE r
        nr == LET r == PBytes(b, 5, 4, Number) IN IF r.c # "ok" THEN r ELSE IF r.v[1] >= 128 /\ r.v # AllOnes THEN PBad(5, Number) ELSE r
        dl == PList(PDim, b, 9, 10, "DimTag")
        ga == PAttrs(b, dl.p)
        ver == vb.v[1]
        vl == IF ver = 1 THEN PList(PVar1, b, ga.p, 11, "VarTag") ELSE PList(PVar2, b, ga.p, 11, "VarTag")
        indet == nr.v = AllOnes
        ds0 == [dims |-> WithRecs(dl.v, IF indet THEN BZero ELSE BFromBE(nr.v)), attrs |-> ga.v,
                vars |-> [i \in 1..Len(vl.v) |-> [n |-> vl.v[i].n, t |-> vl.v[i].t,
                              d |-> [j \in 1..Len(vl.v[i].ids) |-> IF vl.v[i].ids[j] < Len(dl.v) THEN vl.v[i].ids[j] + 1 ELSE Len(dl.v) + 1], a |-> vl.v[i].a]]]
        begins == [i \in 1..Len(vl.v) |-> vl.v[i].b]
        R == RecVars(ds0)
        first == MinBegin(begins, R)
        area == BSub(len, first)
        dv == BDiv(area, Stride(ds0))
        dvc == BDiv(area, RecordSize(ds0))
        compute == indet /\ HasUnlim(ds0) /\ R # {}
        n == IF compute THEN dv.q ELSE NumRecs(ds0)
        nalt == IF compute THEN dvc.q ELSE NumRecs(ds0)
        gray == \/ \E i \in 1..Len(vl.v) : vl.v[i].vs[1] >= 128 /\ vl.v[i].vs # AllOnes
                \/ \E i \in 1..Len(vl.v) : BLt(begins[i], BFromInt(vl.p - 1))
                \/ compute /\ (dv.r # BZero \/ dvc.r # BZero)
                \/ ~ HasUnlim(ds0) /\ nr.v # Zeros(4)
                \/ ~ Representable(ds0)
        errs == DefErrors(ds0, vl.v)
        fails(w, rep) == [c |-> "bad", why |-> w, errs |-> IF w = "def" THEN errs ELSE {}, g |-> vl.g, rep |-> rep]
    IN IF magic.c # "ok" THEN Fail(magic)
       ELSE IF vb.c # "ok" THEN Fail(vb)
       ELSE IF nr.c # "ok" THEN Fail(nr)
       ELSE IF dl.c # "ok" THEN Fail(dl)
       ELSE IF ga.c # "ok" THEN Fail(ga)
       ELSE IF vl.c # "ok" THEN Fail(vl)
       ELSE IF \E i \in 1..Len(ds0.vars) : \E j \in 1..Len(ds0.vars[i].d) : ds0.vars[i].d[j] > Len(ds0.dims) THEN fails("def", TRUE)
       ELSE IF ~ WellFormed(ds0) THEN fails("def", Representable(ds0))
       ELSE IF compute /\ BLt(len, first) THEN fails("count", Representable(ds0))
       ELSE [c |-> IF gray THEN "gray" ELSE "ok", ver |-> ver, begins |-> begins, hl |-> vl.p - 1, indet |-> indet,
             ds |-> [ds0 EXCEPT !.dims = WithRecs(@, n)],
             dsalt |-> [ds0 EXCEPT !.dims = WithRecs(@, nalt)],
             special |-> Special(ds0)]
Meaning(b) == MeaningL(b, BFromInt(Len(b)))
=============================================================================
