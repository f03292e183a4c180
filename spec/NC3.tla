--------------------------------- MODULE NC3 ---------------------------------
(***************************************************************************)
(* The system as a whole: a path, a storage that may stop accepting data,  *)
(* a writing session that works the way the crate does (seek, write, the   *)
(* set of the chunks written so far, filling at the end), and a reader.    *)
(*                                                                         *)
(* Unit of storage: the word (4 bytes): 0 a hole, -1 the fill value,       *)
(* 1000 + i a word of the header of definition i, else a value written.    *)
(* A definition is                                                         *)
(*   [hdr, vars: sequence of [rec, size], recs, big]                       *)
(* with the length of its header, and for every variable whether it is a   *)
(* record variable and the size of its chunks.  `big`: some offset does    *)
(* not fit the classic version.                                            *)
(*                                                                         *)
(* The ghost variable g holds what a user may rely on: the value last      *)
(* written to each cell.  The invariants relate the storage to it.         *)
(*                                                                         *)
(* With Emit, every behaviour is printed with the results it expects; the  *)
(* behaviours are replayed on the real code, and the traces are judged by  *)
(* TraceIO (which compares the results with those of this module too).     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Defs,       \* the indices in Catalog of the definitions used
          MaxOps,     \* length of the behaviours
          MaxCreate, MaxRead, MaxBad, MaxLim,   \* how many steps of some kinds
          Limits,     \* sizes of the storage
          Modes,      \* subset of {"op", "cn"}
          Ends,       \* subset of {"drop", "forget"}
          Vers,       \* subset of {1, 2}
          Bugs,       \* defects to plant in the session
          Emit

Fx(n) == [rec |-> FALSE, size |-> n]
Rc(n) == [rec |-> TRUE, size |-> n]
D(vs, r) == [hdr |-> 2, vars |-> vs, recs |-> r, big |-> FALSE]
Catalog == << D(<<Fx(1), Rc(1)>>, 2),               \* 1
              D(<<Rc(1), Fx(2), Rc(2)>>, 2),        \* 2
              D(<<Rc(1), Rc(1)>>, 3),               \* 3
              D(<<Fx(2), Fx(1)>>, 0),               \* 4
              D(<<Fx(1), Rc(1)>>, 0),               \* 5
              D(<<Rc(2), Rc(1), Fx(1)>>, 1),        \* 6
              D(<<>>, 0),                           \* 7
              [D(<<Fx(1)>>, 0) EXCEPT !.big = TRUE],\* 8
              D(<<Rc(1)>>, 2) >>                    \* 9

VARIABLES file,  \* [ex, w]: does the path exist; its words
          ses,   \* the session: [on, d (0: no definition), wr: variable -> set of chunks written]
          rd,    \* is a reader open?
          lim,   \* <<>> or <<largest number of words>>
          g,     \* ghost: [d, cells, hurt, closed]
          n,     \* counters
          hist
vars == <<file, ses, rd, lim, g, n, hist>>

---------------------------------------------------------------------------
(* Layout *)

RECURSIVE SumSizes(_, _, _)
SumSizes(d, rec, k) == IF k = 0 THEN 0
                       ELSE SumSizes(d, rec, k - 1) + (IF d.vars[k].rec = rec THEN d.vars[k].size ELSE 0)
RecSize(d) == SumSizes(d, TRUE, Len(d.vars))
RecStart(d) == d.hdr + SumSizes(d, FALSE, Len(d.vars))
Begin(d, v) == IF d.vars[v].rec THEN RecStart(d) + SumSizes(d, TRUE, v - 1) ELSE d.hdr + SumSizes(d, FALSE, v - 1)
Pos(d, v, c) == Begin(d, v) + c * RecSize(d)
NumChunks(d, v) == IF d.vars[v].rec THEN d.recs ELSE 1
End(d) == RecStart(d) + d.recs * RecSize(d)
Cells(d) == UNION {{<<v, c>> : c \in 0..(NumChunks(d, v) - 1)} : v \in 1..Len(d.vars)}
Span(d, k) == {Pos(d, k[1], k[2]) + j : j \in 0..(d.vars[k[1]].size - 1)}

LayoutOk(d) ==      \* C08
    /\ \A k, l \in Cells(d) : k # l => Span(d, k) \cap Span(d, l) = {}
    /\ UNION {Span(d, k) : k \in Cells(d)} = d.hdr .. (End(d) - 1)
ASSUME \A i \in 1..Len(Catalog) : LayoutOk(Catalog[i])

---------------------------------------------------------------------------
(* Storage: put size words of value x from offset pos on *)

Put(ws, pos, size, x) ==
    LET stop == IF lim = <<>> \/ lim[1] >= pos + size THEN pos + size ELSE lim[1]
        len == IF stop > pos /\ stop > Len(ws) THEN stop ELSE Len(ws)
    IN [i \in 1..len |-> IF i > pos /\ i <= stop THEN x ELSE IF i <= Len(ws) THEN ws[i] ELSE 0]
Fits(pos, size) == lim = <<>> \/ size = 0 \/ lim[1] >= pos + size

Def == Catalog[ses.d]
NoCells == [k \in {} |-> 0]
G0 == [d |-> 0, cells |-> NoCells, hurt |-> {}, closed |-> FALSE]
S0 == [on |-> FALSE, d |-> 0, wr |-> <<>>]

Init == /\ file = [ex |-> FALSE, w |-> <<>>] /\ ses = S0 /\ rd = FALSE /\ lim = <<>> /\ g = G0
        /\ n = [cr |-> 0, rd |-> 0, bad |-> 0, lim |-> 0]
        /\ hist = <<>>

Log(e) == hist' = IF Emit THEN Append(hist, e) ELSE IF hist = <<>> THEN <<1>> ELSE <<hist[1] + 1>>
Steps == IF Emit THEN Len(hist) ELSE IF hist = <<>> THEN 0 ELSE hist[1]
Tok == IF Emit THEN {Len(hist) + 1} ELSE {1, 2}
Count(f) == n[f] < (CASE f = "cr" -> MaxCreate [] f = "rd" -> MaxRead [] f = "bad" -> MaxBad [] f = "lim" -> MaxLim) /\ n' = [n EXCEPT ![f] = @ + 1]

---------------------------------------------------------------------------
(* The session *)

Create(m) ==
    /\ ~ ses.on /\ ~ rd /\ Count("cr")
    /\ LET refused == m = "cn" /\ file.ex
       IN /\ file' = IF refused THEN file ELSE [ex |-> TRUE, w |-> <<>>]
          /\ ses' = IF refused THEN ses ELSE [S0 EXCEPT !.on = TRUE]
          /\ g' = IF refused THEN g ELSE G0
          /\ Log([c |-> m, x |-> IF refused THEN "exists" ELSE "ok"])
    /\ UNCHANGED <<rd, lim>>

SetDef(i, ver) ==
    LET d == Catalog[i]
        already == ses.d # 0
        refused == d.big /\ ver = 1
        fits == Fits(0, d.hdr)
        err == already \/ refused
    IN /\ ses.on /\ (d.big => ver = 1)
       /\ IF err THEN Count("bad") ELSE UNCHANGED n
       /\ file' = IF err THEN file
                  ELSE IF fits THEN [file EXCEPT !.w = Put(<<>>, 0, d.hdr, (1000 + i))]
                  ELSE [file EXCEPT !.w = IF "F14" \in Bugs THEN Put(<<>>, 0, d.hdr, (1000 + i)) ELSE <<>>]
       /\ ses' = IF err \/ (~ fits /\ "F14" \notin Bugs) THEN ses
                 ELSE [ses EXCEPT !.d = i, !.wr = [v \in 1..Len(d.vars) |-> {}]]
       /\ g' = [g EXCEPT !.d = IF err \/ ~ fits THEN @ ELSE i]
       /\ Log([c |-> "sd", d |-> i, ver |-> ver,
               x |-> IF already THEN "HeaderAlreadyDefined" ELSE IF refused THEN "ClassicVersionNotPossible" ELSE IF fits THEN "ok" ELSE "io"])
       /\ UNCHANGED <<rd, lim>>

RECURSIVE PutChunks(_, _, _, _, _)
PutChunks(ws, v, c, hi, x) ==   \* stops at the chunk that cannot be stored
    IF c >= hi THEN ws
    ELSE LET p == Pos(Def, v, c)
             s == Def.vars[v].size
         IN IF Fits(p, s) THEN PutChunks(Put(ws, p, s, x), v, c + 1, hi, x) ELSE Put(ws, p, s, x)
AllFit(v, lo, hi) == \A c \in lo..(hi - 1) : Fits(Pos(Def, v, c), Def.vars[v].size)

Store(v, lo, hi, x, e, merge) ==
    LET fits == AllFit(v, lo, hi)
        ks == {<<v, c>> : c \in lo..(hi - 1)}
    IN /\ file' = [file EXCEPT !.w = PutChunks(@, v, lo, hi, x)]
       /\ ses' = IF fits THEN [ses EXCEPT !.wr[v] = IF merge THEN @ \cup (lo..(hi - 1)) ELSE IF @ = {} THEN lo..(hi - 1) ELSE @] ELSE ses
       /\ g' = IF fits THEN [g EXCEPT !.cells = [k \in ks |-> x] @@ @, !.hurt = @ \ ks]
               ELSE [g EXCEPT !.hurt = @ \cup ks]
       /\ Log([e EXCEPT !.x = IF fits THEN "ok" ELSE "io"])
       /\ UNCHANGED <<rd, lim, n>>

WriteVar(v) == \E x \in Tok : Store(v, 0, NumChunks(Def, v), x, [c |-> "wv", v |-> v, x |-> ""], "F1" \notin Bugs)
WriteRec(v, c) == \E x \in Tok : Store(v, c, c + 1, x, [c |-> "wr", v |-> v, i |-> c, x |-> ""], TRUE)
WriteBad(e) == /\ Count("bad") /\ Log(e) /\ UNCHANGED <<file, ses, rd, lim, g>>

Write ==
    /\ ses.on
    /\ IF ses.d = 0
       THEN \/ WriteBad([c |-> "wv", v |-> 1, bad |-> "nodef", x |-> "HeaderNotDefined"])
            \/ WriteBad([c |-> "wr", v |-> 1, bad |-> "nodef", x |-> "HeaderNotDefined"])
       ELSE \/ WriteBad([c |-> "wv", v |-> 0, bad |-> "unknown", x |-> "VariableNotDefined"])
            \/ \E v \in 1..Len(Def.vars) :
                 \/ WriteVar(v)
                 \/ \E c \in 0..(NumChunks(Def, v) - 1) : WriteRec(v, c)
                 \/ WriteBad([c |-> "wv", v |-> v, bad |-> "type", x |-> "VariableMismatchDataType"])
                 \/ WriteBad([c |-> "wv", v |-> v, bad |-> "len", x |-> "VariableMismatchDataLength"])
                 \/ NumChunks(Def, v) > 0 /\ WriteBad([c |-> "wr", v |-> v, i |-> 0, bad |-> "len", x |-> "RecordMismatchDataLength"])
                 \/ IF "F3" \in Bugs /\ NumChunks(Def, v) < Def.recs
                    THEN \E x \in Tok : Store(v, NumChunks(Def, v), NumChunks(Def, v) + 1, x, [c |-> "wr", v |-> v, i |-> 1, x |-> ""], TRUE)
                    ELSE WriteBad([c |-> "wr", v |-> v, i |-> NumChunks(Def, v), bad |-> "index", x |-> "RecordIndexExceeded"])

(* Fills what is not in the sets; stops at the first failure *)
ToFill(v) == (0..((IF "F2" \in Bugs THEN NumChunks(Def, 1) ELSE NumChunks(Def, v)) - 1)) \ ses.wr[v]
RECURSIVE FillVar(_, _, _)
FillVar(ws, v, c) ==
    IF c >= 8 THEN [ok |-> TRUE, w |-> ws]
    ELSE IF c \notin ToFill(v) THEN FillVar(ws, v, c + 1)
    ELSE LET p == Pos(Def, v, c)
             s == Def.vars[v].size
         IN IF Fits(p, s) THEN FillVar(Put(ws, p, s, (-1)), v, c + 1) ELSE [ok |-> FALSE, w |-> Put(ws, p, s, (-1))]
RECURSIVE FillFrom(_, _)
FillFrom(ws, v) ==
    IF v > Len(Def.vars) THEN [ok |-> TRUE, w |-> ws]
    ELSE LET r == FillVar(ws, v, 0) IN IF r.ok THEN FillFrom(r.w, v + 1) ELSE r

Close ==
    /\ ses.on /\ ses' = S0
    /\ IF ses.d = 0 THEN /\ UNCHANGED <<file, g>> /\ Log([c |-> "close", x |-> "ok"])
       ELSE LET r == FillFrom(file.w, 1)
            IN /\ file' = [file EXCEPT !.w = r.w]
               /\ g' = IF r.ok THEN [g EXCEPT !.closed = TRUE]
                       ELSE [g EXCEPT !.hurt = @ \cup (Cells(Def) \ DOMAIN g.cells)]
               /\ Log([c |-> "close", x |-> IF r.ok THEN "ok" ELSE "io"])
    /\ UNCHANGED <<rd, lim, n>>

Abandon(how) == /\ ses.on /\ ses' = S0 /\ Log([c |-> how, x |-> "ok"]) /\ UNCHANGED <<file, rd, lim, g, n>>

---------------------------------------------------------------------------
(* The storage *)

Limit == /\ lim = <<>> /\ Count("lim")
         /\ \E l \in Limits : lim' = <<l>> /\ Log([c |-> "lim", l |-> l])
         /\ UNCHANGED <<file, ses, rd, g>>
Unlimit == /\ lim # <<>> /\ lim' = <<>> /\ Log([c |-> "unlim"]) /\ UNCHANGED <<file, ses, rd, g, n>>

---------------------------------------------------------------------------
(* The reader: it knows the definition in the header, and the words *)

HeaderOf(ws) == IF ws = <<>> \/ ws[1] <= 1000 THEN 0
                ELSE LET i == ws[1] - 1000 IN IF Len(ws) >= Catalog[i].hdr THEN i ELSE 0
RDef == Catalog[HeaderOf(file.w)]

OpenReader ==
    /\ ~ rd /\ Count("rd")
    /\ rd' = (HeaderOf(file.w) # 0)
    /\ Log([c |-> "ro", x |-> IF ~ file.ex THEN "NotFound" ELSE IF HeaderOf(file.w) # 0 THEN "ok" ELSE "incomplete"])
    /\ UNCHANGED <<file, ses, lim, g>>

There(v, lo, hi) == hi <= lo \/ Len(file.w) >= Pos(RDef, v, hi - 1) + RDef.vars[v].size
Known(k) == g.closed \/ (k \in DOMAIN g.cells /\ k \notin g.hurt)
Got(v, c) == LET p == Pos(RDef, v, c) IN [j \in 1..RDef.vars[v].size |-> file.w[p + j]]
Expect(v, lo, hi) ==        \* what a user expects
    IF g.hurt # {} THEN [x |-> "?", xv |-> <<>>]
    ELSE IF ~ There(v, lo, hi) THEN [x |-> "UnexpectedEof", xv |-> <<>>]
    ELSE IF \E c \in lo..(hi - 1) : ~ Known(<<v, c>>) THEN [x |-> "ok", xv |-> <<>>]
    ELSE [x |-> "ok", xv |-> << [k \in 1..(hi - lo) |-> IF <<v, lo + k - 1>> \in DOMAIN g.cells THEN g.cells[<<v, lo + k - 1>>] ELSE 0] >>]
Read(e) == /\ rd /\ Count("rd") /\ Log(e) /\ UNCHANGED <<file, ses, rd, lim, g>>
ReadAny ==
    \/ \E v \in 1..Len(RDef.vars) :
         \/ LET x == Expect(v, 0, NumChunks(RDef, v)) IN Read([c |-> "rv", v |-> v, x |-> x.x, xv |-> x.xv])
         \/ \E c \in 0..(NumChunks(RDef, v) - 1) : LET x == Expect(v, c, c + 1) IN Read([c |-> "rr", v |-> v, i |-> c, x |-> x.x, xv |-> x.xv])
         \/ Read([c |-> "rr", v |-> v, i |-> NumChunks(RDef, v), x |-> "RecordIndexExceeded"])
         \/ Read([c |-> "rv", v |-> v, bad |-> "type", x |-> "VariableMismatchDataType"])
    \/ Read([c |-> "rv", v |-> 0, bad |-> "unknown", x |-> "VariableNotDefined"])
    \/ Read([c |-> "ra", x |-> IF g.hurt # {} THEN "?" ELSE IF \A v \in 1..Len(RDef.vars) : There(v, 0, NumChunks(RDef, v)) THEN "ok" ELSE "UnexpectedEof"])
CloseReader == /\ rd /\ rd' = FALSE /\ Log([c |-> "rc"]) /\ UNCHANGED <<file, ses, lim, g, n>>

---------------------------------------------------------------------------
Step ==
    \/ \E m \in Modes : Create(m)
    \/ \E i \in Defs, ver \in Vers : SetDef(i, ver)
    \/ Write
    \/ Close
    \/ \E h \in Ends : Abandon(h)
    \/ Limit
    \/ Unlimit
    \/ OpenReader
    \/ rd /\ ReadAny
    \/ CloseReader

Next == Steps < MaxOps /\ Step
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
(* The guarantees *)

GDef == Catalog[g.d]
Content(k) == {file.w[i + 1] : i \in Span(GDef, k) \cap 0..(Len(file.w) - 1)}
Whole(k) == \A i \in Span(GDef, k) : i < Len(file.w)

NothingBeforeDefinition == file.ex /\ g.d = 0 => file.w = <<>>                             \* C14
HeaderStored == g.d # 0 => \A i \in 1..GDef.hdr : i <= Len(file.w) /\ file.w[i] = (1000 + g.d)      \* C07, C20
WrittenIsStored == g.d # 0 => \A k \in DOMAIN g.cells \ g.hurt : Whole(k) /\ Content(k) = {g.cells[k]}   \* C08, C10, C11, C15, C20
ClosedIsComplete == g.closed => /\ Len(file.w) = End(GDef)                                 \* C12, C20
                                /\ \A k \in (Cells(GDef) \ DOMAIN g.cells) \ g.hurt : Whole(k) /\ Content(k) = {(-1)}
(* C11: the closed file is a function of the last values *)
Image == [i \in 1..End(GDef) |->
            IF i <= GDef.hdr THEN (1000 + g.d)
            ELSE LET k == CHOOSE k \in Cells(GDef) : (i - 1) \in Span(GDef, k)
                 IN IF k \in DOMAIN g.cells THEN g.cells[k] ELSE (-1)]
ClosedIsImage == g.closed /\ g.hurt = {} => file.w = Image
SessionAgrees == ses.on => ses.d = g.d                                                     \* C14, C20
(* C19: what a reader gets is what a user expects *)
ReaderAgrees == rd /\ g.hurt = {} =>
    /\ HeaderOf(file.w) = g.d
    /\ \A v \in 1..Len(RDef.vars) : \A c \in 0..(NumChunks(RDef, v) - 1) :
         LET x == Expect(v, c, c + 1) IN x.xv # <<>> => {Got(v, c)[j] : j \in 1..RDef.vars[v].size} = {IF x.xv[1][1] = 0 THEN (-1) ELSE x.xv[1][1]}

Emitted == IF Emit /\ (Steps = MaxOps \/ ~ ENABLED Step) THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
=============================================================================
