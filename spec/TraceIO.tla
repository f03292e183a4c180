------------------------------- MODULE TraceIO -------------------------------
(***************************************************************************)
(* Validation of traces of writing sessions, files and readers.            *)
(*                                                                         *)
(* The state: the definitions made so far, the writing session, up to      *)
(* three files, and the reader.  A file written by a session is known      *)
(* through its definition and its cells (variable, chunk); the bytes of a  *)
(* file are known when it was put there or looked at ("snap").             *)
(***************************************************************************)
EXTENDS Parse, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid, i, w
vars == <<tid, i, w>>

T == Traces[tid]

Bad(p, c) == {[p |-> p, c |-> c, k |-> ""]}
BadK(p, c, k) == {[p |-> p, c |-> c, k |-> k]}
Chk(cond, p, c) == IF cond THEN {} ELSE Bad(p, c)
Chks(cond, ps, c) == IF cond THEN {} ELSE UNION {Bad(p, c) : p \in ps}
R(b, nw) == [b |-> b, w |-> nw]

E(kind, n, x, t) == [k |-> "err", e |-> kind, n |-> n, x |-> x, t |-> t, inc |-> FALSE]
IOErr(kind) == E("IOErrorKind", <<>>, <<>>, <<kind>>)
IsErr(res) == res.k = "err"
IsIO(res) == res.k = "err" /\ res.e = "IOErrorKind"

EmptyF == [x \in {} |-> 0]
NoFile == [ex |-> FALSE, kind |-> "none", known |-> FALSE, b |-> <<>>, x |-> <<>>, sp |-> FALSE, pre |-> FALSE, fp |-> <<>>,
           def |-> <<>>, pdef |-> <<>>, cells |-> EmptyF, hurt |-> {}, closed |-> FALSE, lim |-> FALSE]
NoSession == [on |-> FALSE, p |-> 0, def |-> <<>>]
NoReader == [on |-> FALSE, p |-> 0, view |-> EmptyDs, ver |-> 1, m |-> Class("none"), memo |-> EmptyF]
Slot0 == [s |-> NoSession, r |-> NoReader, lim |-> <<>>]
(* s, r: the current session and reader; slots: those that are not the current ones; ctx: properties that any later deviation breaks *)
World0 == [ds |-> <<>>, s |-> NoSession, f |-> <<NoFile, NoFile, NoFile>>, r |-> NoReader, lim |-> <<>>,
           slots |-> <<Slot0, Slot0, Slot0>>, z |-> 0, ctx |-> {}]

(* what the operating system did during the call: some transfer failed; the process stopped *)
Ferr(e) == "ferr" \in DOMAIN e
Froze(e) == "froze" \in DOMAIN e
(* the results of reads of a file are not known any more *)
Forget(nw, p) == [nw EXCEPT !.r.memo = IF nw.r.p = p THEN EmptyF ELSE @,
                            !.slots = [k \in DOMAIN @ |-> [@[k] EXCEPT !.r.memo = IF nw.slots[k].r.p = p THEN EmptyF ELSE @]]]

LenOf(fp) == IF fp = <<>> THEN BZero ELSE fp[1].len

---------------------------------------------------------------------------
(* Sessions *)

AccOf(s) == IF ~ s.on THEN <<>>
            ELSE IF s.def = <<>> THEN <<[hd |-> FALSE, ds |-> <<>>, dsv |-> <<>>, ver |-> <<>>, hmin |-> <<>>, path |-> TRUE]>>
            ELSE <<[hd |-> TRUE, ds |-> <<s.def[1].id>>, dsv |-> <<s.def[1].ds>>, ver |-> <<s.def[1].ver>>,
                    hmin |-> <<s.def[1].hmin>>, path |-> TRUE]>>

(* what holds after every call of a session: nw is the state after it *)
SessionChk(e, nw) ==
    Chk(e.acc = AccOf(nw.s), "C14", "accessors after " \o e.c)
    \cup (IF nw.s.on /\ nw.s.def = <<>> /\ nw.lim = <<>> /\ ~ nw.f[nw.s.p + 1].lim
          THEN Chk(e.fp # <<>> /\ LenOf(e.fp) = BZero, "C14", "something is written although no definition is set") ELSE {})

DoCreate(e) ==
    LET f == w.f[e.p + 1]
        exists == e.c = "cn" /\ f.ex
        exp == IF exists THEN IOErr("AlreadyExists") ELSE Ok
        nf == [NoFile EXCEPT !.ex = TRUE, !.kind = "sess", !.known = TRUE, !.fp = e.fp]
        nw == IF e.res.k = "ok" THEN [w EXCEPT !.s = [on |-> TRUE, p |-> e.p, def |-> <<>>], !.f[e.p + 1] = nf]
              ELSE w
    IN R(Chk(e.res = exp, "C14", e.c \o ": result")
         \cup (IF exists THEN Chk(e.fp = f.fp, "C14", "create_new touched the existing file") ELSE {})
         \cup (IF e.res.k = "ok" THEN SessionChk(e, nw) ELSE {}),
         nw)

Def(id, ver, hmin) == [id |-> id, ds |-> w.ds[id], ver |-> ver, hmin |-> hmin]

(* a call that failed because of the storage, although it was not at its limit *)
OverLimit(end) == w.lim # <<>> /\ BLt(w.lim[1], end)

DoSetDef(e) ==
    LET p == w.s.p
        f == w.f[p + 1]
        ds == w.ds[e.d]
        L == Layout(ds, e.ver, e.hmin)
        already == w.s.def # <<>>
        notClassic == e.ver = 1 /\ ~ ClassicPossible(L)
        over == OverLimit(L.res)
        d == Def(e.d, e.ver, e.hmin)
        nw == CASE Froze(e) /\ ~ already /\ ~ notClassic ->
                     [w EXCEPT !.s.def = <<d>>, !.f[p + 1] = [f EXCEPT !.pdef = <<d>>, !.fp = e.fp, !.known = FALSE, !.lim = TRUE]]
                [] e.res.k = "ok" /\ ~ already ->
                     [w EXCEPT !.s.def = <<d>>, !.f[p + 1] = [f EXCEPT !.def = <<d>>, !.fp = e.fp, !.known = FALSE, !.cells = EmptyF,
                                                                       !.lim = @ \/ w.lim # <<>> \/ Ferr(e)]]
                [] IsIO(e.res) -> [w EXCEPT !.f[p + 1] = [f EXCEPT !.fp = e.fp, !.known = FALSE, !.lim = TRUE]]
                [] OTHER -> [w EXCEPT !.f[p + 1].fp = e.fp]
    IN R((IF already THEN Chk(e.res = E("HeaderAlreadyDefined", <<>>, <<>>, <<>>), "C14", "second definition: result")
                          \cup Chk(e.fp = f.fp, "C14", "second definition: the file changed")
          ELSE IF notClassic THEN Chk(e.res = E("ClassicVersionNotPossible", <<>>, <<>>, <<>>), "C08", "classic version with an offset over 2^31 - 1: result")
                                  \cup Chk(e.fp = f.fp, "C14", "refused definition: the file changed")
          ELSE IF Froze(e) THEN {}
          ELSE IF over THEN Chk(IsIO(e.res), "C20", "set_def succeeds without having stored the header")
          ELSE IF Ferr(e) THEN Chk(e.res = Ok \/ IsIO(e.res), "C20", "set_def: a failed transfer is not reported as an I/O error")
          ELSE Chk(e.res = Ok, "C14", "definition refused")
               \cup Chk(~ (IsErr(e.res) /\ e.res.e = "ClassicVersionNotPossible"), "C08", "classic version refused although possible"))
         \cup (IF Froze(e) THEN {} ELSE SessionChk(e, nw)), nw)

(* the rules that a write breaks *)
WriteErrors(e) ==
    IF w.s.def = <<>> THEN {E("HeaderNotDefined", <<>>, <<>>, <<>>)}
    ELSE LET ds == w.s.def[1].ds
             vi == Idx(ds.vars, e.n)
         IN IF vi = 0 THEN {E("VariableNotDefined", <<e.n>>, <<>>, <<>>)}
            ELSE LET v == ds.vars[vi]
                     n == BFromInt(Len(e.d) \div SizeOf(e.t))
                 IN If(v.t # e.t, E("VariableMismatchDataType", <<e.n>>, <<>>, <<v.t, e.t>>))
                    \cup (IF e.c = "wv"
                          THEN If(VarLen(ds, v) # n, E("VariableMismatchDataLength", <<e.n>>, <<VarLen(ds, v), n>>, <<>>))
                          ELSE If(BLe(NumChunks(ds, v), e.i), E("RecordIndexExceeded", <<>>, <<e.i, NumChunks(ds, v)>>, <<>>))
                               \cup If(ChunkLen(ds, v) # n, E("RecordMismatchDataLength", <<e.n>>, <<ChunkLen(ds, v), n>>, <<>>)))

CellsSet(cells, keys, data(_)) ==
    [k \in keys |-> [d |-> data(k), n |-> IF k \in DOMAIN cells THEN cells[k].n + 1 ELSE 1]] @@ cells

DoWrite(e) ==
    LET p == w.s.p
        f == w.f[p + 1]
        errs == WriteErrors(e)
        legal == errs = {}
        ds == w.s.def[1].ds
        vi == Idx(ds.vars, e.n)
        v == ds.vars[vi]
        L == Layout(ds, w.s.def[1].ver, w.s.def[1].hmin)
        cb == BToInt(ChunkBytes(ds, v))
        nch == IF cb = 0 THEN 0 ELSE Len(e.d) \div cb
        keys == IF e.c = "wr" THEN {<<vi, e.i>>} ELSE {<<vi, BFromInt(k - 1)>> : k \in 1..nch}
        last == IF e.c = "wr" THEN e.i ELSE BFromInt(nch - 1)
        end == IF e.c = "wv" /\ nch = 0 THEN BZero ELSE BAdd(CellPos(L, vi, last), ChunkSize(ds, v))
        over == OverLimit(end)
        data(k) == IF e.c = "wr" THEN e.d ELSE LET c == BToInt(k[2]) IN SubSeq(e.d, c * cb + 1, (c + 1) * cb)
        nf == IF legal /\ e.res.k = "ok" /\ ~ Froze(e)
              THEN [f EXCEPT !.fp = e.fp, !.known = FALSE, !.cells = CellsSet(@, keys, data), !.hurt = @ \ keys, !.lim = @ \/ w.lim # <<>> \/ Ferr(e)]
              ELSE IF legal THEN [f EXCEPT !.fp = e.fp, !.known = FALSE, !.hurt = @ \cup keys, !.lim = @ \/ w.lim # <<>> \/ Ferr(e)]
              ELSE [f EXCEPT !.fp = e.fp]
        nw == Forget([w EXCEPT !.f[p + 1] = nf], p)
    IN R((IF ~ legal THEN Chk(e.res \in errs, "C13", e.c \o ": " \o (IF e.res.k = "ok" THEN "accepted although a rule is broken" ELSE "the error is not a broken rule with its data"))
                          \cup Chk(e.res = Ok \/ e.fp = f.fp, "C13", e.c \o ": a refused write changed the file")
                          \cup (IF w.s.def = <<>> THEN Chk(e.res \in errs, "C14", "write without a definition: result") ELSE {})
          ELSE IF Froze(e) THEN {}
          ELSE IF over THEN Chk(IsIO(e.res), "C20", e.c \o " succeeds without having stored the data")
          ELSE IF Ferr(e) THEN Chk(e.res = Ok \/ IsIO(e.res), "C20", e.c \o ": a failed transfer is not reported as an I/O error")
          ELSE Chk(e.res = Ok, "C13", e.c \o ": refused although no rule is broken"))
         \cup SessionChk(e, nw), nw)

DoEnd(e) ==
    LET p == w.s.p
        f == w.f[p + 1]
        L == Layout(w.s.def[1].ds, w.s.def[1].ver, w.s.def[1].hmin)
        nodef == w.s.def = <<>>
        done == e.c = "close" /\ ~ nodef /\ e.res.k = "ok" /\ ~ Froze(e)
        \* what a close still has to store
        todo == {k \in {<<vi, BFromInt(c - 1)>> : vi \in 1..Len(w.s.def[1].ds.vars), c \in 1..BToInt(BMax(BOne, NumRecs(w.s.def[1].ds)))} :
                     k \notin DOMAIN f.cells /\ BLt(k[2], NumChunks(w.s.def[1].ds, w.s.def[1].ds.vars[k[1]]))}
        over == w.lim # <<>> /\ \E k \in todo : OverLimit(BAdd(CellPos(L, k[1], k[2]), ChunkSize(w.s.def[1].ds, w.s.def[1].ds.vars[k[1]])))
        failed == e.c = "close" /\ (e.res.k # "ok" \/ Froze(e))
        nf == [f EXCEPT !.fp = e.fp, !.known = FALSE, !.pre = f.known, !.closed = done,
                        !.lim = @ \/ w.lim # <<>> \/ Ferr(e), !.hurt = IF failed /\ ~ nodef THEN @ \cup todo ELSE @]
        nw == Forget([w EXCEPT !.s = NoSession, !.f[p + 1] = nf], p)
    IN R((IF e.c # "close" THEN {}
          ELSE IF nodef THEN Chk(e.res = Ok, "C14", "close without a definition")
          ELSE IF Froze(e) THEN {}
          ELSE IF over THEN Chk(IsIO(e.res), "C20", "close succeeds although the file is not complete")
          ELSE IF Ferr(e) THEN Chk(e.res = Ok \/ IsIO(e.res), "C20", "close: a failed transfer is not reported as an I/O error")
          ELSE Chk(e.res = Ok, "C12", "close fails"))
         \cup (IF nodef /\ f.pdef = <<>> /\ w.lim = <<>> /\ ~ f.lim THEN Chk(e.fp # <<>> /\ LenOf(e.fp) = BZero, "C14", "something is written although no definition was set") ELSE {}),
         nw)

---------------------------------------------------------------------------
(* The bytes of a file *)

SubB(b, pos, n) == \* n bytes from offset pos (Big); <<>> if they are not all there
    IF ~ BIsInt(pos) THEN <<>>
    ELSE LET q == BToInt(pos) IN IF q + n > Len(b) THEN <<>> ELSE SubSeq(b, q + 1, q + n)

AllCells(ds) == {<<vi, BFromInt(c - 1)>> : vi \in {x \in 1..Len(ds.vars) : IsRec(ds, ds.vars[x])}, c \in 1..BToInt(NumRecs(ds))}
                \cup {<<vi, BZero>> : vi \in {x \in 1..Len(ds.vars) : ~ IsRec(ds, ds.vars[x])}}

SnapChk(f, b) ==
    IF f.pdef # <<>> /\ f.def = <<>>        \* the process stopped in set_def
    THEN LET d == f.pdef[1]
             L == Layout(d.ds, d.ver, d.hmin)
             H == Encode(d.ds, d.ver, L.begins)
         IN Chk(Len(b) <= BToInt(L.res) /\ \A k \in 1..Len(b) : b[k] \in {0, IF k <= L.hl THEN H[k] ELSE 0}, "C15",
                "a definition that was interrupted left something else than a part of the header")
    ELSE IF f.def = <<>> THEN Chk(f.lim \/ b = <<>>, "C14", "bytes although no definition was set")
    ELSE
    LET d == f.def[1]
        ds == d.ds
        L == Layout(ds, d.ver, d.hmin)
        H == Encode(ds, d.ver, L.begins)
        res == BToInt(L.res)
        M == Meaning(b)
        V(k) == ds.vars[k[1]]
        CB(k) == BToInt(ChunkBytes(ds, V(k)))
        At(k) == SubB(b, CellPos(L, k[1], k[2]), CB(k))
        PadAt(k) == SubB(b, BAdd(CellPos(L, k[1], k[2]), ChunkBytes(ds, V(k))), Pad4(CB(k)))
        OldAt(k) == SubB(f.b, CellPos(L, k[1], k[2]), CB(k))
        written == DOMAIN f.cells \ f.hurt
        all == AllCells(ds)
        free == (all \ DOMAIN f.cells) \ f.hurt
        hdr == Len(b) >= L.hl /\ SubSeq(b, 1, L.hl) = H
        zer == Len(b) >= res /\ \A k \in (L.hl + 1)..res : b[k] = 0
    IN Chks(hdr, IF f.lim THEN {"C07", "C20"} ELSE {"C07"}, "the header is not the encoding of the definition")
       \cup Chks(zer, IF f.lim THEN {"C07", "C20"} ELSE {"C07"}, "the reserved space after the header is not there or not zero")
       \cup (IF hdr \/ M.c \in {"bad", "short"} THEN {}
             ELSE Chk(M.begins = L.begins, "C08", "begin offsets"))
       \cup (IF f.closed THEN {}
             ELSE Chk(\A k \in {x \in written : f.cells[x].n = 1} : At(k) = f.cells[k].d, "C08", "data is not stored where the layout says"))
       \cup (IF f.lim THEN Chk(\A k \in written : At(k) = f.cells[k].d, "C20", "a call succeeded but its data is not in the file") ELSE {})
       \cup (IF ~ f.closed THEN {}
             ELSE Chk(\A k \in written : At(k) = f.cells[k].d, "C11", "the closed file does not hold what was last written")
                  \cup (IF f.pre THEN Chk(\A k \in written : OldAt(k) = f.cells[k].d => At(k) = f.cells[k].d, "C12", "closing overwrote what was written") ELSE {})
                  \cup Chks(\A k \in free : At(k) = FillBytes(V(k).t, CB(k)), IF f.lim THEN {"C12", "C20"} ELSE {"C12"}, "an unwritten value is not the fill value")
                  \cup Chk(\A k \in all \ f.hurt : PadAt(k) = FillBytes(V(k).t, Pad4(CB(k))), "C12", "a padding byte is not the fill value")
                  \cup Chks(BFromInt(Len(b)) = L.end, IF f.lim THEN {"C12", "C20"} ELSE {"C12"}, "length of the closed file"))

DoSnap(e) ==
    LET f == w.f[e.p + 1]
        b == IF e.b = <<>> THEN <<>> ELSE e.b[1]
    IN R(IF f.kind = "sess" /\ e.b # <<>> THEN SnapChk(f, b) ELSE {},
         [w EXCEPT !.f[e.p + 1] = [f EXCEPT !.known = (e.b # <<>>), !.b = b, !.fp = e.fp, !.sp = FALSE]])

(* a sparse file, by the parts that are not zero: [o, d] *)
ByteX(x, pos) == LET S == {k \in 1..Len(x) : BLe(x[k].o, pos) /\ BLt(pos, BAdd(x[k].o, BFromInt(Len(x[k].d))))}
                 IN IF S = {} THEN 0 ELSE LET k == CHOOSE k \in S : TRUE IN x[k].d[BToInt(BSub(pos, x[k].o)) + 1]
BytesX(x, pos, n) == [k \in 1..n |-> ByteX(x, BAdd(pos, BFromInt(k - 1)))]

DoExt(e) ==
    LET f == w.f[e.p + 1]
        d == f.def[1]
        L == Layout(d.ds, d.ver, d.hmin)
        H == Encode(d.ds, d.ver, L.begins)
        cellsAt == \A k \in DOMAIN f.cells \ f.hurt : BytesX(e.x, CellPos(L, k[1], k[2]), Len(f.cells[k].d)) = f.cells[k].d
        posOf(k) == LET p0 == CellPos(L, k[1], k[2]) IN [lo |-> p0, hi |-> BAdd(p0, ChunkSize(d.ds, d.ds.vars[k[1]]))]
        P == {posOf(k) : k \in DOMAIN f.cells}
    IN R(IF f.def = <<>> THEN {}
         ELSE Chk(BytesX(e.x, BZero, L.hl) = H, "C07", "header of a sparse file")
              \cup Chk(cellsAt, "C08", "data of a sparse file is not stored where the layout says")
              \cup Chk(\A k \in 1..Len(e.x) : \A j \in 1..Len(e.x[k].d) :
                          LET q == BAdd(e.x[k].o, BFromInt(j - 1))
                          IN e.x[k].d[j] = 0 \/ BLt(q, BFromInt(L.hl)) \/ \E c \in P : BLe(c.lo, q) /\ BLt(q, c.hi),
                       "C08", "something else than the header and the written data is stored in a sparse file"),
         IF f.def = <<>> THEN [w EXCEPT !.f[e.p + 1].fp = e.fp]
         ELSE [w EXCEPT !.f[e.p + 1] = [f EXCEPT !.fp = e.fp, !.known = TRUE, !.sp = TRUE, !.b = BytesX(e.x, BZero, L.hl), !.x = e.x]])

(* n bytes of a file that is known from offset pos; <<>> if they are not all there *)
BytesAt(f, pos, n) == IF ~ f.sp THEN SubB(f.b, pos, n)
                      ELSE IF BLt(LenOf(f.fp), BAdd(pos, BFromInt(n))) THEN <<>>
                      ELSE BytesX(f.x, pos, n)

---------------------------------------------------------------------------
(* Readers *)

(* What an error of open says of the bytes b, which are as M says *)
At24(b, p) == SubSeq(b, p, IF Len(b) < p + 23 THEN Len(b) ELSE p + 23)
Points(res, b, p) == \* the bytes of the error are those of the file from p on
    res.n # <<>> /\ res.n[1] # <<>> /\ PrefixOf(res.n[1], At24(b, p)) /\ BLe(res.x[1], BFromInt(Len(b) - p + 1))
Construct(res, b, ks, p) == res.e = "ParseHeader" /\ ~ res.inc /\ res.t[1] \in ks /\ Points(res, b, p)
WhyChk(res, b, M) ==
    LET open == \E q \in M.g : Construct(res, b, Number, q)      \* (about which the format says nothing)
    IN IF ~ IsErr(res) THEN {}
       ELSE CASE M.c = "gray" -> Chk(~ res.inc, "C25", "a header that is whole is reported as incomplete")
              [] M.c = "short" -> Chk(open \/ (res.e = "ParseHeader" /\ res.inc /\ res.t[1] \in M.k) \/ (M.e /\ Construct(res, b, M.k, M.p)), "C25",
                                      "a file that ends inside its header: the error says something else")
              [] M.c = "bad" /\ M.why = "parse" -> Chk(open \/ Construct(res, b, M.k, M.p), "C25", "the error is not about the first construct that is wrong")
              [] M.c = "bad" /\ M.why = "def" -> Chk(open \/ (res.e = "DataSet" /\ ~ res.inc /\ \E r \in M.errs : r.e = res.t[1] /\ r.n = res.n /\ r.x = res.x)
                                                     \/ (~ M.rep /\ res.e = "Unexpected"), "C25",
                                                     "the error is not a rule that the definition in the file breaks")
              [] M.c = "bad" /\ M.why = "count" -> Chk(open \/ (res.e = "ComputationNumberOfRecords" /\ ~ res.inc) \/ (~ M.rep /\ res.e = "Unexpected"), "C25",
                                                       "records that begin behind the end of the file: the error says something else")
              [] OTHER -> {}

DoOpen(e) ==
    LET f == w.f[e.p + 1]
        res == e.res
        M == IF f.known THEN MeaningL(f.b, LenOf(f.fp)) ELSE Class("none")
        isok == res.k = "ok"
        same(ds) == isok /\ res.view = ds /\ res.ver = M.ver
        d == f.def[1]
        sess == f.kind = "sess" /\ f.def # <<>> /\ ~ f.lim /\ BLe(NumRecs(d.ds), MaxI32) /\ Representable(d.ds)
        pd == f.pdef[1]
        nr == [on |-> isok, p |-> e.p, view |-> IF isok THEN res.view ELSE EmptyDs, ver |-> IF isok THEN res.ver ELSE 1,
               m |-> M, memo |-> EmptyF]
        err == Ferr(e) /\ ~ isok
    IN R((IF ~ f.ex THEN Chk(IsIO(res), "C17", "a missing file")
          ELSE IF err THEN Chk(IsIO(res), "C20", "open: a failed transfer is not reported as an I/O error")
          ELSE IF f.known THEN
             CASE M.c = "ok" -> (IF same(M.ds) THEN {}
                                 ELSE IF M.special /\ M.indet /\ same(M.dsalt) THEN BadK("C16", "record count of a single record variable without padding", "F12")
                                 ELSE IF f.kind = "raw" \/ f.closed THEN Bad("C16", "a well-formed file is not opened with what its header encodes") ELSE {})
               [] M.c = "gray" -> Chk(IsErr(res) \/ same(M.ds) \/ (M.special /\ same(M.dsalt)), "C16", "a file is opened with another definition than its header encodes")
               [] OTHER -> Chk(IsErr(res), "C17", "bytes that are not a well-formed file are not refused (" \o M.c \o ")")
                           \cup (IF isok THEN Bad("C01", "a malformed file is opened") ELSE {})
          ELSE {})
         \cup (IF f.ex /\ f.known /\ ~ f.sp /\ ~ err THEN WhyChk(res, f.b, M) ELSE {})
         \cup (IF isok THEN Chks(WellFormed(res.view), {"C01", "C17"}, "the definition read from a file is not valid")
                            \cup Chk(res.path, "C16", "file_path")
               ELSE {})
         \cup Chk(res.k # "panic", "C17", "open panics")
         \cup (IF f.kind = "sess" /\ f.pdef # <<>> /\ f.def = <<>> /\ ~ err
               THEN Chk((IsErr(res) /\ res.inc) \/ (isok /\ res.view = pd.ds /\ res.ver = pd.ver), "C15", "a definition that was interrupted is neither incomplete nor opened as it was set") ELSE {})
         \cup (IF sess /\ ~ err THEN Chk(isok /\ res.view = d.ds /\ res.ver = d.ver, IF f.closed THEN "C09" ELSE "C15",
                                "the definition read is not the definition written") ELSE {})
         \cup Chk(e.fp = f.fp, "C19", "opening changed the file"),
         [w EXCEPT !.r = nr])

(* the rules that a read breaks *)
ReadErrors(e) ==
    LET ds == w.r.view
        vi == Idx(ds.vars, e.n)
        v == ds.vars[vi]
    IN IF vi = 0 THEN {E("VariableNotDefined", <<e.n>>, <<>>, <<>>)}
       ELSE If(e.t # "" /\ v.t # e.t, E("VariableMismatchDataType", <<e.n>>, <<>>, <<v.t, e.t>>))
            \cup (IF e.c = "rr" THEN If(BLe(NumChunks(ds, v), e.i), E("RecordIndexExceeded", <<>>, <<e.i, NumChunks(ds, v)>>, <<>>)) ELSE {})

(* the data of variable vi (chunks lo..hi-1) according to the len bytes At(position, number), as <<data>>, or <<>> when they are not all there *)
ByteRead(At(_, _), len, ds, begins, stride, vi, lo, hi) ==
    LET v == ds.vars[vi]
        cbB == ChunkBytes(ds, v)
        cb == BToInt(cbB)
        posOf(c) == BAdd(begins[vi], BMul(BFromInt(c), stride))
    IN IF lo >= hi THEN << <<>> >>
       ELSE IF BLt(len, BAdd(posOf(hi - 1), cbB)) THEN <<>>
       ELSE << Flat([k \in 1..(hi - lo) |-> At(posOf(lo + k - 1), cb)]) >>

(* Judges one result (of a read that breaks no rule) against what is known of the file *)
ResultChk(vi, whole, idx, res) ==
    LET f == w.f[w.r.p + 1]
        M == w.r.m
        ds == w.r.view
        v == ds.vars[vi]
        nchB == NumChunks(ds, v)
        isok == res.k = "ok"
        none == whole /\ nchB = BZero                       \* no chunk is read
        obs == IF isok THEN <<res.d>> ELSE <<>>
        fileAt(q, n) == BytesAt(f, q, n)
        flen == LenOf(f.fp)
        exp(stride) == IF none THEN << <<>> >>
                       ELSE IF whole THEN ByteRead(fileAt, flen, ds, M.begins, stride, vi, 0, BToInt(nchB))
                       ELSE ByteRead(fileAt, flen, ds, M.begins, stride, vi, BToInt(idx), BToInt(idx) + 1)
        bytewise == f.known /\ M.c \in {"ok", "gray"} /\ BIsInt(nchB)
        cb == BToInt(ChunkBytes(ds, v))
        sess == f.kind = "sess" /\ f.def # <<>> /\ ~ f.lim /\ ds = f.def[1].ds
        L == Layout(ds, f.def[1].ver, f.def[1].hmin)
        key(c) == <<vi, BFromInt(c)>>
        lastB == IF whole THEN BSub(nchB, BOne) ELSE idx
        needed == IF none THEN BZero ELSE BAdd(CellPos(L, vi, lastB), ChunkBytes(ds, v))
        there == BLe(needed, LenOf(f.fp))
        part(k, d) == k \in DOMAIN f.cells \ f.hurt => d = f.cells[k].d
        match == isok /\ IF whole
                         THEN /\ Len(res.d) = BToInt(nchB) * cb
                              /\ \A c \in 0..(BToInt(nchB) - 1) : part(key(c), SubSeq(res.d, c * cb + 1, (c + 1) * cb))
                         ELSE Len(res.d) = cb /\ part(<<vi, idx>>, res.d)
    IN (IF bytewise
        THEN (IF obs = exp(Stride(ds)) THEN {}
              ELSE IF M.special /\ obs = exp(RecordSize(ds)) THEN BadK("C16", "records of a single record variable without padding", "F12")
              ELSE Bad("C16", "the values read are not those at the offsets that the header gives"))
        ELSE {})
       \cup (IF isok THEN Chks(res.t = v.t, {"C10", "C16"}, "type of the values read") ELSE {})
       \cup (IF f.kind = "raw" THEN Chk(res.k # "panic", "C17", "a read panics") ELSE {})
       \cup Chk(res.k # "panic", "C19", "a read panics")
       \cup (IF ~ sess THEN {}
             ELSE IF f.closed THEN Chk(match, "C10", "the values read are not those written")
             ELSE IF there THEN Chks(match, IF f.sp THEN {"C10", "C15"} ELSE {"C15"}, "the values read are not those written before the session was abandoned")
             ELSE Chk(res = IOErr("UnexpectedEof"), "C15", "values that the file does not hold are read"))

MemoKey(e) == IF e.c = "rr" THEN <<"r", e.n, e.i>> ELSE <<"v", e.n>>

DoRead(e) ==
    LET f == w.f[w.r.p + 1]
        errs == ReadErrors(e)
        legal == errs = {}
        vi == Idx(w.r.view.vars, e.n)
        k == MemoKey(e)
        typed == e.t # "" /\ vi # 0 /\ w.r.view.vars[vi].t # e.t
    IN IF ~ w.r.on THEN R({}, w)
       ELSE IF "dv" \in DOMAIN e THEN R(Bad("C10", "the vector read tells another type, length or values: " \o e.dv), w)
       ELSE IF Ferr(e) /\ IsErr(e.res)
       THEN R(Chk(IsIO(e.res) \/ e.res \in errs, "C20", e.c \o ": a failed transfer is not reported as an I/O error")
              \cup Chk(e.fp = f.fp, "C19", "reading changed the file"), w)
       ELSE R((IF ~ legal THEN Chk(e.res \in errs, "C19", e.c \o ": the error is not a broken rule with its data")
                               \cup (IF typed THEN Chk(IsErr(e.res), "C10", "a typed read of another type is not refused") ELSE {})
               ELSE ResultChk(vi, e.c = "rv", IF e.c = "rr" THEN e.i ELSE BZero, e.res)
                    \cup Chk(IsErr(e.res) => e.res = IOErr("UnexpectedEof"), "C19", e.c \o ": refused although no rule is broken")
                    \cup (IF k \in DOMAIN w.r.memo THEN Chk(e.res = w.r.memo[k], "C19", e.c \o ": another result than before") ELSE {}))
              \cup Chk(e.fp = f.fp, "C19", "reading changed the file"),
              IF legal THEN [w EXCEPT !.r.memo = (k :> e.res) @@ @] ELSE w)

DoAll(e) ==
    LET f == w.f[w.r.p + 1]
        ds == w.r.view
        res == e.res
        isok == res.k = "ok"
        n == Len(ds.vars)
        item(vi) == CHOOSE k \in 1..Len(res.m) : res.m[k].n = ds.vars[vi].n
        one(vi) == [k |-> "ok", t |-> res.m[item(vi)].t, d |-> res.m[item(vi)].d]
        K(vi) == <<"v", ds.vars[vi].n>>
        names == isok /\ Len(res.m) = n /\ {res.m[k].n : k \in 1..Len(res.m)} = Range(NamesOf(ds.vars))
    IN IF ~ w.r.on THEN R({}, w)
       ELSE IF "dv" \in DOMAIN e THEN R(Bad("C10", "a vector read tells another type, length or values: " \o e.dv), w)
       ELSE IF Ferr(e) /\ IsErr(res)
       THEN R(Chk(IsIO(res), "C20", "read_all_vars: a failed transfer is not reported as an I/O error")
              \cup Chk(e.fp = f.fp, "C19", "reading changed the file"), w)
       ELSE R(Chk(res.k # "panic", "C19", "read_all_vars panics")
              \cup (IF isok
                    THEN Chks(names, {"C10", "C19"}, "read_all_vars: the variables")
                         \cup (IF ~ names THEN {}
                               ELSE UNION {ResultChk(vi, TRUE, BZero, one(vi)) : vi \in 1..n}
                                    \cup Chk(\A vi \in 1..n : K(vi) \in DOMAIN w.r.memo => w.r.memo[K(vi)] = one(vi), "C19",
                                             "read_all_vars differs from reading each variable"))
                    ELSE Chk(\E vi \in 1..n : K(vi) \notin DOMAIN w.r.memo \/ w.r.memo[K(vi)].k # "ok", "C19",
                             "read_all_vars fails although each variable can be read")
                         \cup (IF f.kind = "sess" /\ f.closed /\ ~ f.lim THEN Bad("C10", "read_all_vars fails") ELSE {}))
              \cup Chk(e.fp = f.fp, "C19", "reading changed the file"),
              w)

DoView(e) == IF ~ w.r.on THEN R({}, w)
             ELSE R(Chk(e.res = [k |-> "ok", view |-> w.r.view, ver |-> w.r.ver, path |-> TRUE], "C19", "the data set reported by the reader changed")
                    \cup Chk(e.fp = w.f[w.r.p + 1].fp, "C19", "reading changed the file"),
                    CASE e.c = "rc" -> [w EXCEPT !.r = NoReader]
                      [] e.c = "rcd" -> [w EXCEPT !.r = NoReader, !.ds = Append(@, w.r.view)]
                      [] OTHER -> w)

---------------------------------------------------------------------------
(* Two files, of which the second is made of the definition and the values read from the first *)

DoSame(e) ==
    LET a == w.f[e.p + 1]
        b == w.f[e.q + 1]
        A == MeaningL(a.b, LenOf(a.fp))
        B == MeaningL(b.b, LenOf(b.fp))
        ds == A.ds
        aAt(q, n) == SubB(a.b, q, n)
        bAt(q, n) == SubB(b.b, q, n)
        all(At(_, _), M, f, vi) == ByteRead(At, LenOf(f.fp), ds, M.begins, Stride(ds), vi, 0, BToInt(NumChunks(ds, ds.vars[vi])))
        crate == a.kind = "sess" /\ a.closed /\ ~ a.lim /\ b.def # <<>> /\ a.def[1].ver = b.def[1].ver /\ a.def[1].hmin = b.def[1].hmin
        usable == a.known /\ b.known /\ A.c = "ok" /\ ~ A.special
        whole == usable /\ \A vi \in 1..Len(ds.vars) : all(aAt, A, a, vi) # <<>>
    IN R(IF ~ usable THEN {}
         ELSE Chk(B.c = "ok" /\ B.ds = ds, "C23", "the definition of the copy is not that of the original")
              \cup (IF B.c # "ok" \/ B.ds # ds THEN {}
                    ELSE Chk(\A vi \in 1..Len(ds.vars) : all(aAt, A, a, vi) # <<>> => all(bAt, B, b, vi) = all(aAt, A, a, vi), "C23",
                             "the values of the copy are not those of the original"))
              \cup (IF crate /\ whole THEN Chk(a.b = b.b, "C23", "a copy with the same version and header size is not the same file") ELSE {}),
         w)

(* another session and another reader become the current ones *)
DoSw(e) ==
    LET sl == [w.slots EXCEPT ![w.z + 1] = [s |-> w.s, r |-> w.r, lim |-> w.lim]]
    IN R({}, [w EXCEPT !.slots = sl, !.z = e.z, !.s = sl[e.z + 1].s, !.r = sl[e.z + 1].r, !.lim = sl[e.z + 1].lim])

(* an event that has to be the same as an earlier one of the trace *)
Plain(e) == [k \in DOMAIN e \ {"tw", "twp", "part", "ferr"} |-> e[k]]
TwinChk(e) == IF "tw" \notin DOMAIN e THEN {}
              ELSE IF e.tw = 0 THEN Bad(e.twp, e.c \o ": a call that was not made otherwise")
              ELSE IF e.tw > Len(T.evs) THEN Bad(e.twp, e.c \o ": a call that was not made otherwise")
              ELSE LET a == T.evs[e.tw]
                   IN Chk(e.c = a.c /\ Plain(e) = Plain(a), e.twp,
                          e.c \o (IF e.twp = "C21" THEN ": another result because of partial or interrupted transfers"
                                  ELSE IF e.twp = "C13" THEN ": another result without the calls that are refused"
                                  ELSE ": another result than when the session or reader is alone"))

---------------------------------------------------------------------------
(* Every prefix of a file *)

CutChk(b, M, reads, tab, row) ==
    LET len == row[1]
        o == tab[row[2]]
        pb == SubSeq(b, 1, len)
        inhdr == len < M.hl
        pbAt(q, n) == SubB(pb, q, n)
        expRead(q) == LET rd == reads[q]
                          vi == Idx(M.ds.vars, rd.n)
                          nch == BToInt(NumChunks(M.ds, M.ds.vars[vi]))
                          st == RecordSize(M.ds)
                      IN IF rd.i = <<>> THEN ByteRead(pbAt, BFromInt(len), M.ds, M.begins, st, vi, 0, nch) ELSE ByteRead(pbAt, BFromInt(len), M.ds, M.begins, st, vi, rd.i[1], rd.i[1] + 1)
        got(q) == LET r == tab[row[3][q]] IN IF r.k = "ok" THEN <<r.d>> ELSE <<>>
    IN IF inhdr THEN Chk(o.k = "err" /\ o.inc, "C18", "a header that is cut is not reported as incomplete")
       ELSE Chk(o.k = "ok" /\ o.view = M.ds /\ o.ver = M.ver, "C18", "a file whose header is complete is not opened with its definition")
            \cup (IF o.k # "ok" \/ o.view # M.ds THEN {}
                  ELSE Chk(\A q \in 1..Len(reads) : got(q) = expRead(q), "C18", "a cut file is misread")
                       \cup Chk(\A q \in 1..Len(reads) : tab[row[3][q]].k # "panic", "C18", "a read of a cut file panics"))
(* a file with an indeterminate number of records: the definition has the records that are there, or the file is refused *)
CutIndet(b, M, reads, tab, row) ==
    LET len == row[1]
        o == tab[row[2]]
        P == MeaningL(b, BFromInt(len))
        pb == SubSeq(b, 1, len)
        pbAt(q, n) == SubB(pb, q, n)
        st == RecordSize(M.ds)
        expRead(q) == LET rd == reads[q]
                          vi == Idx(M.ds.vars, rd.n)
                          nch == BToInt(NumChunks(P.ds, P.ds.vars[vi]))
                      IN IF rd.i = <<>> THEN ByteRead(pbAt, BFromInt(len), P.ds, M.begins, st, vi, 0, nch)
                         ELSE IF rd.i[1] >= nch THEN <<>> ELSE ByteRead(pbAt, BFromInt(len), P.ds, M.begins, st, vi, rd.i[1], rd.i[1] + 1)
        got(q) == LET r == tab[row[3][q]] IN IF r.k = "ok" THEN <<r.d>> ELSE <<>>
    IN IF len < M.hl THEN Chk(o.k = "err" /\ o.inc, "C18", "a header that is cut is not reported as incomplete")
       ELSE IF P.c = "bad" THEN Chk(o.k = "err" /\ ~ o.inc, "C18", "a file cut before its records is not refused")
       ELSE Chk(IF o.k = "ok" THEN o.view = P.ds /\ o.ver = M.ver ELSE P.c = "gray" /\ o.k = "err" /\ ~ o.inc, "C18",
                "a file with an indeterminate number of records is opened with another definition than its bytes give")
            \cup (IF o.k # "ok" \/ o.view # P.ds THEN {}
                  ELSE Chk(\A q \in 1..Len(reads) : got(q) = expRead(q), "C18", "a cut file is misread"))
DoCuts(e) ==
    LET M == Meaning(e.b)
    IN R(IF M.c # "ok" THEN {}
         ELSE IF M.indet THEN IF M.special THEN {} ELSE UNION {CutIndet(e.b, M, e.reads, e.tab, e.rows[k]) : k \in 1..Len(e.rows)}
         ELSE UNION {CutChk(e.b, M, e.reads, e.tab, e.rows[k]) : k \in 1..Len(e.rows)}
              \cup Chk(\A k \in 1..Len(e.tab) : e.tab[k].k # "panic", "C17", "a cut file makes the reader panic"), w)

---------------------------------------------------------------------------
Died == {"abort", "hang", "panic"}
IOProps == {"C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C25"}

Out(e) ==
    CASE e.c = "put" -> R({}, [w EXCEPT !.f[e.p + 1] = [NoFile EXCEPT !.ex = TRUE, !.kind = "raw", !.known = TRUE, !.b = e.b, !.fp = e.fp]])
      [] e.c = "putx" -> R({}, [w EXCEPT !.f[e.p + 1] = [NoFile EXCEPT !.ex = TRUE, !.kind = "raw", !.known = TRUE, !.b = e.b, !.fp = e.fp, !.sp = TRUE,
                                                                        !.x = << [o |-> BZero, d |-> e.b] >> \o e.x]])
      [] e.c = "poke" -> R({}, [w EXCEPT !.f[e.p + 1] = [NoFile EXCEPT !.ex = TRUE, !.kind = "raw", !.fp = e.fp]])
      [] e.c = "rm" -> R({}, [w EXCEPT !.f[e.p + 1] = NoFile])
      [] e.c = "ds" -> R({}, [w EXCEPT !.ds = IF e.at \in 1..Len(@) THEN [@ EXCEPT ![e.at] = e.view] ELSE Append(@, e.view)])
      [] e.c \in {"cn", "op"} -> DoCreate(e)
      [] e.c = "sd" -> DoSetDef(e)
      [] e.c \in {"wv", "wr"} -> DoWrite(e)
      [] e.c = "acc" -> R(SessionChk(e, w), w)
      [] e.c \in {"close", "drop", "forget"} -> DoEnd(e)
      [] e.c = "lim" -> R({}, [w EXCEPT !.lim = <<e.l>>])
      [] e.c = "unlim" -> R({}, [w EXCEPT !.lim = <<>>])
      [] e.c = "snap" -> DoSnap(e)
      [] e.c = "ext" -> DoExt(e)
      [] e.c = "ro" -> DoOpen(e)
      [] e.c \in {"rv", "rr"} -> DoRead(e)
      [] e.c = "ra" -> DoAll(e)
      [] e.c \in {"rview", "rc", "rcd"} -> DoView(e)
      [] e.c = "reset" -> R({}, World0)
      [] e.c = "sw" -> DoSw(e)
      [] e.c \in {"fault", "nofault"} -> R({}, w)
      [] e.c = "stop" -> R({}, [w EXCEPT !.s = NoSession, !.r = NoReader])
      [] e.c = "same" -> DoSame(e)
      [] e.c = "odd" -> R(Chk(IsIO(e.res), IF e.how = "ro" THEN "C17" ELSE "C14", "opening what no file can be: " \o e.what \o ": not reported as an I/O error")
                          \cup Chk(e.same, IF e.how = "ro" THEN "C19" ELSE "C14", "opening what no file can be changed something"), w)
      [] e.c = "cuts" -> DoCuts(e)
      [] e.c \in Died -> R(UNION {Bad(p, "the code under test ended with: " \o e.c) : p \in IOProps}, w)

(* The result that NC3 expects, in replayed behaviours of NC3 *)
ResName(res) == IF res.k # "err" THEN res.k
                ELSE IF res.inc THEN "incomplete"
                ELSE IF res.e # "IOErrorKind" THEN res.e
                ELSE CASE res.t[1] = "AlreadyExists" -> "exists"
                       [] res.t[1] \in {"UnexpectedEof", "NotFound"} -> res.t[1]
                       [] OTHER -> "io"
XChk(e) ==
    IF "xr" \notin DOMAIN e THEN {}
    ELSE IF e.xr = "?" THEN {}
    ELSE LET got == ResName(e.res)
             closed == w.r.on /\ w.f[w.r.p + 1].closed
             p == IF "io" \in {got, e.xr} THEN "C20"
                  ELSE IF e.c \in {"wv", "wr"} /\ e.xr # "HeaderNotDefined" THEN "C13"
                  ELSE IF e.c = "ro" THEN (IF e.xr # "ok" THEN "C17" ELSE IF w.f[e.p + 1].closed THEN "C09" ELSE "C15")
                  ELSE IF e.c \in {"rv", "rr", "ra"} THEN (IF e.xr \in {"ok", "UnexpectedEof"} THEN (IF closed THEN "C10" ELSE "C15") ELSE "C19")
                  ELSE "C14"
         IN Chk(got = e.xr, p, e.c \o ": another result than in the behaviour of NC3: " \o got \o " instead of " \o e.xr)
            \cup (IF "xd" \in DOMAIN e /\ e.res.k = "ok"
                  THEN Chk(e.res.d = e.xd[1], IF closed THEN "C10" ELSE "C15", e.c \o ": other values than in the behaviour of NC3") ELSE {})

Init == tid \in 1..Len(Traces) /\ i = 0 /\ w = World0

(* after a failed transfer (or a stop), any deviation is one of the report (or the survival) of it too *)
Ctx(e, nw) == [nw EXCEPT !.ctx = @ \cup If(Ferr(e), "C20") \cup If(Froze(e), "C15")]
Also(b) == b \cup {[c EXCEPT !.p = q] : c \in {x \in b : x.k = ""}, q \in w.ctx}

Next == /\ i < Len(T.evs)
        /\ LET e == T.evs[i + 1]
               o == Out(e)
               b == Also(o.b \cup XChk(e)) \cup TwinChk(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([tid |-> tid, i |-> i + 1, b |-> b]))
              /\ w' = Ctx(e, o.w)
        /\ i' = i + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
