------------------------------ MODULE TraceDef ------------------------------
(***************************************************************************)
(* Validation of traces of definition calls, lookups and sizes recorded    *)
(* from the real code against DataSetModel.  Each trace is judged event by *)
(* event; `bad` collects the clauses that an event breaks, with the        *)
(* property each clause belongs to.                                        *)
(***************************************************************************)
EXTENDS DataSetModel, TLC, Json, IOUtils, Integers

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tid,    \* the trace
          i,      \* events consumed
          mds,    \* the definition according to the history of successful calls
          ods     \* the definition last observed
vars == <<tid, i, mds, ods>>

T == Traces[tid]

Bad(p, c) == {[p |-> p, c |-> c]}
Chk(cond, p, c) == IF cond THEN {} ELSE Bad(p, c)

---------------------------------------------------------------------------
(* calls *)

NewName(op) == IF op.op \in {"rename_dim", "rename_var", "rename_gattr", "rename_vattr"} THEN op.new ELSE op.name
IntroducesName(op) == op.op \in {"add_fixed_dim", "set_unlimited_dim", "add_var", "add_gattr", "add_vattr",
                                 "rename_dim", "rename_var", "rename_gattr", "rename_vattr"}
NameErrors == {"DimensionNameNotValid", "VariableNameNotValid", "GlobalAttributeNameNotValid", "VariableAttributeNameNotValid"}
IsErr(res) == res.k = "err"

BadOp(e) ==
    LET op == e.op
        res == e.res
        errs == Errors(ods, op)
        legal == errs = {}
        allowed == AllowedBy(errs, op)
        exp == Apply(ods, op)
    IN Chk(WellFormed(e.post), "C01", "data set not well formed after " \o op.op)
       \cup Chk(res \in allowed, "C02",
                op.op \o (IF res.k = "panic" THEN " panicked"
                          ELSE IF res.k = "ok" THEN " succeeded but breaks a rule"
                          ELSE IF legal THEN " refused although legal"
                          ELSE " reported an error that is not a broken rule or not its data"))
       \cup (IF res.k = "ok" /\ (legal \/ SelfRename(op))
             THEN Chk(e.post = exp, "C03", op.op \o " did not have exactly its effect")
                  \cup Chk(e.ret = Removed(ods, op), "C03", op.op \o " did not return what it removed")
             ELSE IF res.k # "ok" THEN Chk(e.post = ods, "C03", op.op \o " failed but changed the data set")
             ELSE {})
       \cup (IF IntroducesName(op)
             THEN Chk(~ (res.k = "ok" /\ ~ ValidName(NewName(op)) /\ ~ SelfRename(op)), "C06", op.op \o " accepted an invalid name")
                  \cup Chk(~ (IsErr(res) /\ res.e \in NameErrors /\ ValidName(NewName(op))), "C06", op.op \o " refused a valid name")
                  \cup Chk(~ (res.k = "panic"), "C06", op.op \o " panicked")
                  \cup (IF ~ ValidName(NewName(op)) /\ res.k = "err" /\ errs = {err \in errs : err.e \in NameErrors}
                        THEN Chk(res.e \in NameErrors, "C06", op.op \o " refused an invalid name with another error") ELSE {})
             ELSE {})
       \cup (IF res.k = "ok" /\ ~ legal /\ ~ SelfRename(op) THEN {} ELSE
             Chk(e.post = (IF mds = ods THEN (IF res.k = "ok" THEN exp ELSE ods) ELSE IF res.k = "ok" THEN Apply(mds, op) ELSE mds), "C04", "getters after " \o op.op))

---------------------------------------------------------------------------
(* lookups *)

Opt(c, x) == IF c THEN <<x>> ELSE <<>>
DimOut(d) == [n |-> d.n, u |-> d.u, f |-> ~ d.u, ty |-> d.u, s |-> d.s]
Typed6(a) == [k \in 1..6 |-> Opt(a.t = Types[k], a.d)]
NoTyped == [k \in 1..6 |-> <<>>]
AttrStr(a) == Opt(a.t = "u8" /\ IsUtf8(a.d), a.d)
AttrOut(a) == [n |-> a.n, t |-> a.t, len |-> Len(a.d) \div SizeOf(a.t), ty |-> Typed6(a), str |-> AttrStr(a)]

ProbeOut(ds, q) ==
    LET di == Idx(ds.dims, q.dn)
        vi == Idx(ds.vars, q.vn)
        ui == UnlimIdx(ds)
        gi == Idx(ds.attrs, q.an)
        d == ds.dims[di]
        v == ds.vars[vi]
        g == ds.attrs[gi]
        ai == IF vi = 0 THEN 0 ELSE Idx(v.a, q.an)
        a == v.a[ai]
        nf == SelectSeq(q.ids, LAMBDA x : x >= Len(ds.dims))
        B(s) == [k \in 1..Len(s) |-> BFromInt(s[k])]
    IN [ num_dims |-> Len(ds.dims), has_dim |-> di # 0,
         get_dim |-> IF di # 0 THEN <<DimOut(d)>> ELSE <<>>,
         dim_names |-> NamesOf(ds.dims), has_unlim |-> ui # 0,
         get_unlim |-> IF ui # 0 THEN <<DimOut(ds.dims[ui])>> ELSE <<>>,
         unlim_pos |-> IF ui # 0 THEN <<ui>> ELSE <<>>,
         get_dim_pos |-> IF di # 0 THEN <<di>> ELSE <<>>,
         dim_size |-> IF di # 0 THEN <<d.s>> ELSE <<>>,
         dim_type |-> IF di # 0 THEN <<d.u>> ELSE <<>>,
         dims_of_ids |-> IF nf = <<>> THEN [k |-> "ok", v |-> [j \in 1..Len(q.ids) |-> q.ids[j] + 1]]
                         ELSE [k |-> "err", e |-> "DimensionIdsNotFound", n |-> <<>>,
                               x |-> <<B([j \in 1..Len(ds.dims) |-> j - 1]), B(q.ids), B(nf)>>],
         num_vars |-> Len(ds.vars), has_var |-> vi # 0,
         is_record_var |-> IF vi # 0 THEN <<IsRec(ds, v)>> ELSE <<>>,
         var_data_type |-> IF vi # 0 THEN <<v.t>> ELSE <<>>,
         get_var |-> IF vi = 0 THEN <<>> ELSE
              << [n |-> v.n, t |-> v.t, use_dim |-> (di # 0 /\ di \in Range(v.d)), num_dims |-> Len(v.d),
                  dim_names |-> [j \in 1..Len(v.d) |-> ds.dims[v.d[j]].n], d |-> v.d,
                  num_attrs |-> Len(v.a), has_attr |-> ai # 0, attr_names |-> NamesOf(v.a), attrs |-> v.a,
                  attr |-> IF ai # 0 THEN <<AttrOut(a)>> ELSE <<>>,
                  ty |-> IF ai # 0 THEN Typed6(a) ELSE NoTyped,
                  str |-> IF ai # 0 THEN AttrStr(a) ELSE <<>>,
                  rec |-> IsRec(ds, v)] >>,
         get_var_mut |-> IF vi # 0 THEN <<VarOut(ds, v)>> ELSE <<>>,
         var_names |-> NamesOf(ds.vars),
         get_var_attr |-> IF ai # 0 THEN <<AttrOut(a)>> ELSE <<>>,
         var_attr_len |-> IF ai # 0 THEN <<Len(a.d) \div SizeOf(a.t)>> ELSE <<>>,
         var_attr_type |-> IF ai # 0 THEN <<a.t>> ELSE <<>>,
         var_attrs |-> IF vi # 0 THEN <<v.a>> ELSE <<>>,
         has_var_attr |-> IF vi # 0 THEN <<ai # 0>> ELSE <<>>,
         num_var_attrs |-> IF vi # 0 THEN <<Len(v.a)>> ELSE <<>>,
         var_attr_ty |-> IF ai # 0 THEN Typed6(a) ELSE NoTyped,
         var_attr_str |-> IF ai # 0 THEN AttrStr(a) ELSE <<>>,
         num_gattrs |-> Len(ds.attrs), has_gattr |-> gi # 0,
         get_gattr |-> IF gi # 0 THEN <<AttrOut(g)>> ELSE <<>>,
         gattr_len |-> IF gi # 0 THEN <<Len(g.d) \div SizeOf(g.t)>> ELSE <<>>,
         gattr_type |-> IF gi # 0 THEN <<g.t>> ELSE <<>>,
         gattr_names |-> NamesOf(ds.attrs),
         gattr_ty |-> IF gi # 0 THEN Typed6(g) ELSE NoTyped,
         gattr_str |-> IF gi # 0 THEN AttrStr(g) ELSE <<>> ]

BadProbe(e) == LET exp == ProbeOut(mds, e.q)
               IN UNION {Chk(e.out[f] = exp[f], "C04", "lookup " \o f) : f \in DOMAIN exp}

---------------------------------------------------------------------------
(* sizes *)

Some(x) == [k |-> "some", v |-> x]
SizeChk(obs, exp, c) == IF FitsU64(exp) THEN Chk(obs = Some(exp), "C05", c) ELSE {}
BadSizes(e) ==
    LET ds == ods
        o == e.out
        V == 1..Len(ds.vars)
        cl == [k \in V |-> ChunkLen(ds, ds.vars[k])]
        cs == [k \in V |-> ChunkSize(ds, ds.vars[k])]
        rs == RecordSize(ds)
    IN Chk(Len(o.vars) = Len(ds.vars), "C05", "number of variables")
       \cup UNION {
            LET v == ds.vars[k]
                ov == o.vars[k]
                len == BMul(NumChunks(ds, v), cl[k])
            IN SizeChk(ov.chunk_len, cl[k], "chunk_len")
               \cup SizeChk(ov.chunk_size, cs[k], "chunk_size")
               \cup SizeChk(ov.num_chunks, NumChunks(ds, v), "num_chunks")
               \cup (IF FitsU64(cl[k]) THEN SizeChk(ov.len, len, "len") \cup SizeChk(ov.var_len, len, "var_len") ELSE {})
               \cup Chk(ov.rec = IsRec(ds, v) /\ ov.is_rec = <<IsRec(ds, v)>>, "C05", "is_record_var")
            : k \in V \cap 1..Len(o.vars)}
       \cup (IF HasUnlim(ds)
             THEN (IF \A k \in V : IsRec(ds, ds.vars[k]) => FitsU64(cs[k]) THEN SizeChk(o.record_size, rs, "record_size") ELSE {})
                  \cup Chk(o.num_records = Some(NumRecs(ds)), "C05", "num_records")
             ELSE Chk(o.record_size = None, "C05", "record_size without unlimited dimension")
                  \cup Chk(o.num_records = None, "C05", "num_records without unlimited dimension"))
       \cup Chk(o.dim_sizes = [k \in 1..Len(ds.dims) |-> <<ds.dims[k].s>>], "C05", "dim_size")

---------------------------------------------------------------------------
(* the definition written to a file and opened again *)

BadReopen(e) ==
    Chk(WellFormed(e.post), "C01", "data set not well formed after it was written and opened")
    \cup (IF e.res.k = "ok" THEN Chk(e.post = ods, "C09", "the definition written and opened is another one")
          ELSE Chk(e.res.k = "skip", "C09", "the definition written cannot be opened")
               \cup Chk(e.post = ods, "C03", "writing a definition changed it"))

(* equality *)
RECURSIVE AllAttrs(_, _)
AllAttrs(ds, k) == IF k > Len(ds.vars) THEN <<>> ELSE ds.vars[k].a \o AllAttrs(ds, k + 1)
AttrList(ds) == LET s == ds.attrs \o AllAttrs(ds, 1) IN IF Len(s) > 12 THEN SubSeq(s, 1, 12) ELSE s
BadEq(e) ==
    LET o == e.other
        out == e.out
        x == EqDs(ods, o)
        A == AttrList(ods)
        B == AttrList(o)
        dims == [k \in 1..Len(ods.dims) |-> [j \in 1..Len(o.dims) |-> ods.dims[k] = o.dims[j]]]
        vs == [k \in 1..Len(ods.vars) |-> [j \in 1..Len(o.vars) |-> EqVar(ods, ods.vars[k], o, o.vars[j])]]
        as == [k \in 1..Len(A) |-> [j \in 1..Len(B) |-> EqAttr(A[k], B[j])]]
        dv == [k \in 1..Len(A) |-> [j \in 1..Len(B) |-> A[k].t = B[j].t /\ EqData(A[k].t, A[k].d, B[j].d)]]
    IN Chk(out.eq = x /\ out.qe = x, "C24", "equality of data sets")
       \cup Chk(out.ne = ~ x /\ out.en = ~ x, "C24", "inequality of data sets")
       \cup Chk(out.dims = dims /\ out.ndims = dims, "C24", "equality of dimensions")
       \cup Chk(out.vars = vs /\ out.nvars = vs, "C24", "equality of variables")
       \cup Chk(out.attrs = as /\ out.nattrs = as, "C24", "equality of attributes")
       \cup Chk(out.dvs = dv /\ out.ndvs = dv, "C24", "equality of vectors")

---------------------------------------------------------------------------
(* names *)

Utf8Of(c) == CASE c < 128 -> <<c>>
               [] c \in 128..2047 -> <<192 + c \div 64, 128 + (c % 64)>>
               [] c \in 2048..65535 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
               [] OTHER -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
VerdictOf(b) == IF b THEN 1 ELSE 0
(* Above the ASCII characters the validity does not depend on the character, *)
(* so that an interval is right when its ends and its ASCII members are.     *)
BadChars(e) ==
    LET ok(c) == VerdictOf(ValidName(e.pre \o Utf8Of(c) \o e.post))
    IN Chk(\A k \in 1..Len(e.iv) : \A c \in ({e.iv[k][1], e.iv[k][2]} \cup (e.iv[k][1]..(IF e.iv[k][2] < 127 THEN e.iv[k][2] ELSE 127))) : e.iv[k][3] = ok(c),
           "C06", "validity of a character")
       \cup Chk(e.iv[1][1] = 0 /\ e.iv[Len(e.iv)][2] = 1114111
                /\ \A k \in 2..Len(e.iv) : e.iv[k][1] = e.iv[k-1][2] + 1, "C06", "coverage of the characters")

---------------------------------------------------------------------------
Died == {"abort", "hang", "panic"}
AllProps == {"C01", "C02", "C03", "C04", "C05", "C06", "C24"}

BadOf(e) ==
    CASE e.c = "op"     -> BadOp(e)
      [] e.c = "probe"  -> BadProbe(e)
      [] e.c = "sizes"  -> BadSizes(e)
      [] e.c = "reopen" -> BadReopen(e)
      [] e.c = "eq"     -> BadEq(e)
      [] e.c = "valid"  -> Chk(e.ok = VerdictOf(ValidName(e.name)), "C06", "is_valid_name")
      [] e.c = "chars"  -> BadChars(e)
      [] e.c = "filename" -> Chk(e.ok = VerdictOf(ValidName(e.name) /\ IsUtf8(e.name)), "C06", "name in a file")
      [] e.c \in Died   -> UNION {Bad(p, "the code under test ended with: " \o e.c) : p \in AllProps}

Init == /\ tid \in 1..Len(Traces)
        /\ i = 0
        /\ mds = T.model
        /\ ods = T.init
        /\ IF T.model = T.init THEN TRUE
           ELSE PrintT("BAD " \o ToJson([tid |-> tid, i |-> 0, b |-> {[p |-> "C03", c |-> "the definition that a history of legal calls leads to"],
                                                                    [p |-> "C04", c |-> "getters after a history of legal calls"]}]))

(* After a call that succeeded against the rules, or that had another effect, *)
(* the model continues from what was observed.                                *)
Next == /\ i < Len(T.evs)
        /\ LET e == T.evs[i + 1]
               b == BadOf(e)
           IN /\ IF b = {} THEN TRUE ELSE PrintT("BAD " \o ToJson([tid |-> tid, i |-> i + 1, b |-> b]))
              /\ IF e.c \in {"op", "reopen"} /\ ~ T.fan
                 THEN /\ ods' = e.post      \* (that is what mds expects, unless b says otherwise)
                      /\ mds' = e.post
                 ELSE UNCHANGED <<mds, ods>>
        /\ i' = i + 1
        /\ UNCHANGED tid

Spec == Init /\ [][Next]_vars
=============================================================================
