--------------------------- MODULE DataSetModel ---------------------------
(***************************************************************************)
(* The definition of a data set: its state, the calls that define it, the  *)
(* rules each call has to respect, its effect, and everything a user can   *)
(* look up.                                                                *)
(*                                                                         *)
(* A definition is a record                                                *)
(*   dims  : Seq of [n : name, u : unlimited?, s : size (Big)]             *)
(*   attrs : Seq of [n : name, t : type, d : big-endian bytes]             *)
(*   vars  : Seq of [n : name, t : type, d : Seq of positions in dims,     *)
(*                   a : Seq of attributes]                                *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Big, Names

Types == <<"i8", "u8", "i16", "i32", "f32", "f64">>
TypeSet == {"i8", "u8", "i16", "i32", "f32", "f64"}
SizeOf(t) == CASE t \in {"i8", "u8"} -> 1 [] t = "i16" -> 2 [] t \in {"i32", "f32"} -> 4 [] t = "f64" -> 8
CodeOf(t) == CASE t = "i8" -> 1 [] t = "u8" -> 2 [] t = "i16" -> 3 [] t = "i32" -> 4 [] t = "f32" -> 5 [] t = "f64" -> 6
(* The NetCDF-3 fill values, as big-endian bytes *)
FillOf(t) == CASE t = "i8"  -> <<129>>
               [] t = "u8"  -> <<0>>
               [] t = "i16" -> <<128, 1>>
               [] t = "i32" -> <<128, 0, 0, 1>>
               [] t = "f32" -> <<124, 240, 0, 0>>
               [] t = "f64" -> <<71, 158, 0, 0, 0, 0, 0, 0>>

MaxVarDims == 1024

EmptyDs == [dims |-> <<>>, attrs |-> <<>>, vars |-> <<>>]

Range(s) == {s[i] : i \in 1..Len(s)}
Has(s, name) == \E i \in 1..Len(s) : s[i].n = name
Idx(s, name) == IF Has(s, name) THEN CHOOSE i \in 1..Len(s) : s[i].n = name ELSE 0
RemoveAt(s, i) == [j \in 1..(Len(s) - 1) |-> IF j < i THEN s[j] ELSE s[j + 1]]
NamesOf(s) == [i \in 1..Len(s) |-> s[i].n]

UnlimIdx(ds) == LET S == {i \in 1..Len(ds.dims) : ds.dims[i].u} IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE
HasUnlim(ds) == \E i \in 1..Len(ds.dims) : ds.dims[i].u

---------------------------------------------------------------------------
(* Well-formed definitions *)

DistinctNames(s) == Cardinality({s[i].n : i \in 1..Len(s)}) = Len(s)
NameOk(n) == ValidName(n) /\ IsUtf8(n)
AttrsWF(a) == DistinctNames(a) /\ \A i \in 1..Len(a) : NameOk(a[i].n) /\ a[i].t \in TypeSet
DimsWF(ds) ==
    /\ DistinctNames(ds.dims)
    /\ \A i \in 1..Len(ds.dims) :
          /\ NameOk(ds.dims[i].n)
          /\ ds.dims[i].u \/ (ds.dims[i].s # BZero /\ BLe(ds.dims[i].s, MaxDim))
    /\ Cardinality({i \in 1..Len(ds.dims) : ds.dims[i].u}) <= 1
VarWF(ds, v) ==
    /\ NameOk(v.n) /\ v.t \in TypeSet
    /\ Len(v.d) <= MaxVarDims
    /\ \A i \in 1..Len(v.d) : v.d[i] \in 1..Len(ds.dims)
    /\ Cardinality(Range(v.d)) = Len(v.d)
    /\ \A i \in 2..Len(v.d) : ~ ds.dims[v.d[i]].u
    /\ AttrsWF(v.a)
WellFormed(ds) ==
    /\ DimsWF(ds)
    /\ AttrsWF(ds.attrs)
    /\ DistinctNames(ds.vars)
    /\ \A i \in 1..Len(ds.vars) : VarWF(ds, ds.vars[i])

---------------------------------------------------------------------------
(* Errors: [k |-> "err", e |-> kind, n |-> names, x |-> numbers] *)

Err(e, names) == [k |-> "err", e |-> e, n |-> names, x |-> <<>>]
ErrX(e, names, nums) == [k |-> "err", e |-> e, n |-> names, x |-> nums]
Ok == [k |-> "ok"]
None == [k |-> "none"]
If(c, e) == IF c THEN {e} ELSE {}

(* The dimension rules of a new variable; dn is the sequence of dimension names *)
VarDimErrors(ds, var, dn) ==
    LET undef == SelectSeq(dn, LAMBDA x : ~ Has(ds.dims, x))
        ids == [i \in 1..Len(dn) |-> Idx(ds.dims, dn[i])]
        u == UnlimIdx(ds)
    IN If(undef # <<>>, Err("DimensionsNotDefined", <<var>> \o undef))
       \cup If(undef = <<>> /\ Cardinality(Range(dn)) # Len(dn), Err("DimensionsUsedMultipleTimes", <<var>> \o dn))
       \cup If(u # 0 /\ undef = <<>> /\ \E i \in 2..Len(dn) : ids[i] = u,
               Err("UnlimitedDimensionMustBeDefinedFirst", <<var, ds.dims[IF u = 0 THEN 1 ELSE u].n>> \o dn))
       \cup If(Len(dn) > MaxVarDims, ErrX("MaximumDimensionsPerVariableExceeded", <<var>>, <<BFromInt(Len(dn))>>))

(* Every rule that the call breaks in ds, as the error that reports it *)
Errors(ds, op) ==
    CASE op.op = "add_fixed_dim" ->
            If(Has(ds.dims, op.name), Err("DimensionAlreadyExists", <<op.name>>))
            \cup If(~ ValidName(op.name), Err("DimensionNameNotValid", <<op.name>>))
            \cup If(op.size = BZero, Err("FixedDimensionWithZeroSize", <<op.name>>))
            \cup If(BLt(MaxDim, op.size), ErrX("MaximumFixedDimensionSizeExceeded", <<op.name>>, <<op.size>>))
      [] op.op = "set_unlimited_dim" ->
            (IF HasUnlim(ds) THEN {Err("UnlimitedDimensionAlreadyExists", <<ds.dims[UnlimIdx(ds)].n>>)} ELSE {})
            \cup If(Has(ds.dims, op.name), Err("DimensionAlreadyExists", <<op.name>>))
            \cup If(~ ValidName(op.name), Err("DimensionNameNotValid", <<op.name>>))
      [] op.op = "rename_dim" ->
            If(~ Has(ds.dims, op.name), Err("DimensionNotDefined", <<op.name>>))
            \cup If(op.new # op.name /\ Has(ds.dims, op.new), Err("DimensionAlreadyExists", <<op.new>>))
            \cup If(op.new # op.name /\ ~ ValidName(op.new), Err("DimensionNameNotValid", <<op.new>>))
      [] op.op = "remove_dim" ->
            LET i == Idx(ds.dims, op.name)
                users == SelectSeq(ds.vars, LAMBDA v : i \in Range(v.d))
            IN If(i = 0, Err("DimensionNotDefined", <<op.name>>))
               \cup If(i # 0 /\ users # <<>>, Err("DimensionYetUsed", <<op.name>> \o NamesOf(users)))
      [] op.op = "add_var" ->
            If(Has(ds.vars, op.name), Err("VariableAlreadyExists", <<op.name>>))
            \cup If(~ ValidName(op.name), Err("VariableNameNotValid", <<op.name>>))
            \cup VarDimErrors(ds, op.name, op.dims)
      [] op.op = "rename_var" ->
            If(~ Has(ds.vars, op.name), Err("VariableNotDefined", <<op.name>>))
            \cup If(op.new # op.name /\ Has(ds.vars, op.new), Err("VariableAlreadyExists", <<op.new>>))
            \cup If(op.new # op.name /\ ~ ValidName(op.new), Err("VariableNameNotValid", <<op.new>>))
      [] op.op = "remove_var" ->
            If(~ Has(ds.vars, op.name), Err("VariableNotDefined", <<op.name>>))
      [] op.op = "add_gattr" ->
            If(Has(ds.attrs, op.name), Err("GlobalAttributeAlreadyExists", <<op.name>>))
            \cup If(~ ValidName(op.name), Err("GlobalAttributeNameNotValid", <<op.name>>))
      [] op.op = "rename_gattr" ->
            If(~ Has(ds.attrs, op.name), Err("GlobalAttributeNotDefined", <<op.name>>))
            \cup If(op.new # op.name /\ Has(ds.attrs, op.new), Err("GlobalAttributeAlreadyExists", <<op.new>>))
            \cup If(op.new # op.name /\ ~ ValidName(op.new), Err("GlobalAttributeNameNotValid", <<op.new>>))
      [] op.op = "remove_gattr" ->
            If(~ Has(ds.attrs, op.name), Err("GlobalAttributeNotDefined", <<op.name>>))
      [] op.op \in {"add_vattr", "rename_vattr", "remove_vattr"} ->
            LET v == Idx(ds.vars, op.var)
            IN IF v = 0 THEN {IF op.via \in {"mut", "mutstring"} THEN None ELSE Err("VariableNotDefined", <<op.var>>)}
               ELSE LET a == ds.vars[v].a IN
                    CASE op.op = "add_vattr" ->
                            If(Has(a, op.name), Err("VariableAttributeAlreadyExists", <<op.var, op.name>>))
                            \cup If(~ ValidName(op.name), Err("VariableAttributeNameNotValid", <<op.var, op.name>>))
                      [] op.op = "rename_vattr" ->
                            If(~ Has(a, op.name), Err("VariableAttributeNotDefined", <<op.var, op.name>>))
                            \cup If(op.new # op.name /\ Has(a, op.new), Err("VariableAttributeAlreadyExists", <<op.var, op.new>>))
                            \cup If(op.new # op.name /\ ~ ValidName(op.new), Err("VariableAttributeNameNotValid", <<op.var, op.new>>))
                      [] op.op = "remove_vattr" ->
                            If(~ Has(a, op.name), Err("VariableAttributeNotDefined", <<op.var, op.name>>))

(* A rename of something undefined to its own name changes nothing: whether *)
(* it is reported is left open.                                             *)
SelfRename(op) == op.op \in {"rename_dim", "rename_var", "rename_gattr", "rename_vattr"} /\ op.name = op.new

Legal(ds, op) == Errors(ds, op) = {}
AllowedBy(E, op) == IF E = {} THEN {Ok} ELSE IF SelfRename(op) THEN E \cup {Ok} ELSE E
Allowed(ds, op) == AllowedBy(Errors(ds, op), op)

---------------------------------------------------------------------------
(* The effect of a legal call *)

AddAttr(a, op) == Append(a, [n |-> op.name, t |-> op.t, d |-> op.d])
RenameIn(s, from, to) == LET i == Idx(s, from) IN [s EXCEPT ![i].n = to]

(* variables after the removal of (unused) dimension i *)
ShiftDims(vars, i) == [k \in 1..Len(vars) |->
    [vars[k] EXCEPT !.d = [j \in 1..Len(vars[k].d) |-> IF vars[k].d[j] > i THEN vars[k].d[j] - 1 ELSE vars[k].d[j]]]]

Apply(ds, op) ==
    IF SelfRename(op) THEN ds ELSE
    CASE op.op = "add_fixed_dim"     -> [ds EXCEPT !.dims = Append(@, [n |-> op.name, u |-> FALSE, s |-> op.size])]
      [] op.op = "set_unlimited_dim" -> [ds EXCEPT !.dims = Append(@, [n |-> op.name, u |-> TRUE, s |-> op.size])]
      [] op.op = "rename_dim"        -> [ds EXCEPT !.dims = RenameIn(@, op.name, op.new)]
      [] op.op = "remove_dim"        -> LET i == Idx(ds.dims, op.name)
                                        IN [ds EXCEPT !.dims = RemoveAt(@, i), !.vars = ShiftDims(@, i)]
      [] op.op = "add_var"           -> [ds EXCEPT !.vars = Append(@, [n |-> op.name, t |-> op.t,
                                            d |-> [i \in 1..Len(op.dims) |-> Idx(ds.dims, op.dims[i])], a |-> <<>>])]
      [] op.op = "rename_var"        -> [ds EXCEPT !.vars = RenameIn(@, op.name, op.new)]
      [] op.op = "remove_var"        -> [ds EXCEPT !.vars = RemoveAt(@, Idx(ds.vars, op.name))]
      [] op.op = "add_gattr"         -> [ds EXCEPT !.attrs = AddAttr(@, op)]
      [] op.op = "rename_gattr"      -> [ds EXCEPT !.attrs = RenameIn(@, op.name, op.new)]
      [] op.op = "remove_gattr"      -> [ds EXCEPT !.attrs = RemoveAt(@, Idx(ds.attrs, op.name))]
      [] op.op = "add_vattr"         -> [ds EXCEPT !.vars[Idx(ds.vars, op.var)].a = AddAttr(@, op)]
      [] op.op = "rename_vattr"      -> [ds EXCEPT !.vars[Idx(ds.vars, op.var)].a = RenameIn(@, op.name, op.new)]
      [] op.op = "remove_vattr"      -> [ds EXCEPT !.vars[Idx(ds.vars, op.var)].a = RemoveAt(@, Idx(@, op.name))]

Step(ds, op) == IF Legal(ds, op) THEN Apply(ds, op) ELSE ds

(* What the calls that remove something return *)
VarOut(ds, v) == [n |-> v.n, t |-> v.t, dn |-> [i \in 1..Len(v.d) |-> ds.dims[v.d[i]].n], a |-> v.a]
Removed(ds, op) ==
    CASE op.op = "remove_dim"   -> <<ds.dims[Idx(ds.dims, op.name)]>>
      [] op.op = "remove_var"   -> <<VarOut(ds, ds.vars[Idx(ds.vars, op.name)])>>
      [] op.op = "remove_gattr" -> <<ds.attrs[Idx(ds.attrs, op.name)]>>
      [] op.op = "remove_vattr" -> LET a == ds.vars[Idx(ds.vars, op.var)].a IN <<a[Idx(a, op.name)]>>
      [] OTHER -> <<>>

---------------------------------------------------------------------------
(* Equality: the same definition, where floats compare as numbers *)

ZeroFrom(d, i) == \A j \in i..Len(d) : d[j] = 0
FloatZero(d) == d[1] \in {0, 128} /\ ZeroFrom(d, 2)
FloatNaN(d) == IF Len(d) = 4 THEN (d[1] % 128) = 127 /\ d[2] >= 128 /\ ~ (d[2] = 128 /\ ZeroFrom(d, 3))
               ELSE (d[1] % 128) = 127 /\ d[2] >= 240 /\ ~ (d[2] = 240 /\ ZeroFrom(d, 3))
EqFloat(x, y) == (x = y /\ ~ FloatNaN(x)) \/ (FloatZero(x) /\ FloatZero(y))
EqData(t, x, y) ==
    IF t \notin {"f32", "f64"} THEN x = y
    ELSE LET n == SizeOf(t)
             el(d, k) == SubSeq(d, (k - 1) * n + 1, k * n)
         IN Len(x) = Len(y) /\ \A k \in 1..(Len(x) \div n) : EqFloat(el(x, k), el(y, k))
EqAttr(a, b) == a.n = b.n /\ a.t = b.t /\ EqData(a.t, a.d, b.d)
EqAttrs(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : EqAttr(a[k], b[k])
(* variable v of ds and variable w of es: by what their dimensions are, not where *)
EqVar(ds, v, es, w) ==
    /\ v.n = w.n /\ v.t = w.t
    /\ [k \in 1..Len(v.d) |-> ds.dims[v.d[k]]] = [k \in 1..Len(w.d) |-> es.dims[w.d[k]]]
    /\ EqAttrs(v.a, w.a)
EqDs(ds, es) ==
    /\ ds.dims = es.dims
    /\ EqAttrs(ds.attrs, es.attrs)
    /\ Len(ds.vars) = Len(es.vars)
    /\ \A k \in 1..Len(ds.vars) : EqVar(ds, ds.vars[k], es, es.vars[k])

---------------------------------------------------------------------------
(* Sizes *)

IsRec(ds, v) == v.d # <<>> /\ ds.dims[v.d[1]].u
RECURSIVE ProdDims(_, _, _)
ProdDims(ds, d, i) == IF i > Len(d) THEN BOne ELSE BMul(ds.dims[d[i]].s, ProdDims(ds, d, i + 1))
ChunkLen(ds, v) == ProdDims(ds, v.d, IF IsRec(ds, v) THEN 2 ELSE 1)
ChunkBytes(ds, v) == BMulInt(ChunkLen(ds, v), SizeOf(v.t))    \* without padding
ChunkSize(ds, v) == BRound4(ChunkBytes(ds, v))
NumChunks(ds, v) == IF IsRec(ds, v) THEN ds.dims[v.d[1]].s ELSE BOne
VarLen(ds, v) == BMul(NumChunks(ds, v), ChunkLen(ds, v))
RECURSIVE SumRec(_, _)
SumRec(ds, i) == IF i > Len(ds.vars) THEN BZero
                 ELSE LET r == SumRec(ds, i + 1) IN
                      IF IsRec(ds, ds.vars[i]) THEN BAdd(ChunkSize(ds, ds.vars[i]), r) ELSE r
RecordSize(ds) == SumRec(ds, 1)
NumRecs(ds) == IF HasUnlim(ds) THEN ds.dims[UnlimIdx(ds)].s ELSE BZero
=============================================================================
