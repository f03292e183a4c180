----------------------------- MODULE MC_DataSet -----------------------------
(***************************************************************************)
(* Exhaustive exploration of the definition layer on small constants.      *)
(* Every reachable definition is visited once; `hist` (a shortest history  *)
(* that leads to it) is outside the view.  Every definition and the calls  *)
(* to try on it are printed: the harness replays them on the real code.    *)
(***************************************************************************)
EXTENDS DataSetModel, TLC, Json

CONSTANTS Ops,      \* the calls
          Probes,   \* the lookups
          MaxD, MaxV

VARIABLES ds, hist

a == <<97>>
b == <<98>>
c == <<99>>
bad == <<33, 97>>      \* "!a"
Valid2 == {a, b}
All3 == {a, b, bad}

SeqsUpTo(S, n) == UNION {[1..k -> S] : k \in 0..n}

DimOps(N, B, S, U) ==
    {[op |-> "add_fixed_dim", name |-> n, size |-> s] : n \in N \cup B, s \in S}
    \cup {[op |-> "set_unlimited_dim", name |-> n, size |-> s] : n \in N \cup B, s \in U}
    \cup {[op |-> "rename_dim", name |-> n, new |-> m] : n \in N \cup B, m \in N \cup B}
    \cup {[op |-> "remove_dim", name |-> n] : n \in N \cup B}
VarOps(N, B, D, k, TT) ==
    {[op |-> "add_var", via |-> "typed", name |-> n, dims |-> d, t |-> t] : n \in N \cup B, d \in SeqsUpTo(D, k), t \in TT}
    \cup {[op |-> "rename_var", name |-> n, new |-> m] : n \in N \cup B, m \in N \cup B}
    \cup {[op |-> "remove_var", name |-> n] : n \in N \cup B}
Data == {[t |-> "u8", d |-> <<>>], [t |-> "i16", d |-> <<1, 2>>]}
GAttrOps(N, B) ==
    {[op |-> "add_gattr", via |-> "typed", name |-> n, t |-> x.t, d |-> x.d] : n \in N \cup B, x \in Data}
    \cup {[op |-> "rename_gattr", name |-> n, new |-> m] : n \in N \cup B, m \in N \cup B}
    \cup {[op |-> "remove_gattr", name |-> n] : n \in N \cup B}
VAttrOps(V, N, B) ==
    {[op |-> "add_vattr", via |-> w, var |-> v, name |-> n, t |-> x.t, d |-> x.d] : w \in {"typed", "mut"}, v \in V, n \in N \cup B, x \in Data}
    \cup {[op |-> "rename_vattr", via |-> "typed", var |-> v, name |-> n, new |-> m] : v \in V, n \in N \cup B, m \in N \cup B}
    \cup {[op |-> "remove_vattr", via |-> w, var |-> v, name |-> n] : w \in {"typed", "mut"}, v \in V, n \in N \cup B}

TooBig == <<253, 255, 255, 127>>
(* dimensions and variables *)
OpsA == DimOps(Valid2, {bad}, {BZero, BOne, TooBig}, {BZero, <<2>>}) \cup VarOps(Valid2, {bad}, All3, 2, {"i16"})
(* attributes *)
OpsB == GAttrOps(Valid2, {bad}) \cup VAttrOps(Valid2, Valid2, {bad}) \cup VarOps(Valid2, {}, {}, 0, {"u8"})
(* more names and three dimensions per variable (thorough) *)
OpsC == DimOps({a, b, c}, {}, {BOne}, {<<2>>}) \cup VarOps({a}, {}, {a, b, c}, 3, {"i16"})

Q(dn, vn, an, ids) == [op |-> "probe", q |-> [dn |-> dn, vn |-> vn, an |-> an, ids |-> ids]]
ProbesA == {Q(a, a, a, <<>>), Q(b, b, b, <<1, 0>>), Q(a, b, a, <<0, 2, 0, 3>>), Q(bad, bad, bad, <<2>>)}
ProbesB == {Q(a, v, n, <<0>>) : v \in Valid2, n \in All3}

Init == ds = EmptyDs /\ hist = <<>>
Do(op) == /\ Legal(ds, op)
          /\ ds' = Apply(ds, op)
          /\ hist' = Append(hist, op)
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_<<ds, hist>>
View == ds
Bounds == Len(ds.dims) <= MaxD /\ Len(ds.vars) <= MaxV

(* the specification is consistent with itself *)
InvWellFormed == WellFormed(ds)
(* a call that adds or renames breaks no rule exactly when its effect is defined and well formed *)
InvRules == \A op \in Ops :
    /\ (Legal(ds, op) => WellFormed(Apply(ds, op)))
    /\ (op.op \in {"add_fixed_dim", "set_unlimited_dim", "add_gattr"}
        => (Legal(ds, op) <=> WellFormed(Apply(ds, op))))
    /\ (op.op = "add_var" /\ (\A x \in Range(op.dims) : Has(ds.dims, x)) => (Legal(ds, op) <=> WellFormed(Apply(ds, op))))
    /\ (op.op = "rename_dim" /\ Has(ds.dims, op.name) => (Legal(ds, op) <=> WellFormed(Apply(ds, op))))
    /\ (op.op = "rename_var" /\ Has(ds.vars, op.name) => (Legal(ds, op) <=> WellFormed(Apply(ds, op))))
    /\ (op.op = "rename_gattr" /\ Has(ds.attrs, op.name) => (Legal(ds, op) <=> WellFormed(Apply(ds, op))))
    /\ (op.op = "rename_vattr" /\ Has(ds.vars, op.var) /\ Has(ds.vars[Idx(ds.vars, op.var)].a, op.name)
        => (Legal(ds, op) <=> WellFormed(Apply(ds, op))))
(* a rename is undone by the rename back; what a call adds, the call that removes it removes *)
InvInverse == \A op \in Ops :
    Legal(ds, op) =>
        LET d2 == Apply(ds, op)
        IN CASE op.op \in {"rename_dim", "rename_var", "rename_gattr"} ->
                    Apply(d2, [op EXCEPT !.name = op.new, !.new = op.name]) = ds
             [] op.op \in {"add_fixed_dim", "set_unlimited_dim"} ->
                    LET r == [op |-> "remove_dim", name |-> op.name] IN Legal(d2, r) /\ Apply(d2, r) = ds
             [] op.op = "add_var" ->
                    LET r == [op |-> "remove_var", name |-> op.name] IN Legal(d2, r) /\ Apply(d2, r) = ds
             [] OTHER -> TRUE

(* equality tells a definition from every other one a call leads to *)
InvEqual == EqDs(ds, ds) /\ \A op \in Ops : Legal(ds, op) =>
    LET d2 == Apply(ds, op) IN /\ EqDs(ds, d2) <=> (ds = d2)
                               /\ EqDs(ds, d2) <=> EqDs(d2, ds)

(* printing *)
EmitState == Bounds => PrintT("EMIT " \o ToJson([pre |-> hist, model |-> ds]))
ASSUME PrintT("OPS " \o ToJson(Ops))
ASSUME PrintT("PROBES " \o ToJson(Probes))
=============================================================================
