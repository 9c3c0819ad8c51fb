------------------------------ MODULE JsonForm ------------------------------
(***************************************************************************)
(* The JSON form of a result (P18): the field names the README documents.  *)
(* A JSON value is one of                                                  *)
(*   [k |-> "str", v], [k |-> "bool", v], [k |-> "num", v, c] (c: the      *)
(*   float64 it denotes), [k |-> "null"], [k |-> "list", e |-> elements],  *)
(*   [k |-> "obj", f |-> function from names to values].                   *)
(* A list without elements may be written [] or null.                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences

Obj(j, names) == j.k = "obj" /\ DOMAIN j.f = names

IsStr(j, s) == j.k = "str" /\ j.v = s
IsBool(j, b) == j.k = "bool" /\ j.v = (IF b THEN "true" ELSE "false")
IsSize(j, n) == j.k = "num" /\ j.v = n

IsList(j, xs, is(_, _)) ==
  IF j.k = "null" THEN xs = <<>>
  ELSE /\ j.k = "list" /\ Len(j.e) = Len(xs)
       /\ \A i \in 1..Len(xs) : is(j.e[i], xs[i])

IsDefault(j, d) ==
  CASE d.k = "nil" -> j.k = "null"
    [] d.k = "bool" -> j.k = "bool" /\ j.v = d.v
    [] d.k = "num" -> j.k = "num" /\ j.c = d.v
    [] d.k = "str" -> j.k = "str" /\ j.v = d.v
    [] OTHER -> FALSE

IsReference(j, t, cs) ==
  /\ Obj(j, {"table_name", "column_names"})
  /\ IsStr(j.f.table_name, t) /\ IsList(j.f.column_names, cs, IsStr)

IsConstraint(j, c) ==
  /\ Obj(j, {"name", "is_primary_key", "is_unique", "is_not_null", "is_autoincrement", "default", "check", "collate",
             "references"})
  /\ IsStr(j.f.name, c.cn) /\ IsBool(j.f.is_primary_key, c.pk) /\ IsBool(j.f.is_unique, c.uq)
  /\ IsBool(j.f.is_not_null, c.nn) /\ IsBool(j.f.is_autoincrement, c.ai) /\ IsDefault(j.f.default, c.df)
  /\ IsStr(j.f.check, c.ck) /\ IsStr(j.f.collate, c.co) /\ IsReference(j.f.references, c.rt, c.rc)

IsColumn(j, c) ==
  /\ Obj(j, {"name", "data_type", "constraint"})
  /\ IsStr(j.f.name, c.n)
  /\ Obj(j.f.data_type, {"name", "digit_n", "digit_m"})
  /\ IsStr(j.f.data_type.f.name, c.t) /\ IsSize(j.f.data_type.f.digit_n, c.dn) /\ IsSize(j.f.data_type.f.digit_m, c.dm)
  /\ IsConstraint(j.f.constraint, c)

IsKey(j, k) == Obj(j, {"name", "column_names"}) /\ IsStr(j.f.name, k.n) /\ IsList(j.f.column_names, k.c, IsStr)
IsCheck(j, k) == Obj(j, {"name", "expr"}) /\ IsStr(j.f.name, k.n) /\ IsStr(j.f.expr, k.e)
IsForeignKey(j, k) ==
  /\ Obj(j, {"name", "column_names", "references"})
  /\ IsStr(j.f.name, k.n) /\ IsList(j.f.column_names, k.c, IsStr) /\ IsReference(j.f.references, k.rt, k.rc)

IsTable(j, t) ==
  /\ Obj(j, {"schema", "name", "if_not_exists", "columns", "constraints"})
  /\ IsStr(j.f.schema, t.s) /\ IsStr(j.f.name, t.n) /\ IsBool(j.f.if_not_exists, t.i)
  /\ IsList(j.f.columns, t.c, IsColumn)
  /\ LET cs == j.f.constraints IN
     /\ Obj(cs, {"primary_key", "unique", "check", "foreign_key"})
     /\ IsList(cs.f.primary_key, t.pk, IsKey) /\ IsList(cs.f.unique, t.uq, IsKey)
     /\ IsList(cs.f.check, t.ck, IsCheck) /\ IsList(cs.f.foreign_key, t.fk, IsForeignKey)

IsForm(j, tabs) == IsList(j, tabs, IsTable)
=============================================================================
