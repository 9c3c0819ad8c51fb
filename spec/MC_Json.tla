------------------------------- MODULE MC_Json -------------------------------
(***************************************************************************)
(* The JSON form loses nothing (P18): tables are built up field by field;  *)
(* the form written down for a table is a form of that table and of no     *)
(* table that differs from it in one field.                                *)
(***************************************************************************)
EXTENDS JsonForm, Parser

CONSTANT Texts, MaxEdits

VARIABLES tab, edits
vars == << tab, edits >>

JStr(s) == [ k |-> "str", v |-> s ]
JBool(b) == [ k |-> "bool", v |-> IF b THEN "true" ELSE "false" ]
JNum(n) == [ k |-> "num", v |-> n, c |-> "?" ]
JMap(f(_), s) == [ i \in 1..Len(s) |-> f(s[i]) ]
JList(f(_), s) == IF s = <<>> THEN [ k |-> "null" ] ELSE [ k |-> "list", e |-> JMap(f, s) ]
JObj(f) == [ k |-> "obj", f |-> f ]
DefaultForm(d) == IF d.k = "nil" THEN [ k |-> "null" ]
                  ELSE IF d.k = "num" THEN [ k |-> "num", v |-> "?", c |-> d.v ]
                  ELSE [ k |-> d.k, v |-> d.v ]
RefForm(t, cs) == JObj([ table_name |-> JStr(t), column_names |-> JList(JStr, cs) ])
KeyForm(k) == JObj([ name |-> JStr(k.n), column_names |-> JList(JStr, k.c) ])
CheckForm(k) == JObj([ name |-> JStr(k.n), expr |-> JStr(k.e) ])
FkForm(k) == JObj([ name |-> JStr(k.n), column_names |-> JList(JStr, k.c), references |-> RefForm(k.rt, k.rc) ])
ColumnForm(c) ==
  JObj([ name |-> JStr(c.n),
      data_type |-> JObj([ name |-> JStr(c.t), digit_n |-> JNum(c.dn), digit_m |-> JNum(c.dm) ]),
      constraint |-> JObj([ name |-> JStr(c.cn), is_primary_key |-> JBool(c.pk), is_unique |-> JBool(c.uq),
                         is_not_null |-> JBool(c.nn), is_autoincrement |-> JBool(c.ai), default |-> DefaultForm(c.df),
                         check |-> JStr(c.ck), collate |-> JStr(c.co), references |-> RefForm(c.rt, c.rc) ]) ])
TableForm(t) ==
  JObj([ schema |-> JStr(t.s), name |-> JStr(t.n), if_not_exists |-> JBool(t.i), columns |-> JList(ColumnForm, t.c),
      constraints |-> JObj([ primary_key |-> JList(KeyForm, t.pk), unique |-> JList(KeyForm, t.uq),
                          check |-> JList(CheckForm, t.ck), foreign_key |-> JList(FkForm, t.fk) ]) ])

Lists == { <<>> } \cup { << x >> : x \in Texts } \cup { << x, y >> : x \in Texts, y \in Texts }
Defaults == { [ k |-> "nil", v |-> "" ], [ k |-> "bool", v |-> "true" ], [ k |-> "bool", v |-> "false" ] }
            \cup { [ k |-> kd, v |-> x ] : kd \in {"str", "num"}, x \in Texts }

(* all tables that differ from t in one field *)
ColumnEdits(c) ==
  { [ c EXCEPT ![f] = x ] : f \in {"n", "t", "dn", "dm", "cn", "ck", "co", "rt"}, x \in Texts }
  \cup { [ c EXCEPT ![f] = x ] : f \in {"pk", "uq", "nn", "ai"}, x \in BOOLEAN }
  \cup { [ c EXCEPT !.df = x ] : x \in Defaults } \cup { [ c EXCEPT !.rc = x ] : x \in Lists }
Edits(t) ==
  { [ t EXCEPT ![f] = x ] : f \in {"s", "n"}, x \in Texts } \cup { [ t EXCEPT !.i = x ] : x \in BOOLEAN }
  \cup { [ t EXCEPT !.c = Append(@, EmptyColumn) ] }
  \cup UNION { { [ t EXCEPT !.c[i] = x ] : x \in ColumnEdits(t.c[i]) } : i \in 1..Len(t.c) }
  \cup { [ t EXCEPT ![f] = Append(@, [ n |-> x, c |-> y ]) ] : f \in {"pk", "uq"}, x \in Texts, y \in Lists }
  \cup { [ t EXCEPT !.ck = Append(@, [ n |-> x, e |-> y ]) ] : x \in Texts, y \in Texts }
  \cup { [ t EXCEPT !.fk = Append(@, [ n |-> x, c |-> y, rt |-> x, rc |-> z ]) ] : x \in Texts, y \in Lists, z \in Lists }

Init == tab = [ EmptyTable EXCEPT !.c = << EmptyColumn >> ] /\ edits = 0
Next == edits < MaxEdits /\ tab' \in Edits(tab) /\ edits' = edits + 1
Spec == Init /\ [][Next]_vars

Faithful == IsTable(TableForm(tab), tab)
Lossless == LET j == TableForm(tab) IN \A t \in Edits(tab) : t # tab => ~IsTable(j, t)
=============================================================================
