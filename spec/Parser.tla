------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The pushdown machine that accepts a token sequence by the grammar of a  *)
(* dialect and builds the tables it declares.  One step (ParseStep)        *)
(* expands or consumes the symbol on top of the stack.                     *)
(***************************************************************************)
EXTENDS Lexer, Grammar, Integers, TLC

-----------------------------------------------------------------------------
(* Decimal numbers.  TLC integers have 32 bits, so sizes are kept as digit  *)
(* strings without leading zeros and numbers as strings that denote m * 2^q. *)

Chars(t) == [ i \in 1..Len(t) |-> SubSeq(t, i, i) ]
Str2(cs) == FoldLeft(LAMBDA a, c : a \o c, "", cs)      \* characters to string

RECURSIVE StripLeft(_), StripRight(_)
StripLeft(cs)  == IF cs # <<>> /\ cs[1] = "0" THEN StripLeft(Tail(cs)) ELSE cs
StripRight(cs) == IF cs # <<>> /\ cs[Len(cs)] = "0" THEN StripRight(SubSeq(cs, 1, Len(cs) - 1))
                  ELSE cs

DigitVal == [ c \in Digits |-> CHOOSE i \in 0..9 : ToString(i) = c ]

MaxInt64 == <<"9","2","2","3","3","7","2","0","3","6","8","5","4","7","7","5","8","0","7">>

RECURSIVE LeqDigits(_, _)                     \* same length
LeqDigits(a, b) == \/ a = <<>>
                   \/ DigitVal[a[1]] < DigitVal[b[1]]
                   \/ a[1] = b[1] /\ LeqDigits(Tail(a), Tail(b))

Unsigned(cs) == IF cs # <<>> /\ cs[1] \in {"+", "-"} THEN Tail(cs) ELSE cs

IntDigits(t) == StripLeft(Unsigned(Chars(t)))

(* An integer of the form [+]digits with 0 < value < 2^63 *)
IsPositive(tok) ==
  /\ tok.c = "w" /\ tok.d = "i" /\ SubSeq(tok.t, 1, 1) # "-"
  /\ LET ds == IntDigits(tok.t) IN
     /\ ds # <<>>
     /\ \/ Len(ds) < Len(MaxInt64)
        \/ Len(ds) = Len(MaxInt64) /\ LeqDigits(ds, MaxInt64)

SizeOf(tok) == Str2(IntDigits(tok.t))

IntOf(ds) == FoldLeft(LAMBDA a, c : a * 10 + DigitVal[c], 0, ds)

(* A numeric literal as sign, significant digits and power of ten:         *)
(* value = (-1)^neg * 0.ds * 10^(Len(ds)) * 10^ex, ds without outer zeros. *)
Decimal(t) ==
  LET cs == Chars(t)
      neg == cs[1] = "-"
      body == Unsigned(cs)
      epos == { i \in 1..Len(body) : body[i] \in {"e", "E"} }
      mant == IF epos = {} THEN body ELSE SubSeq(body, 1, (CHOOSE i \in epos : TRUE) - 1)
      es == IF epos = {} THEN <<>> ELSE SubSeq(body, (CHOOSE i \in epos : TRUE) + 1, Len(body))
      eneg == es # <<>> /\ es[1] = "-"
      eds == StripLeft(Unsigned(es))
      eabs == IF Len(eds) > 5 THEN 99999 ELSE IntOf(eds)
      dots == { i \in 1..Len(mant) : mant[i] = "." }
      frac == IF dots = {} THEN 0 ELSE Len(mant) - (CHOOSE i \in dots : TRUE)
      all == StripLeft(SelectSeq(mant, LAMBDA c : c # "."))
      ds == StripRight(all)
  IN [ neg |-> neg, ds |-> ds,
       ex |-> (IF eneg THEN 0 - eabs ELSE eabs) - frac + (Len(all) - Len(ds)) ]

(* The value of a numeric literal is the nearest float64: m * 2^q *)
Float64 == INSTANCE Floats WITH Bits <- 53, QLow <- 1074, QMax <- 971

Value(n) == Float64!Nearest([ i \in 1..Len(n.ds) |-> DigitVal[n.ds[i]] ], n.ex)

IsNumber(tok) ==
  /\ tok.c = "w" /\ IsNumberState(tok.d)
  /\ \/ tok.d = "i" /\ Len(tok.t) < 300
     \/ LET n == Decimal(tok.t) IN
        \/ n.ds = <<>>
        \/ Len(n.ds) + n.ex <= 308
        \/ Len(n.ds) + n.ex = 309 /\ Value(n) # Float64!Infinity

NumberOf(tok) ==
  LET n == Decimal(tok.t) IN
  IF n.ds = <<>> \/ Len(n.ds) + n.ex < 0 - 330 THEN "0"
  ELSE LET v == Value(n) IN
       IF v = Float64!Zero THEN "0"
       ELSE (IF n.neg THEN "-" ELSE "") \o Float64!FloatText(v)

-----------------------------------------------------------------------------
(* Token classes *)

EofToken(l) == [ t |-> EOF, k |-> "", u |-> "", c |-> "eof", n |-> FALSE, d |-> "-", l |-> l ]

IdQuotes == [ SQLite |-> {"\"", "`"}, PostgreSQL |-> {"\""}, MySQL |-> {"`"} ]
StrQuotes == [ SQLite |-> {"'"}, PostgreSQL |-> {"'"}, MySQL |-> {"'", "\""} ]

IsName(d, tok) == \/ tok.n /\ tok.k \notin Reserved[d]
                  \/ tok.c \in IdQuotes[d]
IsString(d, tok) == tok.c \in StrQuotes[d]

Constants == {"NULL", "TRUE", "FALSE", "CURRENT_TIME", "CURRENT_DATE", "CURRENT_TIMESTAMP"}
IsLiteral(d, tok) == IsString(d, tok) \/ IsNumber(tok) \/ tok.k \in Constants

NoDefault == [ k |-> "nil", v |-> "" ]
LiteralOf(d, tok) ==
  IF IsString(d, tok) THEN [ k |-> "str", v |-> tok.u ]
  ELSE IF tok.k = "NULL" THEN NoDefault
  ELSE IF tok.k = "TRUE" THEN [ k |-> "bool", v |-> "true" ]
  ELSE IF tok.k = "FALSE" THEN [ k |-> "bool", v |-> "false" ]
  ELSE IF tok.k \in Constants THEN [ k |-> "str", v |-> tok.t ]
  ELSE [ k |-> "num", v |-> NumberOf(tok) ]

-----------------------------------------------------------------------------
(* The result.  A table: schema s, name n, if-not-exists i, columns c,      *)
(* primary keys pk, uniques uq, checks ck, foreign keys fk.  A column: name *)
(* n, type t, sizes dn dm ("0" if absent), constraint name cn, flags pk uq  *)
(* nn ai, default df, check ck, collation co, reference rt rc.              *)

EmptyTable == [ s |-> "", n |-> "", i |-> FALSE, c |-> <<>>,
                pk |-> <<>>, uq |-> <<>>, ck |-> <<>>, fk |-> <<>> ]

EmptyColumn == [ n |-> "", t |-> "", dn |-> "0", dm |-> "0", cn |-> "", pk |-> FALSE, uq |-> FALSE,
                 nn |-> FALSE, ai |-> FALSE, df |-> NoDefault, ck |-> "", co |-> "",
                 rt |-> "", rc |-> <<>> ]

EmptyForeignKey == [ n |-> "", c |-> <<>>, rt |-> "", rc |-> <<>> ]

(* The machine: st stack, i index of the current token, r "run", "ok" or    *)
(* "err"; v last consumed token; ex, exw text of the bracketed group and    *)
(* whether it ends in a word; tags kinds of constraints seen on the column; *)
(* ls name list; nm constraint name; fk, col, tab: under construction.      *)
ParseInit == [ st |-> Start, i |-> 1, r |-> "run", v |-> EofToken(0), ex |-> "", exw |-> FALSE,
               tags |-> {}, ls |-> <<>>, nm |-> "", fk |-> EmptyForeignKey,
               col |-> EmptyColumn, tab |-> EmptyTable, tabs |-> <<>> ]

Act(d, p, a) ==
  CASE a = "names0" -> [ p EXCEPT !.ls = <<>> ]
    [] a = "nameadd" -> [ p EXCEPT !.ls = Append(@, p.v.t) ]
    [] a = "column" -> [ p EXCEPT !.col = [ EmptyColumn EXCEPT !.n = p.v.u ], !.tags = {} ]
    [] a = "type" -> [ p EXCEPT !.col.t = p.v.k ]
    [] a = "varying" -> [ p EXCEPT !.col.t = IF @ = "BIT" THEN "VARBIT" ELSE "VARCHAR" ]
    [] a = "sizeN" -> [ p EXCEPT !.col.dn = SizeOf(p.v) ]
    [] a = "sizeM" -> [ p EXCEPT !.col.dm = SizeOf(p.v) ]
    [] a = "colend" -> [ p EXCEPT !.tab.c = Append(@, p.col) ]
    [] a = "cname" -> [ p EXCEPT !.col.cn = p.v.u ]
    [] a = "pk" -> [ p EXCEPT !.col.pk = TRUE ]
    [] a = "uq" -> [ p EXCEPT !.col.uq = TRUE ]
    [] a = "nn" -> [ p EXCEPT !.col.nn = TRUE ]
    [] a = "ai" -> [ p EXCEPT !.col.ai = TRUE ]
    [] a = "deflit" -> [ p EXCEPT !.col.df = LiteralOf(d, p.v) ]
    [] a = "defexpr" -> [ p EXCEPT !.col.df = [ k |-> "str", v |-> p.ex ] ]
    [] a = "check" -> [ p EXCEPT !.col.ck = p.ex ]
    [] a = "collate" -> [ p EXCEPT !.col.co = p.v.u ]
    [] a = "reft" -> [ p EXCEPT !.col.rt = p.v.u ]
    [] a = "refcols" -> [ p EXCEPT !.col.rc = p.ls ]
    [] a = "table" -> [ p EXCEPT !.tab = EmptyTable ]
    [] a = "ifnotexists" -> [ p EXCEPT !.tab.i = TRUE ]
    [] a = "tname" -> [ p EXCEPT !.tab.n = p.v.u ]
    [] a = "tschema" -> [ p EXCEPT !.tab.s = p.tab.n, !.tab.n = p.v.u ]
    [] a = "tabend" -> [ p EXCEPT !.tabs = Append(@, p.tab) ]
    [] a = "con0" -> [ p EXCEPT !.nm = "" ]
    [] a = "con" -> [ p EXCEPT !.nm = p.v.u ]
    [] a = "tpk" -> [ p EXCEPT !.tab.pk = Append(@, [ n |-> p.nm, c |-> p.ls ]) ]
    [] a = "tuq" -> [ p EXCEPT !.tab.uq = Append(@, [ n |-> p.nm, c |-> p.ls ]) ]
    [] a = "tck" -> [ p EXCEPT !.tab.ck = Append(@, [ n |-> p.nm, e |-> p.ex ]) ]
    [] a = "fkcols" -> [ p EXCEPT !.fk = [ EmptyForeignKey EXCEPT !.n = p.nm, !.c = p.ls ] ]
    [] a = "fkt" -> [ p EXCEPT !.fk.rt = p.v.u ]
    [] a = "fkrefs" -> [ p EXCEPT !.fk.rc = p.ls ]
    [] a = "tfk" -> [ p EXCEPT !.tab.fk = Append(@, p.fk) ]

-----------------------------------------------------------------------------

(* toks[Len(toks)] is the end-of-text token. *)
ClassMatch(c, tok) == c = {"any"} \/ (c = {"eof"} /\ tok.c = "eof")

AltMatch(a, toks, i) ==
  /\ a.c = {} => toks[i].k \in a.w
  /\ a.c # {} => ClassMatch(a.c, toks[i])
  /\ a.x # {} => toks[i + 1].k \notin a.x    \* there is a next token: keys in w are not the end

RECURSIVE Choose(_, _, _, _)
Choose(as, j, toks, i) ==                    \* first applicable alternative, 0 if none
  IF j > Len(as) THEN 0
  ELSE IF AltMatch(as[j], toks, i) THEN j
  ELSE Choose(as, j + 1, toks, i)

Error(p) == [ p EXCEPT !.r = "err" ]

Consume(p, toks, rest) == [ p EXCEPT !.st = rest, !.i = @ + 1, !.v = toks[p.i] ]

Expand(p, as, toks, rest) ==
  LET j == Choose(as, 1, toks, p.i) IN
  IF j = 0 THEN Error(p) ELSE [ p EXCEPT !.st = as[j].r \o rest ]

IsWordTok(tok) == tok.c = "w"

(* Text of a bracketed group: token texts in order, a space only between words *)
AddText(p, tok) ==
  [ p EXCEPT !.ex = @ \o (IF p.exw /\ IsWordTok(tok) THEN " " ELSE "") \o tok.t,
             !.exw = IsWordTok(tok) ]

ParStep(p, toks, sym, rest) ==               \* inside a group at depth sym.depth
  LET tok == toks[p.i]
      q == IF sym.keep THEN AddText(p, tok) ELSE p
      dep == IF tok.k = "(" THEN sym.depth + 1
             ELSE IF tok.k = ")" THEN sym.depth - 1 ELSE sym.depth
  IN IF tok.c = "eof" THEN Error(p)
     ELSE Consume(q, toks, IF dep = 0 THEN rest
                           ELSE << [ sym EXCEPT !.depth = dep ] >> \o rest)

SkipStep(p, toks, sym, rest) ==              \* begun: inside BEGIN ... END
  LET tok == toks[p.i]
      begun == sym.begun \/ tok.k = "BEGIN"
  IN IF tok.c = "eof" THEN Error(p)
     ELSE IF ~begun /\ tok.k = ";" THEN Consume(p, toks, rest)
     ELSE Consume(p, toks, << [ sym EXCEPT !.begun = begun /\ tok.k # "END" ] >> \o rest)

ParseStep(d, toks, p) ==
  IF p.st = <<>> THEN [ p EXCEPT !.r = "ok" ]
  ELSE
  LET sym == Head(p.st)
      rest == Tail(p.st)
      tok == toks[p.i]
  IN CASE sym.k = "do" -> [ Act(d, p, sym.n) EXCEPT !.st = rest ]
       [] sym.k = "kw" -> IF tok.k \in sym.w THEN Consume(p, toks, rest) ELSE Error(p)
       [] sym.k = "alts" -> Expand(p, sym.a, toks, rest)
       [] sym.k = "nt" -> Expand(p, Grammar[d][sym.n], toks, rest)
       [] sym.k = "name" -> IF IsName(d, tok) THEN Consume(p, toks, rest) ELSE Error(p)
       [] sym.k = "tag" -> IF sym.n \in p.tags THEN Error(p)
                           ELSE [ p EXCEPT !.st = rest, !.tags = @ \cup {sym.n} ]
       [] sym.k = "lit" -> IF IsLiteral(d, tok) THEN Consume(p, toks, rest) ELSE Error(p)
       [] sym.k = "str" -> IF IsString(d, tok) THEN Consume(p, toks, rest) ELSE Error(p)
       [] sym.k = "pos" -> IF IsPositive(tok) THEN Consume(p, toks, rest) ELSE Error(p)
       [] sym.k = "par" ->
            IF tok.k = "("
            THEN Consume([ p EXCEPT !.ex = "(", !.exw = FALSE ], toks,
                         << [ k |-> "inpar", keep |-> sym.keep, depth |-> 1 ] >> \o rest)
            ELSE Error(p)
       [] sym.k = "inpar" -> ParStep(p, toks, sym, rest)
       [] sym.k = "skip" -> [ p EXCEPT !.st = << [ k |-> "skipping", begun |-> FALSE ] >> \o rest ]
       [] sym.k = "skipping" -> SkipStep(p, toks, sym, rest)

(* All steps up to the one that consumes token i; then all tokens in turn.  *)
RECURSIVE StepsAt(_, _, _, _)
StepsAt(d, toks, p, i) ==
  IF p.r # "run" \/ p.i > i THEN p ELSE StepsAt(d, toks, ParseStep(d, toks, p), i)

ParseRun(d, toks, p) ==
  FoldLeft(LAMBDA q, i : StepsAt(d, toks, q, i), p, [ i \in 1..Len(toks) |-> i ])

-----------------------------------------------------------------------------
(* Outcome of a call *)

Accept(tabs) == [ k |-> "ok", tabs |-> tabs, l |-> 0, near |-> "" ]
Reject(l, near) == [ k |-> "err", tabs |-> <<>>, l |-> l, near |-> near ]

ParseTokens(d, toks) ==
  LET p == ParseRun(d, toks, ParseInit) IN
  IF p.r = "ok" THEN Accept(p.tabs) ELSE Reject(toks[p.i].l, toks[p.i].t)

Parse(d, text) ==
  LET s == Lex(d, text) IN
  IF s.m = "error" THEN Reject(s.l, s.near)
  ELSE ParseTokens(d, Append(s.toks, EofToken(s.l)))

ForceOrder == << "SQLite", "PostgreSQL", "MySQL" >>

ParseForce(text) ==
  LET a == Parse("SQLite", text) IN
  IF a.k = "ok" THEN a
  ELSE LET b == Parse("PostgreSQL", text) IN
       IF b.k = "ok" THEN b ELSE Parse("MySQL", text)

=============================================================================
