------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* Tokenizer of the DDL text as a character automaton.                     *)
(*                                                                         *)
(* A text is a sequence of one-character strings.  The automaton reads one *)
(* character per step (LexStep), without lookahead: where the decision     *)
(* needs the next character, it is taken one step later (modes dash,       *)
(* slash, star, dot, quote2).                                              *)
(*                                                                         *)
(* A token is a record                                                     *)
(*   t  the text of the token as written (quotes included)                 *)
(*   k  its key: the text with ASCII letters in upper case; keywords are   *)
(*      compared by key.  Quoted tokens start with their quote, so they    *)
(*      are never equal to a keyword.                                      *)
(*   u  its content: quotes removed, doubled quotes undone                 *)
(*   c  its class: "w" word, "s" symbol, or the quote character            *)
(*   n  TRUE iff it is a word of the form [A-Za-z_][A-Za-z0-9_]*           *)
(*   d  state of the number automaton after the whole token ("i": an       *)
(*      integer, "f", "y": decimal / exponent form, "-": not a number)     *)
(*   l  the line on which the token ends, counted from 1                   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt

Dialects == {"SQLite", "PostgreSQL", "MySQL"}

EOF == "<EOF>"

Digits == {"0","1","2","3","4","5","6","7","8","9"}
LowerSeq == <<"a","b","c","d","e","f","g","h","i","j","k","l","m",
              "n","o","p","q","r","s","t","u","v","w","x","y","z">>
UpperSeq == <<"A","B","C","D","E","F","G","H","I","J","K","L","M",
              "N","O","P","Q","R","S","T","U","V","W","X","Y","Z">>
Lower == { LowerSeq[i] : i \in 1..26 }
Upper == { UpperSeq[i] : i \in 1..26 }
UpOf == [ c \in Lower |-> UpperSeq[CHOOSE i \in 1..26 : LowerSeq[i] = c] ]
Up(c) == IF c \in Lower THEN UpOf[c] ELSE c

NameStart == Lower \cup Upper \cup {"_"}
NameChars == NameStart \cup Digits

Blank == {" ", "\t", "\r"}
Symbols == {"(", ")", ",", ".", ";", "="}
WideSpace == "　"                  \* U+3000

(* The automaton of numeric literals [+-]?d+(.d+)?([eE][+-]?d+)? *)
NumStep(q, c) ==
  IF q = "-" THEN "-"
  ELSE IF c \in Digits THEN
         CASE q \in {"0", "s", "i"} -> "i"
           [] q \in {"d", "f"} -> "f"
           [] OTHER -> "y"                           \* e, x, y
  ELSE IF c = "+" \/ c = "-" THEN
         CASE q = "0" -> "s" [] q = "e" -> "x" [] OTHER -> "-"
  ELSE IF c = "." /\ q = "i" THEN "d"
  ELSE IF (c = "e" \/ c = "E") /\ q \in {"i", "f"} THEN "e"
  ELSE "-"

IsNumberState(q) == q \in {"i", "f", "y"}

(* The state of the tokenizer.  m: mode; t, k, u, n, d: the token being read
   ("0" in d: nothing read yet); q: the open quote; l: line; toks: finished
   tokens; near: where a lexical error was met. *)
LexInit == [ m |-> "code", t |-> "", k |-> "", u |-> "", n |-> TRUE, d |-> "0",
             q |-> "", l |-> 1, toks |-> <<>>, near |-> "" ]

LexModes == {"code", "dash", "slash", "star", "dot", "line", "block", "blockstar",
             "quote", "quote2", "error"}

Push(s, c) ==                      \* add c to the word being read
  [ s EXCEPT !.m = "code",
             !.t = @ \o c,
             !.k = @ \o Up(c),
             !.n = @ /\ IF s.t = "" THEN c \in NameStart ELSE c \in NameChars,
             !.d = NumStep(@, c) ]

Flush(s) ==                        \* finish the word being read, if any
  IF s.t = "" THEN s
  ELSE [ s EXCEPT !.toks = Append(@, [ t |-> s.t, k |-> s.k, u |-> s.t, c |-> "w",
                                       n |-> s.n, d |-> s.d, l |-> s.l ]),
                  !.t = "", !.k = "", !.n = TRUE, !.d = "0" ]

EmitSymbol(s, c) ==
  [ s EXCEPT !.m = "code",
             !.toks = Append(@, [ t |-> c, k |-> c, u |-> c, c |-> "s",
                                  n |-> FALSE, d |-> "-", l |-> s.l ]) ]

OpenQuote(s, c) == [ Flush(s) EXCEPT !.m = "quote", !.q = c, !.t = c, !.u = "" ]

CloseQuote(s) ==
  [ s EXCEPT !.m = "code", !.q = "",
             !.toks = Append(@, [ t |-> s.t \o s.q, k |-> s.t \o s.q, u |-> s.u, c |-> s.q,
                                  n |-> FALSE, d |-> "-", l |-> s.l ]),
             !.t = "", !.u = "" ]

Fail(s, near) == [ s EXCEPT !.m = "error", !.near = near ]

(* One character outside quotes and comments. *)
Code(d, s, c) ==
  IF c \in NameChars THEN Push(s, c)
  ELSE IF c \in Blank THEN [ Flush(s) EXCEPT !.m = "code" ]
  ELSE IF c = "\n" THEN [ Flush(s) EXCEPT !.m = "code", !.l = @ + 1 ]
  ELSE IF c = "." /\ s.d = "i" THEN [ s EXCEPT !.m = "dot" ]
  ELSE IF c \in Symbols THEN EmitSymbol(Flush(s), c)
  ELSE IF c = "'" \/ c = "\"" THEN OpenQuote(s, c)
  ELSE IF c = "`" THEN IF d = "PostgreSQL" THEN Fail(s, "`") ELSE OpenQuote(s, c)
  ELSE IF c = "-" THEN [ s EXCEPT !.m = "dash" ]
  ELSE IF c = "/" THEN [ s EXCEPT !.m = "slash" ]
  ELSE IF c = "*" THEN [ s EXCEPT !.m = "star" ]
  ELSE IF c = "#" /\ d = "MySQL" THEN [ Flush(s) EXCEPT !.m = "line" ]
  ELSE IF c = WideSpace THEN Fail(s, WideSpace)
  ELSE Push(s, c)

NewLine(s, c) == IF c = "\n" THEN [ s EXCEPT !.l = @ + 1 ] ELSE s

LexStep(d, s, c) ==
  CASE s.m = "code" -> Code(d, s, c)
    [] s.m = "quote" ->
         IF c = s.q THEN [ s EXCEPT !.m = "quote2" ]
         ELSE [ NewLine(s, c) EXCEPT !.t = @ \o c, !.u = @ \o c ]
    [] s.m = "quote2" ->                       \* a quote inside a quoted token
         IF c = s.q THEN [ s EXCEPT !.m = "quote", !.t = @ \o c \o c, !.u = @ \o c ]
         ELSE Code(d, CloseQuote(s), c)
    [] s.m = "line" -> IF c = "\n" THEN [ NewLine(s, c) EXCEPT !.m = "code" ] ELSE s
    [] s.m = "block" -> IF c = "*" THEN [ s EXCEPT !.m = "blockstar" ] ELSE NewLine(s, c)
    [] s.m = "blockstar" ->
         IF c = "/" THEN [ s EXCEPT !.m = "code" ]
         ELSE IF c = "*" THEN s
         ELSE [ NewLine(s, c) EXCEPT !.m = "block" ]
    [] s.m = "dash" -> IF c = "-" THEN [ Flush(s) EXCEPT !.m = "line" ]
                       ELSE Code(d, Push(s, "-"), c)
    [] s.m = "slash" -> IF c = "*" THEN [ Flush(s) EXCEPT !.m = "block" ]
                        ELSE Code(d, Push(s, "/"), c)
    [] s.m = "star" -> IF c = "/" THEN Fail(s, "*") ELSE Code(d, Push(s, "*"), c)
    [] s.m = "dot" ->                          \* after digits and a point
         IF c \in Digits THEN Push(Push(s, "."), c)
         ELSE Code(d, EmitSymbol(Flush(s), "."), c)
    [] OTHER -> s                              \* error: the rest is not read

(* End of the text. *)
LexEnd(s) ==
  CASE s.m \in {"code", "line"} -> Flush(s)
    [] s.m = "quote2" -> CloseQuote(s)
    [] s.m = "dash" -> Flush(Push(s, "-"))
    [] s.m = "slash" -> Flush(Push(s, "/"))
    [] s.m = "star" -> Flush(Push(s, "*"))
    [] s.m = "dot" -> EmitSymbol(Flush(s), ".")
    [] s.m \in {"quote", "block", "blockstar"} -> Fail(s, EOF)
    [] OTHER -> s

Lex(d, text) == LexEnd(FoldLeft(LAMBDA s, c : LexStep(d, s, c), LexInit, text))

=============================================================================
