------------------------------- MODULE Lexer -------------------------------
(***************************************************************************)
(* The lexical level of HDDL as a character machine.                       *)
(*                                                                         *)
(* A text is a TLA+ string with one character per byte of the file (bytes  *)
(* above 127 appear as the Latin-1 character of the same number).  The     *)
(* machine reads one character per step (LexStep) and emits tokens         *)
(*                                                                         *)
(*     [c |-> class, v |-> lexeme, l |-> line]                             *)
(*                                                                         *)
(* where class is one of "(", ")", "-", "id", "num", "req", "kw:..",       *)
(* "op:..", "EOF", or "err:.." for a lexical error.  Lexing stops at the   *)
(* first error.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, SequencesExt

Blank    == {" ", "\t", "\n", "\r"}
Digit    == {"0","1","2","3","4","5","6","7","8","9"}
Letter   == {"a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p",
             "q","r","s","t","u","v","w","x","y","z",
             "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P",
             "Q","R","S","T","U","V","W","X","Y","Z"}
NameChar == Letter \cup Digit \cup {"_", "-"}
OtherAscii == {"!","\"","#","$","%","&","'","(",")","*","+",",",".","/",":",
               ";","<","=",">","?","@","[","\\","]","^","`","{","|","}","~"}
Ascii    == NameChar \cup OtherAscii \cup Blank

Requirement == {"negative-preconditions", "strips", "hierarchy", "equality",
                "method-preconditions", "typing", "universal-preconditions"}
\* ":word" keywords; aliases are mapped to one class
ColonKeyword(w) ==
  CASE w = "tasks"         -> "subtasks"
    [] w = "ordered-tasks" -> "ordered-subtasks"
    [] w = "order"         -> "ordering"
    [] w \in {"requirements","objects","types","constants","predicates",
              "functions","init","htn","task","action","parameters","method",
              "precondition","effect","subtasks","ordered-subtasks",
              "ordering","constraints","goal","domain","problem"} -> w
    [] OTHER -> ""
BareKeyword == {"define", "domain", "problem"}
WordOp == {"and","or","oneof","not","forall","exists","imply","probabilistic"}

Tok(c, v, l) == [c |-> c, v |-> v, l |-> l]

\* The largest 64 bit integer, as a string of digits.
MaxInt64 == "9223372036854775807"
RECURSIVE DigitsLeq(_, _, _)
DigitVal == [d \in Digit |-> CHOOSE n \in 0..9 : ToString(n) = d]
DigitsLeq(a, b, i) ==      \* same length
  IF i > Len(a) THEN TRUE
  ELSE LET x == DigitVal[SubSeq(a, i, i)] y == DigitVal[SubSeq(b, i, i)] IN
       IF x < y THEN TRUE ELSE IF x > y THEN FALSE ELSE DigitsLeq(a, b, i + 1)
RECURSIVE StripZeros(_)
StripZeros(s) == IF Len(s) > 1 /\ SubSeq(s, 1, 1) = "0" THEN StripZeros(SubSeq(s, 2, Len(s))) ELSE s
FitsInt64(s) == LET t == StripZeros(s) IN
  \/ Len(t) < Len(MaxInt64)
  \/ Len(t) = Len(MaxInt64) /\ DigitsLeq(t, MaxInt64, 1)

\* The token of a completed word.  pre is "", "?" or ":"; bad says that a
\* character outside of NameChar occurs in it, hi that a non-ASCII one does.
WordToken(pre, w, bad, hi, l) ==
  IF hi THEN Tok("err:any", w, l)        \* unspecified (see DESIGN.md)
  ELSE IF bad THEN Tok("err:InvalidIdentifier", w, l)
  ELSE CASE pre = "?" -> IF w = "" THEN Tok("err:InvalidIdentifier", "?", l)
                                   ELSE Tok("id", w, l)
         [] pre = ":" -> IF w \in Requirement THEN Tok("req", ":" \o w, l)
                         ELSE IF ColonKeyword(w) # "" THEN Tok("kw:" \o ColonKeyword(w), w, l)
                         ELSE Tok("err:InvalidKeyword", w, l)
         [] OTHER     -> IF w \in BareKeyword THEN Tok("kw:" \o w, w, l)
                         ELSE IF w \in WordOp THEN Tok("op:" \o w, w, l)
                         ELSE Tok("id", w, l)

\* Numbers beyond 64 bits, or beyond the range of a double (about 1.8 * 10^308,
\* so numbers of 309 digits may be either), are lexical errors.
WholeDigits(w) == Len(StripZeros(SubSeq(w, 1, SelectInSeq([i \in 1..Len(w) |-> SubSeq(w, i, i)], LAMBDA c : c = ".") - 1)))
NumberToken(w, dot, l) ==
  IF dot THEN IF Len(w) < 309 \/ WholeDigits(w) < 309 THEN Tok("num", w, l)
              ELSE IF WholeDigits(w) = 309 THEN Tok("err:any", w, l)
              ELSE Tok("err:InvalidRealNumber", w, l)
  ELSE IF FitsInt64(w) THEN Tok("num", w, l)
  ELSE Tok("err:InvalidIdentifier", w, l)

\* Machine state: m mode, b index where the lexeme starts, p prefix character,
\* f/h the bad/high flags (f is "dot seen" in numbers), l current line,
\* t tokens so far.
LexInit == [m |-> "gap", b |-> 0, p |-> "", f |-> FALSE, h |-> FALSE,
            l |-> 1, t |-> <<>>]

\* c, at index i, is the first character of something new
Begin(st, c, i) ==
  CASE c = "\n" -> [st EXCEPT !.m = "gap", !.l = @ + 1]
    [] c \in Blank -> [st EXCEPT !.m = "gap"]
    [] c = ";" -> [st EXCEPT !.m = "comment"]
    [] c \in {"(", ")", "-"} -> [st EXCEPT !.m = "gap", !.t = Append(@, Tok(c, c, st.l))]
    [] c = "=" -> [st EXCEPT !.m = "gap", !.t = Append(@, Tok("op:=", c, st.l))]
    [] c \in {"<", ">"} -> [st EXCEPT !.m = "rel", !.p = c]
    [] c \in {"?", ":"} -> [st EXCEPT !.m = "word", !.p = c, !.b = i + 1, !.f = FALSE, !.h = FALSE]
    [] c \in Digit -> [st EXCEPT !.m = "num", !.p = "", !.b = i, !.f = FALSE]
    [] OTHER -> [st EXCEPT !.m = "word", !.p = "", !.b = i, !.f = c \notin NameChar, !.h = c \notin Ascii]

\* complete the pending lexeme, which ends before index i
Complete(st, s, i) ==
  CASE st.m = "word" -> [st EXCEPT !.m = "gap",
         !.t = Append(@, WordToken(st.p, SubSeq(s, st.b, i - 1), st.f, st.h, st.l))]
    [] st.m = "num" -> [st EXCEPT !.m = "gap",
         !.t = Append(@, NumberToken(SubSeq(s, st.b, i - 1), st.f, st.l))]
    [] st.m = "rel" -> [st EXCEPT !.m = "gap", !.t = Append(@, Tok("op:" \o st.p, st.p, st.l))]
    [] OTHER -> st

LexStep(st, c, s, i) ==
  CASE st.m = "gap" -> Begin(st, c, i)
    [] st.m = "comment" -> IF c = "\n" THEN Begin(st, c, i) ELSE st
    [] st.m = "word" -> IF c \in Blank \/ c \in {"(", ")", ";"} THEN Begin(Complete(st, s, i), c, i)
                        ELSE [st EXCEPT !.f = @ \/ c \notin NameChar, !.h = @ \/ c \notin Ascii]
    [] st.m = "num" -> IF c \in Digit THEN st
                       ELSE IF c = "." /\ ~st.f THEN [st EXCEPT !.f = TRUE]
                       ELSE Begin(Complete(st, s, i), c, i)
    [] st.m = "rel" -> IF c = "=" THEN [st EXCEPT !.m = "gap",
                              !.t = Append(@, Tok("op:" \o st.p \o "=", st.p \o "=", st.l))]
                       ELSE Begin(Complete(st, s, i), c, i)

LexMachine(s) == FoldLeft(LAMBDA st, i : LexStep(st, SubSeq(s, i, i), s, i),
                          LexInit, [i \in 1..Len(s) |-> i])

IsErr(t) == t.c \in {"err:InvalidIdentifier", "err:InvalidKeyword", "err:InvalidRealNumber", "err:any"}

\* The tokens of a text, ending in its first lexical error or in EOF.
Tokens(s) ==
  LET fin == Complete(LexMachine(s), s, Len(s) + 1)
      all == Append(fin.t, Tok("EOF", "", fin.l))
      bad == SelectInSeq(all, IsErr)
  IN  IF bad = 0 THEN all ELSE SubSeq(all, 1, bad)

\* How the implementation names a token in a message.
Display(t) ==
  CASE t.c \in {"(", ")", "-"} -> {t.c}
    [] t.c = "EOF" -> {"End of file"}
    [] t.c = "id"  -> {"Identifier " \o t.v}
    [] t.c = "req" -> {"Requirement " \o t.v}
    [] t.c = "num" -> {}
    [] t.c = "op:imply" -> {"imply", "when"}
    [] t.c = "kw:subtasks" -> {"Keyword :(sub)tasks", "Keyword :subtasks", "Keyword :tasks"}
    [] t.c = "kw:ordered-subtasks" -> {"Keyword :ordered-(sub)tasks", "Keyword :ordered-subtasks", "Keyword :ordered-tasks"}
    [] SubSeq(t.c, 1, 2) = "op" -> {SubSeq(t.c, 4, Len(t.c))}
    [] OTHER -> {"Keyword :" \o SubSeq(t.c, 4, Len(t.c)), "Keyword " \o SubSeq(t.c, 4, Len(t.c))}
NamesToken(found, t) ==
  IF t.c = "num" THEN Len(found) > 7 /\ SubSeq(found, 1, 7) = "Number "
  ELSE found \in Display(t)
=============================================================================
