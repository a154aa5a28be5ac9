------------------------------ MODULE MCLexer ------------------------------
(***************************************************************************)
(* The character machine, explored over all texts of bounded length.       *)
(* A step appends one piece (a character, or a word) and runs the machine  *)
(* over it.  Checked on every text:                                        *)
(*   Incremental   the machine's state is what a run from scratch yields   *)
(*   LineCount     its line is one more than the number of newlines        *)
(*   NothingLost   every character is part of exactly one token, or blank, *)
(*                 or comment                                              *)
(*   Layout        inserting blanks or comments between tokens does not    *)
(*                 change the tokens                                       *)
(* Every text is printed; the harness replays it on the real lexer.        *)
(***************************************************************************)
EXTENDS Lexer, FiniteSets, Json, IOUtils

CONSTANTS Pieces, MaxPieces

VARIABLES s, n, st
vars == <<s, n, st>>

RunOver(st0, text, from) ==
  FoldLeft(LAMBDA x, k : LexStep(x, SubSeq(text, k, k), text, k), st0, [k \in 1..(Len(text) - from + 1) |-> from + k - 1])

Init == s = "" /\ n = 0 /\ st = LexInit
Next == /\ n < MaxPieces
        /\ \E p \in Pieces :
             /\ s' = s \o p
             /\ n' = n + 1
             /\ st' = RunOver(st, s \o p, Len(s) + 1)
Spec == Init /\ [][Next]_vars

Incremental == st = LexMachine(s)
CharAt(k) == SubSeq(s, k, k)
LineCount == st.l = 1 + Cardinality({k \in 1..Len(s) : CharAt(k) = "\n"})

\* characters inside of a comment
InComment(k) == LET x == RunOver(LexInit, SubSeq(s, 1, k), 1) IN x.m = "comment"
Sum(f(_), sq) == FoldLeft(LAMBDA a, x : a + f(x), 0, sq)
\* prefix characters "?" and ":" are not part of the lexeme of identifiers and keywords
PrefixChars == Cardinality({k \in 1..Len(s) : /\ CharAt(k) \in {"?", ":"}
                                           /\ RunOver(LexInit, SubSeq(s, 1, k), 1).m = "word"
                                           /\ RunOver(LexInit, SubSeq(s, 1, k), 1).b = k + 1})
Kept(t) == IF t.c = "req" THEN Len(t.v) - 1 ELSE Len(t.v)
Insignificant == Cardinality({k \in 1..Len(s) : InComment(k) \/ (CharAt(k) \in Blank)})
NothingLost ==
  LET fin == Complete(st, s, Len(s) + 1) IN
  \* the lexeme of a "?" without a name is the "?" itself
  (Sum(Kept, fin.t) + PrefixChars + Insignificant) - Len(s) \in 0..Len(SelectSeq(fin.t, LAMBDA t : t.v = "?"))

Shape(ts) == [k \in 1..Len(ts) |-> <<ts[k].c, ts[k].v>>]
\* only between tokens: where the machine is in a gap, or a parenthesis follows
GapAt(k) == RunOver(LexInit, SubSeq(s, 1, k), 1).m = "gap"
Fillers == {" ", "\n", "\t", "; (x\n", "\r\n"}
Layout == \A k \in 0..Len(s) : GapAt(k) =>
            \A w \in Fillers : Shape(Tokens(SubSeq(s, 1, k) \o w \o SubSeq(s, k + 1, Len(s)))) = Shape(Tokens(s))
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT("CASE " \o ToJson([s |-> s])) ELSE TRUE
=============================================================================
