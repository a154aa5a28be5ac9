---------------------------- MODULE MCSentences ----------------------------
(***************************************************************************)
(* Long sentences of the grammar: random walks of the automaton of         *)
(* MCParser (TLC in simulation mode).  Closing parentheses are chosen less *)
(* often than anything else, so that the sentences grow.  At the end of a  *)
(* walk the sentence is completed and printed, with a token at some place  *)
(* that does not continue it.                                              *)
(* Checked on the way: Completable, and Agrees: the automaton with         *)
(* attributes (ParseStep) accepts what the bare one accepts.               *)
(***************************************************************************)
EXTENDS MCParser, Randomization

CONSTANTS MaxTokens, Closing        \* Closing: percent of the choices in which ")" may be chosen

Enabled == {c \in Classes : Shift(stk, c) # FAIL}
Open == Enabled \ {"EOF", ")"}
Walk == /\ Len(path) < MaxTokens
        /\ Enabled # {}
        /\ \E close \in {RandomElement(1..100) <= Closing} :
             \E c \in {RandomElement(IF close \/ Open = {} THEN Enabled ELSE Open)} :
               /\ stk' = Shift(stk, c)
               /\ path' = Append(path, c)
WalkSpec == Init /\ [][Walk]_vars

Whole == path \o Completion(stk)
Tok1(c) == Tok(c, IF c = "num" THEN "1" ELSE "x", 1)
Agrees == Len(path) < MaxTokens \/ ParseTokens(MapSeq(Tok1, Whole)).st = "acc"
EmitWalk == IF "EMIT" \in DOMAIN IOEnv /\ Len(path) = MaxTokens
            THEN PrintT("CASE " \o ToJson([tokens |-> Whole, cut |-> RandomElement(1..Len(Whole))])) ELSE TRUE
=============================================================================
