----------------------------- MODULE MCParser -----------------------------
(***************************************************************************)
(* The grammar automaton, explored by TLC over its stack configurations.   *)
(*                                                                         *)
(* Checked: every configuration reached on some input can be completed to  *)
(* an accepted file (Completable).  Together with determinism of Rule this *)
(* is the viable-prefix property: the automaton fails exactly at the first *)
(* token after which no continuation is a file of the language.            *)
(*                                                                         *)
(* Every distinct configuration is printed with a shortest token path to   *)
(* it and a completion; the harness replays path, each next token and a    *)
(* completion on the real parser.                                          *)
(***************************************************************************)
EXTENDS Parser, FiniteSets, Json, IOUtils

CONSTANT MaxDepth   \* nesting of parentheses still open inside of a block

Classes == {"(", ")", "-", "id", "num", "req", "EOF",
  "kw:define", "kw:domain", "kw:problem", "kw:predicates", "kw:functions", "kw:task", "kw:method",
  "kw:action", "kw:requirements", "kw:types", "kw:constants", "kw:objects", "kw:htn", "kw:goal", "kw:init",
  "kw:parameters", "kw:precondition", "kw:effect", "kw:subtasks", "kw:ordered-subtasks", "kw:ordering",
  "kw:constraints",
  "op:and", "op:or", "op:oneof", "op:not", "op:forall", "op:exists", "op:imply", "op:probabilistic",
  "op:=", "op:<", "op:>", "op:<=", "op:>="}

\* the automaton without attributes
Strip(sq) == SelectSeq(sq, LAMBDA x : ~IsAction(x))
RECURSIVE Shift(_, _)
Shift(stk, c) ==     \* the stack after token c, or FAIL
  IF stk = <<>> THEN FAIL
  ELSE IF Head(stk) \in NonTerminal
       THEN LET rhs == Rule(Head(stk), c) IN
            IF rhs = FAIL THEN FAIL ELSE Shift(Strip(rhs) \o Tail(stk), c)
       ELSE IF Head(stk) = c THEN Tail(stk) ELSE FAIL

\* a shortest sequence of tokens derived from a non-terminal
Shortest ==
  [n \in NonTerminal |->
    CASE n = "FILE" -> <<"(", "kw:define", "(", "kw:domain", "id", ")", ")", "EOF">>
      [] n = "HEAD" -> <<"kw:domain", "id", ")", ")", "EOF">>
      [] n \in {"DBLOCKS", "PBLOCKS"} -> <<")", "EOF">>
      [] n = "DBLOCK" -> <<"kw:types", ")">>
      [] n = "PBLOCK" -> <<"kw:objects", ")">>
      [] n \in {"REQS", "ARGS", "PREDS", "TERMS", "ORD", "OLIST", "OIDS", "CONS", "CLIST", "SLIST", "SUBT",
                "TNREST", "TOREST", "HTN1", "INITTN", "FORM", "FLIST", "PLIST"} -> <<")">>
      [] n = "TASK" -> <<"id", "kw:parameters", "(", ")">>
      [] n \in {"APRE", "AEFF"} -> <<>>
      [] n = "METHOD" -> <<"id", "kw:parameters", "(", ")", "kw:task", "(", "id", ")", "kw:subtasks", "(", ")", ")">>
      [] n = "MREST" -> <<"kw:subtasks", "(", ")", ")">>
      [] n = "HTN" -> <<"kw:subtasks", "(", ")", ")">>
      [] n \in {"STASK"} -> <<"id", ")">>
      [] n = "STASK2" -> <<")">>
      [] n = "OREL" -> <<"op:<", "id", ")">>
      [] n = "CON" -> <<"op:=", "id", "id", ")">>
      [] n = "FORMULA" -> <<"(", ")">>
      [] n = "NEFORM" -> <<"id", ")">>]
Completion(stk) == Cat(LAMBDA x : IF x \in NonTerminal THEN Shortest[x] ELSE <<x>>, stk)
RunFrom(stk, cs) == FoldLeft(LAMBDA s, c : IF s = FAIL THEN FAIL ELSE Shift(s, c), stk, cs)

VARIABLES stk, path
vars == <<stk, path>>
View == stk

Init == stk = <<"FILE">> /\ path = <<>>
Next == \E c \in Classes :
          LET s == Shift(stk, c) IN
          /\ s # FAIL
          /\ stk' = s
          /\ path' = Append(path, c)
Spec == Init /\ [][Next]_vars
Bound == Len(SelectSeq(stk, LAMBDA x : x \in {")", "FLIST", "PLIST"})) <= MaxDepth

Completable == RunFrom(stk, Completion(stk)) = <<>>
\* prints; always true
Emit == IF "EMIT" \in DOMAIN IOEnv
        THEN PrintT("CASE " \o ToJson([path |-> path, done |-> Completion(stk),
               next |-> SetToSeq({[c |-> c, done |-> Completion(Shift(stk, c))] : c \in {c \in Classes : Shift(stk, c) # FAIL}})]))
        ELSE TRUE
=============================================================================
