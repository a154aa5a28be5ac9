------------------------------ MODULE Messages ------------------------------
(***************************************************************************)
(* What the texts shown to the user have to say.  The wording is not       *)
(* specified, except for the noun of the entity concerned; the facts of a  *)
(* verdict have to be mentioned, each as a word of its own, in the order   *)
(* line, symbol, expected, found (or symbol, first line, second line).     *)
(***************************************************************************)
EXTENDS Verdict

\* s occurs in msg at k, and not as a part of a longer word
OccursAt(msg, s, k) == SubSeq(msg, k, k + Len(s) - 1) = s
IsWord(msg, s, k) ==
  /\ OccursAt(msg, s, k)
  /\ k = 1 \/ SubSeq(msg, k - 1, k - 1) \notin NameChar \/ SubSeq(s, 1, 1) \notin NameChar
  /\ k + Len(s) > Len(msg) \/ SubSeq(msg, k + Len(s), k + Len(s)) \notin NameChar \/ SubSeq(s, Len(s), Len(s)) \notin NameChar
\* the position after the first occurrence of s from k on; 0 if there is none
RECURSIVE Find(_, _, _)
Find(msg, s, k) == IF k + Len(s) - 1 > Len(msg) THEN 0
                   ELSE IF IsWord(msg, s, k) THEN k + Len(s) ELSE Find(msg, s, k + 1)
RECURSIVE SaysFrom(_, _, _)
SaysFrom(msg, facts, k) ==
  IF facts = <<>> THEN TRUE
  ELSE IF Head(facts) = "" THEN SaysFrom(msg, Tail(facts), k)
  ELSE LET n == Find(msg, Head(facts), k) IN n # 0 /\ SaysFrom(msg, Tail(facts), n)
Says(msg, facts) == SaysFrom(msg, facts, 1)
SaysOne(msg, nouns) == \E n \in nouns : Find(msg, n, 1) # 0

Noun(k) ==
  CASE k \in {"DuplicateObjectDeclaration", "UndefinedObject"} -> {"object", "Object"}
    [] k = "DuplicateRequirementDeclaration" -> {"requirement", "Requirement"}
    [] k \in {"DuplicatePredicateDeclaration", "UndefinedPredicate", "InconsistentPredicateArity"} -> {"predicate", "Predicate"}
    [] k = "DuplicateActionDeclaration" -> {"action", "Action"}
    [] k \in {"DuplicateCompoundTaskDeclaration", "UndefinedTask", "InconsistentTaskArity"} -> {"task", "Task"}
    [] k = "UndefinedSubtask" -> {"subtask", "Subtask"}
    [] k = "DuplicateMethodDeclaration" -> {"method", "Method"}
    [] k \in {"DuplicateParameterDeclaration", "UndefinedParameter"} -> {"parameter", "Parameter"}
    [] k \in {"UndefinedType", "InconsistentPredicateArgType", "InconsistentTaskArgType", "CyclicTypeDeclaration"} -> {"type", "Type"}
    [] k = "CyclicOrderingDeclaration" -> {"ordering", "Ordering"}
    [] OTHER -> {""}

IfTyped(t) == IF t = "-" THEN <<>> ELSE <<t>>
\* v: a verdict other than "ok"
Facts(v) ==
  CASE v[1] = "lex" -> <<v[4], v[3]>>
    [] v[1] = "syn" -> <<v[3], v[2]>>
    [] IsDup(v[2]) -> <<v[3], v[4], v[5]>>
    [] v[2] = "DuplicateRequirementDeclaration" -> <<v[3]>>
    [] IsUndefined(v[2]) -> <<v[4], v[3]>>
    [] v[2] \in {"InconsistentPredicateArity", "InconsistentTaskArity"} -> <<v[6], v[3], v[4], v[5]>>
    [] v[2] \in {"InconsistentPredicateArgType", "InconsistentTaskArgType"} -> <<v[6], v[3]>> \o IfTyped(v[4]) \o IfTyped(v[5])
    [] v[2] = "CyclicOrderingDeclaration" -> <<v[3]>>
    [] OTHER -> <<>>
ErrorText(v, msg) == Says(msg, Facts(v)) /\ (v[1] = "sem" => SaysOne(msg, Noun(v[2])))
WarningText(w, msg) == Says(msg, <<w[2], w[1]>>) /\ SaysOne(msg, {"task", "Task"})

\* the text of metadata: the class, the nullable tasks, and the numbers of actions, tasks and methods
MetaText(class, nul, cnt, msg) ==
  Says(msg, <<class>> \o (IF nul = <<>> THEN <<"None">> ELSE nul) \o <<"actions", cnt[1], "tasks", cnt[2], "methods", cnt[3]>>)
=============================================================================
