------------------------------ MODULE Verdict ------------------------------
(***************************************************************************)
(* The verdicts the analyser may give for a pair of files: the pipeline    *)
(* domain syntax -> domain semantics -> problem syntax -> problem          *)
(* semantics, each stage reached only if the previous one found nothing.   *)
(*                                                                         *)
(* A verdict is a sequence of strings as recorded from the implementation: *)
(*   <<"ok">>                                                              *)
(*   <<"lex", type, lexeme, line>>                                         *)
(*   <<"syn", found, line>>                                                *)
(*   <<"sem", kind, symbol, ..., line>>                                    *)
(*   <<"panic", ..>>, <<"hang">>, <<"crash", ..>>  (never allowed)         *)
(***************************************************************************)
EXTENDS Hierarchy

IsVerdict(v) == v[1] \in {"ok", "lex", "syn", "sem"}

\* analysis of one text
File(s) == ParseText(s)
Accepted(cf) == cf.st = "acc"
Unspecified(cf) == cf.st = "err" /\ cf.tok.c = "err:any"

\* v reports the error of cf (a rejected file); line numbers aside
ReportsError(v, cf) ==
  IF IsErr(cf.tok)
  THEN v[1] = "lex" /\ ("err:" \o v[2]) = cf.tok.c /\ v[3] \in {cf.tok.v, "?" \o cf.tok.v, ":" \o cf.tok.v}
  ELSE v[1] = "syn" /\ NamesToken(v[2], cf.tok)
ErrorLine(v) == v[Len(v)]
ReportsLine(v, cf) == v[1] \in {"lex", "syn"} => ErrorLine(v) = L(cf.tok.l)

Tail1(v) == SubSeq(v, 2, Len(v))
\* a semantic verdict, without the line numbers it mentions
IsDup(k) == k \in {"DuplicateObjectDeclaration", "DuplicatePredicateDeclaration", "DuplicateActionDeclaration",
   "DuplicateCompoundTaskDeclaration", "DuplicateMethodDeclaration", "DuplicateParameterDeclaration"}
IsUndefined(k) == k \in {"UndefinedPredicate", "UndefinedType", "UndefinedSubtask", "UndefinedTask",
   "UndefinedParameter", "UndefinedObject"}
IsMismatch(k) == k \in {"InconsistentPredicateArity", "InconsistentTaskArity",
   "InconsistentPredicateArgType", "InconsistentTaskArgType"}
IsCycleFault(k) == k \in {"CyclicTypeDeclaration", "CyclicOrderingDeclaration"}
NoLines(f) ==
  IF IsDup(f[1]) THEN <<f[1], f[2]>>
  ELSE IF f[1] \in {"CyclicTypeDeclaration", "DuplicateRequirementDeclaration"} THEN f
  ELSE SubSeq(f, 1, Len(f) - 1)
NoLinesSet(F) == {NoLines(f) : f \in F}

\* the class of a fault, i.e. the property that is about it
Category(f) ==
  IF IsUndefined(f[1]) THEN "undefined"
  ELSE IF IsMismatch(f[1]) THEN "mismatch"
  ELSE IF IsCycleFault(f[1]) THEN "cycle"
  ELSE "duplicate"
OfCategory(F, c) == {f \in F : Category(f) = c}
=============================================================================
