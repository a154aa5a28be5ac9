--------------------------- MODULE MCDuplicates ---------------------------
(***************************************************************************)
(* Every short list of declarations of each kind, over a few names that    *)
(* look alike, built entry by entry, one entry per line.                   *)
(*                                                                         *)
(* Checked on every state:                                                 *)
(*   Sound     the fault set of Semantics is exactly that of the repeated  *)
(*             entries, with the lines of both (known by construction)     *)
(*   Stays     a further entry never repairs a duplicate                   *)
(* Every text is printed; the harness replays it on the real analyser.     *)
(***************************************************************************)
EXTENDS Verdict, Json, IOUtils

CONSTANTS MaxLen, Entries       \* entries: names

Kinds == {"requirements", "requirements2", "types", "constants", "constants2", "predicates", "predicates2", "tasks", "actions",
          "methods", "aparams", "mparams", "mixed", "objects", "objects2", "oconstants"}
Variants == {"plain", "typed"}       \* odd entries untyped and typed (or: with and without parameters)
InProblem(k) == k \in {"objects", "objects2", "oconstants"}

VARIABLES kind, variant, list
vars == <<kind, variant, list>>
Init == kind \in Kinds /\ variant \in Variants /\ list = <<>>
Next == Len(list) < MaxLen /\ \E n \in Entries : list' = Append(list, n) /\ UNCHANGED <<kind, variant>>
Spec == Init /\ [][Next]_vars

NL == "\n"
Reqs == [x \in Entries |-> CASE x = "a" -> ":typing" [] x = "A" -> ":hierarchy" [] x = "a-1" -> ":equality" [] OTHER -> ":strips"]
Cond(j) == variant = "typed" /\ j % 2 = 0
\* the entries from..to, each rendered by f(position, name) on a line of its own
Lines(f(_, _), from, to) == FoldLeft(LAMBDA s, j : s \o NL \o f(j, list[j]), "", [j \in 1..(to - from + 1) |-> from + j - 1])
All(f(_, _)) == Lines(f, 1, Len(list))
Half == Len(list) \div 2
\* a typed list: each typed entry has its type behind it
Symbol(j, n) == n \o (IF variant = "typed" THEN IF j % 2 = 0 THEN " - t" ELSE " - u" ELSE "")
Pred(j, n) == "(" \o n \o (IF Cond(j) THEN " ?x - t)" ELSE ")")

DomainLead == "(define (domain d) (:types t - u)"
Domain ==
  (CASE kind = "requirements" -> DomainLead \o "(:requirements" \o All(LAMBDA j, n : Reqs[n]) \o ")"
     [] kind = "requirements2" -> DomainLead \o "(:requirements" \o Lines(LAMBDA j, n : Reqs[n], 1, Half) \o ")(:requirements"
                               \o Lines(LAMBDA j, n : Reqs[n], Half + 1, Len(list)) \o ")"
     [] kind = "types" -> "(define (domain d) (:types" \o All(LAMBDA j, n : n \o (IF variant = "typed" THEN " - u" ELSE "")) \o ")"
     [] kind = "constants" -> DomainLead \o "(:constants" \o All(Symbol) \o ")"
     [] kind = "constants2" -> DomainLead \o "(:constants" \o Lines(Symbol, 1, Half) \o ")(:constants" \o Lines(Symbol, Half + 1, Len(list)) \o ")"
     [] kind = "oconstants" -> DomainLead \o "(:constants a A a-1 b)"
     [] kind = "predicates" -> DomainLead \o "(:predicates" \o All(Pred) \o ")"
     [] kind = "predicates2" -> DomainLead \o "(:predicates" \o Lines(Pred, 1, Half) \o ")(:predicates" \o Lines(Pred, Half + 1, Len(list)) \o ")"
     [] kind = "tasks" -> DomainLead \o All(LAMBDA j, n : "(:task " \o n \o " :parameters (" \o (IF Cond(j) THEN "?x - t))" ELSE "))"))
     [] kind = "actions" -> DomainLead \o All(LAMBDA j, n : "(:action " \o n \o " :parameters (" \o (IF Cond(j) THEN "?x - t) :effect ())" ELSE "))"))
     [] kind = "methods" -> DomainLead \o "(:task T :parameters ())" \o
                            All(LAMBDA j, n : "(:method " \o n \o " :parameters (" \o (IF Cond(j) THEN "?x - t)" ELSE ")") \o " :task (T) :subtasks ())")
     [] kind = "aparams" -> DomainLead \o "(:action b :parameters (?b)) (:action a :parameters (" \o All(LAMBDA j, n : "?" \o Symbol(j, n)) \o "))"
     [] kind = "mparams" -> DomainLead \o "(:task a :parameters ()) (:action b :parameters (?a ?b)) (:method a :parameters ("
                            \o All(LAMBDA j, n : "?" \o Symbol(j, n)) \o ") :task (a) :subtasks ())"
     \* the same names for things of different kinds
     [] kind = "mixed" -> "(define (domain d) (:types a A a-1 b t - u) (:constants a A a-1 b) (:predicates (a ?a) (A ?A) (a-1) (b))"
                          \o "(:task T :parameters (?a ?T))"
                          \o All(LAMBDA j, n : "(:action " \o n \o ToString(j) \o " :parameters (?a - a ?A ?b)) (:method " \o n
                                              \o ToString(j) \o " :parameters (?a ?T) :task (T ?a ?T) :subtasks ())")
     [] OTHER -> DomainLead) \o ")"
Problem == IF ~InProblem(kind) THEN ""
           ELSE "(define (problem p) (:domain d)" \o
                (CASE kind = "objects2" -> "(:objects" \o Lines(Symbol, 1, Half) \o ")(:objects" \o Lines(Symbol, Half + 1, Len(list)) \o ")"
                   [] OTHER -> "(:objects" \o All(Symbol) \o ")") \o "(:init))"

Twins == {ij \in (1..Len(list)) \X (1..Len(list)) : ij[1] < ij[2] /\ list[ij[1]] = list[ij[2]]}
Repeated(k) == {<<k, list[ij[1]], L(ij[1] + 1), L(ij[2] + 1)>> : ij \in Twins}
Expected ==
  CASE kind \in {"requirements", "requirements2"} -> {<<"DuplicateRequirementDeclaration", Reqs[list[ij[1]]]>> : ij \in Twins}
    [] kind \in {"types", "mixed"} -> {}
    [] kind \in {"constants", "constants2", "objects", "objects2", "oconstants"} -> Repeated("DuplicateObjectDeclaration")
    [] kind \in {"predicates", "predicates2"} -> Repeated("DuplicatePredicateDeclaration")
    [] kind = "tasks" -> Repeated("DuplicateCompoundTaskDeclaration")
    [] kind = "actions" -> Repeated("DuplicateActionDeclaration")
    [] kind = "methods" -> Repeated("DuplicateMethodDeclaration")
    [] OTHER -> Repeated("DuplicateParameterDeclaration")
Found == LET dc == File(Domain) pc == File(Problem) IN
  IF InProblem(kind) THEN DomainFaults(dc.ast) \cup ProblemFaults(dc.ast, pc.ast) ELSE DomainFaults(dc.ast)
Sound == /\ Accepted(File(Domain))
         /\ (InProblem(kind) => Accepted(File(Problem)))
         /\ Found = Expected
Stays == [][Expected # {} => (Expected)' # {}]_vars
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT("CASE " \o ToJson([kind |-> kind, d |-> Domain, p |-> Problem])) ELSE TRUE
=============================================================================
