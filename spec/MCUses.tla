------------------------------ MODULE MCUses ------------------------------
(***************************************************************************)
(* Every way to use a predicate, a task or an action: the site, the        *)
(* connectives around an atom, and what is right or wrong about the use.   *)
(*                                                                         *)
(* The fault (if any) is known by construction.  Checked on every state:   *)
(*   Sound      the text is a file of the language, and the fault sets of  *)
(*              Semantics contain exactly the constructed fault            *)
(* Every text is printed; the harness replays it on the real analyser.     *)
(***************************************************************************)
EXTENDS Verdict, Json, IOUtils

CONSTANT MaxCtx        \* connectives around an atom

FormulaSites == {"apre", "aeff", "mpre", "goal"}
TaskSites == {"mtask", "msub1", "msub2", "msub3", "msub4", "htn1", "htn2", "htn3", "htn4", "init"}
InProblem(s) == s \in {"goal", "init", "htn1", "htn2", "htn3", "htn4"}
UsesPredicate(s) == s \in FormulaSites \cup {"init"}

Connectives == {"and1", "and2", "and3", "and0", "or1", "or2", "or3", "oneof1", "oneof2", "oneof3",
                "not", "forall", "exists", "prob1", "prob2"}
Quantified(ctx) == \E j \in 1..Len(ctx) : ctx[j] \in {"forall", "exists"}

Wrap(c, f) ==
  CASE c = "and0" -> "(and " \o f \o ")"
    [] c = "and1" -> "(and " \o f \o " (r) (r))"
    [] c = "and2" -> "(and (r) " \o f \o " (r))"
    [] c = "and3" -> "(and (r) (not (r)) " \o f \o ")"
    [] c = "or1" -> "(or " \o f \o " (r))"
    [] c = "or2" -> "(or (r) " \o f \o " (r))"
    [] c = "or3" -> "(or (r) " \o f \o ")"
    [] c = "oneof1" -> "(oneof " \o f \o " (r))"
    [] c = "oneof2" -> "(oneof (r) " \o f \o " (r))"
    [] c = "oneof3" -> "(oneof (not (r)) " \o f \o ")"
    [] c = "not" -> "(not " \o f \o ")"
    [] c = "forall" -> "(forall (?g - t) " \o f \o ")"
    [] c = "exists" -> "(exists (?g) " \o f \o ")"
    [] c = "prob1" -> "(probabilistic 0.5 " \o f \o " 2 (r))"
    [] c = "prob2" -> "(probabilistic 1 (r) 0.25 " \o f \o ")"

\* argument: name and type, "none" if it is not declared
Args == [same |-> <<"x", "t">>, sub |-> <<"y", "s">>, super |-> <<"z", "u">>, untyped |-> <<"n", "">>,
         constant |-> <<"k", "s">>, wrong |-> <<"c", "w">>, shadow |-> <<"h", "t">>,
         fresh |-> <<"q9", "none">>, predicate |-> <<"p", "none">>, type |-> <<"t", "none">>, task |-> <<"T", "none">>,
         action |-> <<"A", "none">>, method |-> <<"m", "none">>, foreign |-> <<"f", "none">>, formal |-> <<"a", "none">>,
         case |-> <<"X", "none">>, prefix |-> <<"x1", "none">>]
\* names of things that are not predicates, or not tasks
OtherPreds == {"q9", "T", "A", "t", "k", "R", "m", "p1", "x"}
OtherTasks == {"q9", "p", "m", "t", "k", "s", "T1", "x"}

VARIABLES site, ctx, use
vars == <<site, ctx, use>>

Uses(s) == [k : {"arg"}, pos : {1, 2}, a : IF s \in {"goal", "init"} THEN DOMAIN Args \ {"shadow"} ELSE DOMAIN Args]
           \cup [k : {"arity"}, n : {0, 1, 3, 4}]
           \cup [k : {"name"}, n : IF UsesPredicate(s) THEN OtherPreds
                                   ELSE IF s = "mtask" THEN OtherTasks \cup {"A"} ELSE OtherTasks]

Init == site \in FormulaSites \cup TaskSites /\ ctx = <<>> /\ use \in Uses(site)
Next == /\ site \in FormulaSites /\ Len(ctx) < MaxCtx
        /\ \E c \in Connectives : ctx' = Append(ctx, c)
        /\ UNCHANGED <<site, use>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
UsesAction == site \in {"msub4", "htn4"}
Used == IF use.k = "name" THEN use.n ELSE IF UsesPredicate(site) THEN "p" ELSE IF UsesAction THEN "A" ELSE "T"
Var(n) == IF InProblem(site) THEN n ELSE "?" \o n
Arguments ==
  CASE use.k = "arg" -> IF use.pos = 1 THEN Var(Args[use.a][1]) \o " " \o Var("x") ELSE Var("x") \o " " \o Var(Args[use.a][1])
    [] use.k = "arity" -> FoldLeft(LAMBDA s, j : s \o " " \o Var("x"), "", [j \in 1..use.n |-> j])
    [] OTHER -> Var("x") \o " " \o Var("x")
Body == Used \o " " \o Arguments
Formula == FoldLeft(LAMBDA f, c : Wrap(c, f), "(" \o Body \o ")", ctx)
Network == CASE site \in {"msub1", "htn1"} -> ":subtasks (" \o Body \o ")"
             [] site \in {"msub2", "htn2"} -> ":ordered-subtasks (and (S) (" \o Body \o "))"
             [] site \in {"msub3", "htn3"} -> ":subtasks (and (i (" \o Body \o ")) (j (S))) :ordering (< i j)"
             [] site \in {"msub4", "htn4"} -> ":ordered-subtasks (and (i (" \o Body \o ")) (S))"

Base == "(define (domain d) (:types s - t t - u w)\n(:constants k - s c - w h - w)\n"
  \o "(:predicates (p ?a - t ?b - t) (r))\n(:task T :parameters (?a - t ?b - t)) (:task S :parameters ())\n"
  \o "(:action A :parameters (?a - t ?b - t)) (:action F :parameters (?f - t) :effect (p ?f ?f))\n"
Params == ":parameters (?x - t ?y - s ?z - u ?h - t ?n)\n"
Domain == Base \o
  (CASE site = "apre" -> "(:action B " \o Params \o " :precondition " \o Formula \o ")"
     [] site = "aeff" -> "(:action B " \o Params \o " :precondition (r) :effect " \o Formula \o ")"
     [] site = "mpre" -> "(:method m " \o Params \o " :task (S) :precondition " \o Formula \o " :subtasks ())"
     [] site = "mtask" -> "(:method m " \o Params \o " :task (" \o Body \o ") :subtasks (A ?x ?x))"
     [] site \in {"msub1", "msub2", "msub3", "msub4"} -> "(:method m " \o Params \o " :task (S) :precondition (p ?x ?y) " \o Network \o ")"
     [] OTHER -> "(:method m " \o Params \o " :task (S) :subtasks ())") \o ")\n"
Problem ==
  IF ~InProblem(site) THEN ""
  ELSE "(define (problem q) (:domain d)\n" \o
    (CASE site = "goal" -> "(:objects x - t y - s z - u n)\n(:init (r))\n(:goal " \o Formula \o "))"
       [] site = "init" -> "(:objects x - t y - s z - u n)\n(:init (r) (" \o Body \o ") (p x y)))"
       [] OTHER -> "(:objects x - t z - u n)\n(:htn :parameters (?y - s ?h - t)\n" \o Network \o ")\n(:init))")

---------------------------------------------------------------------------
Kind(p, t) == IF UsesPredicate(site) THEN p ELSE t
Expected ==
  CASE use.k = "name" -> {<<CASE UsesPredicate(site) -> "UndefinedPredicate" [] site = "mtask" -> "UndefinedTask"
                              [] OTHER -> "UndefinedSubtask", use.n>>}
    [] use.k = "arity" -> {<<Kind("InconsistentPredicateArity", "InconsistentTaskArity"), Used, "2", L(use.n)>>}
    [] OTHER ->
         LET a == Args[use.a] IN
         IF Quantified(ctx) \/ a[2] \in {"t", "s"} THEN {}
         ELSE IF a[2] = "none" THEN {<<IF InProblem(site) THEN "UndefinedObject" ELSE "UndefinedParameter", a[1]>>}
         ELSE {<<Kind("InconsistentPredicateArgType", "InconsistentTaskArgType"),
                 IF InProblem(site) THEN Used ELSE a[1], "t", IF a[2] = "" THEN "-" ELSE a[2]>>}

Sound ==
  LET dc == File(Domain) pc == File(Problem) IN
  /\ Accepted(dc)
  /\ IF InProblem(site)
     THEN /\ Accepted(pc)
          /\ DomainFaults(dc.ast) = {}
          /\ NoLinesSet(ProblemFaults(dc.ast, pc.ast)) = Expected
     ELSE NoLinesSet(DomainFaults(dc.ast)) = Expected
Emit == IF "EMIT" \in DOMAIN IOEnv
        THEN PrintT("CASE " \o ToJson([site |-> site, ctx |-> ctx, n |-> Len(ctx), d |-> Domain, p |-> Problem])) ELSE TRUE
=============================================================================
