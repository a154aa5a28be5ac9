---------------------------- MODULE MCPositions ----------------------------
(***************************************************************************)
(* Long lists of every sort with one odd entry, built by adding correct    *)
(* entries before and after it, one entry per line.                        *)
(*                                                                         *)
(* Checked on every state:                                                 *)
(*   Sound    the fault set of Semantics is exactly the fault of the odd   *)
(*            entry (none, if it is right), known by construction          *)
(*   Stays    correct entries around it neither repair nor add a fault     *)
(* Every text is printed; the harness replays it on the real analyser.     *)
(***************************************************************************)
EXTENDS Verdict, Json, IOUtils

CONSTANT MaxLen

\* arguments of a predicate, task or action
ArgKinds == {"arg apre", "arg aeff", "arg mpre", "arg mtask", "arg msubT", "arg msubA", "arg goal", "arg init", "arg htnT", "arg htnA"}
ArgOdds == {"right", "sub", "super", "untyped", "wrong", "next", "undeclared", "constant", "missing", "extra"}
\* lists of typed symbols
SymKinds == {"sym predicate", "sym task", "sym action", "sym method", "sym constants", "sym objects", "sym htn"}
SymOdds == {"right", "untyped", "type"}
\* lists of declarations
DeclOdds == [preds |-> {"right", "type"}, tasks |-> {"right", "type"}, types |-> {"right", "self", "back", "two"},
             actions |-> {"right", "type", "pre", "eff", "prearg", "effarg", "prearity", "effarity", "pretype", "efftype"},
             methods |-> {"right", "type", "pre", "prearg", "task", "taskarity", "taskarg", "tasktype", "sub", "subarity", "subarg",
                          "subtype", "cycle"}]
\* lists of atoms, facts and subtasks
UseKinds == {"and apre", "or apre", "oneof aeff", "and aeff", "prob aeff", "and mpre", "or mpre", "and goal", "or goal", "facts"}
UseOdds == {"right", "name", "fewer", "more", "undeclared", "wrong", "negated"}
SubKinds == {"subs ordered", "subs plain", "subs id", "htn ordered", "htn plain", "htn id"}
SubOdds == {"right", "name", "fewer", "more", "undeclared", "wrong"}
\* orderings: a chain with another pair
OrdKinds == {"ord method", "ord method backward", "ord htn", "ord htn backward"}
OrdOdds == {"right", "self", "back", "skip"}

VARIABLES kind, odd, b, a        \* numbers of entries before and after the odd one
vars == <<kind, odd, b, a>>
Odds(k) == IF k \in ArgKinds THEN ArgOdds ELSE IF k \in SymKinds THEN SymOdds ELSE IF k \in UseKinds THEN UseOdds
           ELSE IF k \in SubKinds THEN SubOdds ELSE IF k \in OrdKinds THEN OrdOdds ELSE DeclOdds[k]
Kinds == ArgKinds \cup SymKinds \cup DOMAIN DeclOdds \cup UseKinds \cup SubKinds \cup OrdKinds
Init == kind \in Kinds /\ odd \in Odds(kind) /\ b = 0 /\ a = 0
Next == /\ b + a + 1 < MaxLen
        /\ (b' = b + 1 /\ UNCHANGED a) \/ (a' = a + 1 /\ UNCHANGED b)
        /\ UNCHANGED <<kind, odd>>
Spec == Init /\ [][Next]_vars

---------------------------------------------------------------------------
NL == "\n"
N == a + b + 1
K == b + 1
S(i) == ToString(i)
Cat2(f(_), n) == FoldLeft(LAMBDA s, i : s \o f(i), "", [i \in 1..n |-> i])
InProblem == kind \in {"arg goal", "arg init", "arg htnT", "arg htnA", "sym objects", "sym htn", "and goal", "or goal", "facts",
                       "htn ordered", "htn plain", "htn id", "ord htn", "ord htn backward"}
Q == IF InProblem THEN "" ELSE "?"         \* variables of domains, objects of problems

\* --- arguments: x1..xn have the types t1..tn required, y1..yn subtypes
OddArg == CASE odd = "sub" -> Q \o "y" \o S(K)
            [] odd = "super" -> Q \o "z"
            [] odd = "untyped" -> Q \o "n"
            [] odd = "wrong" -> "c"
            [] odd = "next" -> Q \o "x" \o S(K + 1)
            [] odd = "undeclared" -> Q \o "q"
            [] odd = "constant" -> "k" \o S(K)
            [] odd = "missing" -> ""
            [] odd = "extra" -> Q \o "x" \o S(K) \o NL \o Q \o "x" \o S(K)
            [] OTHER -> Q \o "x" \o S(K)
Args == Cat2(LAMBDA i : NL \o (IF i = K THEN OddArg ELSE Q \o "x" \o S(i)), N)
Formals == Cat2(LAMBDA i : " ?a" \o S(i) \o " - t" \o S(i), N)
ArgNo == CASE odd = "missing" -> N - 1 [] odd = "extra" -> N + 1 [] OTHER -> N
Scope == Cat2(LAMBDA i : " " \o Q \o "x" \o S(i) \o " - t" \o S(i) \o " " \o Q \o "y" \o S(i) \o " - s" \o S(i), MaxLen + 1)
         \o " " \o Q \o "z - u " \o Q \o "n"
ArgBase(what) == "(define (domain d) (:types " \o Cat2(LAMBDA i : "s" \o S(i) \o " - t" \o S(i) \o " t" \o S(i) \o " - u ", MaxLen + 1) \o " w)"
  \o NL \o "(:constants" \o Cat2(LAMBDA i : " k" \o S(i) \o " - s" \o S(i), MaxLen) \o " c - w)"
  \o NL \o "(:predicates (p" \o (IF what = "p" THEN Formals ELSE "") \o ") (r))"
  \o NL \o "(:task T :parameters (" \o (IF what = "T" THEN Formals ELSE "") \o ")) (:task U :parameters ())"
  \o NL \o "(:action A :parameters (" \o (IF what = "A" THEN Formals ELSE "") \o "))" \o NL
ArgUse == CASE kind \in {"arg msubA", "arg htnA"} -> "A" [] kind \in {"arg mtask", "arg msubT", "arg htnT"} -> "T" [] OTHER -> "p"
ArgDomain == ArgBase(ArgUse) \o
  (CASE kind = "arg apre" -> "(:action B :parameters (" \o Scope \o ") :precondition (and (p" \o Args \o ")))"
     [] kind = "arg aeff" -> "(:action B :parameters (" \o Scope \o ") :effect (not (p" \o Args \o ")))"
     [] kind = "arg mpre" -> "(:method m :parameters (" \o Scope \o ") :task (U) :precondition (p" \o Args \o ") :subtasks ())"
     [] kind = "arg mtask" -> "(:method m :parameters (" \o Scope \o ") :task (T" \o Args \o ") :subtasks ())"
     [] kind \in {"arg msubT", "arg msubA"} -> "(:method m :parameters (" \o Scope \o ") :task (U) :subtasks (and (U) (" \o ArgUse \o Args \o ")))"
     [] OTHER -> "") \o ")" \o NL
ArgProblem == "(define (problem q) (:domain d) (:objects " \o Scope \o ")" \o NL \o
  (CASE kind = "arg goal" -> "(:init) (:goal (and (r) (p" \o Args \o "))))"
     [] kind = "arg init" -> "(:init (r) (p" \o Args \o ")))"
     [] OTHER -> "(:htn :ordered-subtasks (and (U) (" \o ArgUse \o Args \o "))) (:init))") \o NL
Pred3(p, t) == IF ArgUse = "p" THEN p ELSE t
ArgExpected ==
  CASE odd \in {"missing", "extra"} -> {<<Pred3("InconsistentPredicateArity", "InconsistentTaskArity"), ArgUse, S(N), S(ArgNo)>>}
    [] odd = "undeclared" -> {<<IF InProblem THEN "UndefinedObject" ELSE "UndefinedParameter", "q">>}
    [] odd \in {"super", "untyped", "wrong", "next"} ->
         {<<Pred3("InconsistentPredicateArgType", "InconsistentTaskArgType"),
            IF InProblem THEN ArgUse ELSE CASE odd = "super" -> "z" [] odd = "untyped" -> "n" [] odd = "wrong" -> "c" [] odd = "next" -> "x" \o S(K + 1),
            "t" \o S(K),
            CASE odd = "super" -> "u" [] odd = "untyped" -> "-" [] odd = "wrong" -> "w" [] odd = "next" -> "t" \o S(K + 1)>>}
    [] OTHER -> {}

\* --- typed symbols
SymType(i) == IF i = K /\ odd = "type" THEN " - zz" ELSE IF i = K /\ odd = "untyped" THEN "" ELSE " - t" \o S(i)
\* an untyped symbol would get the type of the next one: it comes last then
SymList(v) == LET body(i) == NL \o v \o "v" \o S(i) \o SymType(i) IN
  IF odd = "untyped" THEN Cat2(LAMBDA i : IF i = K THEN "" ELSE body(i), N) \o body(K) ELSE Cat2(body, N)
SymLead == "(define (domain d) (:types " \o Cat2(LAMBDA i : "t" \o S(i) \o " ", MaxLen) \o ")" \o NL
SymDomain == SymLead \o
  (CASE kind = "sym predicate" -> "(:predicates (r) (p" \o SymList("?") \o "))"
     [] kind = "sym task" -> "(:task T :parameters (" \o SymList("?") \o "))"
     [] kind = "sym action" -> "(:action A :parameters (" \o SymList("?") \o "))"
     [] kind = "sym method" -> "(:task T :parameters ()) (:method m :parameters (" \o SymList("?") \o ") :task (T) :subtasks ())"
     [] kind = "sym constants" -> "(:constants" \o SymList("") \o ")"
     [] OTHER -> "") \o ")" \o NL
SymProblem == "(define (problem q) (:domain d)" \o
  (CASE kind = "sym objects" -> "(:objects" \o SymList("") \o ")"
     [] OTHER -> "(:htn :parameters (" \o SymList("?") \o ") :subtasks ())") \o "(:init))" \o NL
SymExpected == IF odd = "type" THEN {<<"UndefinedType", "zz">>} ELSE {}

\* --- declarations
X(o, bad, good) == IF odd = o THEN bad ELSE good
DeclBase == "(:constants c - w)" \o NL
DeclAction(i, is) ==
  LET o(x, bad, good) == IF is /\ odd = x THEN bad ELSE good IN
  NL \o "(:action a" \o S(i) \o " :parameters (?x - " \o o("type", "zz", "t") \o ")" \o NL
  \o " :precondition (and (r)" \o NL \o " (" \o o("pre", "zz", "p") \o " " \o o("prearg", "?zz", o("pretype", "c", "?x")) \o o("prearity", " ?x", "") \o "))" \o NL
  \o " :effect (not" \o NL \o " (" \o o("eff", "zz", "p") \o " " \o o("effarg", "?zz", o("efftype", "c", "?x")) \o o("effarity", " ?x", "") \o ")))"
DeclMethod(i, is) ==
  LET o(x, bad, good) == IF is /\ odd = x THEN bad ELSE good IN
  NL \o "(:method m" \o S(i) \o " :parameters (?x - " \o o("type", "zz", "t") \o ")" \o NL
  \o " :task (" \o o("task", "zz", "T") \o " " \o o("taskarg", "?zz", o("tasktype", "c", "?x")) \o o("taskarity", " ?x", "") \o ")" \o NL
  \o " :precondition (" \o o("pre", "zz", "p") \o " " \o o("prearg", "?zz", "?x") \o ")" \o NL
  \o " :subtasks (and (i (A ?x))" \o NL \o " (j (" \o o("sub", "zz", "A") \o " " \o o("subarg", "?zz", o("subtype", "c", "?x")) \o o("subarity", " ?x", "") \o "))) :ordering"
  \o NL \o " (and (< i j)" \o o("cycle", "(< j i)", "") \o "))"
DeclDomain == "(define (domain d) " \o
  (CASE kind = "types" -> "(:types" \o Cat2(LAMBDA i : NL \o "t" \o S(i) \o (IF i = K /\ odd = "self" THEN " - t" \o S(i) ELSE " - t" \o S(i + 1)), N)
                          \o NL \o "t" \o S(N + 1) \o " - " \o X("back", "t" \o S(K), "object")
                          \o X("two", " t" \o S(K) \o " - object", "") \o ")"
     [] kind = "preds" -> "(:types t)" \o NL \o "(:predicates" \o Cat2(LAMBDA i : NL \o "(p" \o S(i) \o " ?x ?y - " \o (IF i = K /\ odd = "type" THEN "zz" ELSE "t") \o ")", N) \o ")"
     [] kind = "tasks" -> "(:types t)" \o Cat2(LAMBDA i : NL \o "(:task T" \o S(i) \o " :parameters (?x ?y - " \o (IF i = K /\ odd = "type" THEN "zz" ELSE "t") \o "))", N)
     [] OTHER -> "(:types t w)" \o DeclBase \o "(:predicates (p ?x - t) (r))(:task T :parameters (?x - t))(:action A :parameters (?x - t))"
                 \o Cat2(LAMBDA i : IF kind = "actions" THEN DeclAction(i, i = K) ELSE DeclMethod(i, i = K), N)) \o ")" \o NL
DeclExpected ==
  CASE odd \in {"right", "two"} -> {}
    [] odd \in {"self", "back"} -> {<<"CyclicTypeDeclaration">>}
    [] odd = "type" -> IF kind \in {"preds", "tasks"} THEN {<<"UndefinedType", "zz">>}
                       ELSE {<<"UndefinedType", "zz">>} \cup (IF kind = "actions" THEN {<<"InconsistentPredicateArgType", "x", "t", "zz">>}
                             ELSE {<<"InconsistentPredicateArgType", "x", "t", "zz">>, <<"InconsistentTaskArgType", "x", "t", "zz">>})
    [] odd \in {"pre", "eff"} -> {<<"UndefinedPredicate", "zz">>}
    [] odd \in {"prearg", "effarg", "taskarg", "subarg"} -> {<<"UndefinedParameter", "zz">>}
    [] odd \in {"prearity", "effarity"} -> {<<"InconsistentPredicateArity", "p", "1", "2">>}
    [] odd \in {"pretype", "efftype"} -> {<<"InconsistentPredicateArgType", "c", "t", "w">>}
    [] odd = "task" -> {<<"UndefinedTask", "zz">>}
    [] odd = "sub" -> {<<"UndefinedSubtask", "zz">>}
    [] odd = "taskarity" -> {<<"InconsistentTaskArity", "T", "1", "2">>}
    [] odd = "subarity" -> {<<"InconsistentTaskArity", "A", "1", "2">>}
    [] odd \in {"tasktype", "subtype"} -> {<<"InconsistentTaskArgType", "c", "t", "w">>}
    [] odd = "cycle" -> {<<"CyclicOrderingDeclaration">>}

\* --- atoms, facts, subtasks
UseBase == "(define (domain d) (:types t w) (:constants c - w) (:predicates (p ?x - t) (r))"
           \o "(:task T :parameters (?x - t)) (:task U :parameters ())(:action A :parameters (?x - t))" \o NL
Name == CASE kind \in UseKinds -> "p" [] b % 2 = 0 -> "T" [] OTHER -> "A"
OddUse == CASE odd = "name" -> "(zz " \o Q \o "x)"
            [] odd = "fewer" -> "(" \o Name \o ")"
            [] odd = "more" -> "(" \o Name \o " " \o Q \o "x " \o Q \o "x)"
            [] odd = "undeclared" -> "(" \o Name \o " " \o Q \o "q)"
            [] odd = "wrong" -> "(" \o Name \o " c)"
            [] OTHER -> "(" \o Name \o " " \o Q \o "x)"
OddAtom == IF odd = "negated" /\ kind # "facts" THEN "(not (not (zz)))" ELSE OddUse
GoodAtom(i) == IF i % 3 = 0 THEN "(r)" ELSE IF i % 3 = 2 /\ kind # "facts" THEN "(not (p " \o Q \o "x))" ELSE "(p " \o Q \o "x)"
Atoms == Cat2(LAMBDA i : NL \o (IF kind = "prob aeff" THEN "0.5 " ELSE "") \o (IF i = K THEN OddAtom ELSE GoodAtom(i)), N)
Conn == CASE kind \in {"and apre", "and aeff", "and mpre", "and goal"} -> "and" [] kind = "oneof aeff" -> "oneof"
          [] kind = "prob aeff" -> "probabilistic" [] OTHER -> "or"
WithIds == kind \in {"subs id", "htn id"}
Subs == Cat2(LAMBDA i : NL \o (IF WithIds THEN "(s" \o S(i) \o " " ELSE "") \o (IF i = K THEN OddUse ELSE IF i % 2 = 0 THEN "(U)" ELSE "(A " \o Q \o "x)") \o (IF WithIds THEN ")" ELSE ""), N)
Network == (IF kind \in {"subs ordered", "htn ordered"} THEN ":ordered-subtasks" ELSE ":subtasks") \o " (and" \o Subs \o ")"
UseDomain == UseBase \o
  (CASE kind \in {"and apre", "or apre"} -> "(:action B :parameters (?x - t) :precondition (" \o Conn \o Atoms \o "))"
     [] kind \in {"oneof aeff", "and aeff", "prob aeff"} -> "(:action B :parameters (?x - t) :effect (" \o Conn \o Atoms \o "))"
     [] kind \in {"and mpre", "or mpre"} -> "(:method m :parameters (?x - t) :task (U) :precondition (" \o Conn \o Atoms \o ") :subtasks ())"
     [] kind \in SubKinds /\ ~InProblem -> "(:method m :parameters (?x - t) :task (U) " \o Network \o ")"
     [] OTHER -> "") \o ")" \o NL
UseProblem == "(define (problem q) (:domain d) (:objects x - t)" \o
  (CASE kind \in {"and goal", "or goal"} -> "(:init) (:goal (" \o Conn \o Atoms \o ")))"
     [] kind = "facts" -> "(:init" \o Atoms \o "))"
     [] OTHER -> "(:htn " \o Network \o ") (:init))") \o NL
Pred4(p, t) == IF kind \in UseKinds THEN p ELSE t
UseExpected ==
  CASE odd = "name" -> {<<Pred4("UndefinedPredicate", "UndefinedSubtask"), "zz">>}
    [] odd = "negated" /\ kind # "facts" -> {<<"UndefinedPredicate", "zz">>}
    [] odd = "fewer" -> {<<Pred4("InconsistentPredicateArity", "InconsistentTaskArity"), Name, "1", "0">>}
    [] odd = "more" -> {<<Pred4("InconsistentPredicateArity", "InconsistentTaskArity"), Name, "1", "2">>}
    [] odd = "undeclared" -> {<<IF InProblem THEN "UndefinedObject" ELSE "UndefinedParameter", "q">>}
    [] odd = "wrong" -> {<<Pred4("InconsistentPredicateArgType", "InconsistentTaskArgType"), IF InProblem THEN Name ELSE "c", "t", "w">>}
    [] OTHER -> {}

\* --- orderings: s1 < .. < sn+1, and one more pair
Pair(i, j) == NL \o "(< s" \o S(i) \o " s" \o S(j) \o ")"
OddPair == CASE odd = "self" -> Pair(K, K) [] odd = "back" -> Pair(N + 1, K) [] odd = "skip" -> Pair(K, N + 1) [] OTHER -> ""
Backward == kind \in {"ord method backward", "ord htn backward"}
OrdList == Cat2(LAMBDA i : LET k == IF Backward THEN N + 1 - i ELSE i IN Pair(k, k + 1) \o (IF k = K THEN OddPair ELSE ""), N)
OrdNetwork == ":subtasks (and" \o Cat2(LAMBDA i : "(s" \o S(i) \o " (U))", N + 1) \o ")" \o NL \o ":ordering (and" \o OrdList \o ")"
OrdDomain == UseBase \o (IF InProblem THEN "" ELSE "(:method m :parameters () :task (U) " \o OrdNetwork \o ")") \o ")" \o NL
OrdProblem == "(define (problem q) (:domain d) (:htn " \o OrdNetwork \o ") (:init))" \o NL
OrdExpected == IF odd \in {"self", "back"} THEN {<<"CyclicOrderingDeclaration">>} ELSE {}

---------------------------------------------------------------------------
Domain == IF kind \in ArgKinds THEN ArgDomain ELSE IF kind \in SymKinds THEN SymDomain
          ELSE IF kind \in UseKinds \cup SubKinds THEN UseDomain ELSE IF kind \in OrdKinds THEN OrdDomain ELSE DeclDomain
Problem == IF ~InProblem THEN "" ELSE IF kind \in ArgKinds THEN ArgProblem ELSE IF kind \in SymKinds THEN SymProblem
           ELSE IF kind \in OrdKinds THEN OrdProblem ELSE UseProblem
Expected == IF kind \in ArgKinds THEN ArgExpected ELSE IF kind \in SymKinds THEN SymExpected
            ELSE IF kind \in UseKinds \cup SubKinds THEN UseExpected ELSE IF kind \in OrdKinds THEN OrdExpected ELSE DeclExpected
Faults == LET dc == File(Domain) pc == File(Problem) IN
          IF InProblem THEN DomainFaults(dc.ast) \cup ProblemFaults(dc.ast, pc.ast) ELSE DomainFaults(dc.ast)
Sound == /\ Accepted(File(Domain))
         /\ InProblem => Accepted(File(Problem)) /\ DomainFaults(File(Domain).ast) = {}
         /\ NoLinesSet(Faults) = Expected
\* the category of the fault stays (its position and numbers may change)
Categories(F) == {Category(f) : f \in F}
Stays == [][Categories(Expected)' = Categories(Expected)]_vars
Emit == IF "EMIT" \in DOMAIN IOEnv
        THEN PrintT("CASE " \o ToJson([kind |-> kind, odd |-> odd, n |-> N, d |-> Domain, p |-> Problem])) ELSE TRUE
=============================================================================
