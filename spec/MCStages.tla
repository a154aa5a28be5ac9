----------------------------- MODULE MCStages -----------------------------
(***************************************************************************)
(* The pipeline over pairs of files.  Each file is put together from       *)
(* sound blocks, at most one block with a semantic fault (first or last)   *)
(* and at most one syntactic defect (first or last), so the stage that     *)
(* has to decide is known by construction.  The model walks through the    *)
(* stages one after the other.                                             *)
(*                                                                         *)
(* Checked on every state:                                                 *)
(*   Sound      the stage at which the model stops is the first at which   *)
(*              the specification finds an error in the texts              *)
(*   NoReturn   (action) a stage once passed is never reached again        *)
(*   Decided    (liveness) every pair of files gets an outcome             *)
(* Every pair is printed; the harness replays it on the real analyser.     *)
(***************************************************************************)
EXTENDS Verdict, Json, IOUtils

CONSTANTS Where           \* {"first", "last"}

DomainSem == [none |-> "",
  dupPred |-> "(:predicates (p ?x - t))", undefType |-> "(:predicates (p2 ?x - nosuch))", cyclicTypes |-> "(:types t - t2 t2 - t)",
  dupReq |-> "(:requirements :typing)", dupConst |-> "(:constants k)", dupTask |-> "(:task T :parameters ())",
  dupAction |-> "(:action A :parameters ())", dupMethod |-> "(:method m :parameters () :task (T) :subtasks ())",
  dupParam |-> "(:action B :parameters (?x ?x))", undefPred |-> "(:action B :parameters () :precondition (nosuch))",
  undefParam |-> "(:action B :parameters () :effect (r ?z))", arity |-> "(:action B :parameters (?x - t) :precondition (p ?x ?x))",
  argType |-> "(:action B :parameters (?x - u) :precondition (p ?x))", undefTask |-> "(:method n :parameters () :task (nosuch) :subtasks ())",
  undefSub |-> "(:method n :parameters () :task (T) :subtasks (nosuch))",
  cyclicOrder |-> "(:method n :parameters () :task (T) :subtasks (and (a (T)) (b (T))) :ordering (and (< a b) (< b a)))"]
ProblemSem == [none |-> "",
  undefType |-> "(:objects o9 - nosuch)", dupObject |-> "(:objects o)", undefPred |-> "(:init (nosuch))", undefObject |-> "(:init (p nosuch))",
  arity |-> "(:init (p o o))", argType |-> "(:init (p v))", goalPred |-> "(:goal (nosuch o))", goalArity |-> "(:goal (and (q) (p)))",
  undefSub |-> "(:htn :subtasks (nosuch))", htnArity |-> "(:htn :subtasks (T o))", htnType |-> "(:htn :parameters (?v - u) :subtasks (A2 ?v))",
  cyclicOrder |-> "(:htn :subtasks (and (a (T)) (b (T))) :ordering (and (< a b) (< b a)))"]
\* syntactic defects: a malformed word, a token that does not fit, a missing or additional parenthesis
Syn == [none |-> "", word |-> " 1x", keyword |-> " :nosuch", token |-> " word", open |-> " (", close |-> " )", kind |-> "", nothing |-> ""]

DomainBlocks == "(:requirements :typing)(:types t - t0 u)(:constants k)(:predicates (p ?x - t) (q) (r ?x))"
  \o "(:task T :parameters ())(:task W :parameters ())(:action A :parameters ())(:action A2 :parameters (?x - t))"
  \o "(:method m :parameters () :task (T) :subtasks (A))"
ProblemBlocks == "(:objects o - t v - u)"

Variants(sem) == [sem : DOMAIN sem, sw : Where, syn : DOMAIN Syn, yw : Where]
Canonical(x) == (x.sem = "none" => x.sw = CHOOSE w \in Where : TRUE) /\ (x.syn \in {"none", "kind", "nothing"} => x.yw = CHOOSE w \in Where : TRUE)
Body(x, sem, blocks) ==
  LET b == IF x.sw = "first" THEN sem[x.sem] \o blocks ELSE blocks \o sem[x.sem] IN
  IF x.yw = "first" THEN Syn[x.syn] \o b ELSE b \o Syn[x.syn]
DomainOf(x) == IF x.syn = "nothing" THEN "" ELSE
  (IF x.syn = "kind" THEN "(define (problem pr) (:domain d)" ELSE "(define (domain d)") \o Body(x, DomainSem, IF x.syn = "kind" THEN ProblemBlocks ELSE DomainBlocks) \o ")"
ProblemOf(x) == IF x.syn = "nothing" THEN "" ELSE
  (IF x.syn = "kind" THEN "(define (domain d)" ELSE "(define (problem pr) (:domain d)") \o Body(x, ProblemSem, IF x.syn = "kind" THEN DomainBlocks ELSE ProblemBlocks) \o ")"

DV == {x \in Variants(DomainSem) : Canonical(x)}
PV == {x \in Variants(ProblemSem) : Canonical(x)}
\* parsed once
DText == [x \in DV |-> DomainOf(x)]
PText == [x \in PV |-> ProblemOf(x)]
DFile == [x \in DV |-> File(DText[x])]
PFile == [x \in PV |-> File(PText[x])]
OkDomain == CHOOSE x \in DV : x.sem = "none" /\ x.syn = "none"
DFaults == [x \in DV |-> IF x.syn = "none" THEN DomainFaults(DFile[x].ast) ELSE {}]
PFaults == [x \in PV |-> IF x.syn = "none" THEN ProblemFaults(DFile[OkDomain].ast, PFile[x].ast) ELSE {}]

Stages == <<"domain syntax", "domain semantics", "problem syntax", "problem semantics">>
VARIABLES d, p, at, out
vars == <<d, p, at, out>>
Init == d \in DV /\ p \in PV /\ at = 1 /\ out = "?"
\* by construction
Stops(k) == CASE k = 1 -> d.syn # "none"
              [] k = 2 -> d.sem # "none"
              [] k = 3 -> p.syn # "none"
              [] k = 4 -> p.sem # "none"
Next == /\ out = "?"
        /\ IF Stops(at) THEN out' = Stages[at] /\ UNCHANGED at
           ELSE IF at = 4 THEN out' = "ok" /\ UNCHANGED at
           ELSE at' = at + 1 /\ UNCHANGED out
        /\ UNCHANGED <<d, p>>
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

IsA(cf, kind) == Accepted(cf) /\ cf.ast.kind = kind
Meaning ==
  IF ~IsA(DFile[d], "domain") THEN "domain syntax"
  ELSE IF DFaults[d] # {} THEN "domain semantics"
  ELSE IF ~IsA(PFile[p], "problem") THEN "problem syntax"
  ELSE IF PFaults[p] # {} THEN "problem semantics"
  ELSE "ok"
Sound == out # "?" => out = Meaning
NoReturn == [][at' >= at /\ (out # "?" => out' = out)]_vars
Decided == <>(out # "?")
Emit == IF "EMIT" \in DOMAIN IOEnv /\ out # "?" THEN PrintT("CASE " \o ToJson([d |-> DText[d], p |-> PText[p], out |-> out])) ELSE TRUE
=============================================================================
