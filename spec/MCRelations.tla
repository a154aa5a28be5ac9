---------------------------- MODULE MCRelations ----------------------------
(***************************************************************************)
(* Small domains and problems, declared entry by entry in any order, right *)
(* and wrong, and what is related to each of them:                         *)
(*   order    the same entries in the order of the menu                    *)
(*   unused   the same with declarations of more that nothing uses         *)
(*   renamed  the same with other names, one to one                        *)
(*                                                                         *)
(* Checked on every state, i.e. for the meaning that Semantics gives:      *)
(*   Related  the related texts have the same faults (under the other      *)
(*            names), the same warnings, nullable tasks and class of       *)
(*            recursion, up to what was added                              *)
(* Every pair of texts is printed; the harness replays both.               *)
(***************************************************************************)
EXTENDS Verdict, Json, IOUtils

CONSTANTS Rel, MaxDomain, MaxProblem, Shift     \* Shift: which of the renamings

Names == <<"t", "u", "c", "p", "q", "T", "a", "b", "m", "n", "x", "o", "k", "d", "g", "r">>
\* the names under the renaming: rotated, or lengthened
Other(j) == IF Shift = 0 THEN Names[j] \o "-" \o Names[j] ELSE Names[((j + Shift - 1) % Len(Names)) + 1]
Id == [s \in {Names[j] : j \in 1..Len(Names)} |-> s]
New == [s \in {Names[j] : j \in 1..Len(Names)} |-> Other(CHOOSE j \in 1..Len(Names) : Names[j] = s)]

\* the entries of a domain, and of a problem
DomainMenu(f) == <<
  "(:types " \o f["t"] \o " - " \o f["u"] \o " " \o f["u"] \o ")",
  "(:predicates (" \o f["p"] \o " ?" \o f["x"] \o " - " \o f["t"] \o ") (" \o f["q"] \o "))",
  "(:task " \o f["T"] \o " :parameters (?" \o f["x"] \o " - " \o f["t"] \o "))",
  "(:action " \o f["a"] \o " :parameters (?" \o f["x"] \o " - " \o f["t"] \o ") :precondition (" \o f["p"] \o " ?" \o f["x"] \o ") :effect (not (" \o f["q"] \o ")))",
  "(:method " \o f["m"] \o " :parameters (?" \o f["x"] \o " - " \o f["t"] \o ") :task (" \o f["T"] \o " ?" \o f["x"] \o ") :ordered-subtasks (and ("
     \o f["a"] \o " ?" \o f["x"] \o ") (" \o f["T"] \o " ?" \o f["x"] \o ")))",
  "(:method " \o f["n"] \o " :parameters (?" \o f["x"] \o " - " \o f["u"] \o ") :task (" \o f["T"] \o " ?" \o f["x"] \o ") :subtasks ())",
  "(:constants " \o f["c"] \o " - " \o f["t"] \o ")",
  "(:action " \o f["b"] \o " :parameters () :precondition (" \o f["p"] \o " " \o f["c"] \o ") :effect (" \o f["p"] \o " " \o f["k"] \o "))",
  "(:action " \o f["a"] \o " :parameters ())",
  "(:task " \o f["b"] \o " :parameters ())"
>>
ProblemMenu(f) == <<
  "(:objects " \o f["o"] \o " - " \o f["t"] \o " " \o f["k"] \o " - " \o f["u"] \o ")",
  "(:init (" \o f["p"] \o " " \o f["o"] \o ") (" \o f["q"] \o "))",
  "(:goal (and (" \o f["q"] \o ") (not (" \o f["p"] \o " " \o f["k"] \o "))))",
  "(:htn :parameters () :subtasks (and (" \o f["T"] \o " " \o f["o"] \o ")))"
>>
\* additions, whose names occur nowhere else
MoreDomain == "(:types z1 - t z2 - z1)(:constants z3 - z1)(:predicates (z4 ?x - t))(:task z5 :parameters ())"
              \o "(:task z6 :parameters ())(:action z7 :parameters ())(:method z8 :parameters () :task (z5) :ordered-subtasks (and (z7) (z5)))"
MoreDomainFree == "(:types z2 - z1 z1)(:constants z3 - z1)(:predicates (z4 ?x))(:task z5 :parameters ())"
              \o "(:task z6 :parameters ())(:action z7 :parameters ())(:method z8 :parameters () :task (z5) :ordered-subtasks (and (z7) (z5)))"
MoreProblem == "(:objects z9)"
Fresh == {"z1", "z2", "z3", "z4", "z5", "z6", "z7", "z8", "z9"}

VARIABLES dom, prob          \* the entries chosen, in order
vars == <<dom, prob>>
Init == dom = <<>> /\ prob = <<>>
In(x, sq) == \E k \in 1..Len(sq) : sq[k] = x
Next == \/ /\ Len(dom) < MaxDomain
           /\ \E k \in 1..10 : ~In(k, dom) /\ dom' = Append(dom, k)
           /\ prob = <<>> /\ UNCHANGED prob
        \/ /\ Len(prob) < MaxProblem
           /\ \E k \in 1..4 : ~In(k, prob) /\ prob' = Append(prob, k)
           /\ (Rel # "order" \/ MaxProblem = 0 \/ \A j \in 1..(Len(dom) - 1) : dom[j] < dom[j + 1])
           /\ UNCHANGED dom
Spec == Init /\ [][Next]_vars

Sorted(sq) == SetToSortSeq({sq[k] : k \in 1..Len(sq)}, <)
Listing(menu, sq) == FoldLeft(LAMBDA s, k : s \o menu[k], "", sq)
DomainOf(f, sq, more) == "(define (domain " \o f["d"] \o ")" \o Listing(DomainMenu(f), sq) \o more \o ")"
ProblemOf(f, sq, more) == "(define (problem " \o f["g"] \o ")(:domain " \o f["d"] \o ")" \o Listing(ProblemMenu(f), sq) \o more \o ")"

HasProblem == MaxProblem > 0 /\ (prob # <<>> \/ Len(dom) = MaxDomain)
D == DomainOf(Id, dom, "")
P == IF HasProblem THEN ProblemOf(Id, prob, "") ELSE ""
E == CASE Rel = "order" -> DomainOf(Id, IF MaxProblem = 0 THEN Sorted(dom) ELSE dom, "")
       [] Rel = "unused" -> DomainOf(Id, dom, IF In(1, dom) THEN MoreDomain ELSE MoreDomainFree)
       [] Rel = "renamed" -> DomainOf(New, dom, "")
Q == IF ~HasProblem THEN ""
     ELSE CASE Rel = "order" -> ProblemOf(Id, Sorted(prob), "")
            [] Rel = "unused" -> ProblemOf(Id, prob, IF In(1, prob) THEN "" ELSE MoreProblem)
            [] Rel = "renamed" -> ProblemOf(New, prob, "")

To(s) == IF Rel = "renamed" /\ s \in DOMAIN New THEN New[s] ELSE s
\* the symbols of a fault
ToFault(f) == [k \in 1..Len(f) |-> IF k = 1 THEN f[k] ELSE To(f[k])]
NamesIn(sq) == {x.n : x \in Range1(sq)}
Tasks(d) == NamesIn(d.tasks)
Related ==
  LET d == File(D).ast e == File(E).ast M == MethodsOf(d) M2 == MethodsOf(e)
      p == IF HasProblem THEN File(P).ast ELSE [rep |-> FALSE]  q == IF HasProblem THEN File(Q).ast ELSE [rep |-> FALSE] IN
  /\ Accepted(File(D)) /\ Accepted(File(E)) /\ (HasProblem => Accepted(File(P)) /\ Accepted(File(Q)))
  /\ {ToFault(f) : f \in NoLinesSet(DomainFaults(d))} = NoLinesSet(DomainFaults(e))
  /\ {To(x) : x \in Nullable(M)} = Nullable(M2) \ Fresh
  /\ {To(x) : x \in Tasks(d) \ Refinable(M, NamesIn(d.actions))} = (Tasks(e) \ Refinable(M2, NamesIn(e.actions))) \ Fresh
  /\ (Rel # "unused" => RecursionClass(Edges(M), Nullable(M)) = RecursionClass(Edges(M2), Nullable(M2)))
  /\ HasProblem => {ToFault(f) : f \in NoLinesSet(ProblemFaults(d, p))} = NoLinesSet(ProblemFaults(e, q))
Emit == IF "EMIT" \in DOMAIN IOEnv THEN (IF dom = <<>> /\ prob = <<>> THEN TRUE ELSE PrintT("CASE " \o ToJson([d |-> D, p |-> P, e |-> E, q |-> Q]))) ELSE TRUE
=============================================================================
