----------------------------- MODULE MCGraphs -----------------------------
(***************************************************************************)
(* Relations over a few names, built edge by edge: the type hierarchies    *)
(* and the subtask orderings of the semantics.  Checked on every relation: *)
(*   CyclicIffNoOrder  IsCyclic says that no linear order respects E       *)
(*   FitsIsOrder       an object fits its own type, fitting is transitive, *)
(*                     and it is antisymmetric unless E is cyclic          *)
(*   StaysCyclic       further edges never break a cycle or un-fit a type  *)
(* Every relation is printed; the harness replays it as a type hierarchy   *)
(* and as an ordering on the real analyser.                                *)
(***************************************************************************)
EXTENDS Semantics, FiniteSetsExt, Json, IOUtils

CONSTANTS Names, MaxEdges
VARIABLE E
vars == <<E>>

Init == E = {}
Next == /\ Cardinality(E) < MaxEdges
        /\ \E a, b \in Names : <<a, b>> \notin E /\ E' = E \cup {<<a, b>>}
Spec == Init /\ [][Next]_vars

Ranks == [Names -> 1..Cardinality(Names)]
HasOrder == \E f \in Ranks : \A e \in E : f[e[1]] < f[e[2]]
CyclicIffNoOrder == IsCyclic(E) <=> ~HasOrder
FitsIsOrder ==
  /\ \A a \in Names : Fits(a, a, E)
  /\ \A a, b, c \in Names : Fits(a, b, E) /\ Fits(b, c, E) => Fits(a, c, E)
  /\ (\E a, b \in Names : a # b /\ Fits(a, b, E) /\ Fits(b, a, E)) => IsCyclic(E)
  /\ \A e \in E : Fits(e[1], e[2], E)
StaysCyclic == [][/\ IsCyclic(E) => IsCyclic(E')
                  /\ \A a, b \in Names : Fits(a, b, E) => Fits(a, b, E')]_vars
Emit == IF "EMIT" \in DOMAIN IOEnv THEN PrintT("CASE " \o ToJson([E |-> SetToSeq(E), cyc |-> IsCyclic(E)])) ELSE TRUE
=============================================================================
