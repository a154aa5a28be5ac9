---------------------------- MODULE MCHierarchy ----------------------------
(***************************************************************************)
(* Task hierarchies, built method by method.  Checked on every hierarchy:  *)
(*   NullableDual    a task is not nullable iff it belongs to a set of     *)
(*                   tasks each of whose methods has a subtask in the set  *)
(*                   or an action                                          *)
(*   RefinableDual   likewise for tasks without primitive refinement       *)
(*   NullableRefines every nullable task has a primitive refinement        *)
(*   Worklist        the nullable tasks are what a worklist computation,   *)
(*                   in any order of the methods, arrives at               *)
(*   ClassByCycles   the class of recursion is the one found by looking at *)
(*                   all simple cycles one by one                          *)
(*   Monotone        a further method never makes a task lose nullability  *)
(*                   or its primitive refinement, nor a cycle disappear    *)
(* Every hierarchy is printed; the harness replays it on the real code.    *)
(***************************************************************************)
EXTENDS Hierarchy, Json, IOUtils

CONSTANTS Tasks, Prims, MaxSubs, MaxMethods

VARIABLE ms      \* set of <<task, sequence of subtask names>>
vars == <<ms>>

AllNames == Tasks \cup Prims
Bodies == UNION {[1..k -> AllNames] : k \in 0..MaxSubs}
Init == ms = {}
Next == /\ Cardinality(ms) < MaxMethods
        /\ \E t \in Tasks, b \in Bodies : <<t, b>> \notin ms /\ ms' = ms \cup {<<t, b>>}
Spec == Init /\ [][Next]_vars

AsMethods(S) ==
  LET sq == SetToSeq(S) IN
  [k \in 1..Len(sq) |-> [n |-> "m" \o ToString(k), task |-> sq[k][1],
     subs |-> MapSeq(LAMBDA x : [id |-> "", n |-> x], sq[k][2]), total |-> TRUE, ords |-> {}]]
M == AsMethods(ms)
N == Nullable(M)
Ref == Refinable(M, Prims)

Unfounded(U, fixed) == \A m \in ms : m[1] \in U => \E k \in 1..Len(m[2]) : m[2][k] \in U \cup fixed
NullableDual == \A t \in Tasks : (t \notin N) <=> \E U \in SUBSET Tasks : t \in U /\ Unfounded(U, Prims)
RefinableDual == \A t \in Tasks : (t \notin Ref) <=> \E U \in SUBSET Tasks : t \in U /\ Unfounded(U, {})
NullableRefines == N \subseteq Ref

\* one pass over the methods after the other until nothing changes
Pass(sq, S) == FoldLeft(LAMBDA A, m : IF {m[2][k] : k \in 1..Len(m[2])} \subseteq A THEN A \cup {m[1]} ELSE A, S, sq)
RECURSIVE Passes(_, _)
Passes(sq, S) == LET A == Pass(sq, S) IN IF A = S THEN S ELSE Passes(sq, A)
Worklist == LET sq == SetToSeq(ms) IN
  \A p \in {f \in [1..Len(sq) -> 1..Len(sq)] : \A x, y \in 1..Len(sq) : x # y => f[x] # f[y]} :
     Passes([k \in 1..Len(sq) |-> sq[p[k]]], {}) = N

E == {e \in Edges(M) : e.to \in Tasks}
\* simple cycles as sequences of edges
RECURSIVE Walks(_)
Walks(k) == IF k = 1 THEN {<<e>> : e \in E}
            ELSE {Append(w, e) : w \in Walks(k - 1), e \in E}
IsCycle(w) == /\ \A k \in 1..Len(w) : w[k].to = w[(k % Len(w)) + 1].from
              /\ \A x, y \in 1..Len(w) : x # y => w[x].from # w[y].from
Cycles == {w \in UNION {Walks(k) : k \in 1..Cardinality(Tasks)} : IsCycle(w)}
Eps(w) == \A k \in 1..Len(w) : w[k].pre \subseteq N
Grows(w) == \E k \in 1..Len(w) : w[k].suf # {}
Shrinks(w) == \A k \in 1..Len(w) : w[k].suf \subseteq N
ByCycles ==
  IF \E w \in Cycles : Eps(w) /\ Grows(w) /\ Shrinks(w) THEN "GrowAndShrink"
  ELSE IF \E w \in Cycles : Eps(w) /\ ~Grows(w) THEN "Empty"
  ELSE IF \E w \in Cycles : Eps(w) THEN "GrowingEmptyPrefix"
  ELSE IF Cycles # {} THEN "Recursive" ELSE "NonRecursive"
ClassByCycles == RecursionClass(E, N) = ByCycles

Monotone == [][/\ Nullable(M) \subseteq Nullable(M)'
               /\ Refinable(M, Prims) \subseteq Refinable(M, Prims)'
               /\ RecursionClass(E, N) # "NonRecursive" => RecursionClass(E, N)' # "NonRecursive"]_vars
Emit == IF "EMIT" \in DOMAIN IOEnv
        THEN PrintT("CASE " \o ToJson([ms |-> SetToSeq({[t |-> m[1], b |-> m[2]] : m \in ms})])) ELSE TRUE
=============================================================================
