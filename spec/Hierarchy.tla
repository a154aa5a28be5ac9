----------------------------- MODULE Hierarchy -----------------------------
(***************************************************************************)
(* The task decomposition hierarchy of a domain: which tasks can vanish    *)
(* (nullable), which can be refined to primitive tasks at all, and how the *)
(* hierarchy recurses.  Everything is defined over M, a sequence of        *)
(* methods [n, task, subs, total, ords] with subs a sequence of [id, n].   *)
(***************************************************************************)
EXTENDS Semantics

\* the methods of a parsed domain in this form
MethodsOf(d) == [i \in 1..Len(d.methods) |->
   [n |-> d.methods[i].n, task |-> d.methods[i].task.n,
    subs |-> MapSeq(LAMBDA s : [id |-> s.id, n |-> s.n], d.methods[i].tn.subs),
    total |-> d.methods[i].tn.total, ords |-> Range1(d.methods[i].tn.ords)]]

SubNames(m) == {s.n : s \in Range1(m.subs)}

\* tasks that have a method all of whose subtasks are in S
Refined(M, S) == {m.task : m \in {m \in Range1(M) : SubNames(m) \subseteq S}}
RECURSIVE Lfp(_, _)
Lfp(M, S) == LET N == S \cup Refined(M, S) IN IF N = S THEN S ELSE Lfp(M, N)

\* tasks that can be decomposed into the empty task network
Nullable(M) == Lfp(M, {})
\* tasks that can be decomposed into a network of primitive tasks prims
Refinable(M, prims) == Lfp(M, prims)

---------------------------------------------------------------------------
(* Recursion.  An edge of the hierarchy is a method together with one of   *)
(* its subtasks; pre and suf are the tasks before and after (the first     *)
(* occurrence of) that subtask, known if the method is totally ordered.    *)

\* the ids in the only order that agrees with the pairs E; <<>> if there are several or none
RECURSIVE OnlyOrder(_, _, _)
OnlyOrder(ids, E, acc) ==
  LET first == ids \ {e[2] : e \in E} IN
  IF ids = {} THEN acc
  ELSE IF Cardinality(first) # 1 THEN <<>>
  ELSE LET x == CHOOSE x \in first : TRUE IN OnlyOrder(ids \ {x}, {e \in E : e[1] # x}, Append(acc, x))
Ids(m) == {s.id : s \in Range1(m.subs)}
Chain(m) == IF "" \in Ids(m) \/ Cardinality(Ids(m)) # Len(m.subs) THEN <<>>
            ELSE IF \A e \in m.ords : e[1] \in Ids(m) /\ e[2] \in Ids(m) THEN OnlyOrder(Ids(m), m.ords, <<>>)
            ELSE \* pairs of unknown ids may connect known ones
                 OnlyOrder(Ids(m), UNION {{<<x, y>> : y \in Successors(x, m.ords) \cap Ids(m)} : x \in Ids(m)}, <<>>)
\* the subtask names of a method in execution order
IsOrdered(m) == m.total \/ Len(m.subs) <= 1 \/ Chain(m) # <<>>
InOrder(m) == IF m.total \/ Len(m.subs) <= 1 THEN MapSeq(LAMBDA s : s.n, m.subs)
              ELSE LET name == [i \in Ids(m) |-> (CHOOSE s \in Range1(m.subs) : s.id = i).n] IN MapSeq(LAMBDA i : name[i], Chain(m))
FirstAt(sq, n) == CHOOSE i \in 1..Len(sq) : sq[i] = n /\ \A j \in 1..(i - 1) : sq[j] # n
EdgesOf(m) ==
  LET o == IsOrdered(m)  sq == IF o THEN InOrder(m) ELSE <<>> IN
  {[from |-> m.task, m |-> m.n, to |-> t, known |-> o,
    pre |-> IF o THEN {sq[i] : i \in 1..(FirstAt(sq, t) - 1)} ELSE {},
    suf |-> IF o THEN {sq[i] : i \in (FirstAt(sq, t) + 1)..Len(sq)} ELSE {}] : t \in SubNames(m)}
Edges(M) == UNION {EdgesOf(m) : m \in Range1(M)}

Pairs(E) == {<<e.from, e.to>> : e \in E}
OnCycle(e, E) == e.from = e.to \/ e.from \in Successors(e.to, Pairs(E))

EpsPrefix(E, N) == {e \in E : e.pre \subseteq N}
RecursionClass(E, N) ==
  LET EP == EpsPrefix(E, N)
      ES == {e \in EP : e.suf = {}}
      NS == {e \in EP : e.suf \subseteq N}
  IN  IF \E e \in NS : e.suf # {} /\ OnCycle(e, NS) THEN "GrowAndShrink"
      ELSE IF \E e \in ES : OnCycle(e, ES) THEN "Empty"
      ELSE IF \E e \in EP : OnCycle(e, EP) THEN "GrowingEmptyPrefix"
      ELSE IF \E e \in E : OnCycle(e, E) THEN "Recursive"
      ELSE "NonRecursive"

\* a reported cycle <<t1, m1, t2, m2, .., t1>> is one of the hierarchy and
\* shows the reported class.  The edges of a step are those of any method of
\* that name (a name is not unique in a domain that was not verified).
StepEdges(E, c, k) == {e \in E : e.from = c[2*k - 1] /\ e.m = c[2*k] /\ e.to = c[2*k + 1]}
CycleLen(c) == (Len(c) - 1) \div 2
GenuineCycle(E, c) ==
  /\ Len(c) >= 3 /\ Len(c) % 2 = 1 /\ c[1] = c[Len(c)]
  /\ \A k \in 1..CycleLen(c) : StepEdges(E, c, k) # {}
CycleShows(E, N, c, class) ==
  LET es == UNION {StepEdges(E, c, k) : k \in 1..CycleLen(c)}
      eps == \A e \in es : e.pre \subseteq N
      grows == \E e \in es : e.suf # {}
      shrinks == \A e \in es : e.suf \subseteq N
  IN  \/ \E e \in es : ~e.known
      \/ class = "GrowAndShrink" /\ eps /\ grows /\ shrinks
      \/ class = "Empty" /\ eps /\ ~grows
      \/ class = "GrowingEmptyPrefix" /\ eps /\ grows /\ ~shrinks
      \/ class = "Recursive" /\ ~eps
=============================================================================
