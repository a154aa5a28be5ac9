----------------------------- MODULE Semantics -----------------------------
(***************************************************************************)
(* What is wrong with a syntactically correct definition.                  *)
(*                                                                         *)
(* A fault is a sequence of strings: its kind, the symbol concerned, and   *)
(* what the report has to say about it (arities, types, lines).            *)
(* DomainFaults(d) and ProblemFaults(d, p) are the sets of all faults of a *)
(* domain, and of a problem with respect to a domain.  The verifier stops  *)
(* at the first fault it meets; it is correct if it reports a member of    *)
(* the set, and reports none only if the set is empty.  The order in which *)
(* it looks for faults is not specified.                                   *)
(***************************************************************************)
EXTENDS Parser, FiniteSets

Range1(sq) == {sq[i] : i \in 1..Len(sq)}
L(n) == ToString(n)

\* least set containing S and closed under the edges E (a set of pairs)
RECURSIVE Closure(_, _)
Closure(S, E) == LET N == S \cup {e[2] : e \in {e \in E : e[1] \in S}} IN
                 IF N = S THEN S ELSE Closure(N, E)
Successors(x, E) == Closure({e[2] : e \in {e \in E : e[1] = x}}, E)
IsCyclic(E) == \E e \in E : e[1] \in Successors(e[2], E) \cup {e[2]}

---------------------------------------------------------------------------
(* Types *)
TypeEdges(d) == {<<y.n, y.t>> : y \in {y \in Range1(d.types) : y.t # ""}}
TypeNames(d) == {y.n : y \in Range1(d.types)} \cup {y.t : y \in {y \in Range1(d.types) : y.t # ""}}
\* an object of type f may be used where type e is expected ("" is untyped)
Fits(f, e, TE) == \/ f = e
                  \/ f # "" /\ e # "" /\ e \in Successors(f, TE)
UndefinedTypes(syms, TN) ==
  {<<"UndefinedType", y.t, L(y.tl)>> : y \in {y \in Range1(syms) : y.t # "" /\ y.t \notin TN}}

Duplicates(kind, sq) ==
  {<<kind, sq[ij[1]].n, L(sq[ij[1]].l), L(sq[ij[2]].l)>> :
     ij \in {ij \in (1..Len(sq)) \X (1..Len(sq)) : ij[1] < ij[2] /\ sq[ij[1]].n = sq[ij[2]].n}}

Text(t) == IF t = "" THEN "-" ELSE t

---------------------------------------------------------------------------
(* Argument lists.  scopes is a sequence of symbol sequences; a name is    *)
(* resolved in the first scope that declares it.                           *)
RECURSIVE Resolve(_, _)
Resolve(n, scopes) ==        \* the candidate types of n; {} if undeclared
  IF scopes = <<>> THEN {}
  ELSE LET here == {y.t : y \in {y \in Range1(Head(scopes)) : y.n = n}} IN
       IF here # {} THEN here ELSE Resolve(n, Tail(scopes))

Undeclared(kind, args, scopes) ==
  {<<kind, y.n, L(y.l)>> : y \in {y \in Range1(args) : Resolve(y.n, scopes) = {}}}

\* mismatches of the given arguments with the formal parameters of a definition;
\* who is the name a report uses, or "" if it uses the argument's
Mismatches(kind, who, args, formals, scopes, TE) ==
  IF Len(args) # Len(formals) THEN {}
  ELSE UNION { {<<kind, IF who = "" THEN args[i].n ELSE who, Text(formals[i].t), Text(f), L(args[i].l)>> :
                  f \in {f \in Resolve(args[i].n, scopes) : ~Fits(f, formals[i].t, TE)}}
               : i \in 1..Len(args) }

Arity(kind, n, args, formals, l) ==
  IF Len(args) = Len(formals) THEN {} ELSE {<<kind, n, L(Len(formals)), L(Len(args)), L(l)>>}

\* faults of one atom, given the declared predicates
AtomFaults(at, preds, scopes, TE, undeclaredKind, who) ==
  LET defs == {p \in Range1(preds) : p.n = at.n} IN
  IF defs = {} THEN {<<"UndefinedPredicate", at.n, L(at.l)>>}
  ELSE UNION {Arity("InconsistentPredicateArity", at.n, at.args, p.args, at.l) : p \in defs}
       \* the arguments of quantified formulae are not analysed
       \cup (IF at.q THEN {} ELSE
              Undeclared(undeclaredKind, at.args, scopes)
              \cup UNION {Mismatches("InconsistentPredicateArgType", who, at.args, p.args, scopes, TE) : p \in defs})

\* faults of a use of a task or action
TaskUseFaults(missing, n, l, terms, defs, scopes, TE, undeclaredKind, who) ==
  (IF defs = {} THEN {<<missing, n, L(l)>>} ELSE {})
  \cup Undeclared(undeclaredKind, terms, scopes)
  \cup UNION {Arity("InconsistentTaskArity", n, terms, x.args, l) : x \in defs}
  \cup UNION {Mismatches("InconsistentTaskArgType", who, terms, x.args, scopes, TE) : x \in defs}

OrderingFaults(tn) ==
  IF IsCyclic(Range1(tn.ords)) THEN {<<"CyclicOrderingDeclaration", L(tn.opos)>>} ELSE {}

DefsOf(n, sq) == {x \in Range1(sq) : x.n = n}
---------------------------------------------------------------------------
RequirementFaults(d) ==
  {<<"DuplicateRequirementDeclaration", d.reqs[i]>> :
     i \in {i \in 1..Len(d.reqs) : \E j \in 1..(i - 1) : d.reqs[j] = d.reqs[i]}}
TypeFaults(d) == IF IsCyclic(TypeEdges(d)) THEN {<<"CyclicTypeDeclaration">>} ELSE {}

ActionFaults(d, a, TN, TE) ==
  LET scopes == <<a.args, d.constants>> IN
  Duplicates("DuplicateParameterDeclaration", a.args)
  \cup UndefinedTypes(a.args, TN)
  \cup UNION {AtomFaults(at, d.preds, scopes, TE, "UndefinedParameter", "") :
                at \in Range1(a.pre.a) \cup Range1(a.eff.a)}

MethodFaults(d, m, TN, TE) ==
  LET scopes == <<m.args, d.constants>> IN
  Duplicates("DuplicateParameterDeclaration", m.args)
  \cup UndefinedTypes(m.args, TN)
  \cup UNION {AtomFaults(at, d.preds, scopes, TE, "UndefinedParameter", "") : at \in Range1(m.pre.a)}
  \cup TaskUseFaults("UndefinedTask", m.task.n, m.task.l, m.terms, DefsOf(m.task.n, d.tasks),
                     scopes, TE, "UndefinedParameter", "")
  \cup UNION {TaskUseFaults("UndefinedSubtask", s.n, s.l, s.terms,
                            DefsOf(s.n, d.tasks) \cup DefsOf(s.n, d.actions),
                            scopes, TE, "UndefinedParameter", "") : s \in Range1(m.tn.subs)}
  \cup OrderingFaults(m.tn)

DomainFaults(d) ==
  LET TN == TypeNames(d) TE == TypeEdges(d) IN
  RequirementFaults(d)
  \cup TypeFaults(d)
  \cup Duplicates("DuplicatePredicateDeclaration", d.preds)
  \cup Duplicates("DuplicateCompoundTaskDeclaration", d.tasks)
  \cup Duplicates("DuplicateActionDeclaration", d.actions)
  \cup Duplicates("DuplicateMethodDeclaration", d.methods)
  \cup Duplicates("DuplicateObjectDeclaration", d.constants)
  \cup UNION {UndefinedTypes(p.args, TN) : p \in Range1(d.preds) \cup Range1(d.tasks)}
  \cup UndefinedTypes(d.constants, TN)
  \cup UNION {ActionFaults(d, a, TN, TE) : a \in Range1(d.actions)}
  \cup UNION {MethodFaults(d, m, TN, TE) : m \in Range1(d.methods)}

\* Things the verifier may, but need not, complain about: duplicate parameters
\* of tasks and predicates, functions, and a name that is both task and action.
DomainMay(d) ==
  UNION {Duplicates("DuplicateParameterDeclaration", p.args) :
           p \in Range1(d.preds) \cup Range1(d.tasks) \cup Range1(d.funs)}
  \cup UNION {UndefinedTypes(p.args, TypeNames(d)) : p \in Range1(d.funs)}
TaskActionClash(d) == {x.n : x \in Range1(d.tasks)} \cap {x.n : x \in Range1(d.actions)} # {}

ProblemFaults(d, p) ==
  LET TN == TypeNames(d) TE == TypeEdges(d) IN
  UndefinedTypes(p.objects, TN)
  \cup Duplicates("DuplicateObjectDeclaration", p.objects)
  \cup UNION {AtomFaults(at, d.preds, <<p.objects, d.constants>>, TE, "UndefinedObject", at.n) :
                at \in {[n |-> x.n, l |-> x.l, args |-> x.args, q |-> FALSE] : x \in Range1(p.init)}
                       \cup Range1(p.goal.a)}
  \cup (IF p.htn = <<>> THEN {} ELSE
          LET h == p.htn[1] IN
          OrderingFaults(h.tn)
          \cup UndefinedTypes(h.args, TN)
          \cup UNION {TaskUseFaults("UndefinedSubtask", s.n, s.l, s.terms,
                                    DefsOf(s.n, d.tasks) \cup DefsOf(s.n, d.actions),
                                    <<p.objects, h.args, d.constants>>, TE, "UndefinedObject", s.n)
                        : s \in Range1(h.tn.subs)})
ProblemMay(d, p) ==
  \* requirements of problems, parameters, and objects that redefine constants
  {<<"DuplicateRequirementDeclaration", p.reqs[i]>> :
     i \in {i \in 1..Len(p.reqs) : \E j \in 1..(i - 1) : p.reqs[j] = p.reqs[i]}}
  \cup Duplicates("DuplicateObjectDeclaration", d.constants \o p.objects)
  \cup (IF p.htn = <<>> THEN {} ELSE Duplicates("DuplicateParameterDeclaration", p.htn[1].args))
=============================================================================
