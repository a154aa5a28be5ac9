---------------------------- MODULE Conformance ----------------------------
(***************************************************************************)
(* Trace validation: the recorded behaviour of the real analyser on a      *)
(* batch of inputs is checked against the specification.                   *)
(*                                                                         *)
(* The file named by the environment variable TRACE has one event per      *)
(* line; an event is one execution of the analyser on a pair of files:     *)
(*   d, p, hp   domain text, problem text, "y" if there is a problem       *)
(*   v, w       verdict and warnings of verify on the pair                 *)
(*   v0, w0     verdict and warnings of verify on the domain alone         *)
(*   j, ast, past   verdict of to_json, its domain and problem (Parser)    *)
(*   m, nul, cnt, cls, cyc   verdict of get_metadata and its contents      *)
(*   runs       digests of everything observed, one per repetition         *)
(*   vt, zt, jt, mt   the message of each verdict; wt: of each warning      *)
(*   ops        the operations that were executed ("v","0","j","m")        *)
(*   alt        events of related inputs (relational properties)           *)
(*                                                                         *)
(* The property to decide is named by the environment variable PROP.       *)
(* Every event starts as "todo" and is judged in one step; the invariant   *)
(* Conforms says that no event violates the property.                      *)
(***************************************************************************)
EXTENDS Messages, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES i, r
vars == <<i, r>>

Did(e, op) == op \in Range1(e.ops)
Why(cond, reason) == IF cond THEN {} ELSE {reason}

---------------------------------------------------------------------------
(* Syntax *)
IsDomain(cf) == Accepted(cf) /\ cf.ast.kind = "domain"
IsProblem(cf) == Accepted(cf) /\ cf.ast.kind = "problem"

\* the verdict of an operation that only parses
FileVerdict(v, cf, kind) ==
  IF Unspecified(cf) THEN IsVerdict(v)
  ELSE IF ~Accepted(cf) THEN ReportsError(v, cf)
  ELSE IF cf.ast.kind # kind THEN v[1] = "syn"
  ELSE v[1] = "ok"
ParseVerdict(v, dc, pc, hp) ==
  IF ~IsDomain(dc) THEN FileVerdict(v, dc, "domain")
  ELSE IF hp = "n" THEN v[1] = "ok"
  ELSE FileVerdict(v, pc, "problem")
\* ... and of one that goes on to other checks
ParsePart(v, dc, pc, hp) == ParseVerdict(v, dc, pc, hp) \/ (IsDomain(dc) /\ v[1] = "sem")

SyntaxReasons(e, dc, pc) ==
  (IF Did(e, "j") THEN Why(ParseVerdict(e.j, dc, pc, e.hp), "to_json: wrong acceptance or wrong offending token") ELSE {})
  \cup (IF Did(e, "v") THEN Why(ParsePart(e.v, dc, pc, e.hp), "verify: wrong acceptance or wrong offending token") ELSE {})
  \cup (IF Did(e, "0") THEN Why(ParsePart(e.v0, dc, dc, "n"), "verify domain: wrong acceptance or wrong offending token") ELSE {})
  \cup (IF Did(e, "m") THEN Why(ParsePart(e.m, dc, dc, "n"), "metadata: wrong acceptance or wrong offending token") ELSE {})

---------------------------------------------------------------------------
(* JSON *)
Matches(got, want) == Len(got) = Len(want) /\ \A k \in 1..Len(got) : got[k] = want[k] \/ want[k] = "?"
AstReasons(e, dc, pc) ==
  IF ~Did(e, "j") \/ ~IsDomain(dc) \/ (e.hp = "y" /\ ~IsProblem(pc)) THEN {}
  ELSE IF e.j[1] # "ok" THEN {"no JSON for an accepted file"}
  ELSE (IF dc.ast.rep THEN {} ELSE Why(Matches(WithoutLines(e.ast), WithoutLines(DomainText(dc.ast))), "JSON of the domain differs from the file"))
       \cup (IF e.hp = "n" \/ pc.ast.rep THEN {} ELSE Why(Matches(WithoutLines(e.past), WithoutLines(ProblemText(pc.ast))), "JSON of the problem differs from the file"))
AstLineReasons(e, dc, pc) ==
  IF ~Did(e, "j") \/ e.j[1] # "ok" \/ ~IsDomain(dc) \/ (e.hp = "y" /\ ~IsProblem(pc)) \/ AstReasons(e, dc, pc) # {} THEN {}
  ELSE (IF dc.ast.rep THEN {} ELSE Why(Matches(e.ast, DomainText(dc.ast)), "wrong line in the JSON of the domain"))
       \cup (IF e.hp = "n" \/ pc.ast.rep THEN {} ELSE Why(Matches(e.past, ProblemText(pc.ast)), "wrong line in the JSON of the problem"))

---------------------------------------------------------------------------
(* Semantics.  Judged only where the specification says what a definition  *)
(* means: not if a block is repeated, nor if a name is task and action.    *)
DomainJudged(dc) == IsDomain(dc) /\ ~dc.ast.rep /\ ~TaskActionClash(dc.ast)
ProblemJudged(pc) == IsProblem(pc) /\ ~pc.ast.rep

Reported(v) == IF v[1] = "sem" THEN NoLines(Tail1(v)) ELSE v
\* v is right about the faults F (those of category c must be reported),
\* where May may be reported too
CategoryReasons(v, F, May, c) ==
  LET Fc == OfCategory(F, c) known == NoLinesSet(F \cup May) IN
  (IF v[1] = "sem" /\ Category(Tail1(v)) = c THEN Why(Reported(v) \in known, "reported a fault that is not there") ELSE {})
  \cup (IF v[1] = "ok" THEN Why(Fc = {}, "missed a fault") ELSE {})
  \cup (IF Fc # {} /\ Fc = F THEN Why(v[1] = "sem" /\ Reported(v) \in known, "did not report the fault that is there") ELSE {})
DomainCategory(e, dc, c) ==
  IF Did(e, "0") /\ DomainJudged(dc) THEN CategoryReasons(e.v0, DomainFaults(dc.ast), DomainMay(dc.ast), c) ELSE {}

\* metadata needs declared tasks, and nothing else, of a domain
MetaReasons(e, dc) ==
  IF ~Did(e, "m") \/ ~DomainJudged(dc) THEN {}
  ELSE LET F == {f \in DomainFaults(dc.ast) : f[1] \in {"UndefinedTask", "UndefinedSubtask"}} IN
       IF F = {} THEN Why(e.m[1] = "ok", "no metadata for a domain whose tasks are all declared")
       ELSE Why(e.m[1] = "sem" /\ Reported(e.m) \in NoLinesSet(F), "metadata of a domain with undeclared tasks")

ProblemReasons(e, dc, pc) ==
  IF ~(Did(e, "v") /\ e.hp = "y" /\ DomainJudged(dc) /\ ProblemJudged(pc)) \/ DomainFaults(dc.ast) # {} THEN {}
  ELSE LET F == ProblemFaults(dc.ast, pc.ast)
           known == NoLinesSet(F \cup ProblemMay(dc.ast, pc.ast) \cup DomainMay(dc.ast))
       IN  IF e.v[1] = "ok" THEN Why(F = {}, "missed a fault of the problem")
           ELSE Why(e.v[1] = "sem" /\ Reported(e.v) \in known, "reported a fault that the problem does not have")

ProblemCategory(e, dc, pc, c) ==
  IF ~(Did(e, "v") /\ e.hp = "y" /\ DomainJudged(dc) /\ ProblemJudged(pc)) \/ DomainFaults(dc.ast) # {} THEN {}
  ELSE CategoryReasons(e.v, ProblemFaults(dc.ast, pc.ast), ProblemMay(dc.ast, pc.ast) \cup DomainMay(dc.ast), c)

---------------------------------------------------------------------------
(* Lines *)
VerdictLines(v, cf, F) ==
  IF ~IsVerdict(v) THEN {}
  ELSE IF v[1] \in {"lex", "syn"} THEN
         IF ~Accepted(cf) /\ ~Unspecified(cf) /\ ReportsError(v, cf) THEN Why(ReportsLine(v, cf), "wrong line of a syntax error") ELSE {}
  ELSE IF v[1] = "sem" /\ Accepted(cf) /\ Reported(v) \in NoLinesSet(F) THEN Why(Tail1(v) \in F, "wrong line of a semantic error")
  ELSE {}
DomainKnown(dc) == IF DomainJudged(dc) THEN DomainFaults(dc.ast) \cup DomainMay(dc.ast) ELSE {}
WarningLines(w, dc) ==
  Why(\A k \in 1..Len(w) : \A t \in Range1(dc.ast.tasks) : t.n = w[k][1] => w[k][2] = L(t.l), "wrong line of a warning")
LineReasons(e, dc, pc) ==
  (IF Did(e, "0") THEN VerdictLines(e.v0, dc, DomainKnown(dc)) ELSE {})
  \cup (IF Did(e, "m") THEN VerdictLines(e.m, dc, DomainKnown(dc)) ELSE {})
  \cup (IF Did(e, "0") /\ e.v0[1] = "ok" /\ DomainJudged(dc) THEN WarningLines(e.w0, dc) ELSE {})
  \cup (IF ~Did(e, "v") THEN {}
        ELSE IF e.hp = "n" \/ ~IsDomain(dc) THEN VerdictLines(e.v, dc, DomainKnown(dc))
        ELSE IF DomainJudged(dc) /\ DomainFaults(dc.ast) = {}
             THEN VerdictLines(e.v, pc, IF ProblemJudged(pc) THEN ProblemFaults(dc.ast, pc.ast) \cup ProblemMay(dc.ast, pc.ast) ELSE {})
        ELSE {})
  \cup AstLineReasons(e, dc, pc)

---------------------------------------------------------------------------
(* Hierarchy *)
Names(sq) == {x.n : x \in Range1(sq)}
Unrefinable(d) == Names(d.tasks) \ Refinable(MethodsOf(d), Names(d.actions))
Flagged(w) == {w[k][1] : k \in 1..Len(w)}
WarningReasons(v, w, dc) ==
  IF v[1] = "ok" /\ DomainJudged(dc) /\ DomainFaults(dc.ast) = {}
  THEN Why(Unrefinable(dc.ast) \subseteq Flagged(w), "a task without primitive refinement is not flagged")
       \cup Why(Flagged(w) \subseteq Unrefinable(dc.ast), "a task with a primitive refinement is flagged")
       \cup Why(Cardinality(Flagged(w)) = Len(w), "a task is flagged twice")
  ELSE {}

\* metadata of domains that declare each task and action once
MetaJudged(dc) == /\ DomainJudged(dc)
                  /\ Cardinality(Names(dc.ast.tasks)) = Len(dc.ast.tasks)
                  /\ Cardinality(Names(dc.ast.actions)) = Len(dc.ast.actions)
\* metadata exists for every domain whose methods refer to declared tasks only
HasMeta(e, dc) ==
  IF Did(e, "m") /\ MetaJudged(dc) /\ ~(\E f \in DomainFaults(dc.ast) : f[1] \in {"UndefinedTask", "UndefinedSubtask"})
  THEN Why(e.m[1] = "ok", "no metadata") ELSE {}
NullableReasons(e, dc) ==
  IF ~Did(e, "m") \/ e.m[1] # "ok" \/ ~MetaJudged(dc) THEN HasMeta(e, dc)
  ELSE LET N == Nullable(MethodsOf(dc.ast)) \cap Names(dc.ast.tasks) IN
       Why(Range1(e.nul) = N, "wrong set of nullable tasks")
       \cup Why(Cardinality(Range1(e.nul)) = Len(e.nul), "nullable task listed twice")
       \cup Why(e.cnt = <<L(Len(dc.ast.actions)), L(Len(dc.ast.tasks)), L(Len(dc.ast.methods))>>, "wrong counts")

RecursionReasons(e, dc) ==
  IF ~Did(e, "m") \/ e.m[1] # "ok" \/ ~MetaJudged(dc) THEN HasMeta(e, dc)
  ELSE LET M == MethodsOf(dc.ast)
           E == Edges(M)
           N == Nullable(M)
           compound == {x \in E : x.to \in Names(dc.ast.tasks)}
       IN IF \A x \in compound : ~OnCycle(x, compound)
          THEN Why(e.cls = "NonRecursive", "recursion reported for an acyclic hierarchy")
          ELSE Why(e.cls # "NonRecursive", "recursion of a cyclic hierarchy not reported")
               \cup (IF e.cls = "NonRecursive" THEN {}
                     ELSE Why(GenuineCycle(compound, e.cyc), "reported cycle does not exist")
                          \cup (IF \A x \in compound : x.known
                                THEN Why(e.cls = RecursionClass(compound, N), "wrong class of recursion")
                                     \cup (IF GenuineCycle(compound, e.cyc) /\ Cardinality(Names(dc.ast.methods)) = Len(dc.ast.methods)
                                           THEN Why(CycleShows(compound, N, e.cyc, e.cls), "reported cycle does not show the reported class") ELSE {})
                                ELSE {}))

---------------------------------------------------------------------------
(* Staging *)
StagingReasons(e, dc, pc) ==
  IF ~(Did(e, "v") /\ Did(e, "0") /\ e.hp = "y") THEN {}
  ELSE IF ~IsVerdict(e.v0) \/ ~IsVerdict(e.v) THEN {}
  ELSE IF e.v0[1] # "ok" THEN Why(e.v = e.v0, "a faulty domain is not reported first")
  ELSE IF Unspecified(pc) \/ Unspecified(dc) THEN {}
  ELSE (IF ~IsProblem(pc) THEN Why(FileVerdict(e.v, pc, "problem"), "a syntax error of the problem is not reported") ELSE {})
       \cup (IF e.v[1] = "ok" THEN Why(e.w = e.w0, "warnings of the domain differ when there is a problem") ELSE {})

---------------------------------------------------------------------------
(* Relations between events *)
SameTokens(s, t) ==
  LET a == Tokens(s) b == Tokens(t) IN
  Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k].c = b[k].c /\ a[k].v = b[k].v
Unlined(v) == IF v[1] = "sem" THEN <<"sem">> \o NoLines(Tail1(v)) ELSE IF v[1] \in {"lex", "syn"} THEN SubSeq(v, 1, Len(v) - 1) ELSE v
LayoutReasons(e, a) ==
  IF ~SameTokens(e.d, a.d) \/ (e.hp = "y" /\ ~SameTokens(e.p, a.p)) THEN {"ERROR: not a change of layout"}
  ELSE (IF Did(e, "v") THEN Why(Unlined(e.v) = Unlined(a.v) /\ Flagged(e.w) = Flagged(a.w), "layout changes the verdict") ELSE {})
       \cup (IF Did(e, "j") THEN Why(Unlined(e.j) = Unlined(a.j) /\ WithoutLines(e.ast) = WithoutLines(a.ast)
                                     /\ WithoutLines(e.past) = WithoutLines(a.past), "layout changes the JSON") ELSE {})
       \cup (IF Did(e, "m") THEN Why(Unlined(e.m) = Unlined(a.m) /\ e.nul = a.nul /\ e.cnt = a.cnt /\ e.cls = a.cls /\ e.cyc = a.cyc, "layout changes the metadata") ELSE {})

\* the declarations of a domain, without order and lines
TextSet(f(_), sq) == {WithoutLines(f(sq[k])) : k \in 1..Len(sq)}
Declarations(d) == <<TextSet(SymText, d.types), TextSet(SymText, d.constants), Range1(d.reqs), TextSet(PredText, d.preds),
  TextSet(PredText, d.tasks), TextSet(ActionText, d.actions), TextSet(MethodText, d.methods),
  Len(d.types), Len(d.constants), Len(d.reqs), Len(d.preds), Len(d.tasks), Len(d.actions), Len(d.methods)>>
PermReasons(e, a) ==
  LET dc == File(e.d) ac == File(a.d) IN
  IF ~IsDomain(dc) /\ ~IsDomain(ac) THEN {}
  ELSE IF ~IsDomain(dc) \/ ~IsDomain(ac) \/ Declarations(dc.ast) # Declarations(ac.ast) THEN {"ERROR: not a permutation"}
  ELSE IF TaskActionClash(dc.ast) \/ dc.ast.rep THEN {}
  ELSE (IF Did(e, "0") THEN
          Why(e.v0[1] = a.v0[1], "the order of declarations decides acceptance")
          \cup (IF e.v0[1] = "ok" /\ a.v0[1] = "ok" THEN Why(Flagged(e.w0) = Flagged(a.w0), "the order of declarations changes the warnings") ELSE {})
          \cup (IF e.v0[1] = "sem" /\ a.v0[1] = "sem" /\ Cardinality(NoLinesSet(DomainFaults(dc.ast))) = 1 /\ DomainMay(dc.ast) = {}
                THEN Why(Unlined(e.v0) = Unlined(a.v0), "the order of declarations changes the reported fault") ELSE {})
        ELSE {})
       \cup (IF Did(e, "m") THEN
          Why(e.m[1] = a.m[1], "the order of declarations decides whether there is metadata")
          \cup (IF e.m[1] = "ok" /\ a.m[1] = "ok"
                THEN Why(Range1(e.nul) = Range1(a.nul) /\ e.cnt = a.cnt, "the order of declarations changes the metadata")
                     \cup Why(e.cls = a.cls \/ ~(\A x \in Edges(MethodsOf(dc.ast)) : x.known), "the order of declarations changes the class of recursion")
                ELSE {})
        ELSE {})

\* the same for the declarations of a problem
ProblemDeclarations(p) == <<TextSet(SymText, p.objects), TextSet(PredText, p.init), Range1(p.reqs), Len(p.objects), Len(p.init), Len(p.reqs),
  WithoutLines(p.goal.f), IF p.htn = <<>> THEN <<>> ELSE WithoutLines(SymsText(p.htn[1].args) \o TnText(p.htn[1].tn))>>
\* exactly one fault, and nothing that may be reported instead
OneFault(F, May) == Cardinality(NoLinesSet(F)) = 1 /\ May = {}
ProblemPermReasons(e, a) ==
  LET dc == File(e.d) pc == File(e.p) ac == File(a.p) IN
  IF e.d # a.d THEN {"ERROR: another domain"}
  ELSE IF ~IsProblem(pc) /\ ~IsProblem(ac) THEN {}
  ELSE IF ~IsProblem(pc) \/ ~IsProblem(ac) \/ ProblemDeclarations(pc.ast) # ProblemDeclarations(ac.ast) THEN {"ERROR: not a permutation"}
  ELSE IF ~DomainJudged(dc) \/ pc.ast.rep \/ ac.ast.rep \/ ~Did(e, "v") THEN {}
  ELSE Why(e.v[1] = a.v[1], "the order of the problem decides acceptance")
       \cup (IF e.v[1] = "ok" /\ a.v[1] = "ok" THEN Why(Flagged(e.w) = Flagged(a.w), "the order of the problem changes the warnings") ELSE {})
       \cup (IF e.v[1] = "sem" /\ a.v[1] = "sem" /\ DomainFaults(dc.ast) = {} /\ OneFault(ProblemFaults(dc.ast, pc.ast), ProblemMay(dc.ast, pc.ast) \cup DomainMay(dc.ast))
             THEN Why(Unlined(e.v) = Unlined(a.v), "the order of the problem changes the reported fault") ELSE {})

\* declarations of more that nobody uses.  The names of the additions occur nowhere in the original files
NamesOf(S) == {x.n : x \in S}
Identifiers(s) == {t.v : t \in {u \in Range1(Tokens(s)) : u.c = "id"}}
Added(sq, more) == {x \in Range1(more) : x.n \notin Names(sq)}
Grows(f(_), sq, more) == TextSet(f, sq) \subseteq TextSet(f, more) /\ Len(more) = Len(sq) + Cardinality(Added(sq, more))
AddedNames(d, a) == NamesOf(Added(d.types, a.types)) \cup NamesOf(Added(d.constants, a.constants)) \cup NamesOf(Added(d.preds, a.preds))
                    \cup NamesOf(Added(d.tasks, a.tasks)) \cup NamesOf(Added(d.actions, a.actions)) \cup NamesOf(Added(d.methods, a.methods))
IsExtension(e, d, a) ==
  /\ Grows(SymText, d.types, a.types) /\ Grows(SymText, d.constants, a.constants) /\ Grows(PredText, d.preds, a.preds)
  /\ Grows(PredText, d.tasks, a.tasks) /\ Grows(ActionText, d.actions, a.actions) /\ Grows(MethodText, d.methods, a.methods)
  /\ Range1(d.reqs) = Range1(a.reqs)
  /\ AddedNames(d, a) \cap (Identifiers(e.d) \cup (IF e.hp = "y" THEN Identifiers(e.p) ELSE {})) = {}
  /\ \A m \in Added(d.methods, a.methods) : m.task.n \in NamesOf(Added(d.tasks, a.tasks))
\* ... and are not at fault themselves
Harmless(d, a) == NoLinesSet(DomainFaults(d)) = NoLinesSet(DomainFaults(a)) /\ NoLinesSet(DomainMay(d)) = NoLinesSet(DomainMay(a))
SameOutcome(v, u, single, what) ==
  Why(v[1] = u[1], what \o " decide acceptance")
  \cup (IF single /\ v[1] = "sem" /\ u[1] = "sem" THEN Why(Unlined(v) = Unlined(u), what \o " change the reported fault") ELSE {})
UnusedReasons(e, a) ==
  LET dc == File(e.d) ac == File(a.d) pc == File(e.p) qc == File(a.p) IN
  IF ~IsDomain(dc) /\ ~IsDomain(ac) THEN {}
  ELSE IF ~IsDomain(dc) \/ ~IsDomain(ac) \/ e.hp # a.hp THEN {"ERROR: not an extension"}
  ELSE IF ~DomainJudged(dc) \/ ~DomainJudged(ac) THEN {}
  ELSE IF ~IsExtension(e, dc.ast, ac.ast) THEN {"ERROR: not an extension"}
  ELSE IF e.hp = "y" /\ (~IsProblem(pc) \/ ~IsProblem(qc) \/ ~Grows(SymText, pc.ast.objects, qc.ast.objects)
                         \/ NamesOf(Added(pc.ast.objects, qc.ast.objects)) \cap (Identifiers(e.d) \cup Identifiers(e.p) \cup Identifiers(a.d)) # {}) THEN {"ERROR: not an extension"}
  ELSE IF ~Harmless(dc.ast, ac.ast) \/ (e.hp = "y" /\ NoLinesSet(ProblemFaults(dc.ast, pc.ast)) # NoLinesSet(ProblemFaults(ac.ast, qc.ast))) THEN {}
  ELSE LET new == AddedNames(dc.ast, ac.ast)
           F == DomainFaults(dc.ast)
           G == IF e.hp = "y" THEN ProblemFaults(dc.ast, pc.ast) ELSE {}
           May == DomainMay(dc.ast) \cup (IF e.hp = "y" THEN ProblemMay(dc.ast, pc.ast) ELSE {})
       IN (IF Did(e, "0") THEN SameOutcome(e.v0, a.v0, OneFault(F, DomainMay(dc.ast)), "unused declarations") ELSE {})
          \cup (IF Did(e, "v") THEN SameOutcome(e.v, a.v, OneFault(IF F = {} THEN G ELSE F, May), "unused declarations")
                   \cup (IF e.v[1] = "ok" /\ a.v[1] = "ok" THEN Why(Flagged(e.w) = Flagged(a.w) \ new, "unused declarations change the warnings") ELSE {}) ELSE {})
          \cup (IF Did(e, "m") THEN
                   Why(e.m[1] = a.m[1], "unused declarations decide whether there is metadata")
                   \cup (IF e.m[1] = "ok" /\ a.m[1] = "ok"
                         THEN Why(Range1(e.nul) = Range1(a.nul) \ new, "unused declarations change the nullable tasks")
                              \cup (IF Added(dc.ast.methods, ac.ast.methods) = {} /\ MetaJudged(dc)
                                    THEN Why(e.cls = a.cls, "unused declarations change the class of recursion") ELSE {})
                         ELSE {})
                 ELSE {})

\* other names: the identifiers are replaced one to one, where "object" stands for itself
NamePairs(s, t) == LET a == Tokens(s) b == Tokens(t) IN {<<a[k].v, b[k].v>> : k \in {k \in 1..Len(a) : a[k].c = "id"}}
SameShape(s, t) ==
  LET a == Tokens(s) b == Tokens(t) IN
  Len(a) = Len(b) /\ \A k \in 1..Len(a) : a[k].c = b[k].c /\ (a[k].c # "id" => a[k].v = b[k].v)
OneToOne(P) == /\ Cardinality({x[1] : x \in P}) = Cardinality(P) /\ Cardinality({x[2] : x \in P}) = Cardinality(P)
               /\ \A x \in P : x[1] = "object" <=> x[2] = "object"
RenamedReasons(e, a) ==
  IF e.hp # a.hp \/ ~SameShape(e.d, a.d) \/ (e.hp = "y" /\ ~SameShape(e.p, a.p)) THEN {"ERROR: not a renaming"}
  ELSE LET P == NamePairs(e.d, a.d) \cup (IF e.hp = "y" THEN NamePairs(e.p, a.p) ELSE {})
           new == [x \in {y[1] : y \in P} |-> (CHOOSE y \in P : y[1] = x)[2]]
           To(x) == IF x \in DOMAIN new THEN new[x] ELSE x
           Verdict(v) == [k \in 1..Len(v) |-> IF k <= 2 THEN v[k] ELSE To(v[k])]
           SameText(s, t) == Len(s) = Len(t) /\ \A k \in 1..Len(s) : t[k] = s[k] \/ t[k] = To(s[k])
           dc == File(e.d) pc == File(e.p)
           F == IF DomainJudged(dc) THEN DomainFaults(dc.ast) ELSE {}
           G == IF e.hp = "y" /\ DomainJudged(dc) /\ F = {} /\ ProblemJudged(pc) THEN ProblemFaults(dc.ast, pc.ast) ELSE {}
           May == (IF DomainJudged(dc) THEN DomainMay(dc.ast) ELSE {})
                  \cup (IF e.hp = "y" /\ DomainJudged(dc) /\ ProblemJudged(pc) THEN ProblemMay(dc.ast, pc.ast) ELSE {})
           Same(v, u, single) == Why(v[1] = u[1], "other names change the verdict")
             \cup (IF single /\ v[1] = "sem" /\ u[1] = "sem" THEN Why(Verdict(Unlined(v)) = Unlined(u), "other names change the reported fault") ELSE {})
       IN IF ~OneToOne(P) THEN {"ERROR: not a renaming"}
          ELSE (IF Did(e, "0") THEN Same(e.v0, a.v0, OneFault(F, IF DomainJudged(dc) THEN DomainMay(dc.ast) ELSE {})) ELSE {})
               \cup (IF Did(e, "v") THEN Same(e.v, a.v, OneFault(IF F = {} THEN G ELSE F, May))
                        \cup (IF e.v[1] = "ok" /\ a.v[1] = "ok" THEN Why({To(x) : x \in Flagged(e.w)} = Flagged(a.w), "other names change the warnings") ELSE {}) ELSE {})
               \cup (IF Did(e, "j") THEN Why(e.j[1] = a.j[1], "other names change the verdict")
                        \cup (IF e.j[1] = "ok" /\ a.j[1] = "ok"
                              THEN Why(SameText(e.ast, a.ast) /\ SameText(e.past, a.past), "other names change the JSON") ELSE {}) ELSE {})
               \cup (IF Did(e, "m") THEN Why(e.m[1] = a.m[1], "other names change the verdict")
                        \cup (IF e.m[1] = "ok" /\ a.m[1] = "ok"
                              THEN Why({To(x) : x \in Range1(e.nul)} = Range1(a.nul) /\ e.cnt = a.cnt, "other names change the metadata")
                                   \cup (IF MetaJudged(dc) THEN Why(e.cls = a.cls \/ ~(\A x \in Edges(MethodsOf(dc.ast)) : x.known), "other names change the class of recursion") ELSE {})
                              ELSE {}) ELSE {})

---------------------------------------------------------------------------
(* Messages *)
TextOf(v, msg) == IF v[1] \in {"lex", "syn", "sem"} THEN Why(ErrorText(v, msg), "the message does not say what is wrong") ELSE {}
MessageReasons(e) ==
  (IF Did(e, "v") THEN TextOf(e.v, e.vt)
     \cup (IF e.v[1] = "ok" THEN Why(Len(e.wt) = Len(e.w) /\ \A k \in 1..Len(e.w) : WarningText(e.w[k], e.wt[k]), "the message does not say what is warned of") ELSE {}) ELSE {})
  \cup (IF Did(e, "0") THEN TextOf(e.v0, e.zt) ELSE {})
  \cup (IF Did(e, "j") THEN TextOf(e.j, e.jt) ELSE {})
  \cup (IF Did(e, "m") THEN TextOf(e.m, e.mt) ELSE {})
  \cup (IF Did(e, "m") /\ e.m[1] = "ok" THEN Why(MetaText(e.clsname, e.nul, e.cnt, e.mt), "the metadata text does not say what was found") ELSE {})

---------------------------------------------------------------------------
Judge(e) ==
  LET dc == File(e.d)
      pc == File(e.p)
  IN CASE Prop = "C01" -> (IF Did(e, "v") THEN Why(IsVerdict(e.v), "verify: no verdict") ELSE {})
                     \cup (IF Did(e, "0") THEN Why(IsVerdict(e.v0), "verify: no verdict") ELSE {})
                     \cup (IF Did(e, "j") THEN Why(IsVerdict(e.j), "to_json: no verdict") ELSE {})
                     \cup (IF Did(e, "m") THEN Why(IsVerdict(e.m), "metadata: no verdict") ELSE {})
       [] Prop = "C02" -> SyntaxReasons(e, dc, pc) \cup AstReasons(e, dc, pc)
                          \cup UNION {LayoutReasons(e, a) : a \in Range1(e.alt)}
       [] Prop = "C03" -> LineReasons(e, dc, pc)
       [] Prop = "C04" -> SyntaxReasons(e, dc, pc)
       [] Prop = "C05" -> AstReasons(e, dc, pc)
       [] Prop = "C06" -> DomainCategory(e, dc, "undefined") \cup MetaReasons(e, dc)
       [] Prop = "C07" -> DomainCategory(e, dc, "duplicate")
       [] Prop = "C08" -> DomainCategory(e, dc, "mismatch")
       [] Prop = "C09" -> DomainCategory(e, dc, "cycle") \cup ProblemCategory(e, dc, pc, "cycle")
       [] Prop = "C10" -> (IF Did(e, "0") THEN WarningReasons(e.v0, e.w0, dc)
                              \cup (IF DomainJudged(dc) /\ DomainFaults(dc.ast) \cup DomainMay(dc.ast) = {}
                                    THEN Why(e.v0[1] = "ok", "no warnings for an error-free domain") ELSE {}) ELSE {})
                          \cup (IF Did(e, "v") THEN WarningReasons(e.v, e.w, dc) ELSE {})
       [] Prop = "C11" -> NullableReasons(e, dc)
       [] Prop = "C12" -> RecursionReasons(e, dc)
       [] Prop = "C13" -> Why(Cardinality(Range1(e.runs)) = 1, "results differ between runs")
       [] Prop = "C18" -> ProblemReasons(e, dc, pc)
       [] Prop = "C19" -> StagingReasons(e, dc, pc)
       [] Prop = "C21" -> MessageReasons(e)
       [] Prop = "C20" -> UNION {PermReasons(e, a) : a \in Range1(e.alt)}
       [] Prop = "C22" -> UNION {ProblemPermReasons(e, a) : a \in Range1(e.alt)}
       [] Prop = "C23" -> UNION {UnusedReasons(e, a) : a \in Range1(e.alt)}
       [] Prop = "C24" -> UNION {RenamedReasons(e, a) : a \in Range1(e.alt)}
---------------------------------------------------------------------------
Init == i \in 1..Len(Trace) /\ r = "todo"
Next == /\ r = "todo"
        /\ LET why == Judge(Trace[i]) IN
           r' = IF why = {} THEN "ok" ELSE "bad: " \o ToString(why)
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == r \in {"todo", "ok"}
=============================================================================
