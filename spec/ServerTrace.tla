---------------------------- MODULE ServerTrace ----------------------------
(***************************************************************************)
(* Trace validation of the language server.  An event is a whole session   *)
(* of the real server:                                                     *)
(*   texts   the texts that occur in it (Latin-1, see Lexer)               *)
(*   dom     for each text, verdict v and message t of verifying it alone  *)
(*   prb     for each text, verdict and message of parsing it as a problem *)
(*   pair    verdicts of verifying a domain with a problem: [d, p, v, t]   *)
(*   files   the files that occur, with directory and extension            *)
(*   steps   the messages, in the order in which they were sent (Server);  *)
(*           a diagnostic request has the answer got: kind k ("report",    *)
(*           "error", "none") and items [msg, sev, l0, l1, lp, c0, c1, rel] *)
(*   caps    what the server announced                                     *)
(*   alive   "y" if the server was running to the end                      *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Prop == IOEnv.PROP

VARIABLES i, r
vars == <<i, r>>

---------------------------------------------------------------------------
IsOk(x) == x.v[1] = "ok"
\* the line of a verdict; "" if it has none
LineOf(v) == IF v[1] = "sem" /\ v[2] \in {"CyclicTypeDeclaration", "DuplicateRequirementDeclaration"} THEN "" ELSE v[Len(v)]
\* span x is the line (from 1) l: from its beginning to that of the next one (l0, l1 count from 0; lp = l1 - 1)
Covers(x, l) == x.l1 = l /\ x.l0 = x.lp /\ x.c0 = "0" /\ x.c1 = "0"
\* item is the diagnostic of verdict x
Shows(item, x) ==
  /\ item.msg = x.t
  /\ IF LineOf(x.v) # "" THEN Covers(item, LineOf(x.v)) ELSE item.l0 = "0" /\ item.c0 = "0" /\ item.l1 # "0"
  \* a second definition refers to the first one
  /\ IF x.v[1] = "sem" /\ IsDup(x.v[2]) THEN Len(item.rel) = 1 /\ Covers(item.rel[1], x.v[4]) ELSE item.rel = <<>>
  /\ x.v[2] # "DuplicateRequirementDeclaration" => item.sev = "1"
ShowsAll(items, xs) == Len(items) = Len(xs) /\ \A k \in 1..Len(items) : Shows(items[k], xs[k])

DirOf(e, f) == IF \E k \in 1..Len(e.files) : e.files[k].file = f
               THEN (CHOOSE x \in Range1(e.files) : x.file = f).dir ELSE ""
\* domain files in the directory of file f
Candidates(e, disk, f) ==
  {Get(disk, x.file) : x \in {x \in Range1(e.files) :
       /\ x.dir = DirOf(e, f) /\ x.ext \in {"hddl", "pddl"}
       /\ Get(disk, x.file) # Absent /\ Header(e.texts[Get(disk, x.file)]) = "domain"}}
Only(x) == IF IsOk(x) THEN <<>> ELSE <<x>>
PairOf(e, d, p) == CHOOSE x \in Range1(e.pair) : x.d = d /\ x.p = p
\* the possible reports on text n of file f: sequences of verdicts
Reports(e, disk, n, f) ==
  LET h == Header(e.texts[n]) C == Candidates(e, disk, f) IN
  IF h = "domain" THEN {Only(e.dom[n])}
  ELSE IF h = "problem" THEN
    IF f = "" \/ C = {} THEN {Only(e.prb[n])}
    ELSE {IF IsOk(e.dom[d]) THEN Only(PairOf(e, d, n)) ELSE <<e.dom[d]>> \o Only(e.prb[n]) : d \in C}
  ELSE {<<>>}

Answer(e, docs, disk, m) ==
  LET n == Get(docs, m.u) IN
  IF m.got.k = "none" THEN {"no answer"}
  ELSE IF n = Absent THEN (IF m.got.k = "error" THEN {} ELSE {"a report on a document that was never synchronised"})
  ELSE IF m.got.k = "error" THEN {"an error instead of a report on a synchronised document"}
  ELSE IF m.got.k # "report" THEN {"something else than a full report on a synchronised document"}
  ELSE IF \E xs \in Reports(e, disk, n, m.file) : ShowsAll(m.got.items, xs) THEN {}
  ELSE {"the report is not the one of the current text"}

Step(e, st, m) ==
  [docs |-> Effect(st.docs, st.disk, m), disk |-> DiskEffect(st.disk, m),
   why |-> st.why \cup (IF m.k = "diag" THEN Answer(e, st.docs, st.disk, m) ELSE {})]
Run(e) == FoldLeft(LAMBDA st, m : Step(e, st, m), [docs |-> <<>>, disk |-> <<>>, why |-> {}], e.steps)

\* the server goes on: every request is answered, synchronised documents get reports
Survives(e) ==
  (IF e.alive = "y" THEN {} ELSE {"the server died"})
  \cup UNION {IF e.steps[k].k \in {"diag", "request"} /\ e.steps[k].got.k = "none" THEN {"no answer"} ELSE {} : k \in 1..Len(e.steps)}

\* documents are exchanged in full, and diagnostics are pulled
Announces(e) == IF e.caps.sync = "1" /\ e.caps.diag = "y" THEN {} ELSE {"the server does not announce full synchronisation and diagnostics"}

Judge(e) == CASE Prop = "C14" -> Run(e).why \cup Announces(e)
              [] Prop = "C15" -> Run(e).why
              [] Prop = "C16" -> Survives(e) \cup {w \in Run(e).why : w # "the report is not the one of the current text"}
Init == i \in 1..Len(Trace) /\ r = "todo"
Next == /\ r = "todo"
        /\ LET why == Judge(Trace[i]) IN
           r' = IF why = {} THEN "ok" ELSE "bad: " \o ToString(why)
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == r \in {"todo", "ok"}
=============================================================================
