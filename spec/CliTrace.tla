------------------------------ MODULE CliTrace ------------------------------
(***************************************************************************)
(* Trace validation of the command line tool.  An event is one invocation  *)
(* of the real binary:                                                     *)
(*   inv       the invocation as in Cli                                    *)
(*   out, err  lines printed on stdout and stderr, without colours         *)
(*   warn, msg, json, meta   what the library says about the same files:   *)
(*             messages of the warnings, of the error, JSON and metadata   *)
(*             as sequences of lines                                       *)
(*   before, after   lines of the output file before and after             *)
(*             (<<"(absent)">> if there is none)                           *)
(*   ended     "y" if the process ended by itself without a panic          *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, r
vars == <<i, r>>
Why(cond, reason) == IF cond THEN {} ELSE {reason}
NoBlank(sq) == SelectSeq(sq, LAMBDA x : x # "")
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
Map(f(_), sq) == [k \in 1..Len(sq) |-> f(sq[k])]

Result(e) == CASE e.inv.cmd = "verify" -> Map(LAMBDA w : "[Warning] " \o w, e.warn) \o <<"[Ok]">>
               [] e.inv.cmd = "metadata" -> e.meta
               [] OTHER -> <<"[Ok]">> \o e.json
\* an error message: that of the analysis if the files could be read
ErrorShown(e) ==
  LET x == NoBlank(e.err) IN
  /\ x # <<>> /\ Starts(x[1], "[Error] ")
  /\ (e.inv.dom # "missing" /\ ~(UsesProblem(e.inv) /\ e.inv.prb = "missing") /\ Fails(e.inv))
       => x = NoBlank(<<"[Error] " \o Head(e.msg)>> \o Tail(e.msg))
Judge(e) ==
  LET s == Shown(e.inv) IN
  Why(e.ended = "y", "the tool crashed")
  \cup (IF s = "error" THEN Why(ErrorShown(e), "the error is not reported on stderr") \cup Why(NoBlank(e.out) = <<>>, "output on stdout in spite of an error")
        ELSE Why(NoBlank(e.err) = <<>>, "an error is reported although there is none"))
  \cup (IF s = "result" THEN Why(NoBlank(e.out) = NoBlank(Result(e)), "stdout is not the result") ELSE {})
  \cup (IF FileAfter(e.inv) = "result" THEN Why(NoBlank(e.after) = NoBlank(e.json), "the output file is not the result")
        ELSE Why(e.after = e.before, "the output file was touched"))
Init == i \in 1..Len(Trace) /\ r = "todo"
Next == /\ r = "todo"
        /\ LET why == Judge(Trace[i]) IN
           r' = IF why = {} THEN "ok" ELSE "bad: " \o ToString(why)
        /\ UNCHANGED i
Spec == Init /\ [][Next]_vars
Conforms == r \in {"todo", "ok"}
=============================================================================
