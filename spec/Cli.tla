-------------------------------- MODULE Cli --------------------------------
(***************************************************************************)
(* The command line tool.  An invocation has a command, a domain file, an  *)
(* optional problem file and an optional output file:                      *)
(*   cmd  "verify" | "metadata" | "to_json"                                *)
(*   dom  "ok" | "bad" | "missing"   the domain file: its analysis         *)
(*        succeeds, fails, or it cannot be read                            *)
(*   prb  "none" | "ok" | "bad" | "missing"                                *)
(*   out  "none" | "file" | "unwritable"                                   *)
(* The tool reads, analyses, writes; what it has produced is recorded in   *)
(* shown ("result", "error" or "written") and file ("old" or "result").    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

Invocations == [cmd : {"verify", "metadata", "to_json"}, dom : {"ok", "bad", "missing"},
                prb : {"none", "ok", "bad", "missing"}, out : {"none", "file", "unwritable"}]

\* a problem is not looked at by the metadata command
UsesProblem(v) == v.cmd # "metadata" /\ v.prb # "none"
UsesOutput(v) == v.cmd = "to_json" /\ v.out # "none"
Fails(v) == v.dom # "ok" \/ (UsesProblem(v) /\ v.prb # "ok")
\* what is shown in the end
Shown(v) == IF Fails(v) \/ (UsesOutput(v) /\ v.out = "unwritable") THEN "error"
            ELSE IF UsesOutput(v) THEN "written" ELSE "result"
FileAfter(v) == IF Shown(v) = "written" THEN "result" ELSE "old"
=============================================================================
