------------------------------- MODULE MCCli -------------------------------
(***************************************************************************)
(* The tool step by step, over all invocations.  Checked:                  *)
(*   Outcome       it ends with what Cli says it shows and writes          *)
(*   NeverPartial  an output file is only ever written with a result, and  *)
(*                 never by an invocation that reports an error            *)
(*   Ends          every invocation ends                                   *)
(***************************************************************************)
EXTENDS Cli, TLC, Json, IOUtils
VARIABLES inv, pc, shown, file
vars == <<inv, pc, shown, file>>
Init == inv \in Invocations /\ pc = "readDomain" /\ shown = "" /\ file = "old"
Fail == pc' = "done" /\ shown' = "error" /\ UNCHANGED <<inv, file>>
Go(l) == pc' = l /\ UNCHANGED <<inv, shown, file>>
ReadDomain == pc = "readDomain" /\ (IF inv.dom = "missing" THEN Fail ELSE IF UsesProblem(inv) THEN Go("readProblem") ELSE Go("analyse"))
ReadProblem == pc = "readProblem" /\ (IF inv.prb = "missing" THEN Fail ELSE Go("analyse"))
Analyse == pc = "analyse" /\ (IF Fails(inv) THEN Fail ELSE IF UsesOutput(inv) THEN Go("write")
                              ELSE pc' = "done" /\ shown' = "result" /\ UNCHANGED <<inv, file>>)
Write == pc = "write" /\ (IF inv.out = "unwritable" THEN Fail ELSE pc' = "done" /\ shown' = "written" /\ file' = "result" /\ UNCHANGED inv)
Next == ReadDomain \/ ReadProblem \/ Analyse \/ Write
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Outcome == pc = "done" => shown = Shown(inv) /\ file = FileAfter(inv)
NeverPartial == file = "result" => shown = "written"
Ends == <>(pc = "done")
Emit == IF "EMIT" \in DOMAIN IOEnv /\ pc = "done" THEN PrintT("CASE " \o ToJson(inv)) ELSE TRUE
=============================================================================
