----------------------------- MODULE MCSessions -----------------------------
(***************************************************************************)
(* Editing sessions: the sequential server together with an editor and a   *)
(* file system, message by message.  Checked on every session:             *)
(*   Isolated    a message about one document never changes another one    *)
(*   LatestText  the server's text of a document is the last one it was    *)
(*               given for it                                              *)
(* Every session that ends in a diagnostic request is printed and replayed *)
(* on the real server.                                                     *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils

CONSTANTS Docs, MaxMsgs
VARIABLES docs, disk, log
vars == <<docs, disk, log>>

\* texts are numbered by the step that introduces them, so no two are the same
Fresh == 2 * Len(log) + 1
Msg(k, u, ts) == [k |-> k, u |-> u, file |-> u, ts |-> ts]
Messages == UNION {{Msg("open", u, <<Fresh>>), Msg("change", u, <<Fresh>>), Msg("change", u, <<Fresh, Fresh + 1>>),
                    Msg("change", u, <<>>), Msg("savetext", u, <<Fresh>>), Msg("save", u, <<>>), Msg("write", u, <<Fresh>>),
                    Msg("remove", u, <<>>), Msg("diag", u, <<>>)} : u \in Docs}
Init == docs = <<>> /\ disk = <<>> /\ log = <<>>
Next == /\ Len(log) < MaxMsgs
        /\ \E m \in Messages :
             /\ log' = Append(log, m)
             /\ docs' = Effect(docs, disk, m)
             /\ disk' = DiskEffect(disk, m)
Spec == Init /\ [][Next]_vars

Isolated == [][\A u \in Docs : Get(docs', u) # Get(docs, u) => log'[Len(log')].u = u]_vars
\* the position of the last message that determines the text of u
Carries(m, k) == m.k \in {"open", "savetext"} \/ (m.k = "change" /\ m.ts # <<>>)
LatestText ==
  \A u \in Docs :
    LET given == {k \in 1..Len(log) : log[k].u = u /\ Carries(log[k], k)}
        saves == {k \in 1..Len(log) : log[k].u = u /\ log[k].k = "save"}
        last == IF given = {} THEN 0 ELSE CHOOSE k \in given : \A j \in given : j <= k
    IN  (given # {} /\ \A s \in saves : s < last) => Get(docs, u) = log[last].ts[Len(log[last].ts)]
Emit == IF "EMIT" \in DOMAIN IOEnv /\ log # <<>> /\ log[Len(log)].k = "diag" THEN PrintT("CASE " \o ToJson([log |-> log])) ELSE TRUE
=============================================================================
