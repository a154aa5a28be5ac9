------------------------------ MODULE MCServer ------------------------------
(***************************************************************************)
(* The server's concurrency.  Up to MaxInFlight handlers run at once; they *)
(* start in the order of the messages, and synchronise on one fair         *)
(* read-write lock around the documents:                                   *)
(*   open, change, save with text   lock for writing, store, release       *)
(*   save without text              lock for writing, read the file, store,*)
(*                                  release (SaveLocks = TRUE); or read    *)
(*                                  the file first, then lock and store    *)
(*                                  (SaveLocks = FALSE, the former design) *)
(*   diagnostic                     lock for reading, look up, answer,     *)
(*                                  release                                *)
(* Checked: every answer is the one of processing the messages one after   *)
(* the other (Linear), with SaveLocks = TRUE; with FALSE, TLC finds the    *)
(* history in which a save overwrites a later change.  All messages are    *)
(* eventually handled (Answered).                                          *)
(*                                                                         *)
(* Complete histories of messages are printed; the harness replays them on *)
(* the real server, both one by one and pipelined.                         *)
(***************************************************************************)
EXTENDS Server, Json, IOUtils

CONSTANTS Docs, Texts, MaxMsgs, MaxInFlight, SaveLocks

VARIABLES sent,      \* the messages sent by the editor, in order
          disk,      \* file -> text (a document's file is named by the document)
          docs,      \* the server's documents
          pc,        \* per sent message: "new", "queued", "reading", "locked", "done"
          buf,       \* per sent message: text read from the disk / answer
          queue,     \* waiting for the lock, in order
          held,      \* messages that hold the lock
          phase      \* "send", then "serve"
vars == <<sent, disk, docs, pc, buf, queue, held, phase>>

Msg(k, u, ts) == [k |-> k, u |-> u, file |-> u, ts |-> ts]
Messages == {Msg("open", u, <<t>>) : u \in Docs, t \in Texts}
       \cup {Msg("change", u, <<t>>) : u \in Docs, t \in Texts}
       \cup {Msg("change", u, <<t, x>>) : u \in Docs, t \in {1}, x \in Texts}
       \cup {Msg("savetext", u, <<t>>) : u \in Docs, t \in Texts}
       \cup {Msg("save", u, <<>>) : u \in Docs}
       \cup {Msg("diag", u, <<>>) : u \in Docs}

Init == /\ sent = <<>> /\ docs = <<>> /\ pc = <<>> /\ buf = <<>> /\ queue = <<>> /\ held = {} /\ phase = "send"
        /\ disk \in {[u \in Docs |-> 9], [u \in Docs |-> Absent]}

Send == /\ phase = "send" /\ Len(sent) < MaxMsgs
        /\ \E m \in Messages :
             /\ sent' = Append(sent, m) /\ pc' = Append(pc, "new") /\ buf' = Append(buf, Absent)
        /\ UNCHANGED <<disk, docs, queue, held, phase>>
StartServing == phase = "send" /\ sent # <<>> /\ phase' = "serve" /\ UNCHANGED <<sent, disk, docs, pc, buf, queue, held>>

IsWriter(k) == sent[k].k # "diag"
InFlight == {k \in 1..Len(sent) : pc[k] \notin {"new", "done"}}
\* the first new message starts; its first step is to queue up for the lock, or to read the file
Start == /\ phase = "serve"
         /\ Cardinality(InFlight) < MaxInFlight
         /\ \E k \in 1..Len(sent) :
              /\ pc[k] = "new" /\ \A j \in 1..(k - 1) : pc[j] # "new"
              /\ IF sent[k].k = "save" /\ ~SaveLocks
                 THEN pc' = [pc EXCEPT ![k] = "reading"] /\ UNCHANGED queue
                 ELSE pc' = [pc EXCEPT ![k] = "queued"] /\ queue' = Append(queue, k)
         /\ UNCHANGED <<sent, disk, docs, buf, held, phase>>
ReadFile(k) == /\ pc[k] = "reading"
               /\ buf' = [buf EXCEPT ![k] = Get(disk, sent[k].file)]
               /\ IF SaveLocks THEN pc' = [pc EXCEPT ![k] = "locked"] /\ UNCHANGED queue
                  ELSE pc' = [pc EXCEPT ![k] = "queued"] /\ queue' = Append(queue, k)
               /\ UNCHANGED <<sent, disk, docs, held, phase>>
\* the lock is granted in the order of the queue
Grant == /\ queue # <<>>
         /\ LET k == Head(queue) IN
            /\ IF IsWriter(k) THEN held = {} ELSE \A h \in held : ~IsWriter(h)
            /\ held' = held \cup {k} /\ queue' = Tail(queue)
            /\ pc' = [pc EXCEPT ![k] = IF sent[k].k = "save" /\ SaveLocks THEN "reading" ELSE "locked"]
         /\ UNCHANGED <<sent, disk, docs, buf, phase>>
Finish(k) ==
  /\ pc[k] = "locked"
  /\ pc' = [pc EXCEPT ![k] = "done"] /\ held' = held \ {k}
  /\ CASE sent[k].k = "diag" -> buf' = [buf EXCEPT ![k] = Get(docs, sent[k].u)] /\ UNCHANGED docs
       [] sent[k].k = "save" -> docs' = (IF buf[k] = Absent THEN docs ELSE Put(docs, sent[k].u, buf[k])) /\ UNCHANGED buf
       [] OTHER -> docs' = Effect(docs, disk, sent[k]) /\ UNCHANGED buf
  /\ UNCHANGED <<sent, disk, queue, phase>>
Serve == Start \/ Grant \/ \E k \in 1..Len(sent) : ReadFile(k) \/ Finish(k)
Next == Send \/ StartServing \/ Serve
Spec == Init /\ [][Next]_vars /\ WF_vars(Serve)

\* the documents after the first n messages, processed one after the other
RECURSIVE After(_)
After(n) == IF n = 0 THEN <<>> ELSE Effect(After(n - 1), disk, sent[n])
Linear == \A k \in 1..Len(sent) : sent[k].k = "diag" /\ pc[k] = "done" => buf[k] = Get(After(k - 1), sent[k].u)
FinalDocs == (phase = "serve" /\ \A k \in 1..Len(sent) : pc[k] = "done") => docs = After(Len(sent))
Exclusive == (\E h \in held : IsWriter(h)) => Cardinality(held) = 1
Answered == (phase = "serve") ~> (\A k \in 1..Len(sent) : pc[k] = "done")
=============================================================================
