------------------------------- MODULE Server -------------------------------
(***************************************************************************)
(* The language server as seen by an editor: a map of open documents and   *)
(* the file system.  Messages take effect one after the other, in the      *)
(* order in which the editor sends them.                                   *)
(*                                                                         *)
(* Texts are referred to by number (T is the sequence of the texts), so    *)
(* that the same operators serve the models (MCServer), where a text is a  *)
(* token without content, and trace validation (ServerTrace).              *)
(***************************************************************************)
EXTENDS Verdict

Absent == 0

\* docs: function from URIs to text numbers; disk: from files to text numbers
Get(f, x) == IF x \in DOMAIN f THEN f[x] ELSE Absent
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]

\* the effect of a message on the documents.  msg is a record with
\*   k    "open", "change", "save", "savetext", "diag", ..
\*   u    URI, file: the file it denotes ("" if none)
\*   ts   the texts it carries
Effect(docs, disk, msg) ==
  CASE msg.k \in {"open", "savetext"} -> Put(docs, msg.u, msg.ts[1])
    \* full text synchronisation: the last change of a notification wins
    [] msg.k = "change" -> IF msg.ts = <<>> THEN docs ELSE Put(docs, msg.u, msg.ts[Len(msg.ts)])
    \* the text of a save without text is the file's, if that can be read
    [] msg.k = "save" -> IF Get(disk, msg.file) # Absent THEN Put(docs, msg.u, disk[msg.file]) ELSE docs
    [] OTHER -> docs
\* the environment changes a file
DiskEffect(disk, msg) ==
  CASE msg.k = "write" -> Put(disk, msg.file, msg.ts[1])
    [] msg.k = "remove" -> Put(disk, msg.file, Absent)
    [] OTHER -> disk

---------------------------------------------------------------------------
(* What a text is, judging by its header *)
Header(s) ==
  LET ts == Tokens(s) IN
  IF Len(ts) >= 4 /\ ts[1].c = "(" /\ ts[2].c = "kw:define" /\ ts[3].c = "("
  THEN IF ts[4].c = "kw:domain" THEN "domain" ELSE IF ts[4].c = "kw:problem" THEN "problem" ELSE "other"
  ELSE "other"
=============================================================================
