------------------------------ MODULE MCBodies ------------------------------
(***************************************************************************)
(* Long methods.  Task A has one totally ordered method, built subtask by  *)
(* subtask; the other tasks have a fixed nature:                           *)
(*   E  nullable (one method without subtasks, and one with an action)     *)
(*   P  always does something (one method with an action)                  *)
(*   U  never finishes (no method)                                         *)
(*   B  goes back to A (one method: A alone, or as given by back)          *)
(* and x is an action.  A may have a second method, given by base.         *)
(*                                                                         *)
(* Checked: the class, the nullable and the unrefinable tasks derived from *)
(* Hierarchy are those read off the word (Class, Vanishes, Refines).       *)
(***************************************************************************)
EXTENDS Hierarchy, Json, IOUtils

CONSTANTS MaxLen
Symbols == {"A", "B", "E", "P", "U", "x"}
Backs == {<<"A">>, <<"E", "A", "E">>, <<"x", "A">>, <<"A", "P">>}
Bases == {"none", "empty", "action"}

VARIABLES body, back, base
vars == <<body, back, base>>
Init == body = <<>> /\ back \in Backs /\ base \in Bases
Next == Len(body) < MaxLen /\ \E s \in Symbols : body' = Append(body, s) /\ UNCHANGED <<back, base>>
Spec == Init /\ [][Next]_vars

UsesB == \E k \in 1..Len(body) : body[k] = "B"
Methods == <<[t |-> "A", b |-> body], [t |-> "E", b |-> <<>>], [t |-> "E", b |-> <<"x">>], [t |-> "P", b |-> <<"x">>],
             [t |-> "B", b |-> back]>>
           \o (IF base = "none" THEN <<>> ELSE <<[t |-> "A", b |-> IF base = "empty" THEN <<>> ELSE <<"x">>]>>)
M == [k \in 1..Len(Methods) |-> [n |-> "m" \o ToString(k), task |-> Methods[k].t,
     subs |-> MapSeq(LAMBDA x : [id |-> "", n |-> x], Methods[k].b), total |-> TRUE, ords |-> {}]]
N == Nullable(M)
Ref == Refinable(M, {"x"})

Elements(w) == {w[k] : k \in 1..Len(w)}
\* can A vanish?  by its base method, or by a body of E only (back cannot help: B needs A)
AVanishes == base = "empty" \/ Elements(body) \subseteq {"E"}
BVanishes == AVanishes /\ Elements(back) \subseteq {"A", "E"}
Vanishes == N = {"E"} \cup (IF AVanishes THEN {"A"} ELSE {}) \cup (IF BVanishes THEN {"B"} ELSE {})
\* can A finish?
AFinishes == base # "none" \/ Elements(body) \subseteq {"E", "P", "x"}
Refines == {"A", "B", "E", "P", "U"} \ Ref = {"U"} \cup (IF AFinishes THEN {} ELSE {"A", "B"})

\* the cycles: A by an occurrence of A, A by an occurrence of B.  Only first occurrences count (see Hierarchy)
Vanish(x) == x \in N
First(s) == CHOOSE k \in 1..Len(body) : body[k] = s /\ \A j \in 1..(k - 1) : body[j] # s
Pre(s) == Elements(SubSeq(body, 1, First(s) - 1))
Suf(s) == Elements(SubSeq(body, First(s) + 1, Len(body)))
BackPre == IF Head(back) = "A" THEN {} ELSE {Head(back)}
BackSuf == IF back[Len(back)] = "A" THEN {} ELSE {back[Len(back)]}
ACycles == (IF "A" \in Elements(body) THEN {[pre |-> Pre("A"), suf |-> Suf("A")]} ELSE {})
           \cup (IF UsesB THEN {[pre |-> Pre("B") \cup BackPre, suf |-> Suf("B") \cup BackSuf]} ELSE {})
Class == LET eps == {c \in ACycles : \A x \in c.pre : Vanish(x)} IN
         RecursionClass(Edges(M), N) =
           (IF \E c \in eps : c.suf # {} /\ \A x \in c.suf : Vanish(x) THEN "GrowAndShrink"
            ELSE IF \E c \in eps : c.suf = {} THEN "Empty"
            ELSE IF eps # {} THEN "GrowingEmptyPrefix"
            ELSE IF ACycles # {} THEN "Recursive" ELSE "NonRecursive")
\* what a further subtask can change: nullability and primitive refinements are only lost, cycles stay
Stays == [][/\ Nullable(M)' \subseteq Nullable(M)
            /\ Refinable(M, {"x"})' \subseteq Refinable(M, {"x"})
            /\ ACycles # {} => ACycles' # {}]_vars
Emit == IF "EMIT" \in DOMAIN IOEnv
        THEN PrintT("CASE " \o ToJson([body |-> body, back |-> back, base |-> base, b |-> UsesB])) ELSE TRUE
=============================================================================
