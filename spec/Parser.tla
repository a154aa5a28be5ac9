------------------------------- MODULE Parser -------------------------------
(***************************************************************************)
(* The grammar of HDDL files as a deterministic pushdown automaton.        *)
(*                                                                         *)
(* A configuration is [stk, vs, ast, tok, st]: the stack of grammar        *)
(* symbols still to be matched (top first), the stack of attribute values, *)
(* the definition built so far, the last shifted token, and the status     *)
(* "run", "acc" or "err".  ParseStep consumes one token.  In every running *)
(* configuration the tokens read so far are a prefix of some file of the   *)
(* language, so an error is detected at the first token that cannot be     *)
(* continued to one: that is the token an error report has to name.        *)
(*                                                                         *)
(* Symbols: token classes (see Lexer), non-terminals (upper case) and      *)
(* attribute actions ("!..").                                              *)
(***************************************************************************)
EXTENDS Lexer

FAIL == <<"FAIL">>

\* Rule(n, c): the right hand side chosen for non-terminal n on lookahead c
Rule(n, c) ==
  CASE n = "FILE" -> IF c = "(" THEN <<"(", "kw:define", "(", "HEAD">> ELSE FAIL
    [] n = "HEAD" ->
         CASE c = "kw:domain"  -> <<"kw:domain", "id", "!dname", ")", "DBLOCKS">>
           [] c = "kw:problem" -> <<"kw:problem", "id", "!pname", ")", "(", "kw:domain", "id", ")", "PBLOCKS">>
           [] OTHER -> FAIL
    [] n = "DBLOCKS" ->
         CASE c = "(" -> <<"(", "DBLOCK", "DBLOCKS">>
           [] c = ")" -> <<")", "EOF">>
           [] OTHER -> FAIL
    [] n = "DBLOCK" ->
         CASE c = "kw:predicates"   -> <<c, "!list0", "PREDS", "!preds">>
           [] c = "kw:functions"    -> <<c, "!list0", "PREDS", "!funs">>
           [] c = "kw:task"         -> <<c, "TASK", ")", "!task">>
           [] c = "kw:method"       -> <<c, "METHOD", "!method">>
           [] c = "kw:action"       -> <<c, "TASK", "APRE", "AEFF", ")", "!action">>
           [] c = "kw:requirements" -> <<c, "REQS">>
           [] c = "kw:types"        -> <<c, "!args0", "ARGS", "!types">>
           [] c = "kw:constants"    -> <<c, "!args0", "ARGS", "!constants">>
           [] OTHER -> FAIL
    [] n = "PBLOCKS" ->
         CASE c = "(" -> <<"(", "PBLOCK", "PBLOCKS">>
           [] c = ")" -> <<")", "EOF">>
           [] c = "EOF" -> <<"EOF">>
           [] OTHER -> FAIL
    [] n = "PBLOCK" ->
         CASE c = "kw:requirements" -> <<c, "REQS">>
           [] c = "kw:objects"      -> <<c, "!args0", "ARGS", "!objects">>
           [] c = "kw:htn"          -> <<c, "INITTN", "!htn">>
           [] c = "kw:goal"         -> <<c, "FORMULA", ")", "!goal">>
           [] c = "kw:init"         -> <<c, "!list0", "PREDS", "!init">>
           [] OTHER -> FAIL
    [] n = "REQS" ->
         CASE c = "req" -> <<"req", "!req", "REQS">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "ARGS" ->           \* names, optionally typed, up to ")"
         CASE c = "id" -> <<"id", "!argid", "ARGS">>
           [] c = "-"  -> <<"-", "id", "!argty", "ARGS">>
           [] c = ")"  -> <<")", "!argend">>
           [] OTHER -> FAIL
    [] n = "PREDS" ->
         CASE c = "(" -> <<"(", "id", "!sym", "!args0", "ARGS", "!pred", "!push", "PREDS">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "TASK" -> IF c = "id" THEN <<"id", "!sym", "kw:parameters", "(", "!args0", "ARGS">> ELSE FAIL
    [] n = "APRE" ->
         CASE c = "kw:precondition" -> <<c, "FORMULA">>
           [] c \in {"kw:effect", ")"} -> <<"!null">>
           [] OTHER -> FAIL
    [] n = "AEFF" ->
         CASE c = "kw:effect" -> <<c, "FORMULA">>
           [] c = ")" -> <<"!null">>
           [] OTHER -> FAIL
    [] n = "METHOD" -> IF c = "id"
         THEN <<"id", "!sym", "kw:parameters", "(", "!args0", "ARGS",
                "kw:task", "(", "id", "!sym", "!args0", "ARGS", "MREST">> ELSE FAIL
    [] n = "MREST" ->
         CASE c = "kw:precondition" -> <<c, "FORMULA", "HTN1">>
           [] c \in {"kw:subtasks", "kw:ordered-subtasks"} -> <<"!null", "HTN">>
           [] OTHER -> FAIL
    [] n = "INITTN" ->
         CASE c = "kw:parameters" -> <<c, "(", "!args0", "ARGS", "HTN1">>
           [] c \in {"kw:subtasks", "kw:ordered-subtasks", ")"} -> <<"!list0", "HTN1">>
           [] OTHER -> FAIL
    [] n = "HTN1" -> IF c = ")" THEN <<"!list0", "!tn", ")">>
                     ELSE IF c \in {"kw:subtasks", "kw:ordered-subtasks"} THEN <<"HTN">> ELSE FAIL
    [] n = "HTN" ->
         CASE c = "kw:subtasks" -> <<c, "(", "SUBT", "!tn", "TNREST">>
           [] c = "kw:ordered-subtasks" -> <<c, "(", "SUBT", "!tn", "!total", "TOREST">>
           [] OTHER -> FAIL
    [] n = "TNREST" ->
         CASE c = "kw:ordering" -> <<c, "!ordpos", "(", "ORD", "TNREST">>
           [] c = "kw:constraints" -> <<c, "!cons0", "(", "CONS", "TNREST">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "TOREST" ->
         CASE c = "kw:constraints" -> <<c, "!cons0", "(", "CONS", ")">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "SUBT" ->
         CASE c = ")" -> <<")", "!list0">>
           [] c = "op:and" -> <<c, "!list0", "SLIST">>
           [] c = "id" -> <<"!list0", "STASK", "!push">>
           [] OTHER -> FAIL
    [] n = "SLIST" ->
         CASE c = "(" -> <<"(", "STASK", "!push", "SLIST">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "STASK" -> IF c = "id" THEN <<"id", "!sym", "STASK2">> ELSE FAIL
    [] n = "STASK2" ->
         CASE c = "(" -> <<"(", "id", "!sym", "!list0", "TERMS", ")", "!idsubtask">>
           [] c \in {"id", ")"} -> <<"!list0", "TERMS", "!subtask">>
           [] OTHER -> FAIL
    [] n = "TERMS" ->
         CASE c = "id" -> <<"id", "!term", "TERMS">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "ORD" ->
         CASE c = ")" -> <<")">>
           [] c = "op:and" -> <<c, "OLIST">>
           [] c = "op:<" -> <<"OREL">>
           [] OTHER -> FAIL
    [] n = "OLIST" ->
         CASE c = "(" -> <<"(", "OREL", "OLIST">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "OREL" -> IF c = "op:<" THEN <<"op:<", "id", "!sym", "OIDS", "!pop">> ELSE FAIL
    [] n = "OIDS" ->
         CASE c = "id" -> <<"id", "!ord", "OIDS">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "CONS" ->
         CASE c = ")" -> <<")">>
           [] c = "op:and" -> <<c, "CLIST">>
           [] c \in {"op:not", "op:="} -> <<"CON">>
           [] OTHER -> FAIL
    [] n = "CLIST" ->
         CASE c = "(" -> <<"(", "CON", "CLIST">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "CON" ->
         CASE c = "op:not" -> <<"op:not", "(", "op:=", "id", "!sym", "id", "!noteq", ")", ")">>
           [] c = "op:="   -> <<"op:=", "id", "!sym", "id", "!equal", ")">>
           [] OTHER -> FAIL
    [] n = "FORMULA" -> IF c = "(" THEN <<"(", "FORM">> ELSE FAIL
    [] n = "FORM" ->           \* a formula after its "("
         CASE c = ")" -> <<")", "!empty">>
           [] OTHER -> <<"NEFORM">>
    [] n = "NEFORM" ->         \* a non-empty one
         CASE c = "op:not"    -> <<c, "FORMULA", ")", "!not">>
           [] c = "op:and"    -> <<c, "!flist0", "FLIST", "!and">>
           [] c = "op:or"     -> <<c, "!flist0", "FLIST", "!or">>
           [] c = "op:oneof"  -> <<c, "!flist0", "FLIST", "!xor">>
           [] c = "op:="      -> <<c, "id", "!sym", "id", "!eq", ")">>
           [] c = "op:forall" -> <<c, "(", "!args0", "ARGS", "FORMULA", ")", "!forall">>
           [] c = "op:exists" -> <<c, "(", "!args0", "ARGS", "FORMULA", ")", "!exists">>
           [] c = "op:probabilistic" -> <<c, "!flist0", "PLIST", "!and">>
           [] c = "id"        -> <<"id", "!sym", "!args0", "ARGS", "!atom">>
           [] OTHER -> FAIL
    [] n = "FLIST" ->
         CASE c = "(" -> <<"(", "FORM", "!fpush", "FLIST">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL
    [] n = "PLIST" ->
         CASE c = "num" -> <<"num", "!sym", "(", "NEFORM", "!weigh", "!fpush", "PLIST">>
           [] c = ")" -> <<")">>
           [] OTHER -> FAIL

NonTerminal == {"FILE","HEAD","DBLOCKS","DBLOCK","PBLOCKS","PBLOCK","REQS","ARGS",
  "PREDS","TASK","APRE","AEFF","METHOD","MREST","INITTN","HTN1","HTN","TNREST",
  "TOREST","SUBT","SLIST","STASK","STASK2","TERMS","ORD","OLIST","OREL","OIDS",
  "CONS","CLIST","CON","FORMULA","FORM","NEFORM","FLIST","PLIST"}

---------------------------------------------------------------------------
(* Attribute values.                                                       *)
(*   symbol   [n, l, t, tl]  name, line, type ("" for none), type's line   *)
(*   formula  [f, a]         f: linear form, a: its atoms [n, l, args, q]  *)
(*                           (q: below a quantifier)                       *)
(*   network  [subs, total, opos, ords, cons, hasc, rep]                   *)

\* a name and its line in the linear form; names never contain "@"
At(n, l) == <<n, "@" \o ToString(l)>>
IsLine(x) == x # "" /\ SubSeq(x, 1, 1) = "@"
WithoutLines(sq) == SelectSeq(sq, LAMBDA x : ~IsLine(x))
Sym(n, l) == [n |-> n, l |-> l, t |-> "", tl |-> 0]
SymText(y) == IF y.t = "" THEN At(y.n, y.l) ELSE At(y.n, y.l) \o <<":">> \o At(y.t, y.tl)
Cat(f(_), sq) == FoldLeft(LAMBDA acc, x : acc \o f(x), <<>>, sq)
MapSeq(f(_), sq) == [i \in 1..Len(sq) |-> f(sq[i])]
SymsText(sq) == <<"[">> \o Cat(SymText, sq) \o <<"]">>
\* a number without redundant zeros, marked "r" if it is a real; "?" (matches
\* everything) if it may exceed the precision of a double
RECURSIVE StripTail(_)
StripTail(s) == IF SubSeq(s, Len(s), Len(s)) = "0" THEN StripTail(SubSeq(s, 1, Len(s) - 1))
                ELSE IF SubSeq(s, Len(s), Len(s)) = "." THEN SubSeq(s, 1, Len(s) - 1) ELSE s
NumText(w) ==
  LET dot == SelectInSeq([i \in 1..Len(w) |-> SubSeq(w, i, i)], LAMBDA c : c = ".") IN
  IF dot = 0 THEN StripZeros(w)
  ELSE IF Len(w) > 15 THEN "?"
  ELSE StripZeros(SubSeq(w, 1, dot - 1)) \o StripTail("." \o SubSeq(w, dot + 1, Len(w))) \o "r"
NullFormula == [f |-> <<"null">>, a |-> <<>>]

EmptyAST == [kind |-> "", name |-> "", reqs |-> <<>>, types |-> <<>>, constants |-> <<>>,
  preds |-> <<>>, funs |-> <<>>, tasks |-> <<>>, actions |-> <<>>, methods |-> <<>>,
  objects |-> <<>>, init |-> <<>>, goal |-> NullFormula, htn |-> <<>>, rep |-> FALSE,
  seen |-> {}]

ParseInit == [stk |-> <<"FILE">>, vs |-> <<>>, ast |-> EmptyAST,
              tok |-> Tok("", "", 0), st |-> "run"]

\* attribute action a, with vs = w \o <<y, x>>
Act(a, vs, ast, tok) ==
  LET n == Len(vs)
      x == vs[n]
      y == vs[n - 1]
      z == vs[n - 2]
      drop(k) == SubSeq(vs, 1, n - k)
      push(v) == [vs |-> Append(vs, v), ast |-> ast]
      repl(k, v) == [vs |-> Append(drop(k), v), ast |-> ast]
      field(k, as) == [vs |-> drop(k), ast |-> as]
      once(key, as) == [as EXCEPT !.rep = @ \/ key \in ast.seen, !.seen = @ \cup {key}]
      wrap(op) == [f |-> <<op>> \o x.f \o <<")">>, a |-> x.a]
      quant(op) == [f |-> <<op>> \o SymsText(y) \o x.f \o <<")">>,
                    a |-> MapSeq(LAMBDA at : [at EXCEPT !.q = TRUE], x.a)]
  IN
  CASE a = "!dname" -> field(0, [ast EXCEPT !.kind = "domain", !.name = tok.v])
    [] a = "!pname" -> field(0, [ast EXCEPT !.kind = "problem", !.name = tok.v])
    [] a = "!sym"   -> push(Sym(tok.v, tok.l))
    [] a = "!pop"   -> field(1, ast)
    [] a = "!list0" -> push(<<>>)
    [] a = "!push"  -> repl(2, Append(y, x))
    [] a = "!term"  -> repl(1, Append(x, Sym(tok.v, tok.l)))
    [] a = "!args0" -> push([d |-> <<>>, p |-> <<>>])
    [] a = "!argid" -> repl(1, [x EXCEPT !.p = Append(@, Sym(tok.v, tok.l))])
    [] a = "!argty" -> repl(1, [d |-> x.d \o MapSeq(LAMBDA v : [v EXCEPT !.t = tok.v, !.tl = tok.l], x.p),
                                p |-> <<>>])
    [] a = "!argend" -> repl(1, x.d \o x.p)
    [] a = "!pred"  -> repl(2, [n |-> y.n, l |-> y.l, args |-> x])
    [] a = "!preds" -> field(1, [ast EXCEPT !.preds = @ \o x])
    [] a = "!funs"  -> field(1, [ast EXCEPT !.funs = @ \o x])
    [] a = "!task"  -> field(2, [ast EXCEPT !.tasks = Append(@, [n |-> y.n, l |-> y.l, args |-> x])])
    [] a = "!action" -> field(4, [ast EXCEPT !.actions = Append(@,
           [n |-> vs[n-3].n, l |-> vs[n-3].l, args |-> z, pre |-> y, eff |-> x])])
    [] a = "!method" -> field(6, [ast EXCEPT !.methods = Append(@,
           [n |-> vs[n-5].n, l |-> vs[n-5].l, args |-> vs[n-4], task |-> vs[n-3],
            terms |-> z, pre |-> y, tn |-> x]), !.rep = @ \/ x.rep])
    [] a = "!req"   -> field(0, [ast EXCEPT !.reqs = Append(@, tok.v)])
    [] a = "!types" -> field(1, [ast EXCEPT !.types = @ \o x])
    [] a = "!constants" -> field(1, [ast EXCEPT !.constants = @ \o x])
    [] a = "!objects" -> field(1, [ast EXCEPT !.objects = @ \o x])
    [] a = "!init"  -> field(1, once("init", [ast EXCEPT !.init = x]))
    [] a = "!goal"  -> field(1, once("goal", [ast EXCEPT !.goal = x]))
    [] a = "!htn"   -> field(2, once("htn", [ast EXCEPT !.htn = <<[args |-> y, tn |-> x]>>, !.rep = @ \/ x.rep]))
    \* task networks
    [] a = "!tn"    -> repl(1, [subs |-> x, total |-> FALSE, opos |-> 0, ords |-> <<>>,
                                cons |-> <<>>, hasc |-> FALSE, rep |-> FALSE])
    [] a = "!total" -> repl(1, [x EXCEPT !.total = TRUE])
    [] a = "!ordpos" -> repl(1, [x EXCEPT !.opos = tok.l, !.rep = @ \/ x.opos # 0])
    [] a = "!cons0" -> repl(1, [x EXCEPT !.hasc = TRUE, !.rep = @ \/ x.hasc])
    [] a = "!ord"   -> [vs |-> drop(2) \o <<[y EXCEPT !.ords = Append(@, <<x.n, tok.v>>)], x>>, ast |-> ast]
    [] a = "!equal" -> repl(2, [y EXCEPT !.cons = @ \o <<x.n, "=", tok.v>>])
    [] a = "!noteq" -> repl(2, [y EXCEPT !.cons = @ \o <<x.n, "!=", tok.v>>])
    [] a = "!idsubtask" -> repl(3, [id |-> z.n, idl |-> z.l, n |-> y.n, l |-> y.l, terms |-> x])
    [] a = "!subtask"   -> repl(2, [id |-> "", idl |-> 0, n |-> y.n, l |-> y.l, terms |-> x])
    \* formulae
    [] a = "!null"   -> push(NullFormula)
    [] a = "!empty"  -> push([f |-> <<"()">>, a |-> <<>>])
    [] a = "!flist0" -> push([f |-> <<>>, a |-> <<>>])
    [] a = "!fpush"  -> repl(2, [f |-> y.f \o x.f, a |-> y.a \o x.a])
    [] a = "!not"    -> repl(1, wrap("(not"))
    [] a = "!and"    -> repl(1, wrap("(and"))
    [] a = "!or"     -> repl(1, wrap("(or"))
    [] a = "!xor"    -> repl(1, wrap("(xor"))
    [] a = "!weigh"  -> repl(2, [f |-> <<"(weight", NumText(y.n)>> \o x.f \o <<")">>, a |-> x.a])
    [] a = "!eq"     -> repl(1, [f |-> <<"(=", x.n, tok.v, ")">>, a |-> <<>>])
    [] a = "!forall" -> repl(2, quant("(forall"))
    [] a = "!exists" -> repl(2, quant("(exists"))
    [] a = "!atom"   -> repl(2, [f |-> <<"(atom">> \o At(y.n, y.l) \o SymsText(x) \o <<")">>,
                                 a |-> <<[n |-> y.n, l |-> y.l, args |-> x, q |-> FALSE]>>])

IsAction(sym) == SubSeq(sym, 1, 1) = "!"

\* perform the attribute actions on top of the stack
RECURSIVE Drain(_)
Drain(cf) ==
  IF cf.stk # <<>> /\ IsAction(Head(cf.stk))
  THEN LET r == Act(Head(cf.stk), cf.vs, cf.ast, cf.tok) IN
       Drain([cf EXCEPT !.stk = Tail(@), !.vs = r.vs, !.ast = r.ast])
  ELSE cf

\* consume one token
RECURSIVE ParseStep(_, _)
ParseStep(cf, t) ==
  IF cf.st # "run" THEN cf
  ELSE IF IsErr(t) THEN [cf EXCEPT !.st = "err", !.tok = t]
  ELSE LET top == Head(cf.stk) IN
       IF top \in NonTerminal
       THEN LET rhs == Rule(top, t.c) IN
            IF rhs = FAIL THEN [cf EXCEPT !.st = "err", !.tok = t]
            ELSE ParseStep(Drain([cf EXCEPT !.stk = rhs \o Tail(@)]), t)
       ELSE IF top = t.c
            THEN LET nx == Drain([cf EXCEPT !.stk = Tail(@), !.tok = t]) IN
                 IF nx.stk = <<>> THEN [nx EXCEPT !.st = "acc"] ELSE nx
            ELSE [cf EXCEPT !.st = "err", !.tok = t]

ParseTokens(ts) == FoldLeft(ParseStep, ParseInit, ts)
ParseText(s) == ParseTokens(Tokens(s))
---------------------------------------------------------------------------
(* The linear form of a definition, for comparison with the JSON output.   *)
PredText(p) == At(p.n, p.l) \o SymsText(p.args)
ActionText(a) == At(a.n, a.l) \o SymsText(a.args) \o <<"pre">> \o a.pre.f \o <<"eff">> \o a.eff.f
SubText(s) == (IF s.id = "" THEN <<"*">> ELSE At(s.id, s.idl)) \o At(s.n, s.l) \o SymsText(s.terms)
TnText(tn) == <<"sub">> \o Cat(SubText, tn.subs) \o <<"ord", IF tn.total THEN "total" ELSE "partial", "@" \o ToString(tn.opos)>>
   \o Cat(LAMBDA o : <<o[1], "<", o[2]>>, tn.ords) \o <<"cons">> \o tn.cons
MethodText(m) == At(m.n, m.l) \o SymsText(m.args) \o <<"task">> \o SymText(m.task) \o SymsText(m.terms)
   \o <<"pre">> \o m.pre.f \o TnText(m.tn)
ReqText(ast) == <<"reqs">> \o ast.reqs
DomainText(ast) ==
  <<"domain", ast.name, "types">> \o SymsText(ast.types) \o <<"constants">> \o SymsText(ast.constants)
  \o ReqText(ast) \o <<"preds">> \o Cat(PredText, ast.preds) \o <<"funs">> \o Cat(PredText, ast.funs)
  \o <<"tasks">> \o Cat(PredText, ast.tasks) \o <<"actions">> \o Cat(ActionText, ast.actions)
  \o <<"methods">> \o Cat(MethodText, ast.methods)
ProblemText(ast) ==
  <<"problem">> \o ReqText(ast) \o <<"objects">> \o SymsText(ast.objects)
  \o <<"init">> \o Cat(PredText, ast.init) \o <<"goal">> \o ast.goal.f
  \o <<"htn">> \o (IF ast.htn = <<>> THEN <<"null">> ELSE SymsText(ast.htn[1].args) \o TnText(ast.htn[1].tn))
=============================================================================
