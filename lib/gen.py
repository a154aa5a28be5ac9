"""Generators of HDDL texts.  Nothing here decides what is right: the specification judges every case.

Models are plain Python structures:
  symbol      [name, type or None]
  atom        ["atom", name, [symbols]]
  formula     None | "()" | atom | ["not", f] | ["and"|"or"|"oneof", [f..]] | ["=", a, b]
              | ["forall"|"exists", [symbols], f] | ["probabilistic", [(num, f)..]]
  network     {"kw", "subs": [[id or None, task, [terms]]], "ords": [(a, b)] or None, "cons": [("="|"!=", a, b)] or None}
"""
import copy, random

NUMBERS = ["0.5", "1", "12", "0.25", "3.0", "007", "0.", "0", "00", "1.50", "9223372036854775807",
           "4294967296", "0.1", "100", "2147483648", "1.2", "10", "000001"]
EXTREME = ["9223372036854775808", "18446744073709551616", "99999999999999999999", "1" * 400, "0." + "3" * 60, "1" * 330 + ".5", "9" * 308 + ".", "0" * 400 + ".25"]


def number(r):
    return r.choice(NUMBERS if r.random() < 0.97 else EXTREME)


FRESH = ["zeta", "undefd", "q-9", "x_0", "Zz"]


class Domain:
    def __init__(self):
        self.name = "d"
        self.reqs = []
        self.types = []
        self.constants = []
        self.preds = []      # [name, [symbols]]
        self.funs = []
        self.tasks = []      # [name, [symbols]]
        self.actions = []    # dict n, args, pre, eff
        self.methods = []    # dict n, args, task, terms, pre, tn


class Problem:
    def __init__(self):
        self.reqs = []
        self.objects = []
        self.init = []
        self.goal = None
        self.htn = None      # dict args or None, tn


def superiors(t, types):
    """types an object of type t may be used as"""
    out, todo = {t}, [t]
    while todo:
        x = todo.pop()
        for n, p in types:
            if n == x and p is not None and p not in out:
                out.add(p)
                todo.append(p)
    return out


class Gen:
    def __init__(self, rng, size=None):
        self.r = rng
        self.size = size or rng.choice([1, 1, 2, 2, 3] if rng.random() < 0.9 else [6])
        self.large = self.size >= 6
        self.nq = 0

    def fits(self, t, want):
        return t == want or (t is not None and want is not None and want in superiors(t, self.d.types))

    def params(self, n, prefix="v"):
        return normal([[f"{prefix}{k}", self.some_type()] for k in range(n)])

    def some_type(self):
        names = self.type_names
        if not names or self.r.random() < 0.15:
            return None
        return self.r.choice(names)

    def subtype(self, t):
        if t is None:
            return None
        cands = [n for n in self.type_names if self.fits(n, t)]
        return self.r.choice(cands) if cands and self.r.random() < 0.5 else t

    def arg(self, want, scope, const=True):
        """a name that fits, declared in scope (a new one if need be) or a constant"""
        r = self.r
        cands = [s[0] for s in scope if self.fits(s[1], want)]
        cs = [c[0] for c in self.d.constants if self.fits(c[1], want) and all(s[0] != c[0] for s in scope)] if const else []
        if cs and r.random() < 0.25:
            return r.choice(cs)
        if cands and r.random() < 0.75:
            return r.choice(cands)
        names = {s[0] for s in scope} | {c[0] for c in self.d.constants}
        k = len(scope)
        while f"v{k}" in names:
            k += 1
        scope.append([f"v{k}", self.subtype(want)])
        return f"v{k}"

    def atom(self, scope):
        n, formals = self.r.choice(self.d.preds)
        return ["atom", n, [[self.arg(f[1], scope), None] for f in formals]]

    def formula(self, scope, depth=3, effect=False):
        r = self.r
        wide = [0, 1, 1, 2, 2, 3, 3] if not self.large else [0, 1, 2, 3, 4, 5]
        if not self.d.preds:
            return r.choice(["()", ["and", []]])
        k = r.random()
        if depth == 0 or k < 0.3:
            return self.atom(scope)
        if k < 0.42:
            return ["not", self.formula(scope, depth - 1, effect)]
        if k < 0.7:
            return ["and", [self.formula(scope, depth - 1, effect) for _ in range(r.choice(wide))]]
        if k < 0.76:
            return ["or", [self.formula(scope, depth - 1, effect) for _ in range(r.choice(wide))]]
        if k < 0.8:
            return ["oneof", [self.formula(scope, depth - 1, effect) for _ in range(r.choice(wide))]]
        if k < 0.84 and scope:
            return ["=", r.choice(scope)[0], r.choice(scope)[0]]
        if k < 0.92:
            q = []
            for _ in range(r.randint(0, 2)):
                q.append([f"q{self.nq % 4}", self.some_type()])
                self.nq += 1
            if scope and r.random() < 0.15:            # shadows a parameter
                q.append([r.choice(scope)[0], self.some_type()])
            inner = scope + q if r.random() < 0.7 else scope
            f = self.formula(inner, depth - 1, effect)
            if inner is not scope:
                scope += [s for s in inner[len(scope) + len(q):]]
            return [r.choice(["forall", "exists"]), q, f]
        if k < 0.96:
            return ["probabilistic", [(number(r), self.formula(scope, 0, effect))
                                      for _ in range(r.randint(0, 2))]]
        return "()"

    def network(self, scope, allowed, n=None, const=True):
        r = self.r
        ordered = r.random() < 0.5
        n = r.choice([0, 1, 1, 2, 2, 3] if not self.large else [2, 3, 4, 5, 6]) if n is None else n
        subs, ids = [], []
        for k in range(n):
            if not allowed:
                break
            t, formals = r.choice(allowed)
            i = f"s{k}" if r.random() < (0.4 if ordered else 0.85) else None
            if i:
                ids.append(i)
            subs.append([i, t, [self.arg(f[1], scope, const) for f in formals]])
        tn = {"kw": r.choice([":ordered-subtasks", ":ordered-tasks"] if ordered else [":subtasks", ":tasks"]),
              "subs": subs, "ords": None, "cons": None}
        if not ordered and len(ids) > 1 and r.random() < 0.8:
            perm = ids[:]
            r.shuffle(perm)
            if r.random() < 0.5:
                tn["ords"] = [(perm[k], perm[k + 1]) for k in range(len(perm) - 1)]
            else:
                tn["ords"] = [(perm[a], perm[b]) for a in range(len(perm)) for b in range(a + 1, len(perm)) if r.random() < 0.6]
        if scope and r.random() < 0.2:
            tn["cons"] = [(r.choice(["=", "!="]), r.choice(scope)[0], r.choice(scope)[0]) for _ in range(r.randint(0, 2))]
        return tn

    def domain(self):
        r, z = self.r, self.size
        d = self.d = Domain()
        d.name = r.choice(["d", "dom-1", "my_domain"])
        d.reqs = r.sample([":strips", ":typing", ":hierarchy", ":equality", ":negative-preconditions",
                           ":method-preconditions", ":universal-preconditions"], r.randint(0, 4))
        nt = r.choice([0, 1, 2, 3, 4, 5] if not self.large else [6, 8, 10, 14])
        tn = [f"t{k}" for k in range(nt)]
        for k, t in enumerate(tn):
            parents = [p for p in tn[:k] + ["object"]]
            if r.random() < 0.65:
                d.types.append([t, r.choice(parents)])
                if r.random() < 0.12 and len(parents) > 1:
                    d.types.append([t, r.choice(parents)])
            else:
                d.types.append([t, None])
        r.shuffle(d.types)
        self.type_names = list(dict.fromkeys([n for n, _ in d.types] + [p for _, p in d.types if p]))
        d.constants = [[f"c{k}", self.some_type()] for k in range(r.choice([0, 0, 1, 2, 3]))]
        d.preds = [[f"p{k}", self.params(r.choice([0, 1, 1, 2, 3] if not self.large else [0, 2, 3, 4, 6]))] for k in range(r.randint(0, 2 + z))]
        if r.random() < 0.2:
            d.funs = [[f"f{k}", self.params(r.randint(0, 2))] for k in range(r.randint(0, 2))]
        d.tasks = [[f"T{k}", self.params(r.choice([0, 1, 2] if not self.large else [1, 2, 4, 5]))] for k in range(r.randint(0, 1 + z))]
        for k in range(r.randint(0, 1 + z)):
            args = self.params(r.choice([0, 1, 2]))
            deep = r.choice([2, 3, 3, 4]) if not self.large else 4
            pre = self.formula(args, deep) if r.random() < 0.7 else None
            eff = self.formula(args, deep, effect=True) if r.random() < 0.7 else None
            args[:] = normal(args)
            d.actions.append({"n": f"a{k}", "args": args, "pre": pre, "eff": eff})
        if d.tasks:
            allowed = d.tasks + [[a["n"], a["args"]] for a in d.actions]
            for k in range(r.randint(0, 2 + z)):
                args = self.params(r.choice([0, 1, 2]))
                t, formals = r.choice(d.tasks)
                terms = [self.arg(f[1], args) for f in formals]
                pre = self.formula(args) if r.random() < 0.5 else None
                tnw = self.network(args, allowed)
                d.methods.append({"n": f"m{k}", "args": args, "task": t, "terms": terms, "pre": pre, "tn": tnw})
        return d

    def problem(self):
        r, d = self.r, self.d
        p = Problem()
        p.reqs = r.sample([":strips", ":typing", ":hierarchy"], r.randint(0, 2)) if r.random() < 0.4 else []
        p.objects = [[f"o{k}", self.some_type()] for k in range(r.randint(0, 4))]

        def obj(want):
            cs = [c[0] for c in d.constants if self.fits(c[1], want)]
            if cs and r.random() < 0.3:
                return r.choice(cs)
            os_ = [o[0] for o in p.objects if self.fits(o[1], want)]
            if os_ and r.random() < 0.9:
                return r.choice(os_)
            n = f"o{len(p.objects)}"
            p.objects.append([n, self.subtype(want)])
            return n

        if d.preds:
            for _ in range(r.randint(0, 4)):
                n, formals = r.choice(d.preds)
                p.init.append([n, [[obj(f[1]), None] for f in formals]])
            if r.random() < 0.5:
                def goal(depth):
                    k = r.random()
                    if depth == 0 or k < 0.45:
                        n, formals = r.choice(d.preds)
                        return ["atom", n, [[obj(f[1]), None] for f in formals]]
                    if k < 0.6:
                        return ["not", goal(depth - 1)]
                    if k < 0.85:
                        return [r.choice(["and", "and", "or", "oneof"]), [goal(depth - 1) for _ in range(r.randint(0, 3))]]
                    return [r.choice(["forall", "exists"]), [["q0", self.some_type()]], goal(depth - 1)]
                p.goal = goal(2)
        if r.random() < 0.8:
            args = self.params(r.randint(0, 2), "w") if r.random() < 0.4 else None
            allowed = d.tasks + [[a["n"], a["args"]] for a in d.actions]
            subs, ids = [], []
            for k in range(r.randint(0, 3)):
                if not allowed:
                    break
                t, formals = r.choice(allowed)
                i = f"s{k}" if r.random() < 0.6 else None
                if i:
                    ids.append(i)
                terms = []
                for f in formals:
                    ws = [w[0] for w in args or [] if self.fits(w[1], f[1])]
                    terms.append(r.choice(ws) if ws and r.random() < 0.5 else obj(f[1]))
                subs.append([i, t, terms])
            ordered = r.random() < 0.5
            tn = {"kw": ":ordered-subtasks" if ordered else ":subtasks", "subs": subs, "ords": None, "cons": None}
            if not ordered and len(ids) > 1:
                tn["ords"] = [(ids[k], ids[k + 1]) for k in range(len(ids) - 1)]
            for k in ("single", "and", "grouped"):
                if r.random() < 0.4:
                    tn[k] = True
            if not ordered and len(ids) > 1 and r.random() < 0.3:
                tn["ords"] = [(ids[a], ids[b]) for a in range(len(ids)) for b in range(a + 1, len(ids))]
            vs = [w[0] for w in args or []] + [o[0] for o in p.objects]
            if vs and r.random() < 0.2:
                tn["cons"] = [(r.choice(["=", "!="]), r.choice(vs), r.choice(vs)) for _ in range(r.randint(0, 2))]
            p.htn = {"args": args, "tn": tn}
        return p


# ---------------------------------------------------------------- rendering to tokens
def t_typed(sq, var=False):
    out, k = [], 0
    pre = "?" if var else ""
    while k < len(sq):
        # consecutive symbols of one type share the annotation
        n, t = sq[k]
        group = [n]
        while t is not None and k + 1 < len(sq) and sq[k + 1][1] == t:
            k += 1
            group.append(sq[k][0])
        out += [pre + g for g in group]
        if t is not None:
            out += ["-", t]
        k += 1
    return out


def normal(sq):
    """an untyped symbol in front of a typed one would take its type: untyped ones go last"""
    return [s for s in sq if s[1] is not None] + [s for s in sq if s[1] is None]


def name(n):
    """variables are written with a '?', constants and objects without; both are names"""
    return "?" + n if n and n[0] in "vqw" else n


def t_formula(f):
    if f == "()":
        return ["(", ")"]
    k = f[0]
    if k == "atom":
        return ["(", f[1]] + [x for n, t in f[2] for x in ([name(n)] + (["-", t] if t else []))] + [")"]
    if k == "not":
        return ["(", "not"] + t_formula(f[1]) + [")"]
    if k in ("and", "or", "oneof"):
        return ["(", k] + [x for g in f[1] for x in t_formula(g)] + [")"]
    if k == "=":
        return ["(", "=", name(f[1]), name(f[2]), ")"]
    if k in ("forall", "exists"):
        return ["(", k, "("] + t_typed(f[1], True) + [")"] + t_formula(f[2]) + [")"]
    if k == "probabilistic":
        return ["(", k] + [x for n, g in f[1] for x in [n] + t_formula(g)] + [")"]
    raise ValueError(f)


def t_network(tn):
    out = [tn["kw"], "("]
    def sub(s):
        body = [s[1]] + [name(x) for x in s[2]]
        return [s[0], "("] + body + [")"] if s[0] else body
    if len(tn["subs"]) == 1 and tn.get("single"):
        out += sub(tn["subs"][0]) + [")"]
    elif tn["subs"] or tn.get("and"):
        out += ["and"] + [x for s in tn["subs"] for x in ["("] + sub(s) + [")"]] + [")"]
    else:
        out += [")"]
    if tn["ords"] is not None:
        out += [":ordering", "("]
        groups = []            # (< a b c) orders a before b and before c
        for a, b in tn["ords"]:
            if groups and groups[-1][0] == a and tn.get("grouped"):
                groups[-1].append(b)
            else:
                groups.append([a, b])
        if len(groups) == 1 and tn.get("single"):
            out += ["<"] + groups[0] + [")"]
        elif groups:
            out += ["and"] + [x for g in groups for x in ["(", "<"] + g + [")"]] + [")"]
        else:
            out += [")"]
    if tn["cons"] is not None:
        out += [":constraints", "("]
        if len(tn["cons"]) == 1 and tn.get("single"):
            k, a, b = tn["cons"][0]
            eq = ["=", name(a), name(b), ")"]
            return out + (eq if k == "=" else ["not", "("] + eq + [")"])
        if tn["cons"]:
            out += ["and"]
            for k, a, b in tn["cons"]:
                eq = ["(", "=", name(a), name(b), ")"]
                out += eq if k == "=" else ["(", "not"] + eq + [")"]
        out += [")"]
    return out


def halves(sq, d):
    """one block, or several (a declaration may be spread over blocks)"""
    if not sq:
        return []
    k = len(sq) // 2
    return [sq[:k], sq[k:]] if getattr(d, "split", False) and k else [sq]


def domain_blocks(d):
    """list of token lists, one per block"""
    out = []
    for part in halves(d.reqs, d):
        out.append(["(", ":requirements"] + part + [")"])
    for part in halves(normal(d.types), d):
        out.append(["(", ":types"] + t_typed(part) + [")"])
    for part in halves(normal(d.constants), d):
        out.append(["(", ":constants"] + t_typed(part) + [")"])
    for part in halves(d.preds, d):
        out.append(["(", ":predicates"] + [x for n, a in part for x in ["(", n] + t_typed(normal(a), True) + [")"]] + [")"])
    if d.funs:
        out.append(["(", ":functions"] + [x for n, a in d.funs for x in ["(", n] + t_typed(normal(a), True) + [")"]] + [")"])
    for n, a in d.tasks:
        out.append(["(", ":task", n, ":parameters", "("] + t_typed(normal(a), True) + [")", ")"])
    for m in d.methods:
        b = ["(", ":method", m["n"], ":parameters", "("] + t_typed(normal(m["args"]), True) + [")", ":task", "(", m["task"]]
        b += [name(x) for x in m["terms"]] + [")"]
        if m["pre"] is not None:
            b += [":precondition"] + t_formula(m["pre"])
        out.append(b + t_network(m["tn"]) + [")"])
    for a in d.actions:
        b = ["(", ":action", a["n"], ":parameters", "("] + t_typed(normal(a["args"]), True) + [")"]
        if a["pre"] is not None:
            b += [":precondition"] + t_formula(a["pre"])
        if a["eff"] is not None:
            b += [":effect"] + t_formula(a["eff"])
        out.append(b + [")"])
    return out


def t_domain(d, order=None):
    bs = domain_blocks(d)
    if order:
        order(bs)
    return ["(", "define", "(", "domain", d.name, ")"] + [x for b in bs for x in b] + [")"]


def problem_blocks(p):
    out = []
    if p.reqs:
        out.append(["(", ":requirements"] + p.reqs + [")"])
    if p.objects:
        out.append(["(", ":objects"] + t_typed(normal(p.objects)) + [")"])
    if p.htn:
        b = ["(", ":htn"]
        if p.htn["args"] is not None:
            b += [":parameters", "("] + t_typed(normal(p.htn["args"]), True) + [")"]
        out.append(b + t_network(p.htn["tn"]) + [")"])
    out.append(["(", ":init"] + [x for n, a in p.init for x in t_formula(["atom", n, a])] + [")"])
    if p.goal is not None:
        out.append(["(", ":goal"] + t_formula(p.goal) + [")"])
    return out


def t_problem(p, dname="d", order=None):
    bs = problem_blocks(p)
    if order:
        order(bs)
    return ["(", "define", "(", "problem", "prob", ")", "(", ":domain", dname, ")"] + [x for b in bs for x in b] + [")"]


# ---------------------------------------------------------------- layout
def needs_gap(a, b):
    """whether a separator is needed between the tokens a and b"""
    if a in ("(", ")", "=") or b in ("(", ")"):
        return a in ("<", ">") and b.startswith("=")
    if a == "-":
        return False
    return True


SEPS = [" ", "\n", "\t", "\r\n", "  ", " \n\n ", "\n; a comment (with) :types ?x\n", " ;\n", "\n\n\n", " ;; x\n\t", ";glued\n"]
# comments in which anything may stand
ODD_SEPS = ["\r", "\t \r\n\r\n", "; caf\xc3\xa9 \xe2\x88\x80\n", ";\xff\xfe\x80\n", ";\x00\x01\x0c\n", "; ( ( \"\n", ";)\n", ";; ?x :typing 0.5 < = -\r\n",
            ";" * 300 + "\n", "; " + "word " * 1000 + "\n", "\n" * 40, ";\n" * 40, ";\\\n", "; (define (domain z)\n;(;\n",
            ";#| block |#\n", ";-*- x -*-\n;;;;\n"]


def layout(tokens, rng, style=None):
    style = style or rng.choice(["plain", "lines", "wild", "tight", "wild"])
    out = []
    if style == "wild" and rng.random() < 0.5:
        out.append(rng.choice(SEPS))
    for k, t in enumerate(tokens):
        out.append(t)
        if k + 1 == len(tokens):
            break
        must = needs_gap(t, tokens[k + 1])
        if style == "plain":
            out.append("\n" if tokens[k + 1] == "(" and rng.random() < 0.5 else " ")
        elif style == "lines":
            out.append("\n")
        elif style == "tight":
            out.append(" " if must else "")
        else:
            out.append(rng.choice(SEPS if rng.random() < 0.97 else ODD_SEPS) if must or rng.random() < 0.6 else "")
    if style in ("plain", "lines"):
        out.append("\n")
    elif style == "wild":
        out.append(rng.choice(SEPS + ["", "", "; end", " ;", ";\xff", "\r", ";)", "; \xc3\xa9\n;"]))
    return "".join(out)


# ---------------------------------------------------------------- faults
def formula_atoms(f, q=False):
    if f is None or f == "()":
        return []
    if f[0] == "atom":
        return [f]
    if f[0] == "not":
        return formula_atoms(f[1])
    if f[0] in ("and", "or", "oneof"):
        return [a for g in f[1] for a in formula_atoms(g)]
    if f[0] in ("forall", "exists"):
        return formula_atoms(f[2])
    if f[0] == "probabilistic":
        return [a for _, g in f[1] for a in formula_atoms(g)]
    return []


def domain_faults(d, rng):
    """all places at which a mutation applies, as thunks that mutate d; grouped by kind"""
    K = {}

    def add(kind, f):
        K.setdefault(kind, []).append(f)

    types = [t[0] for t in d.types] or ["t0"]
    tops = [t[1] for t in d.types if t[1]]
    anyname = ([p[0] for p in d.preds] + [t[0] for t in d.tasks] + [a["n"] for a in d.actions] + [m["n"] for m in d.methods]
               + [c[0] for c in d.constants] + types)
    r = rng

    def setter(obj, key, vals):
        def go():
            obj[key] = r.choice(vals)
        return go

    typed_lists = [("pred", p[1]) for p in d.preds] + [("task", t[1]) for t in d.tasks] + [("act", a["args"]) for a in d.actions] \
        + [("meth", m["args"]) for m in d.methods] + [("const", d.constants)]
    for w, sq in typed_lists:
        for s in sq:
            add("type:" + w, setter(s, 1, FRESH))
            add("retype:" + w, setter(s, 1, types + tops + [None]))
            if w != "const" or True:
                add("dup:" + w, lambda sq=sq, s=s: sq.insert(r.randint(0, len(sq)), [s[0], r.choice(types + [None, s[1]])]))
            add("rename:" + w, setter(s, 0, FRESH + [x[0] for x in sq]))
            add("drop:" + w, lambda sq=sq, s=s: sq.remove(s))
        add("add:" + w, lambda sq=sq: sq.append([r.choice(["v9", "c9"]), r.choice(types + [None])]))
    for p in d.preds:
        add("dup:predicate", lambda p=p: d.preds.insert(r.randint(0, len(d.preds)), copy.deepcopy(p)))
        add("del:predicate", lambda p=p: d.preds.remove(p))
        add("rename:predicate", setter(p, 0, FRESH + [x[0] for x in d.preds] + anyname))
    for t in d.tasks:
        add("dup:task", lambda t=t: d.tasks.insert(r.randint(0, len(d.tasks)), copy.deepcopy(t)))
        add("del:task", lambda t=t: d.tasks.remove(t))
        add("rename:task", setter(t, 0, FRESH + [x[0] for x in d.tasks]))
    for a in d.actions:
        add("dup:action", lambda a=a: d.actions.insert(r.randint(0, len(d.actions)), copy.deepcopy(a)))
        add("del:action", lambda a=a: d.actions.remove(a))
        add("rename:action", setter(a, "n", FRESH + [x["n"] for x in d.actions]))
    for m in d.methods:
        add("dup:method", lambda m=m: d.methods.insert(r.randint(0, len(d.methods)), copy.deepcopy(m)))
        add("del:method", lambda m=m: d.methods.remove(m))
        add("rename:method", setter(m, "n", [x["n"] for x in d.methods]))
        add("methodtask", setter(m, "task", FRESH + [x[0] for x in d.tasks] + [x["n"] for x in d.actions]))
        for k in range(len(m["terms"])):
            add("methodterm", setter(m["terms"], k, FRESH + [x[0] for x in m["args"]] + [c[0] for c in d.constants]))
            add("methodterm-drop", lambda m=m, k=k: m["terms"].pop(min(k, len(m["terms"]) - 1)))
        add("methodterm-add", lambda m=m: m["terms"].append(r.choice([x[0] for x in m["args"]] or ["v0"])))
        for s in m["tn"]["subs"]:
            add("subtask", setter(s, 1, FRESH + anyname))
            for k in range(len(s[2])):
                add("subterm", setter(s[2], k, FRESH + [x[0] for x in m["args"]] + [c[0] for c in d.constants]))
                add("subterm-drop", lambda s=s, k=k: s[2].pop(min(k, len(s[2]) - 1)))
            add("subterm-add", lambda s=s, m=m: s[2].append(r.choice([x[0] for x in m["args"]] or ["v0"])))
        ids = [s[0] for s in m["tn"]["subs"] if s[0]]
        if ids and m["tn"]["ords"] is not None or (ids and "ordered" not in m["tn"]["kw"]):
            def cyc(m=m, ids=ids):
                o = m["tn"]["ords"] = list(m["tn"]["ords"] or [])
                o.insert(r.randint(0, len(o)), (r.choice(ids), r.choice(ids)))
            add("ordering", cyc)
            def cyc2(m=m, ids=ids):
                o = m["tn"]["ords"] = list(m["tn"]["ords"] or [])
                if o:
                    a, b = r.choice(o)
                    o.append((b, a))
            add("ordering-flip", cyc2)
    for where, f, scope in [("pre", a["pre"], a["args"]) for a in d.actions] + [("eff", a["eff"], a["args"]) for a in d.actions] \
            + [("mpre", m["pre"], m["args"]) for m in d.methods]:
        for at in formula_atoms(f):
            add("atom:" + where, setter(at, 1, FRESH + [p[0] for p in d.preds] + anyname))
            for s in at[2]:
                add("atomarg:" + where, setter(s, 0, FRESH + [x[0] for x in scope] + [c[0] for c in d.constants]))
                add("atomarg-drop:" + where, lambda at=at: at[2].pop() if at[2] else None)
            add("atomarg-add:" + where, lambda at=at, scope=scope: at[2].append([r.choice([x[0] for x in scope] or ["v0"]), None]))
    if d.types:
        def edge():
            d.types.insert(r.randint(0, len(d.types)), [r.choice(types), r.choice(types + tops)])
        add("typeedge", edge)
        add("typeedge2", edge)
        def back():
            t = r.choice(d.types)
            if t[1]:
                d.types.append([t[1], t[0]])
        add("typeback", back)
        add("typedrop", lambda: d.types.remove(r.choice(d.types)))
        add("self", lambda: d.types.append([types[0], types[0]]))
    if d.reqs:
        add("dup:req", lambda: d.reqs.insert(r.randint(0, len(d.reqs)), r.choice(d.reqs)))
    return K


def problem_faults(p, d, rng):
    K = {}
    r = rng

    def add(kind, f):
        K.setdefault(kind, []).append(f)

    def setter(obj, key, vals):
        def go():
            obj[key] = r.choice(vals)
        return go
    types = [t[0] for t in d.types] or ["t0"]
    names = [o[0] for o in p.objects] + [c[0] for c in d.constants]
    preds = [x[0] for x in d.preds]
    for o in p.objects:
        add("type", setter(o, 1, FRESH))
        add("retype", setter(o, 1, types + [None]))
        add("dup", lambda o=o: p.objects.insert(r.randint(0, len(p.objects)), [o[0], r.choice(types + [None, o[1]])]))
        add("drop", lambda o=o: p.objects.remove(o))
        add("rename", setter(o, 0, FRESH + names))
    for a in p.init:
        add("init", setter(a, 0, FRESH + preds + [t[0] for t in d.tasks]))
        for s in a[1]:
            add("initarg", setter(s, 0, FRESH + names))
        add("init-add", lambda a=a: a[1].append([r.choice(names or ["o0"]), None]))
        add("init-drop", lambda a=a: a[1].pop() if a[1] else None)
    for at in formula_atoms(p.goal):
        add("goal", setter(at, 1, FRESH + preds))
        for s in at[2]:
            add("goalarg", setter(s, 0, FRESH + names))
        add("goal-add", lambda at=at: at[2].append([r.choice(names or ["o0"]), None]))
        add("goal-drop", lambda at=at: at[2].pop() if at[2] else None)
    if p.htn:
        for s in p.htn["args"] or []:
            add("htntype", setter(s, 1, FRESH))
            add("htnretype", setter(s, 1, types + [None]))
            add("htndrop", lambda s=s: p.htn["args"].remove(s))
        tn = p.htn["tn"]
        for s in tn["subs"]:
            add("sub", setter(s, 1, FRESH + [t[0] for t in d.tasks] + [a["n"] for a in d.actions] + [m["n"] for m in d.methods]))
            for k in range(len(s[2])):
                add("subarg", setter(s[2], k, FRESH + names + [w[0] for w in p.htn["args"] or []]))
            add("sub-add", lambda s=s: s[2].append(r.choice(names or ["o0"])))
            add("sub-drop", lambda s=s: s[2].pop() if s[2] else None)
        ids = [s[0] for s in tn["subs"] if s[0]]
        if ids and "ordered" not in tn["kw"]:
            def cyc():
                o = tn["ords"] = list(tn["ords"] or [])
                o.insert(r.randint(0, len(o)), (r.choice(ids), r.choice(ids)))
            add("ordering", cyc)
            add("ordering2", cyc)
    if p.reqs:
        add("dup:req", lambda: p.reqs.append(p.reqs[0]))
    return K


def mutate(d, rng, n=1, kinds=None, faults=domain_faults, *more):
    """d with n random mutations (kinds: substrings of mutation kinds)"""
    d = copy.deepcopy(d)
    for _ in range(n):
        K = faults(d, *more, rng) if more else faults(d, rng)
        ks = [k for k in sorted(K) if not kinds or any(x in k for x in kinds)]
        if ks:
            rng.choice(K[rng.choice(ks)])()
    return d


def random_domain(rng, **kw):
    g = Gen(rng, **kw)
    d = g.domain()
    d.split = rng.random() < 0.15
    for m in d.methods:
        for k in ("single", "and", "grouped"):
            if rng.random() < 0.4:
                m["tn"][k] = True
    return g, d


# ---------------------------------------------------------------- token classes
LEXEMES = {
    "id": ["x", "?x", "a-b", "T_1", "t", "?v-1", "objects", "types"],
    "num": ["1", "0.5", "42", "3.", "0"],
    "req": [":typing", ":strips", ":hierarchy", ":equality", ":negative-preconditions", ":method-preconditions",
            ":universal-preconditions"],
    "kw:define": ["define"], "kw:domain": ["domain", ":domain"], "kw:problem": ["problem", ":problem"],
    "kw:subtasks": [":subtasks", ":tasks"], "kw:ordered-subtasks": [":ordered-subtasks", ":ordered-tasks"],
    "kw:ordering": [":ordering", ":order"],
}
CLASSES = ["(", ")", "-", "id", "num", "req", "EOF", "kw:define", "kw:domain", "kw:problem", "kw:predicates",
           "kw:functions", "kw:task", "kw:method", "kw:action", "kw:requirements", "kw:types", "kw:constants",
           "kw:objects", "kw:htn", "kw:goal", "kw:init", "kw:parameters", "kw:precondition", "kw:effect",
           "kw:subtasks", "kw:ordered-subtasks", "kw:ordering", "kw:constraints", "op:and", "op:or", "op:oneof",
           "op:not", "op:forall", "op:exists", "op:imply", "op:probabilistic", "op:=", "op:<", "op:>", "op:<=", "op:>="]


def lexeme(c, rng):
    if c == "EOF":
        return None
    if c in LEXEMES:
        return rng.choice(LEXEMES[c])
    if c[:3] == "kw:":
        return ":" + c[3:]
    if c[:3] == "op:":
        return c[3:]
    return c


def lexemes(cs, rng, own=False):
    """tokens for classes; EOF ends the text; own: (mostly) different names"""
    out = []
    for c in cs:
        t = lexeme(c, rng)
        if t is None:
            break
        if own and c == "id" and rng.random() < 0.8:
            t = rng.choice(["n%d", "?n%d", "n-%d", "N_%d"]) % len(out)
        elif own and c == "num":
            t = number(rng)
        out.append(t)
    return out


TOKENS = ["(", ")", "-", "x", "?y", "1", "0.5", ":typing", "define", "domain", ":domain", "problem", ":predicates",
          ":functions", ":task", ":method", ":action", ":requirements", ":types", ":constants", ":objects", ":htn",
          ":goal", ":init", ":parameters", ":precondition", ":effect", ":subtasks", ":ordered-subtasks", ":ordering",
          ":constraints", "and", "or", "oneof", "not", "forall", "exists", "imply", "probabilistic", "=", "<", ">",
          "<=", ">=", ":bogus", "a!b", "?"]


def mutate_tokens(tokens, rng, n=1):
    ts = list(tokens)
    for _ in range(n):
        k = rng.randrange(len(ts)) if ts else 0
        op = rng.random()
        if op < 0.3 and ts:
            del ts[k]
        elif op < 0.6:
            ts.insert(k, rng.choice(TOKENS))
        elif op < 0.85 and ts:
            ts[k] = rng.choice(TOKENS)
        elif len(ts) > 1:
            j = rng.randrange(len(ts))
            ts[k], ts[j] = ts[j], ts[k]
        if rng.random() < 0.05:
            ts = ts[:k]
    return ts


def mutate_bytes(text, rng, n=1):
    s = list(text)
    for _ in range(n):
        k = rng.randrange(len(s) + 1)
        op = rng.random()
        c = chr(rng.choice([rng.randrange(256), rng.randrange(32, 127), ord(rng.choice("()?:;-<>=. \n\t\r.!")), rng.randrange(128, 256), 0]))
        if op < 0.35 and k < len(s):
            del s[k]
        elif op < 0.7:
            s.insert(k, c)
        elif op < 0.95 and k < len(s):
            s[k] = c
        else:
            s = s[:k]
    return "".join(s)


# ---------------------------------------------------------------- names
WORDS = ["x", "X", "xx", "x-1", "x_1", "x1", "y", "a", "A", "b", "at", "AT", "object", "Object", "objects", "types", "type",
         "action", "method", "task", "tasks", "and-then", "not-x", "orx", "predicates", "parameters", "subtasks", "init", "goal",
         "htn", "typing", "p", "P", "v0", "V0", "t0", "c0", "o0", "s0", "problems", "domain-x", "eq", "forall-x", "exists1", "n",
         "null", "true", "none", "a-b", "a_b", "ab", "a-", "a_", "undefined", "Empty", "Total", "m", "d", "prob", "effect"]
NAMED = __import__("re").compile(r"(\??)([tcpTamfvqwso])(\d+)$")


def family(rng):
    """names that share a long beginning, or a long end"""
    stem = ("deliver-package_to-Destination-via-hub-" * 8)[:rng.choice([7, 11, 15, 16, 20, 23, 24, 31, 32, 40, 63, 64, 100, 128, 256])]
    last = [f"{c}{k}" for c in "aAz-_" for k in ("", 0, 1, 10)]
    return [stem + x for x in last] if rng.random() < 0.7 else ["k" + x + stem for x in last]


class Renamer:
    """other names for the names of token lists: different names of one kind stay different, names of different kinds may
    coincide, and the undeclared ones may be called like something else"""

    def __init__(self, rng):
        self.rng = rng
        self.few = family(rng) if rng.random() < 0.2 else rng.sample(WORDS, rng.choice([6, 10, 20, len(WORDS)]))
        self.maps, self.fresh = {}, {}

    def new(self, kind, old):
        m = self.maps.setdefault(kind, {})
        if old not in m:
            left = [w for w in self.few if w not in m.values()] or [w for w in WORDS if w not in m.values()]
            m[old] = self.rng.choice(left) if left else "n-" + old
        return m[old]

    def one(self, t):
        x = NAMED.match(t)
        if x:
            k = x.group(2)
            return x.group(1) + self.new("v" if k in "vqw" else k, x.group(2) + x.group(3))
        q, w = ("?", t[1:]) if t[0] == "?" else ("", t)
        if w in FRESH:
            if w not in self.fresh:
                self.fresh[w] = self.rng.choice(self.few)
            return q + self.fresh[w]
        return t

    def tokens(self, l):
        return None if l is None else [self.one(t) for t in l]


class Same:
    def tokens(self, l):
        return l


def renamed(lists, rng):
    m = Renamer(rng)
    return [m.tokens(l) for l in lists]


def is_name(t):
    w = t[1:] if t[:1] == "?" else t
    return bool(__import__("re").fullmatch(r"[A-Za-z_][\w-]*", w, 256)) and w not in RESERVED


RESERVED = {"define", "domain", "problem", "and", "or", "oneof", "not", "forall", "exists", "imply", "probabilistic", "object"}


def one_to_one(lists, rng):
    """the same tokens with the names replaced one to one (object stays)"""
    old = sorted({t.lstrip("?") for l in lists if l for t in l if is_name(t)})
    k = rng.random()
    if k < 0.35:                 # the names change places
        new = rng.sample(old, len(old))
    elif k < 0.6:
        new = rng.sample(old, len(old))
        for j in rng.sample(range(len(old)), len(old) // 2):
            new[j] = f"{new[j]}-{rng.choice('xyz')}" + str(j)
    else:
        pool = [w for w in (family(rng) if k < 0.75 else WORDS) if w != "object"]
        pool = list(dict.fromkeys(pool)) + [f"n{j}" for j in range(len(old))]
        new = pool[:len(old)] if k < 0.7 else rng.sample(pool, len(old))
        rng.shuffle(new)
    if len(set(new)) < len(new):
        new = [f"{x}_{j}" for j, x in enumerate(new)]
    to = dict(zip(old, new))
    return [l and [("?" if t[0] == "?" else "") + to[t.lstrip("?")] if is_name(t) else t for t in l] for l in lists]


def extension(d, p, rng, seen=None):
    """copies with declarations of more that nothing uses, of names of their own"""
    d, p = copy.deepcopy(d), copy.deepcopy(p)
    stem = rng.choice(["unused", "w", "zz-unused-", "A_", "a-very-long-name-that-nobody-uses-"])
    n = [0]

    def fresh():
        n[0] += 1
        return f"{stem}{n[0]}-u"

    def put(sq, x):
        sq.insert(rng.choice([0, len(sq), rng.randint(0, len(sq))]), x)
    types = sorted({t[0] for t in d.types})
    ty = lambda: rng.choice([None, "object"] + types)
    params = lambda: [[f"v{j}", ty()] for j in range(rng.randrange(3))]
    for _ in range(rng.choice([1, 1, 2, 5, 20])):
        k = rng.choice(["type", "type", "constant", "pred", "task", "taskm", "action", "object"])
        if k == "type":
            x = fresh()
            put(d.types, [x, ty()])
            if rng.random() < 0.3:
                put(d.types, [fresh(), x])
        elif k == "constant":
            put(d.constants, [fresh(), ty()])
        elif k == "pred":
            put(d.preds, [fresh(), params()])
        elif k == "task":
            put(d.tasks, [fresh(), params()])
        elif k == "taskm":
            t = fresh()
            put(d.tasks, [t, []])
            for _ in range(rng.choice([1, 2])):
                subs = [[None, rng.choice([t] + [x for x, a in d.tasks if not a] + [a["n"] for a in d.actions if not a["args"]]), []]
                        for _ in range(rng.randrange(3))]
                put(d.methods, {"n": fresh(), "args": params(), "task": t, "terms": [], "pre": None,
                                "tn": {"kw": ":ordered-subtasks", "subs": subs, "ords": None, "cons": None}})
        elif k == "action":
            put(d.actions, {"n": fresh(), "args": params(), "pre": None, "eff": None})
        elif p is not None:
            put(p.objects, [fresh(), ty()])
    return d, p


def layouts(lists, rng, style=None, rename=0.35):
    """texts of a domain and a problem"""
    if rng.random() < rename:
        lists = renamed(lists, rng)
    return [None if l is None else layout(l, rng, style) for l in lists]
