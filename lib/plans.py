"""What is executed for each property: sources of cases, most of them enumerated by TLC from the specification."""
import glob, json, os, random, re
import gen, harness
from harness import VERIF, REPO, SPEC, BUILD, MachineryError

THOROUGH = 12     # how much more the thorough tier executes


def emitted(module, cfg_text=None, cfg=None, workers=8):
    """runs TLC on a model of the specification and returns (the cases it printed, statistics)"""
    path = cfg and os.path.join(SPEC, cfg)
    if cfg_text is not None:
        path = os.path.join(BUILD, f"{module}.{os.getpid()}.cfg")
        with open(path, "w") as f:
            f.write(cfg_text)
    rc, out = harness.tlc(module, path, env={"EMIT": "1"}, workers=workers)
    if cfg_text is not None:
        os.unlink(path)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise MachineryError(f"TLC on {module}:\n" + re.sub(r'"CASE .*\n', "", out)[-4000:])
    cases = {}
    for m in re.finditer(r'^"CASE (.*)"$', out, re.M):
        text = json.loads('"' + m.group(1) + '"')
        cases[text] = None
    g, d = harness.counts(out)
    return [json.loads(t) for t in sorted(cases)], {"module": cfg or module, "states": d, "transitions": g}


def simulated(module, walks, depth, seed, **consts):
    """runs TLC in simulation mode: random behaviours of a model, one per walk"""
    path = os.path.join(BUILD, f"{module}.{os.getpid()}.cfg")
    with open(path, "w") as f:
        f.write(config(module, **consts))
    rc, out = harness.tlc(module, path, env={"EMIT": "1"}, workers=1,
                          extra=("-simulate", f"num={walks}", "-depth", str(depth), "-seed", str(seed), "-aril", str(seed)))
    os.unlink(path)
    if rc != 0 or re.search(r"^Error", out, re.M):
        raise MachineryError(f"TLC on {module}:\n" + re.sub(r'"CASE .*\n', "", out)[-4000:])
    cases = [json.loads(json.loads('"' + m.group(1) + '"')) for m in re.finditer(r'^"CASE (.*)"$', out, re.M)]
    if not cases:
        raise MachineryError(f"TLC on {module} printed no case:\n" + out[-2000:])
    return cases, {"module": module + " (simulation)", "states": walks * depth, "transitions": walks * depth}


def config(module, **consts):
    """the module's configuration with other constants"""
    text = open(os.path.join(SPEC, module + ".cfg")).read()
    for k, v in consts.items():
        text, n = re.subn(rf"\b{k} = (\{{[^}}]*\}}|'\w*'|\d+)".replace("'", '"'), f"{k} = {v}", text)
        assert n == 1, k
    return text


IN_DOMAIN = ["arg a", "arg m", "sym predicate", "sym task", "sym action", "sym method", "sym constants", "preds", "tasks", "actions", "methods", "and a", "or a", "oneof", "prob", "and m", "or m", "subs"]
IN_PROBLEM = ["arg goal", "arg init", "arg htn", "sym objects", "sym htn", "and goal", "or goal", "facts", "htn", "ord htn"]


class Plan:
    """cases of one run, with their provenance"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.scale = THOROUGH if tier == "thorough" else 1
        self.rng = random.Random(f"{prop}:{seed}")
        self.models = []          # statistics of the models of the specification
        self.cases = []           # (domain, problem or None, source)
        self.groups = []          # lists of case indices: first the base, then its variants

    def add(self, source, d, p=None):
        self.cases.append((d, p, source))
        return len(self.cases) - 1

    def n(self, k):
        return k * self.scale

    # ------------------------------------------------ sources
    def corpus(self, problems=40, limit=9000):
        doms = sorted(glob.glob(f"{REPO}/tests/ipc/*/domain.hddl")) + sorted(glob.glob(f"{REPO}/tests/flawed_domains/*"))
        for f in doms:
            if os.path.isfile(f) and "Freecell-Learned" not in f:
                self.add("corpus", read(f))
        probs = [f for f in sorted(glob.glob(f"{REPO}/tests/ipc/*/*.hddl")) if not f.endswith("domain.hddl")
                 and os.path.getsize(f) < limit and "Freecell-Learned" not in f]
        for f in self.rng.sample(probs, min(len(probs), problems * self.scale)):
            d = os.path.join(os.path.dirname(f), "domain.hddl")
            if os.path.exists(d):
                self.add("corpus", read(d), read(f))

    def valid(self, count, style=None, problem=0.5, **kw):
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r, **kw)
            p = gen.t_problem(g.problem(), d.name, r.shuffle) if r.random() < problem else None
            self.add("valid", *gen.layouts([gen.t_domain(d, r.shuffle if r.random() < 0.5 else None), p], r, style))

    def faulty(self, count, kinds=None, n=(1, 1, 1, 2, 3), style=None, problem=0.15):
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            p = g.problem() if r.random() < problem else None
            d2 = gen.mutate(d, r, r.choice(n), kinds)
            self.add("faulty", *gen.layouts([gen.t_domain(d2, r.shuffle if r.random() < 0.3 else None),
                                             p and gen.t_problem(p, d.name)], r, style))

    def faulty_problems(self, count, both=0.1, n=(1, 1, 1, 2)):
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            p = g.problem()
            p2 = gen.mutate(p, r, r.choice(n), None, gen.problem_faults, d)
            if r.random() < both:
                d = gen.mutate(d, r, 1)
            self.add("faulty problem", *gen.layouts([gen.t_domain(d), gen.t_problem(p2, d.name, r.shuffle)], r))

    def tokens(self, count, n=(1, 1, 2, 3), problem=0.4):
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            td = gen.t_domain(d)
            if r.random() < problem:
                tp = gen.mutate_tokens(gen.t_problem(g.problem(), d.name), r, r.choice(n))
                if r.random() < 0.1:
                    td = gen.mutate_tokens(td, r, 1)
                self.add("token mutation", *gen.layouts([td, tp], r))
            else:
                self.add("token mutation", *gen.layouts([gen.mutate_tokens(td, r, r.choice(n)), None], r))

    def truncated(self, count):
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r, size=1)
            s = gen.layout(gen.t_domain(d), r)
            if r.random() < 0.4:
                p = gen.layout(gen.t_problem(g.problem(), d.name), r)
                self.add("truncated", s, p[:r.randrange(len(p) + 1)])
            else:
                self.add("truncated", s[:r.randrange(len(s) + 1)])

    def bytes(self, count, n=(1, 1, 2, 4, 8)):
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r, size=1)
            s = gen.layout(gen.t_domain(d), r)
            if r.random() < 0.4:
                self.add("byte mutation", s, gen.mutate_bytes(gen.layout(gen.t_problem(g.problem(), d.name), r), r, r.choice(n)))
            else:
                self.add("byte mutation", gen.mutate_bytes(s, r, r.choice(n)))

    def noise(self, count):
        r = self.rng
        for _ in range(count):
            k = r.random()
            if k < 0.4:
                s = "".join(chr(r.randrange(256)) for _ in range(r.randrange(40)))
            elif k < 0.7:
                s = " ".join(r.choice(gen.TOKENS) for _ in range(r.randrange(30)))
            else:
                s = "".join(r.choice("()?:;-<>=. \n\tab1") for _ in range(r.randrange(60)))
            if r.random() < 0.5:
                s = "(define (" + r.choice(["domain d)", "problem p) (:domain d)"]) + s
            if r.random() < 0.3:
                self.add("noise", "(define (domain d))", s)
            else:
                self.add("noise", s)

    def grammar(self, depth, share=1.0):
        """every configuration of the grammar automaton up to a nesting depth, followed by every token"""
        r = self.rng
        cases, stats = emitted("MCParser", config("MCParser", MaxDepth=depth))
        self.models.append(stats)
        dom = "(define (domain d))"
        for c in cases:
            ok = {x["c"]: x["done"] for x in c["next"]}
            problem = "kw:problem" in c["path"][:4]
            for t in gen.CLASSES:
                if share < 1.0 and r.random() > share:
                    continue
                cs = c["path"] + [t]
                cs += ok[t] if t in ok else r.choice([[], c["done"], [r.choice(gen.CLASSES)]])
                if t == "EOF":
                    cs = cs[:cs.index("EOF", len(c["path"])) + 1]
                s = gen.layout(gen.lexemes(cs, r), r, r.choice(["plain", "tight", "wild", "lines"]))
                if problem:
                    self.add("grammar", dom, s)
                else:
                    self.add("grammar", s)

    def sentences(self, walks, tokens=60, wrong=0.3):
        """random walks of the grammar automaton, with names of their own"""
        r = self.rng
        cases, stats = simulated("MCSentences", walks, tokens + 2, self.seed * 1000 + tokens, MaxTokens=tokens)
        self.models.append(stats)
        for c in cases:
            cs = c["tokens"]
            if r.random() < wrong:
                k = c["cut"] - 1
                op = r.random()
                cs = cs[:k] + ([r.choice(gen.CLASSES)] + cs[k:] if op < 0.4 else cs[k + 1:] if op < 0.8 else [r.choice(gen.CLASSES)] + cs[k + 1:])
            s = gen.layout(gen.lexemes(cs, r, True), r)
            if "kw:problem" in cs[:4]:
                self.add("sentence", "(define (domain d))", s)
            else:
                self.add("sentence", s)

    def uses(self, depth=2, shares=(1.0, 1.0, 0.1), sites=None):
        """every way to use a predicate, task or action, right or wrong"""
        r = self.rng
        cases, stats = emitted("MCUses", config("MCUses", MaxCtx=depth))
        self.models.append(stats)
        for c in cases:
            if (sites is None or any(c["site"].startswith(s) for s in sites)) and r.random() < shares[c["n"]]:
                self.add("use", c["d"], c["p"] or None)

    def duplicates(self, kinds=None, **consts):
        """every short list of declarations"""
        cases, stats = emitted("MCDuplicates", config("MCDuplicates", **consts) if consts else None, None if consts else "MCDuplicates.cfg")
        self.models.append(stats)
        for c in cases:
            if kinds is None or c["kind"] in kinds:
                self.add("duplicates", c["d"], c["p"] or None)

    def strings(self, cfg, share=1.0, **consts):
        """every text of the character machine's model, at several places of a file"""
        r = self.rng
        if consts:
            cases, stats = emitted("MCLexer", config("MCLexer", **consts))
        else:
            cases, stats = emitted("MCLexer", cfg=cfg)
        self.models.append(stats)
        for c in cases:
            if share < 1.0 and r.random() > share:
                continue
            s = c["s"]
            for place in range(4):
                if share == 1.0 or place == r.randrange(4):
                    if place == 0:
                        self.add("string", f"(define (domain d) (:types {s}\n))")
                    elif place == 1:
                        self.add("string", f"(define (domain d) (:types x){s}")       # at the end of the file
                    elif place == 2:
                        self.add("string", f"(define (domain d) (:predicates (p ?x))\n(:action a :parameters (?x) :precondition (p ?x){s}\n:effect ()))")
                    else:
                        self.add("string", f"(define (domain d{s}) (:types x))")

    def graphs(self, names, edges, share=1.0, as_types=True, as_order=True, cyclic=1.0):
        r = self.rng
        consts = dict(Names="{" + ", ".join(f'"{x}"' for x in names) + "}", MaxEdges=edges)
        cases, stats = emitted("MCGraphs", config("MCGraphs", **consts))
        self.models.append(stats)
        for c in cases:
            if share < 1.0 and r.random() > share:
                continue
            E = [tuple(e) for e in c["E"]]
            if c["cyc"] and r.random() > cyclic:
                continue
            r.shuffle(E)
            known, names = names, list(names)
            if r.random() < 0.25:
                names = r.sample(gen.family(r) if r.random() < 0.4 else gen.WORDS, len(known))
                E = [(names[known.index(a)], names[known.index(b)]) for a, b in E]
            if as_types:
                ty = [[a, b] for a, b in E] + [[n, None] for n in names if n not in {x for e in E for x in e}]
                tt = ["(", ":types"] + gen.t_typed(gen.normal(ty)) + [")"]
                pairs = [(f, e) for f in names + [None] for e in names + [None]]
                for f, e in (pairs if share == 1.0 else r.sample(pairs, 4)):
                    self.types_case(tt, f, e)
            if as_order and E:
                ids = [n for n in names]
                subs = [[i, "T", []] for i in ids]
                tn = {"kw": ":subtasks", "subs": subs, "ords": E, "cons": None}
                if r.random() < 0.3:
                    tn["single"] = True
                m = ["(", ":method", "m", ":parameters", "(", ")", ":task", "(", "T", ")"] + gen.t_network(tn) + [")"]
                t = ["(", ":task", "T", ":parameters", "(", ")", ")"]
                dom = ["(", "define", "(", "domain", "d", ")"]
                self.add("ordering", gen.layout(dom + t + m + [")"], r))
                if r.random() < 0.5:
                    h = ["(", ":htn"] + gen.t_network(tn) + [")"]
                    self.add("ordering", gen.layout(dom + t + [")"], r),
                             gen.layout(["(", "define", "(", "problem", "p", ")", "(", ":domain", "d", ")"] + h + [")"], r))
            names = known

    def types_case(self, tt, f, e):
        """an object of type f used where type e is expected, at one of the places where that may happen"""
        r = self.rng
        P = lambda n, t: [n] + (["-", t] if t else [])
        dom = ["(", "define", "(", "domain", "d", ")"] + tt
        pred = ["(", ":predicates", "(", "p"] + P("?x", e) + [")", ")"]
        task = ["(", ":task", "T", ":parameters", "("] + P("?x", e) + [")", ")"]
        act = ["(", ":action", "A", ":parameters", "("] + P("?x", e) + [")", ")"]
        atom = r.choice([["(", "p", "?y", ")"], ["(", "not", "(", "p", "?y", ")", ")"], ["(", "and", "(", "p", "?y", ")", ")"],
                         ["(", "or", "(", "p", "?y", ")", ")"]])
        const = r.random() < 0.3
        decl = ["(", ":constants"] + P("y", f) + [")"] if const else []
        par = ["(", ")"] if const else ["("] + P("?y", f) + [")"]
        place = r.randrange(7)
        if place == 0:
            b = pred + ["(", ":action", "B", ":parameters"] + par + [":precondition"] + atom + [")"]
        elif place == 1:
            b = pred + ["(", ":action", "B", ":parameters"] + par + [":effect"] + atom + [")"]
        elif place == 2:
            b = pred + ["(", ":task", "S", ":parameters", "(", ")", ")"] \
                + ["(", ":method", "m", ":parameters"] + par + [":task", "(", "S", ")", ":precondition"] + atom + [":subtasks", "(", ")", ")"]
        elif place == 3:
            b = task + ["(", ":method", "m", ":parameters"] + par + [":task", "(", "T", "?y", ")", ":subtasks", "(", ")", ")"]
        elif place == 4:
            b = r.choice([task, act])
            b = b + ["(", ":task", "S", ":parameters", "(", ")", ")"] \
                + ["(", ":method", "m", ":parameters"] + par + [":task", "(", "S", ")", r.choice([":subtasks", ":ordered-subtasks"]), "(", "and",
                   "(", b[2], "?y", ")", ")", ")"]
        else:
            b = None
        if b is not None:
            self.add("types", gen.layout(dom + decl + b + [")"], r))
            return
        head = ["(", "define", "(", "problem", "q", ")", "(", ":domain", "d", ")"]
        obj = [] if const else ["(", ":objects"] + P("y", f) + [")"]
        if place == 5:
            use = r.choice([["(", ":init", "(", "p", "y", ")", ")"], ["(", ":init", ")", "(", ":goal"] + [x.replace("?", "") for x in atom] + [")"]])
            self.add("types", gen.layout(dom + decl + pred + [")"], r), gen.layout(head + obj + use + [")"], r))
        else:
            ta = r.choice([task, act])
            if not const and r.random() < 0.4:
                use = ["(", ":htn", ":parameters", "("] + P("?y", f) + [")", ":subtasks", "(", "and", "(", ta[2], "?y", ")", ")", ")"]
                obj = []
            else:
                use = ["(", ":htn", r.choice([":subtasks", ":ordered-subtasks"]), "(", "and", "(", ta[2], "y", ")", ")", ")"]
            self.add("types", gen.layout(dom + decl + ta + [")"], r), gen.layout(head + obj + use + [")"], r))

    def hierarchies(self, share=1.0, **consts):
        r = self.rng
        cases, stats = emitted("MCHierarchy", config("MCHierarchy", **consts) if consts else None,
                               None if consts else "MCHierarchy.cfg")
        self.models.append(stats)
        tasks = sorted(set(re.findall(r'"(\w+)"', consts.get("Tasks", '"A" "B"'))))
        for c in cases:
            if share < 1.0 and r.random() > share:
                continue
            ms = [(m["t"], m["b"]) for m in c["ms"]]
            self.hierarchy_case(tasks, ["x"], ms, r.choice(["total", "total", "chain", "mixed"]))

    def bodies(self, length, share):
        """long methods of one task"""
        r = self.rng
        cases, stats = emitted("MCBodies", config("MCBodies", MaxLen=length))
        self.models.append(stats)
        for c in cases:
            if (c["b"] or c["back"] == ["A"]) and r.random() < share:
                ms = [("A", c["body"]), ("E", []), ("E", ["x"]), ("P", ["x"]), ("B", c["back"])]
                if c["base"] != "none":
                    ms.append(("A", [] if c["base"] == "empty" else ["x"]))
                used, todo = {"A"}, ["A"]
                while todo:                            # the others only make it longer
                    t = todo.pop()
                    for x in [x for u, b in ms if u == t for x in b if x not in used]:
                        used.add(x)
                        todo.append(x)
                ms = [(t, b) for t, b in ms if t in used]
                self.hierarchy_case([t for t in "ABEPU" if t in used], [a for a in "x" if a in used] or ["x"], ms, r.choice(["total", "total", "total", "chain"]))

    def positions(self, share=1.0, kinds=None, length=5):
        """long lists with one odd entry"""
        r = self.rng
        cases, stats = emitted("MCPositions", config("MCPositions", MaxLen=length))
        self.models.append(stats)
        for c in cases:
            if (kinds is None or any(c["kind"].startswith(k) for k in kinds)) and r.random() < share:
                self.add("position", c["d"], c["p"] or None)

    def hierarchy_case(self, tasks, prims, ms, how="mixed"):
        r = self.rng
        ms = list(ms)
        r.shuffle(ms)
        if r.random() < 0.25:
            few = gen.family(r) if r.random() < 0.4 else gen.WORDS
            other = dict(zip(tasks + prims, r.sample(few, len(tasks) + len(prims))))
            tasks, prims = [other[t] for t in tasks], [other[a] for a in prims]
            ms = [(other[t], [other[x] for x in b]) for t, b in ms]
        blocks = [["(", ":task", t, ":parameters", "(", ")", ")"] for t in tasks] \
            + [["(", ":action", a, ":parameters", "(", ")", ")"] for a in prims]
        for k, (t, b) in enumerate(ms):
            total = how == "total" or (how == "mixed" and r.random() < 0.5)
            subs = [[f"s{j}" if not total or r.random() < 0.2 else None, n, []] for j, n in enumerate(b)]
            tn = {"kw": ":ordered-subtasks" if total else ":subtasks", "subs": subs, "ords": None, "cons": None}
            if not total:
                if how == "chain" or r.random() < 0.5:
                    tn["ords"] = [(f"s{j}", f"s{j + 1}") for j in range(len(b) - 1)]
                    r.shuffle(tn["subs"])
                    r.shuffle(tn["ords"])
                else:
                    tn["ords"] = [(f"s{i}", f"s{j}") for i in range(len(b)) for j in range(i + 1, len(b)) if r.random() < 0.5]
                    if r.random() < 0.3:
                        for s in tn["subs"]:
                            s[0] = None
                        tn["ords"] = None
                if tn["ords"] == [] and r.random() < 0.5:
                    tn["ords"] = None
            if r.random() < 0.5:
                tn["single"] = True
            blocks.append(["(", ":method", f"m{k}", ":parameters", "(", ")", ":task", "(", t, ")"] + gen.t_network(tn) + [")"])
        r.shuffle(blocks)
        return self.add("hierarchy", gen.layout(["(", "define", "(", "domain", "d", ")"] + [x for b in blocks for x in b] + [")"], r,
                                                r.choice(["plain", "tight"])))

    def random_hierarchies(self, count, most=6):
        r = self.rng
        for _ in range(count):
            tasks = [f"T{k}" for k in range(r.randint(1, most))]
            prims = [f"a{k}" for k in range(r.randint(0, 2))]
            ms = []
            style = r.random()
            for t in tasks:
                for _ in range(r.choice([0, 1, 1, 2, 2, 3])):
                    pool = tasks + prims if style < 0.6 else tasks[tasks.index(t):] + prims * 2
                    ms.append((t, [r.choice(pool) for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]))
            self.hierarchy_case(tasks, prims, ms)

    def permuted(self, count, faulty=0.4, variants=2):
        """domains and the same declarations in other orders"""
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            if r.random() < faulty:
                d = gen.mutate(d, r, 1)
            m = gen.Renamer(r) if r.random() < 0.35 else gen.Same()
            base = self.add("permutation", gen.layout(m.tokens(gen.t_domain(d)), r, "plain"))
            group = [base]
            for _ in range(variants):
                for sq in (d.types, d.constants, d.preds, d.tasks, d.actions, d.methods, d.reqs):
                    r.shuffle(sq)
                group.append(self.add("permutation", gen.layout(m.tokens(gen.t_domain(d, r.shuffle)), r, "plain")))
            self.groups.append(group)

    def permuted_hierarchies(self, count):
        r = self.rng
        for _ in range(count):
            tasks = [f"T{k}" for k in range(r.randint(2, 5))]
            dense = r.random() < 0.4
            ms = [(r.choice(tasks), [r.choice(tasks + ["x"] * (4 if dense else 1)) for _ in range(r.choice([1, 1, 2, 2, 3] if dense else [0, 1, 2, 2, 3]))])
                  for _ in range(r.randint(4, 12) if dense else r.randint(1, 7))]
            blocks = [["(", ":task", t, ":parameters", "(", ")", ")"] for t in tasks] + [["(", ":action", "x", ":parameters", "(", ")", ")"]]
            for k, (t, b) in enumerate(ms):
                tn = {"kw": ":ordered-subtasks", "subs": [[None, n, []] for n in b], "ords": None, "cons": None}
                blocks.append(["(", ":method", f"m{k}", ":parameters", "(", ")", ":task", "(", t, ")"] + gen.t_network(tn) + [")"])
            group = []
            for _ in range(3):
                group.append(self.add("permutation", gen.layout(["(", "define", "(", "domain", "d", ")"] + [x for b in blocks for x in b] + [")"], r, "plain")))
                r.shuffle(blocks)
            self.groups.append(group)

    def permuted_problems(self, count, variants=2):
        """problems and the same declarations in other orders"""
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            p = g.problem()
            if r.random() < 0.5:
                p = gen.mutate(p, r, r.choice([1, 1, 2]), None, gen.problem_faults, d)
            m = gen.Renamer(r) if r.random() < 0.35 else gen.Same()
            td = gen.layout(m.tokens(gen.t_domain(d)), r, "plain")
            group = [self.add("problem order", td, gen.layout(m.tokens(gen.t_problem(p, d.name)), r, "plain"))]
            for _ in range(variants):
                for sq in (p.objects, p.init, p.reqs):
                    r.shuffle(sq)
                group.append(self.add("problem order", td, gen.layout(m.tokens(gen.t_problem(p, d.name, r.shuffle)), r, "plain")))
            self.groups.append(group)

    def extended(self, count, variants=2):
        """domains and problems, and the same with further declarations that nothing uses"""
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            p = g.problem() if r.random() < 0.6 else None
            if r.random() < 0.3:
                d = gen.mutate(d, r, 1)
            elif p and r.random() < 0.4:
                p = gen.mutate(p, r, 1, None, gen.problem_faults, d)
            m = gen.Renamer(r) if r.random() < 0.35 else gen.Same()
            both = lambda d, p: (gen.layout(m.tokens(gen.t_domain(d)), r, "plain"), p and gen.layout(m.tokens(gen.t_problem(p, d.name)), r, "plain"))
            group = [self.add("extension", *both(d, p))]
            for _ in range(variants):
                group.append(self.add("extension", *both(*gen.extension(d, p, r, group))))
            self.groups.append(group)

    def renamings(self, count, variants=2):
        """domains and problems, and the same with other names"""
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            p = g.problem() if r.random() < 0.5 else None
            if r.random() < 0.35:
                d = gen.mutate(d, r, r.choice([1, 1, 2]))
            elif p and r.random() < 0.4:
                p = gen.mutate(p, r, 1, None, gen.problem_faults, d)
            lists = [gen.t_domain(d), p and gen.t_problem(p, d.name)]
            if r.random() < 0.35:
                lists = gen.renamed(lists, r)
            if r.random() < 0.05:
                lists[0] = gen.mutate_tokens(lists[0], r, 1)
            group = []
            for k in range(variants + 1):
                a, b = lists if k == 0 else gen.one_to_one(lists, r)
                group.append(self.add("renaming", " ".join(a), b and " ".join(b)))
            self.groups.append(group)

    def relations(self, rel, share=1.0, **consts):
        """pairs of small inputs that are related, as enumerated by the model"""
        r = self.rng
        cases, stats = emitted("MCRelations", config("MCRelations", Rel='"%s"' % rel, **consts))
        self.models.append(stats)
        for c in cases:
            if r.random() < share:
                self.groups.append([self.add("relation", c["d"], c["p"] or None), self.add("relation", c["e"], c["q"] or None)])

    def wide(self, count, sizes=(257, 300, 520), problem=0.0):
        """many declarations of each sort"""
        r = self.rng
        for _ in range(count):
            n = r.choice(sizes)
            k = r.choice(["methods", "methods", "tasks", "actions", "subtasks", "types", "predicates", "args", "ands", "objects", "constants", "lines", "init", "typed", "typed",
                          "params", "requirements"])
            prob = None
            e = r.randrange(n)                         # the odd one out
            nl = r.choice(["", "\n"])
            many = lambda f, m=n: nl.join(f(j) for j in range(m))
            if k == "methods":
                s = "(:task T :parameters ()) (:task U :parameters ()) (:action a :parameters ())" + many(
                    lambda j: f"(:method m{j} :parameters () :task ({'U' if j % 3 else 'T'}) :subtasks ({'' if j == e else 'T' if j % 2 else 'a'}))")
            elif k == "tasks":
                s = many(lambda j: f"(:task T{j} :parameters ())") + many(
                    lambda j: f"(:method m{j} :parameters () :task (T{j}) :ordered-subtasks ({f'T{j + 1}' if j % 40 and j != e else ''}))", r.choice([n, 8, 80]))
            elif k == "actions":
                s = "(:predicates (p))" + many(lambda j: f"(:action a{j} :parameters () :precondition ({'p' if j != e or r.random() < 0.5 else 'q'}))")
            elif k == "subtasks":
                s = "(:task T :parameters ()) (:action a :parameters ()) (:method m :parameters () :task (T) :subtasks (and " + many(
                    lambda j: f"(s{j} ({'a' if j != e or r.random() < 0.5 else 'T'}))") + ") :ordering (and " + many(
                    lambda j: f"(< s{j} s{j + 1})", n - 1) + (f"(< s{n - 1} s{e})" if r.random() < 0.5 else "") + "))"
            elif k == "types":
                s = "(:types " + many(lambda j: f" t{j} - t{j + 1}") + (f" t{n} - t{e}" if r.random() < 0.3 else "") + ")" \
                    + f"(:predicates (p ?x - t{e}))(:action a :parameters (?y - t{r.randrange(n)}) :precondition (p ?y))"
            elif k == "predicates":
                s = "(:predicates " + many(lambda j: f"(p{j if j != e or r.random() < 0.5 else 0})") + f")(:action a :parameters () :effect (p{r.randrange(n)}))"
            elif k == "args":
                m = n if r.random() < 0.5 else n + r.choice([1, -1, 256])
                s = "(:predicates (p " + many(lambda j: f" ?x{j}") + "))(:action a :parameters (?y) :precondition (p " + many(lambda j: " ?y", m) + "))"
            elif k == "ands":
                s = "(:predicates (p))(:action a :parameters () :precondition (and " + many(lambda j: "(p)" if j != e or r.random() < 0.5 else "(q)") + "))"
            elif k == "constants":
                s = "(:constants " + many(lambda j: f" c{j if j != e or r.random() < 0.5 else 1}") + ")"
            elif k == "typed":
                # one argument of many is of a wrong type, of a superior or of an inferior one
                odd = r.choice(["t", "u", "s", "object", "", "q"])
                want = many(lambda j: f" ?x{j} - t")
                got = many(lambda j: f" ?y{'o' if j == e else ''}")
                par = f"(?y - t ?yo{' - ' + odd if odd else ''})"
                site = r.choice(["precondition", "effect", "subtask", "own", "init", "goal"])
                s = f"(:types t - object u - object s - t)(:predicates (p {want}))(:task T :parameters ({want}))"
                if site in ("precondition", "effect"):
                    s += f"(:action a :parameters {par} :{site} (p {got}))"
                elif site == "subtask":
                    s += f"(:task U :parameters ())(:method m :parameters {par} :task (U) :subtasks (and (T {got}) (U)))"
                elif site == "own":
                    s += f"(:method m :parameters {par} :task (T {got}) :subtasks ())"
                else:
                    got = got.replace("?", "")
                    prob = f"(define (problem q)(:domain d)(:objects {par[1:-1].replace('?', '')})" + (
                        f"(:init (p {got})))" if site == "init" else f"(:goal (and (p {got}))))")
            elif k == "params":
                x = lambda j: f" ?v{j if j != e or r.random() < 0.5 else 0}" + (f" - {r.choice(['t', 'u'])}" if j in (3, e) else "")
                s = "(:types t)(:predicates (p ?x - t))" + r.choice([
                    lambda: f"(:action a :parameters ({many(x)}) :precondition (p ?v{r.randrange(n)}))",
                    lambda: f"(:task T :parameters ())(:method m :parameters ({many(x)}) :task (T) :precondition (p ?v{r.randrange(n)}) :subtasks ())"])()
            elif k == "requirements":
                s = "(:requirements " + many(lambda j: " " + r.choice([":strips", ":typing"] if j != e or r.random() < 0.5 else [":strip", "hierarchy"])) + ")"
            elif k == "lines":
                s = "\n" * r.choice([250, 255, 256, 257, 1000]) + "(:predicates (p))\n(:action a :parameters ()\n:precondition\n(" + r.choice(["p", "q", "p ?z", "!"]) + "))"
            else:
                s = "(:predicates (p ?x))(:constants c)"
                many = lambda f, m=n: nl.join(f(j) for j in range(m))
                prob = "(define (problem q)(:domain d)(:objects " + many(lambda j: f" o{j if j != e or r.random() < 0.5 else 1}") + ")(:init " \
                    + many(lambda j: f"(p o{j if j != e or r.random() < 0.5 else n})", n if k == "init" else 3) + "))"
            s = f"(define (domain d){nl}{s})"
            if prob is None and r.random() < problem:
                prob = "(define (problem q)(:domain d))"
            self.add("wide", s, prob)

    def deep(self, count, depths=(40, 70, 130, 260)):
        """formulas nested deeply, right or at fault at the bottom or beside the nest at any depth"""
        r = self.rng
        for _ in range(count):
            n = r.choice(depths)
            where = r.choice(["precondition", "precondition", "effect", "mpre", "goal"])
            ops = ["and", "not"] if where == "effect" else ["and", "or", "not"]
            if r.random() < 0.4:
                ops.append("forall" if where == "effect" else r.choice(["forall", "exists"]))
            if r.random() < 0.3:
                ops = [r.choice(ops)]
            nl = r.choice(["", "\n", " "])
            e = r.choice([-1, n // 2, r.randrange(n)])               # depth of a further conjunct
            good, odd = r.choice(["(p)", "(u ?a)" if where != "goal" else "(u o)"]), r.choice(["(p)", "(q)", "(p ?a)", "(u)", "(u ?z)", "(P)", "(u ?a ?a)"])
            if r.random() < 0.5:
                good, odd = odd, good
            f = good
            for j in range(n):
                o = r.choice(ops)
                if o in ("forall", "exists"):
                    f = f"({o} (?x{j}){nl} {f})"
                elif o != "not" and j == e:
                    f = f"({o} {odd}{nl}{f})" if r.random() < 0.5 else f"({o} {f}{nl}{odd})"
                elif o != "not" and r.random() < 0.1:
                    f = f"({o} (p) {f}{nl}(p))"
                else:
                    f = f"({o} {nl}{f})"
            if r.random() < 0.05:
                f = f[:-1] if r.random() < 0.5 else f + ")"
            s = "(:predicates (p) (u ?x))(:action a :parameters (?a) "
            prob = None
            if where == "goal":
                prob = f"(define (problem q)(:domain d)(:objects o)(:goal {f}))"
                s += ")"
            elif where == "mpre":
                s += f")(:task t :parameters (?x))(:method m :parameters (?a) :task (t ?a) :precondition {f} :subtasks ())"
            else:
                s += f":{where} {f})"
            self.add("deep", f"(define (domain d){s})", prob)

    def huge(self, count):
        """numbers that do not fit into 8 or 16 bits"""
        r = self.rng
        fault = lambda: r.choice(["(p)", "(q)", "(p ?z)", "!", "(p", ")"])
        for _ in range(count):
            k = r.choice(["lines", "comments", "name", "number", "problem lines"])
            n = r.choice([65530, 65536, 70000])
            prob = None
            body = lambda x: f"(:predicates (p))\n(:action a :parameters ()\n:precondition\n{x})"
            if k == "lines":
                s = "(define (domain d)" + "\n" * n + body(fault()) + ")"
            elif k == "comments":
                s = "(define (domain d);" + "c" * n + "\n" + body(fault()) + ")"
            elif k == "name":
                m = r.choice([1000, 5000, 20000])
                a, b = "p" * m, "p" * (m - 1) + r.choice("pq")
                s = f"(define (domain d)(:predicates ({a}))\n(:action a :parameters () :precondition ({b})))"
            elif k == "number":
                s = f"(define (domain d) {body('(p)')} (:action b :parameters () :effect (probabilistic {r.choice(['0', '1', '9'])}.{r.choice('059') * 3000} (p))))"
            else:
                s = "(define (domain d)(:predicates (p)))"
                prob = "(define (problem q)(:domain d)" + "\n" * n + f"(:init {fault()}))"
            self.add("huge", s, prob)

    def relaid(self, count, variants=3):
        """the same tokens in different layouts"""
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            if r.random() < 0.4:
                d = gen.mutate(d, r, 1)
            td = gen.t_domain(d)
            if r.random() < 0.3:
                td = gen.mutate_tokens(td, r, 1)
            tp = gen.t_problem(g.problem(), d.name) if r.random() < 0.3 else None
            if tp and r.random() < 0.3:
                tp = gen.mutate_tokens(tp, r, 1)
            group = [self.add("layout", gen.layout(td, r, s), tp and gen.layout(tp, r, s))
                     for s in ["plain"] + r.choices(["wild", "tight", "lines", "wild"], k=variants)]
            self.groups.append(group)

    def staged(self, count):
        """all combinations of faults in the two files"""
        r = self.rng
        for _ in range(count):
            g, d = gen.random_domain(r)
            p = g.problem()
            td = gen.t_domain(gen.mutate(d, r, 1) if r.random() < 0.3 else d)
            tp = gen.t_problem(gen.mutate(p, r, 1, None, gen.problem_faults, d) if r.random() < 0.4 else p, d.name)
            if r.random() < 0.15:
                td = gen.mutate_tokens(td, r, 1)
            if r.random() < 0.3:
                tp = gen.mutate_tokens(tp, r, 1)
            a, b = gen.layouts([td, tp], r)
            k = r.random()
            if k < 0.04:
                a = b
            elif k < 0.08:
                b = a
            elif k < 0.1:
                a, b = b, a
            self.add("staged", a, b)

    def stages(self, share, **consts):
        """pairs of files with at most one fault of each sort, in every combination"""
        r = self.rng
        cases, stats = emitted("MCStages", config("MCStages", **consts) if consts else None, None if consts else "MCStages.cfg")
        self.models.append(stats)
        for c in cases:
            if c["out"] != "domain syntax" or r.random() < share:
                self.add("stages: " + c["out"], c["d"], c["p"])

    def big(self, count):
        """long and wide inputs"""
        r = self.rng
        for _ in range(count):
            k = r.randrange(8)
            n = r.choice([200, 1000, 3000])
            if k == 0:
                s = "(define (domain d) (:types " + " ".join(f"t{j} - t{j + 1}" for j in range(n)) + "))"
            elif k == 1:
                s = "\n" * n + "; c\n" * n + "(define (domain d)" + " " * n + ")" + ";" * n
            elif k == 2:
                s = "(define (domain " + "x" * (n * 5) + ") (:requirements " + ":strips " * n + "))"
            elif k == 3:
                s = "(define (domain d) (:predicates (p))\n(:action a :parameters () :precondition (and " + "(p)\n" * n + ")))"
            elif k == 4:
                m = n // 20
                s = "(define (domain d) (:predicates (p)) (:action a :parameters () :effect " + "(not " * m + "(p)" + ")" * m + "))"
            elif k == 5:
                s = "(define (domain d) (:task t :parameters ()) (:action a :parameters ())\n" + "".join(
                    f"(:method m{j} :parameters () :task (t) :ordered-subtasks (and (a) (a)))\n" for j in range(n // 4)) + ")"
            elif k == 6:
                m = n // 10
                s = "(define (domain d) (:task t :parameters ()) (:method m :parameters () :task (t) :subtasks (and " + " ".join(
                    f"(s{j} (t))" for j in range(m)) + ") :ordering (and " + " ".join(f"(< s{j} s{j + 1})" for j in range(m - 1)) + ")))"
            else:
                s = "(define (domain d) (:predicates (p ?x)) (:constants " + " ".join(f"c{j}" for j in range(n)) + "))"
            self.add("big", s)


def read(f):
    with open(f, "rb") as h:
        return h.read().decode("latin1")


def dup_heavy(plan, count):
    """domains with many faults at once (non-determinism shows if there are several candidates)"""
    plan.faulty(count, n=(2, 3, 4, 6, 8), problem=0.3)


def build_plan(prop, tier, seed):
    p = Plan(prop, tier, seed)
    n = p.n
    thorough = tier == "thorough"
    if prop == "C01":
        p.deep(n(40))
        p.huge(n(8))
        p.wide(n(30), problem=0.0)
        p.corpus()
        p.grammar(3, 1.0 if thorough else 0.15)
        p.strings("MCLexer.cfg", 1.0 if thorough else 0.3)
        p.bytes(n(2500))
        p.noise(n(2000))
        p.sentences(n(1000), 80, 0.6)
        p.tokens(n(1500))
        p.truncated(n(1500))
        p.faulty(n(1200))
        p.faulty_problems(n(800))
        p.random_hierarchies(n(1200))
        p.staged(n(500))
        p.big(n(10))
    elif prop == "C02":
        p.huge(n(10))
        p.strings("MCLexer.cfg", 1.0)
        p.strings("MCLexerWords.cfg", 1.0)
        if thorough:
            p.strings(None, 0.5, Pieces='{"a", "1", "-", "(", ")", "?", ":", ";", " ", "\\n", "<", ".", "!"}', MaxPieces=4)
        p.relaid(n(1000))
        p.bytes(n(1000))
    elif prop == "C03":
        p.deep(n(60))
        p.huge(n(12))
        p.positions(1.0 if thorough else 0.25, length=8 if thorough else 5)
        p.wide(n(40), problem=0.0)
        p.corpus(20)
        p.valid(n(1200), "wild")
        p.faulty(n(3500), style="wild")
        p.faulty_problems(n(1500))
        p.sentences(n(1000), 60, 0.4)
        p.tokens(n(2500))
        p.truncated(n(700))
        p.bytes(n(800))
        p.strings("MCLexer.cfg", 1.0 if thorough else 0.2)
        p.grammar(3, 1.0 if thorough else 0.1)
    elif prop == "C04":
        p.deep(n(40))
        p.wide(n(30))
        p.corpus(20)
        p.grammar(4 if thorough else 3, 1.0)
        p.sentences(n(2500), 60, 0.7)
        p.tokens(n(3000))
        p.truncated(n(800))
        p.valid(n(800))
    elif prop == "C05":
        p.deep(n(40))
        p.positions(1.0 if thorough else 0.2, length=8 if thorough else 5)
        p.wide(n(60), problem=0.3)
        p.corpus(60)
        p.valid(n(5000), problem=0.6)
        p.faulty(n(1500))
        p.faulty_problems(n(1000))
        p.grammar(3, 1.0 if thorough else 0.25)
        p.sentences(n(3000), 40, 0)
        p.sentences(n(1500), 120, 0)
    elif prop == "C06":
        p.deep(n(80))
        p.positions(1.0, IN_DOMAIN, 8 if thorough else 5)
        p.wide(n(30), problem=0.0)
        p.corpus(0)
        p.uses(2, (1, 1, 1 if thorough else 0.2), ("a", "m"))
        p.faulty(n(6000), ["type:", "rename", "del:", "drop:", "task", "atom", "sub", "method"])
        p.faulty(n(2000))
        p.valid(n(1500), problem=0)
    elif prop == "C07":
        p.wide(n(40), problem=0.0)
        p.corpus(0)
        p.duplicates()
        if thorough:
            p.duplicates(MaxLen=5, Entries='{"a", "A", "a-1", "b"}')
        p.faulty(n(6000), ["dup", "rename"])
        p.faulty(n(1500))
        p.valid(n(1500), problem=0)
    elif prop == "C08":
        p.deep(n(20))
        p.positions(1.0, IN_DOMAIN, 8 if thorough else 5)
        p.wide(n(40), problem=0.0)
        p.corpus(0)
        p.uses(2, (1, 1, 1 if thorough else 0.1), ("a", "m"))
        p.graphs(["a", "b", "c"], 9 if thorough else 4, 1.0, as_order=False, cyclic=0.1)
        p.graphs(["a", "b", "c", "d"], 7 if thorough else 4, 1.0 if thorough else 0.4, as_order=False, cyclic=0.05)
        p.faulty(n(5000), ["retype", "arg", "term", "add:", "drop:", "typeedge", "typedrop"])
        p.faulty(n(1500))
        p.valid(n(2000), problem=0)
    elif prop == "C09":
        p.positions(1.0, ["types", "ord", "methods"], 8 if thorough else 5)
        p.wide(n(40), problem=0.0)
        p.corpus(0)
        p.graphs(["a", "b", "c"], 9, 1.0 if thorough else 0.6)
        p.graphs(["a", "b", "c", "d"], 8 if thorough else 4, 0.5)
        p.faulty(n(3000), ["typeedge", "typeback", "self", "ordering"])
        p.faulty_problems(n(1000))
        p.valid(n(1500))
    elif prop in ("C10", "C11", "C12"):
        p.wide(n(60), problem=0.0)
        p.corpus(10)
        p.hierarchies()
        p.bodies((6 if thorough else 4) if prop == "C12" else 5 if thorough else 3, 1.0 if prop != "C12" else 0.3)
        p.hierarchies(1.0 if thorough else 0.5, MaxSubs=3, MaxMethods=2)
        if thorough:
            p.hierarchies(0.5, Tasks='{"A", "B", "C"}', MaxMethods=3)
        p.random_hierarchies(n(6000))
        p.valid(n(1500), problem=0.3 if prop == "C10" else 0)
        p.faulty(n(500), problem=0)
    elif prop == "C13":
        p.corpus(20)
        dup_heavy(p, n(2000))
        p.valid(n(600))
        p.faulty(n(800))
        p.faulty_problems(n(1500), n=(2, 3, 4, 6))
        p.random_hierarchies(n(2000), most=8)
        p.tokens(n(300))
    elif prop == "C18":
        p.deep(n(60))
        p.positions(1.0, IN_PROBLEM, 8 if thorough else 5)
        p.wide(n(60), problem=0.3)
        p.corpus(60)
        p.graphs(["a", "b", "c"], 9 if thorough else 3, 0.5, as_order=True)
        p.uses(2, (1, 1, 1 if thorough else 0.5), ("goal", "init", "htn"))
        p.duplicates(("objects", "objects2", "oconstants"))
        p.faulty_problems(n(7000), both=0)
        p.valid(n(2000), problem=1)
    elif prop == "C19":
        p.wide(n(40), problem=0.3)
        p.corpus(20)
        p.stages(0.3)
        if thorough:
            p.stages(0.2, Where='{"first", "last"}')
        p.staged(n(7000))
        p.valid(n(500), problem=1)
    elif prop == "C21":
        p.deep(n(20))
        p.huge(n(6))
        p.positions(1.0 if thorough else 0.2, length=8 if thorough else 5)
        p.corpus(10)
        p.faulty(n(4000))
        p.faulty_problems(n(2000))
        p.tokens(n(1500))
        p.bytes(n(500))
        p.strings("MCLexer.cfg", 0.5 if thorough else 0.1)
        p.random_hierarchies(n(1500))
        p.valid(n(500))
        p.wide(n(30))
    elif prop == "C20":
        p.permuted(n(1500))
        p.permuted_hierarchies(n(1200))
        p.relations("order", 1.0 if thorough else 0.4, MaxDomain=4, MaxProblem=0)
    elif prop == "C22":
        p.permuted_problems(n(2000))
        p.relations("order", 1.0 if thorough else 0.15, MaxDomain=4 if thorough else 3, MaxProblem=4 if thorough else 3)
    elif prop == "C23":
        p.extended(n(2000))
        p.relations("unused", 1.0 if thorough else 0.2, MaxDomain=3, MaxProblem=2)
        if thorough:
            p.relations("unused", 1.0, MaxDomain=4, MaxProblem=0)
    elif prop == "C24":
        p.renamings(n(2000))
        p.relations("renamed", 1.0 if thorough else 0.1, MaxDomain=3, MaxProblem=2, Shift=1)
        p.relations("renamed", 1.0 if thorough else 0.3, MaxDomain=3, MaxProblem=0, Shift=0)
    else:
        raise ValueError(prop)
    return p


OPS = {"C01": "vzjm", "C02": "vj", "C03": "vzjm", "C04": "vjm", "C05": "j", "C06": "vzm", "C07": "vz", "C08": "vz",
       "C09": "vz", "C10": "vz", "C11": "m", "C12": "m", "C13": "vzjm", "C18": "vz", "C19": "vz", "C20": "vm", "C21": "vzjm", "C22": "v",
       "C23": "vzm", "C24": "vzjm"}
