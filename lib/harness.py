"""Builds the code under test, executes it on cases, and runs TLC on the recorded traces."""
import json, os, re, subprocess, sys, threading, time, shutil, tempfile
from decimal import Decimal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TARGET = os.path.join(BUILD, "target")
CORES = 8
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


def quiet(out):
    """TLC's output without the lines that name the modules read."""
    return "\n".join(x for x in out.splitlines() if not x.startswith(("Parsing file", "Semantic processing", "Linting of")))


class MachineryError(Exception):
    """Something other than the code under test is broken: neither a pass nor a violation."""


# ---------------------------------------------------------------- building
def cargo_env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, CARGO_PROFILE_DEV_DEBUG="line-tables-only",
             CARGO_INCREMENTAL="1")
    return e


def build(binaries=False):
    os.makedirs(BUILD, exist_ok=True)
    cmds = [["cargo", "build", "--offline", "--quiet", "--manifest-path", f"{VERIF}/runner/Cargo.toml"]]
    if binaries:
        cmds.append(["cargo", "build", "--offline", "--quiet", "--manifest-path", f"{REPO}/Cargo.toml", "--bins"])
    for cmd in cmds:
        r = subprocess.run(cmd, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise MachineryError("build failed: " + " ".join(cmd) + "\n" + r.stdout[-3000:])


RUNNER = os.path.join(TARGET, "debug", "runner")
CLI = os.path.join(TARGET, "debug", "hddl_analyzer")
LSP = os.path.join(TARGET, "debug", "language_server")


# ---------------------------------------------------------------- executing the library
class _Shard(threading.Thread):
    def __init__(self, todo, limit_ms, results, hangs):
        super().__init__(daemon=True)
        self.failed, self.hangs = None, hangs
        self.todo, self.limit_ms, self.results = todo, limit_ms, results

    def run(self):
        try:
            self.go()
        except MachineryError as x:
            self.failed = x

    def go(self):
        todo = self.todo
        while todo and len(self.hangs) < MAX_HANGS:
            p = subprocess.Popen([RUNNER, str(self.limit_ms)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL)
            def feed(lines=todo, p=p):
                try:
                    for c in lines:
                        p.stdin.write((json.dumps(c) + "\n").encode())
                    p.stdin.close()
                except (BrokenPipeError, OSError):
                    pass
            t = threading.Thread(target=feed, daemon=True)
            t.start()
            done, current = set(), None
            for line in p.stdout:
                if line[:2] == b"S ":
                    _, i, op = line.split()
                    current = (int(i), op.decode())
                elif line[:2] == b"R ":
                    rec = json.loads(line[2:])
                    old = self.results.get(rec["i"])
                    if old is not None:
                        for k, v in old.items():
                            rec.setdefault(k, v)
                    self.results[rec["i"]] = rec
                    done.add(rec["i"])
                    current = None
            rc = p.wait()
            t.join()
            rest = [c for c in todo if c["i"] not in done]
            if current is not None and rest:
                # the process died while executing an operation of a case
                i, op = current
                kind = ["hang"] if rc == 97 else ["crash", f"exit status {rc}"]
                rec = self.results.setdefault(i, {"i": i})
                rec[op] = {"v": kind, "w": [], "t": [], "json": "", "nul": [], "rec": "", "cnt": []}
                rec.setdefault("runs", ["died"])
                if rc == 97:
                    self.hangs.append(i)
                for c in rest:
                    if c["i"] == i:
                        c["ops"] = c["ops"].replace(op, "")
                        if rc == 97:                  # the other operations are not tried
                            for o in c["ops"]:
                                rec.setdefault(o, rec[op])
                            c["ops"] = ""
                rest = [c for c in rest if c["ops"]]
            elif rest and len(rest) == len(todo):
                raise MachineryError("the runner made no progress")
            todo = rest


MAX_HANGS = 8      # the rest of a batch is not executed if so many cases of it do not terminate


def execute(cases, ops, reps=1, limit_ms=20000, procs=CORES):
    """cases: list of (domain, problem or None) as Latin-1 strings; returns the raw records (None: not executed)."""
    todo = [{"i": n, "d": d, "p": p, "ops": ops if p is not None else ops.replace("z", ""), "reps": reps}
            for n, (d, p) in enumerate(cases)]
    results, hangs = {}, []

    def run(shards):
        for s in shards:
            s.start()
        for s in shards:
            s.join()
        for s in shards:
            if s.failed:
                raise s.failed
    run([_Shard(todo[k::procs], limit_ms, results, hangs) for k in range(procs)])
    if hangs:         # once more, with a generous limit
        again = {}
        run([_Shard([{"i": i, "d": cases[i][0], "p": cases[i][1], "reps": reps,
                      "ops": ops if cases[i][1] is not None else ops.replace("z", "")}], max(60000, limit_ms * 3), again, [])
             for i in sorted(set(hangs))[:MAX_HANGS]])
        results.update(again)
    if len(results) != len(cases) and len(hangs) < MAX_HANGS:
        raise MachineryError(f"{len(cases) - len(results)} cases were not executed")
    return [results.get(n) for n in range(len(cases))]


# ---------------------------------------------------------------- the linear form of the JSON output
REQ = {"STRIPS": ":strips", "TypedObjects": ":typing", "Hierarchy": ":hierarchy",
       "NegativePreconditions": ":negative-preconditions", "UniversalPreconditions": ":universal-preconditions",
       "Equality": ":equality", "MethodPreconditions": ":method-preconditions"}


def at(n, l):
    return [n, "@%d" % l["line"]]


def sym(y):
    out = at(y["name"], y["name_pos"])
    if y.get("symbol_type") is not None:
        out += [":"] + at(y["symbol_type"], y["type_pos"])
    return out


def syms(ys):
    out = ["["]
    for y in ys or []:
        out += sym(y)
    return out + ["]"]


def number(n):
    (k, x), = n.items()
    if k == "Integer":
        return str(x)
    s = format(Decimal(repr(float(x))), "f")
    if "." in s:
        s = s.rstrip("0").rstrip(".")
    return s + "r"


def formula(f):
    if f is None:
        return ["null"]
    if f == "Empty":
        return ["()"]
    (k, x), = f.items()
    if k == "Atom":
        return ["(atom"] + at(x["name"], x["name_pos"]) + syms(x["variables"]) + [")"]
    if k == "Not":
        return ["(not"] + formula(x) + [")"]
    if k in ("And", "Or", "Xor"):
        return ["(" + k.lower()] + [t for g in x for t in formula(g)] + [")"]
    if k in ("ForAll", "Exists"):
        return ["(" + k.lower()] + syms(x[0]) + formula(x[1]) + [")"]
    if k == "Weighted":
        return ["(weight", number(x[0])] + formula(x[1]) + [")"]
    if k == "Equals":
        return ["(=", x[0], x[1], ")"]
    return ["(" + k] + [json.dumps(x)]


def pred(p, args="parameters"):
    return at(p["name"], p["name_pos"]) + syms(p[args])


def network(tn):
    out = ["sub"]
    for s in tn["subtasks"]:
        out += (["*"] if s["id"] is None else sym(s["id"])) + sym(s["task"]) + syms(s["terms"])
    o = tn["orderings"]
    pos = tn["ordering_pos"]
    out += ["ord", "total" if o == "Total" else "partial", "@%d" % (pos["line"] if pos else 0)]
    if o != "Total":
        out += [x for a, b in o["Partial"] for x in (a, "<", b)]
    out.append("cons")
    for c in tn["constraints"] or []:
        (k, (a, b)), = c.items()
        out += [a, {"Equal": "=", "NotEqual": "!="}[k], b]
    return out


def domain_text(d):
    d = d.get("Domain", d)
    out = ["domain", d["name"], "types"] + syms(d["types"]) + ["constants"] + syms(d["constants"])
    out += ["reqs"] + [REQ.get(r, r) for r in d["requirements"]] + ["preds"]
    for p in d["predicates"]:
        out += pred(p, "variables")
    out.append("funs")
    for p in d["functions"]:
        out += pred(p, "parameters" if "parameters" in p else "variables")
    out.append("tasks")
    for t in d["compound_tasks"]:
        out += pred(t)
    out.append("actions")
    for a in d["actions"]:
        out += pred(a) + ["pre"] + formula(a["preconditions"]) + ["eff"] + formula(a["effects"])
    out.append("methods")
    for m in d["methods"]:
        out += sym(m["name"]) + syms(m["params"]) + ["task"] + sym(m["task"]) + syms(m["task_terms"])
        out += ["pre"] + formula(m["precondition"]) + network(m["tn"])
    return out


def problem_text(p):
    p = p.get("Problem", p)
    out = ["problem", "reqs"] + [REQ.get(r, r) for r in p["requirements"]] + ["objects"] + syms(p["objects"]) + ["init"]
    for a in p["init_state"]:
        out += pred(a, "variables")
    out += ["goal"] + formula(p["goal"]) + ["htn"]
    h = p["init_tn"]
    return out + (["null"] if h is None else syms(h["parameters"]) + network(h["tn"]))


CLASS = {"Non-recursive": "NonRecursive", "Recursive": "Recursive", "Empty recursion": "Empty",
         "Growing empty prefix recursion": "GrowingEmptyPrefix", "Grow and shrink recursion": "GrowAndShrink"}


def recursion(text):
    """("class", [t, m, t, ..]) of the displayed recursion type"""
    lines = text.split("\n")
    cls = CLASS.get(lines[0].strip(), "?" + lines[0])
    cyc = []
    if len(lines) > 1:
        c = lines[1].replace("Cycle:", "").strip()
        for t, m in re.findall(r"\[([^\]]*)\](?:-\(([^)]*)\)->)?", c):
            cyc.append(t)
            if m:
                cyc.append(m)
    return cls, cyc


def message(r):
    """the text of an error"""
    t = r.get("t", "")
    return "" if r["v"] == ["ok"] else t if isinstance(t, str) else t[0] if t else ""


def event(d, p, rec):
    """the trace event of one raw record"""
    e = {"d": d, "p": p or "", "hp": "n" if p is None else "y", "ops": [], "v": ["none"], "w": [], "v0": ["none"],
         "w0": [], "j": ["none"], "ast": [], "past": [], "m": ["none"], "nul": [], "cnt": [], "cls": "", "cyc": [],
         "runs": rec.get("runs", []), "alt": [], "vt": "", "zt": "", "jt": "", "mt": "", "wt": [], "clsname": ""}
    if "v" in rec:
        e["ops"].append("v")
        e["v"], e["w"] = rec["v"]["v"], rec["v"]["w"]
        e["vt"], e["wt"] = message(rec["v"]), rec["v"]["t"] if e["v"] == ["ok"] else []
        if p is None:
            e["ops"].append("0")
            e["v0"], e["w0"], e["zt"] = e["v"], e["w"], e["vt"]
    if "z" in rec:
        e["ops"].append("0")
        e["v0"], e["w0"], e["zt"] = rec["z"]["v"], rec["z"]["w"], message(rec["z"])
    if "j" in rec:
        e["ops"].append("j")
        e["j"], e["jt"] = rec["j"]["v"], message(rec["j"])
        if e["j"] == ["ok"]:
            try:
                root = json.loads(rec["j"]["json"])
                e["ast"] = domain_text(root["domain"])
                if p is not None:
                    e["past"] = problem_text(root["problem"])
            except (KeyError, ValueError, TypeError, AttributeError) as x:
                e["ast"] = ["unreadable JSON: " + repr(x)]
    if "m" in rec:
        e["ops"].append("m")
        m = rec["m"]
        e["m"], e["mt"] = m["v"], message(m)
        if e["m"] == ["ok"]:
            e["mt"], e["clsname"] = m["t"], m["rec"].split("\n")[0].strip()
            e["nul"], e["cnt"] = m["nul"], m["cnt"]
            e["cls"], e["cyc"] = recursion(m["rec"])
    return e


def observe(cases, ops="vzjm", reps=1, **kw):
    return [r and event(d, p, r) for (d, p), r in zip(cases, execute(cases, ops, reps, **kw))]


# ---------------------------------------------------------------- TLC
def tlc(module, cfg=None, env=None, workers=CORES, extra=(), mem="8g", timeout=None, stack="64m"):
    """Runs TLC; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=BUILD)
    cmd = ["java", f"-Xmx{mem}", f"-Xss{stack}", "-XX:+UseParallelGC", f"-DTLA-Library={SPEC}", "-cp", TLA, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or f"{SPEC}/{module}.cfg",
           *extra, f"{SPEC}/{module}.tla"]
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        r = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           cwd=meta, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        raise MachineryError(f"TLC exceeded {timeout} s on {module}")
    finally:
        shutil.rmtree(meta, ignore_errors=True)


def counts(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def model_check(module, cfg=None, env=None, **kw):
    """A model of the specification itself: it must hold."""
    rc, out = tlc(module, cfg, env, **kw)
    if rc != 0 or "Model checking completed. No error has been found." not in out:
        raise MachineryError(f"TLC on {module} ({cfg}):\n" + quiet(out)[-4000:])
    g, d = counts(out)
    return {"module": os.path.basename(cfg or module), "states": d, "transitions": g}


def validate(prop, events, module="Conformance", env=None):
    """Judges events by the specification; returns ({index: reason}, tlc statistics).

    An event that TLC cannot evaluate is none that the specification describes (on the unchanged tree there are none)."""
    bad, todo, stats = {}, list(range(len(events))), {"states": 0, "transitions": 0}
    for attempt in range(6):
        found, strange, g, d, rc, out = judge(prop, [events[k] for k in todo], module, env)
        stats["states"] += d
        stats["transitions"] += g
        for k, why in found.items():
            bad[todo[k]] = why
        for k, why in strange.items():
            bad[todo[k]] = why
        if d == 2 * len(todo):
            if rc not in (0, 12) or (rc == 12 and not bad):
                raise MachineryError(f"TLC exit status {rc}:\n" + quiet(out)[-4000:])
            break
        if not strange:
            raise MachineryError(f"TLC judged {d} of {2 * len(todo)} states:\n" + out[-4000:])
        todo = [i for k, i in enumerate(todo) if k not in strange]
    if any("ERROR:" in x for x in bad.values()):
        raise MachineryError("malformed trace: " + str([x for x in bad.values() if "ERROR" in x][:3]))
    return bad, stats


def judge(prop, events, module, env):
    os.makedirs(BUILD, exist_ok=True)
    fd, path = tempfile.mkstemp(prefix=f"trace.{prop}.", suffix=".ndjson", dir=BUILD)
    with os.fdopen(fd, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")
    try:
        rc, out = tlc(module, env=dict(env or {}, TRACE=path, PROP=prop), extra=("-continue",), mem="20g")
    finally:
        os.unlink(path)
    g, d = counts(out)
    found = {}
    for m in re.finditer(r"/\\ i = (\d+)\n/\\ r = \"bad: (.*)\"\n", out):
        found[int(m.group(1)) - 1] = m.group(2).replace('\\"', '"')
    strange = {}
    for m in re.finditer(r"^Error: (?!The behavior|Invariant|The error occurred)([^\0]*?)\nError: The behavior up to this point is:\nState 1: <Initial predicate>\n"
                         r"/\\ i = (\d+)\n/\\ r = \"todo\"\n", out, re.M):
        strange[int(m.group(2)) - 1] = "nothing that the specification describes: " + " ".join(m.group(1).split())[:300]
    return found, strange, g, d, rc, out
