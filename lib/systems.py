"""The two programs around the library: the language server (C14, C15, C16) and the command line tool (C17).
Sessions and invocations are enumerated by TLC from the specification (or generated), executed on the real binaries in
scratch directories, and judged by TLC (ServerTrace, CliTrace)."""
import json, os, queue, random, re, shutil, subprocess, tempfile, threading, time
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
from urllib.parse import quote
import gen, harness, plans
from harness import BUILD, CORES, SPEC, MachineryError

ANSWER_S = 60


# ---------------------------------------------------------------- language server
class Lsp:
    """the real server, spoken to over its standard input and output"""

    def __init__(self, cwd):
        self.p = subprocess.Popen([harness.LSP], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, cwd=cwd)
        self.id, self.answers, self.cv, self.eof = 0, {}, threading.Condition(), False
        self.out = queue.Queue()
        threading.Thread(target=self._read, daemon=True).start()
        threading.Thread(target=self._write, daemon=True).start()

    def _read(self):
        f = self.p.stdout
        try:
            while True:
                n = None
                while True:
                    h = f.readline()
                    if not h:
                        return
                    h = h.strip()
                    if not h:
                        break
                    if h.lower().startswith(b"content-length:"):
                        n = int(h.split(b":")[1])
                m = json.loads(f.read(n))
                if "method" in m and "id" in m:       # a request of the server
                    self.send({"jsonrpc": "2.0", "id": m["id"], "result": None})
                elif "method" not in m and m.get("id") is not None:
                    with self.cv:
                        self.answers[m["id"]] = m
                        self.cv.notify_all()
        except (ValueError, OSError, TypeError):
            pass
        finally:
            with self.cv:
                self.eof = True
                self.cv.notify_all()

    def _write(self):
        try:
            while True:
                b = self.out.get()
                if b is None:
                    self.p.stdin.close()
                    return
                self.p.stdin.write(b)
                if self.out.empty():
                    self.p.stdin.flush()
        except (BrokenPipeError, OSError, ValueError):
            pass

    def raw(self, body):
        self.out.put(b"Content-Length: %d\r\n\r\n" % len(body) + body)

    def send(self, m):
        self.raw(json.dumps(m).encode())

    def notify(self, method, params):
        self.send({"jsonrpc": "2.0", "method": method, "params": params})

    def request(self, method, params):
        self.id += 1
        m = {"jsonrpc": "2.0", "id": self.id, "method": method}
        if params is not None:
            m["params"] = params
        self.send(m)
        return self.id

    def wait(self, i, timeout=ANSWER_S):
        end = time.time() + timeout
        with self.cv:
            while i not in self.answers and not self.eof and time.time() < end:
                self.cv.wait(0.5)
            return self.answers.get(i)

    def start(self):
        i = self.request("initialize", {"capabilities": {}, "processId": None, "rootUri": None})
        a = self.wait(i)
        self.notify("initialized", {})
        return a

    def alive(self):
        return self.p.poll() is None and not self.eof

    def stop(self):
        self.out.put(None)
        try:
            self.p.wait(2)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


NONE = {"k": "none", "items": []}


def span(r):
    a, b = r["start"], r["end"]
    return {"l0": str(a["line"]), "c0": str(a["character"]), "l1": str(b["line"]), "c1": str(b["character"]), "lp": str(b["line"] - 1)}


def answer(m):
    if m is None:
        return NONE
    if "error" in m:
        return {"k": "error", "items": []}
    try:
        items = m["result"]["items"]
        return {"k": "report", "items": [
            {"msg": latin(x["message"]), "sev": str(x.get("severity")), **span(x["range"]),
             "rel": [span(y["location"]["range"]) for y in x.get("relatedInformation") or []]} for x in items]}
    except (KeyError, TypeError):
        return {"k": "other", "items": []}


def latin(s):
    """bytes of a string, one character each"""
    return s.encode("utf-8", "surrogatepass").decode("latin1")


def unlatin(s):
    return s.encode("latin1").decode("utf-8")


def capabilities(m):
    """what the server announces: how texts are synchronised ("1": in full), and whether there are diagnostics"""
    if m is None:
        return {"sync": "", "diag": "no answer"}
    c = (m.get("result") or {}).get("capabilities") or {}
    sync = c.get("textDocumentSync")
    if isinstance(sync, dict):
        sync = sync.get("change")
    return {"sync": str(sync), "diag": "y" if c.get("diagnosticProvider") else "n"}


class Session:
    """A session to be executed.  Files are relative to the scratch directory; a URI is made of a file, or is given
    with the scheme.  Steps are dicts with k, u, file, ts (text numbers from 1); 'raw' steps carry method and params."""

    def __init__(self, source, pipelined=False):
        self.source, self.pipelined = source, pipelined
        self.texts, self.steps, self.dirs = [], [], set()
        self.junk = []        # (kind, file): things in the file system that are not files with a text

    def text(self, t):
        self.texts.append(t)
        return len(self.texts)

    def step(self, k, u="", ts=(), file=None, uri=None, method=None, params=None):
        self.steps.append({"k": k, "u": u, "file": u if file is None else file, "ts": list(ts), "uri": uri,
                           "method": method, "params": params})

    def uri(self, st, root):
        if st["uri"] is not None:
            return st["uri"].replace("$ROOT", quote(root))
        return "file://" + quote(os.path.join(root, st["u"]))

    def run(self, root):
        os.makedirs(root)
        for kind, f in self.junk:
            p = os.path.join(root, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if kind == "dir":
                os.makedirs(p, exist_ok=True)
            elif kind == "link":
                os.symlink(os.path.join(root, "nowhere"), p)
            elif kind == "file":
                with open(p, "wb") as h:
                    h.write(EMPTY.encode())
            elif kind == "unreadable":
                with open(p, "wb") as h:
                    h.write(EMPTY.encode())
                os.chmod(p, 0)
            elif kind == "fifo":
                os.mkfifo(p)
            elif kind == "loop":
                os.symlink(os.path.basename(p), p)
        for st in self.steps:
            if st["file"]:
                os.makedirs(os.path.dirname(os.path.join(root, st["file"])), exist_ok=True)
        s = Lsp(root)
        pending, got = [], [NONE] * len(self.steps)
        try:
            caps = capabilities(s.start())
            if caps["diag"] == "no answer":
                return {"got": got, "alive": "n", "caps": caps}

            def settle():
                for k, i in pending:
                    m = s.wait(i)
                    got[k] = answer(m)
                    if m is None:
                        return False
                pending.clear()
                return True
            for k, st in enumerate(self.steps):
                u = self.uri(st, root)
                doc = {"uri": u}
                if st["k"] in ("write", "remove"):
                    if not settle():
                        break
                    path = os.path.join(root, st["file"])
                    if st["k"] == "write":
                        with open(path, "wb") as f:
                            f.write(self.texts[st["ts"][0] - 1].encode("latin1"))
                    elif os.path.exists(path):
                        os.unlink(path)
                elif st["k"] == "open":
                    s.notify("textDocument/didOpen", {"textDocument": {"uri": u, "languageId": "hddl", "version": 1,
                                                                       "text": unlatin(self.texts[st["ts"][0] - 1])}})
                elif st["k"] == "change":
                    s.notify("textDocument/didChange", {"textDocument": {"uri": u, "version": k + 2}, "contentChanges": [
                        {"text": unlatin(self.texts[n - 1])} for n in st["ts"]]})
                elif st["k"] == "savetext":
                    s.notify("textDocument/didSave", {"textDocument": doc, "text": unlatin(self.texts[st["ts"][0] - 1])})
                elif st["k"] == "save":
                    s.notify("textDocument/didSave", {"textDocument": doc})
                elif st["k"] == "diag":
                    pending.append((k, s.request("textDocument/diagnostic", {"textDocument": doc})))
                    if not self.pipelined and not settle():
                        break
                elif st["k"] == "request":
                    params = st["params"]
                    if params == "DOC":
                        params = {"textDocument": doc}
                    pending.append((k, s.request(st["method"], params)))
                elif st["k"] == "notify":
                    params = {"textDocument": doc} if st["params"] == "DOC" else st["params"]
                    s.notify(st["method"], params)
            settle()
            alive = "y" if s.alive() else "n"
        finally:
            s.stop()
            shutil.rmtree(root, ignore_errors=True)
        return {"got": got, "alive": alive, "caps": caps}

    def files(self):
        fs = sorted({st["file"] for st in self.steps if st["file"]})
        return [{"file": f, "dir": os.path.dirname(f) or ".", "ext": os.path.splitext(f)[1][1:]} for f in fs]

    def event(self, result, lib):
        steps = [{"k": st["k"], "u": st["uri"] or st["u"], "file": st["file"], "ts": st["ts"], "got": g}
                 for st, g in zip(self.steps, result["got"])]
        ondisk, indocs = self.sides()
        return {"texts": self.texts,
                "dom": [lib[(t, None, "v")] for t in self.texts],
                "prb": [lib[(EMPTY, t, "j")] for t in self.texts],
                "pair": [dict(lib[(self.texts[a - 1], self.texts[b - 1], "v")], d=a, p=b) for a in ondisk for b in indocs],
                "files": self.files(), "steps": steps, "alive": result["alive"], "caps": result["caps"]}

    def sides(self):
        disk = sorted({n for st in self.steps if st["k"] == "write" for n in st["ts"]})
        docs = sorted({n for st in self.steps for n in st["ts"]} if any(st["k"] == "save" for st in self.steps)
                      else {n for st in self.steps if st["k"] != "write" for n in st["ts"]})
        return disk, docs

    def calls(self):
        for t in self.texts:
            yield (t, None, "v")
            yield (EMPTY, t, "j")
        a, b = self.sides()
        for d in a:
            for p in b:
                yield (self.texts[d - 1], self.texts[p - 1], "v")


EMPTY = "(define (domain d))"


def library(calls):
    """what the library says: {(domain, problem, op): {"v": verdict, "t": message}}"""
    calls = sorted(set(calls), key=str)
    out = {}
    for op in ("v", "j"):
        cs = [c for c in calls if c[2] == op]
        for c, r in zip(cs, harness.execute([(c[0], c[1]) for c in cs], op) if cs else []):
            if r is None:
                raise MachineryError("the library does not terminate on many texts")
            t = r[op]["t"]
            if isinstance(t, list):
                t = t[0] if t else ""
            out[c] = {"v": r[op]["v"], "t": "" if r[op]["v"] == ["ok"] else latin(t)}
    return out


def run_sessions(sessions):
    """the events of the sessions, and the sessions they belong to: all of them, unless answers keep failing to come"""
    root = tempfile.mkdtemp(prefix="lsp.", dir=BUILD)
    unanswered = []

    def one(x):
        k, s = x
        if len(unanswered) >= 6:
            return None
        t = time.time()
        r = s.run(os.path.join(root, str(k)))
        if time.time() - t > ANSWER_S:
            unanswered.append(k)
        return r
    try:
        with ThreadPoolExecutor(CORES) as pool:
            results = list(pool.map(one, enumerate(sessions)))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    done = [(s, r) for s, r in zip(sessions, results) if r is not None]
    lib = library(c for s, _ in done for c in s.calls())
    return [s.event(r, lib) for s, r in done], [s for s, _ in done]


# ---------------------------------------------------------------- texts for sessions
def marked(n, rng, kind=None):
    """a text whose verdict tells it apart from all others"""
    pad = "\n" * rng.randrange(4) + ("; c\n" * rng.randrange(3))
    fixed = kind is not None
    kind = kind or rng.choice(["type", "type", "lex", "syn", "dup", "prob", "arity"])
    if kind == "empty" or (not fixed and rng.random() < 0.07):
        return rng.choice(["", "", " ", "\n", "; c", "\t\n\n"])
    big = "".join(f"(:task big{j} :parameters (?a ?b))\n" for j in range(rng.choice([0, 0, 0, 0, 5, 60])))
    if kind == "type":
        return f"{pad}(define (domain d)\n{big}(:predicates (p ?x - t{n})))"
    if kind == "lex":
        return f"{pad}(define (domain d)\n{big}(:types {n}x))"
    if kind == "syn":
        return f"{pad}(define (domain d)\n{big}(:types ?m{n}))"
    if kind == "dup":
        return f"{pad}(define (domain d)\n{big}(:predicates (q{n}) (q{n})))"
    if kind == "arity":
        return f"{pad}(define (domain d)\n{big}(:predicates (r{n}))\n(:action a :parameters () :precondition (r{n} q)))"
    if kind == "prob":
        return f"{pad}(define (problem x) (:domain d)\n(:init (mark{n} o)) (:goal {n}y))"
    if kind == "semprob":
        return f"{pad}(define (problem x) (:domain d)\n(:init (mark{n})))"
    if kind == "okdomain":
        return f"{pad}(define (domain d) {big})"
    raise ValueError(kind)


def from_log(log, rng, source, observe, pipelined):
    """the session of a log emitted by MCSessions"""
    s = Session(source, pipelined)
    docs = sorted({m["u"] for m in log})
    numbers = sorted({n for m in log for n in m["ts"]})
    prob = rng.random() < 0.3
    index = {}
    for n in numbers:
        index[n] = s.text(marked(n, rng, rng.choice(["prob", "semprob", "okdomain", "type", "dup", "empty"]) if prob else None))
    for m in log:
        if m["k"] in ("write", "remove"):       # the server is idle when the disk changes
            s.step("diag", m["u"] + ".hddl")
        s.step(m["k"], m["u"] + ".hddl", [index[n] for n in m["ts"]])
        if observe:
            for u in docs:
                s.step("diag", u + ".hddl")
    return s


def long_session(rng, n, pipelined):
    s = Session("long session", pipelined)
    docs = [f"{rng.choice(['', 'x/', 'y y/'])}{c}.hddl" for c in "abc"]
    files = docs + ["x/dom.pddl", "dom.hddl"]
    k = 0

    def t(kinds=None):
        nonlocal k
        k += 1
        return s.text(marked(k, rng, kinds and rng.choice(kinds)))
    for f in files:
        if rng.random() < 0.6:
            s.step("write", f, [t(["okdomain", "type", "dup"] if "dom" in f else None)])
    for _ in range(n):
        u = rng.choice(docs)
        r = rng.random()
        if r < 0.15:
            s.step("open", u, [t()])
        elif r < 0.40:
            s.step("change", u, [t() for _ in range(rng.choice([1, 1, 1, 2, 3, 0]))])
        elif r < 0.5:
            s.step("savetext", u, [t()])
        elif r < 0.65:
            s.step("save", u)
            if rng.random() < 0.7:
                s.step("change", u, [t()])
        elif r < 0.69:
            s.step("diag", u)
            f = rng.choice(files)
            if rng.random() < 0.7:
                s.step("write", f, [t(["okdomain", "type", "dup", "prob"])])
            else:
                s.step("remove", f)
        else:
            s.step("diag", u)
    for u in docs:
        s.step("diag", u)
    return s


def burst(rng, n):
    """changes that directly follow a save of a file on the disk"""
    s = Session("burst", True)
    for u in ("a.hddl", "b.hddl"):
        s.step("write", u, [s.text(marked(0, rng, "type") + "\n" * rng.choice([0, 100000]))])
        s.step("open", u, [s.text(marked(1, rng, "type"))])
    for k in range(2, n + 2):
        u = rng.choice(["a.hddl", "b.hddl"])
        for _ in range(rng.choice([0, 1, 1, 2])):
            s.step("save", u)
        if rng.random() < 0.5:
            s.step("diag", u)
        s.step(rng.choice(["change", "change", "open", "savetext"]), u, [s.text(marked(k, rng, rng.choice(["type"] * 9 + ["empty"])))])
        for _ in range(rng.choice([0, 1, 3])):
            s.step("diag", rng.choice(["a.hddl", "b.hddl"]))
        s.step("diag", u)
    return s


class Texts:
    """rich domains and problems: valid, faulty, mutated"""

    def __init__(self, rng, bytes=False):
        self.rng, self.bytes = rng, bytes

    def domain(self, d):
        r = self.rng
        k = r.random()
        if k < 0.55:
            d = gen.mutate(d, r, r.choice([1, 1, 1, 2, 3]))
        td = gen.t_domain(d)
        if 0.5 < k < 0.75:
            td = gen.mutate_tokens(td, r, r.choice([1, 1, 2]))
        s = gen.layout(td, r)
        return self.spoil(s)

    def problem(self, g, d):
        r = self.rng
        p = g.problem()
        k = r.random()
        if k < 0.6:
            p = gen.mutate(p, r, r.choice([1, 1, 2]), None, gen.problem_faults, d)
        tp = gen.t_problem(p, d.name)
        if 0.55 < k < 0.75:
            tp = gen.mutate_tokens(tp, r, 1)
        return self.spoil(gen.layout(tp, r))

    def spoil(self, s):
        r = self.rng
        if r.random() < 0.06:
            s = s[:r.randrange(len(s) + 1)]
        if self.bytes and r.random() < 0.3:
            s = gen.mutate_bytes(s, r, r.choice([1, 2, 4]))
        return s

    def noise(self):
        r = self.rng
        k = r.random()
        if k < 0.3:
            return "".join(chr(r.randrange(256)) for _ in range(r.randrange(40)))
        if k < 0.7:
            return " ".join(r.choice(gen.TOKENS) for _ in range(r.randrange(30)))
        return "(define (" + r.choice(["domain d)", "problem p) (:domain d)", "d)"]) + "".join(
            r.choice("()?:;-<>=. \n\tab1") for _ in range(r.randrange(60)))


def sendable(s):
    try:
        unlatin(s)
        return s
    except UnicodeDecodeError:
        return "".join(c for c in s if ord(c) < 128)


def rich_session(rng, n, bytes=False, pipelined=True):
    """many documents, each with its directory, domain files of which some are not candidates"""
    s = Session("documents", pipelined)
    t = Texts(rng, bytes)
    for k in range(n):
        g, d = gen.random_domain(rng)
        dir = f"d{k}/"
        if rng.random() < 0.45:
            s.step("write", dir + "domain.hddl", [s.text(t.domain(d))]) if rng.random() < 0.2 else None
            u = dir + rng.choice(["a.hddl", "a b.hddl", "ü.pddl", "domain.hddl"])
            s.step("open", u, [s.text(sendable(t.domain(d)))])
            s.step("diag", u)
        elif rng.random() < 0.9:
            ok = s.text(gen.layout(gen.t_domain(d), rng))
            where = rng.choice(["domain.hddl", "z.pddl", "a.hddl", "none", "txt", "sub", "faulty", "two", "both"])
            if where in ("domain.hddl", "z.pddl", "a.hddl"):
                s.step("write", dir + where, [ok])
            elif where == "txt":
                s.step("write", dir + rng.choice(["domain.txt", "domain", "hddl", "domain.hddl.bak"]), [ok])
            elif where == "sub":
                s.step("write", dir + "sub/domain.hddl", [ok])
            elif where == "faulty":
                s.step("write", dir + "domain.hddl", [s.text(t.domain(d))])
            elif where == "two":
                s.step("write", dir + "domain.hddl", [ok])
                s.step("write", dir + "other.hddl", [s.text(t.domain(gen.random_domain(rng)[1]))])
            elif where == "both":
                s.step("write", dir + "domain.hddl", [ok])
                s.step("write", dir + "p0.hddl", [s.text(t.problem(g, d))])
                s.step("write", dir + "junk.hddl", [s.text(t.noise())])
            u = dir + "p1.hddl"
            if rng.random() < 0.3:
                s.step("write", u, [s.text(t.problem(g, d))])
            s.step("open", u, [s.text(sendable(t.problem(g, d)))])
            s.step("diag", u)
            if rng.random() < 0.2:
                s.step("change", u, [s.text(sendable(t.problem(g, d)))])
                s.step("diag", u)
            if rng.random() < 0.2:
                s.step("save", u)
                s.step("diag", u)
        else:
            u = dir + "n.hddl"
            s.step("open", u, [s.text(sendable(t.noise()))])
            s.step("diag", u)
    return s


def stage_sessions(cases, rng, size=12):
    """each pair of MCStages as a directory with a domain file and a problem document, each domain also as a document"""
    def spread(t):
        return "".join(c + "\n" * rng.choice([0, 0, 0, 1, 2]) if c == ")" else c for c in t)
    out, seen, s = [], set(), None
    for k, c in enumerate(cases):
        if k % size == 0:
            s = Session("MCStages", True)
            out.append(s)
        dir = f"d{k % size}/"
        d, p = spread(c["d"]), spread(c["p"])
        n = s.text(d)
        s.step("write", dir + "domain." + rng.choice(["hddl", "pddl"]), [n])
        if c["d"] not in seen:
            seen.add(c["d"])
            s.step("open", dir + "other.hddl", [n])
            s.step("diag", dir + "other.hddl")
        s.step("open", dir + "p.hddl", [s.text(p)])
        s.step("diag", dir + "p.hddl")
    return out


ODD = ["untitled:Untitled-1", "untitled:a/b.hddl", "http://example.org/x.hddl", "file://otherhost/share/p.hddl", "file:///",
       "file:///no/such/directory/p.hddl", "urn:isbn:1", "file://$ROOT/a%20b.hddl", "file://$ROOT/%C3%BC%25.hddl",
       "file://$ROOT/gone/p.hddl", "file://$ROOT/sub/../odd.hddl", "vscode-notebook-cell:/x#y", "data:text/plain,x",
       "file://$ROOT/inv%FFalid.hddl", "file://$ROOT/nul%00.hddl", "mailto:a@b", "file://$ROOT/d.hddl/", "git:/x/y.hddl?ref=1"]


# names that are not texts, or not names with an extension (lone surrogates stand for bytes)
STRANGE = ["x.\udcff", "\udcfe.hddl", "\udcff\udcfe", ".hddl", ".pddl", "no-extension", "two..hddl", "dot.", "hddl", "a\nb.hddl", "\u00fc.\u00fc",
           "x" * 200 + ".hddl", "a b.pddl", "%41.hddl", "x.hddl.\udcc3", "x.HDDL", "x.hddl~"]


def hostile_session(rng, n):
    s = Session("hostile", rng.random() < 0.6)
    t = Texts(rng, True)
    for k in range(rng.randrange(4)):
        s.junk.append((rng.choice(["dir", "link", "dir"]), f"j{k}." + rng.choice(["hddl", "pddl"])))
    s.junk.append(("dir", "q/inner.hddl"))
    for f in rng.sample(STRANGE, rng.randrange(4)):
        s.junk.append(("file", rng.choice(["", "q/"]) + f))
    if rng.random() < 0.3:
        s.junk.append(("loop", "l.hddl"))
    g, d = gen.random_domain(rng)
    opened = []
    for k in range(rng.randrange(3)):
        s.step("write", rng.choice(["dom.hddl", "bin.hddl", "q/dom.pddl"]), [s.text(rng.choice([t.domain(d), t.noise(), "\xff\xfe(", ""]))])

    def content():
        r = rng.random()
        if r < 0.35:
            return sendable(t.problem(g, d))
        if r < 0.6:
            return sendable(t.domain(d))
        if r < 0.8:
            return sendable(t.noise())
        if rng.random() < 0.1:
            k = rng.choice([30, 60, 130])
            return f"(define (domain d)(:predicates (p))(:action a :parameters () :precondition " + "(not " * k + "(p)" + ")" * (k + 2)
        return rng.choice(["", "(", "(define", "(define (problem p", "(define (problem p) (:domain d))", "(define (domain d))",
                           "(define (problem p) (:domain d) (:init (x)))", latin("(define (domain ü)) ; …"), "\x00", ";", "?"])
    for k in range(n):
        odd = rng.random() < 0.5
        if odd:
            uri = rng.choice(ODD)
            u, file = uri, ""
        else:
            u = rng.choice(["p.hddl", "q/p.hddl", "dom.hddl", "bin.hddl", "j0.hddl"])
            uri, file = None, u
        # the text of an odd document is not compared, so its file is not named: texts read from the disk would be
        r = rng.random()
        if r < 0.35:
            s.step("open", u, [s.text(content())], file=file, uri=uri)
            opened.append((u, file, uri))
        elif r < 0.5:
            s.step("change", u, [s.text(content()) for _ in range(rng.choice([0, 1, 1, 2]))], file=file, uri=uri)
        elif r < 0.65 and not odd:
            s.step("save", u, file=file, uri=uri)
        elif r < 0.7:
            s.step("savetext", u, [s.text(content())], file=file, uri=uri)
        elif r < 0.76:
            s.step("request", u, uri=uri, file=file, method=rng.choice(
                ["textDocument/hover", "textDocument/completion", "workspace/symbol", "no/such/method", "textDocument/formatting",
                 "workspace/diagnostic", "textDocument/definition"]), params=rng.choice(["DOC", None, {}, [], {"textDocument": 3}]))
        elif r < 0.8:
            s.step("request", u, uri=uri, file=file, method="textDocument/diagnostic",
                   params=rng.choice([{}, [], None, {"textDocument": None}, {"textDocument": {"uri": 4}}, {"textDocument": {"uri": "no uri"}}]))
        elif r < 0.84:
            s.step("notify", u, uri=uri, file=file, method=rng.choice(
                ["textDocument/didClose", "$/cancelRequest", "workspace/didChangeConfiguration", "textDocument/willSave", "no/such/notification",
                 "textDocument/didOpen", "textDocument/didChange", "textDocument/didSave", "$/setTrace"]),
                params=rng.choice([None, {}, [], {"textDocument": 3}, {"id": 99999}]))
        else:
            s.step("diag", u, file=file, uri=uri)
    for u, file, uri in opened[:6]:
        s.step("diag", u, file=file, uri=uri)
    s.step("diag", "never.hddl")
    s.step("open", "last.hddl", [s.text(EMPTY)])
    s.step("diag", "last.hddl")
    return s


# ---------------------------------------------------------------- language server checks
def lsp_sessions(prop, tier, rng):
    models, sessions = [], []
    thorough = tier == "thorough"
    k = plans.THOROUGH if thorough else 1
    if prop == "C14":
        models.append(harness.model_check("MCServer", None if not thorough else "%s/MCServerDeep.cfg" % SPEC))
        logs, st = plans.emitted("MCSessions", cfg="MCSessions.cfg")
        models.append(st)
        for x in logs:
            sessions.append(from_log(x["log"], rng, "MCSessions", True, False))
            sessions.append(from_log(x["log"], rng, "MCSessions", False, True))
        logs, st = plans.emitted("MCSessions", plans.config("MCSessions", MaxMsgs=4))
        models.append(st)
        for x in (logs if thorough else rng.sample(logs, 700)):
            sessions.append(from_log(x["log"], rng, "MCSessions", rng.random() < 0.3, rng.random() < 0.7))
        sessions += [long_session(rng, rng.choice([10, 30, 60]), rng.random() < 0.8) for _ in range(150 * k)]
        sessions += [burst(rng, rng.choice([5, 10, 20])) for _ in range(150 * k)]
    elif prop == "C15":
        cases, st = plans.emitted("MCStages", cfg="MCStages.cfg")
        models.append(st)
        share = 1.0 if thorough else 0.1
        sessions += stage_sessions([c for c in cases if c["out"] != "domain syntax" or rng.random() < share], rng)
        sessions += [rich_session(rng, 10, rng.random() < 0.3) for _ in range(500 * k)]
    else:
        sessions += [hostile_session(rng, rng.choice([8, 15, 30])) for _ in range(500 * k)]
        sessions += [rich_session(rng, 8, True) for _ in range(60 * k)]
    return models, sessions


def lsp_check(prop, tier, seed):
    rng = random.Random(f"{prop}:{seed}")
    models, sessions = lsp_sessions(prop, tier, rng)
    events, sessions = run_sessions(sessions)
    bad, stats = harness.validate(prop, events, "ServerTrace")
    if bad:        # a violation must show again when the machine is not busy, or be about an answer, not a delay
        bad = confirm(prop, sessions, events, bad)
    order = sorted(bad, key=lambda k: len(sessions[k].steps))
    violations = [{"reason": bad[k], "source": sessions[k].source, "session": dump(sessions[k]),
                   "observed": [g["got"] for g in events[k]["steps"]], "alive": events[k]["alive"]} for k in order[:20]]
    diags = [st["got"] for e in events for st in e["steps"] if st["k"] == "diag"]
    coverage = {
        "states": stats["states"] + sum(m["states"] for m in models),
        "transitions": stats["transitions"] + sum(m["transitions"] for m in models),
        "traces_validated_against_impl": len(events),
        "models_of_the_specification": models,
        "sessions_by_source": dict(Counter(s.source for s in sessions)),
        "messages": sum(len(s.steps) for s in sessions),
        "kinds_of_messages": dict(Counter(st["k"] for s in sessions for st in s.steps)),
        "diagnostics": dict(Counter(g["k"] + (f" with {len(g['items'])} items" if g["k"] == "report" else "") for g in diags)),
        "samples": [{"source": sessions[i].source, "steps": [[st["k"], st["u"], st["ts"]] for st in sessions[i].steps][:30],
                     "texts": [t[:200] for t in sessions[i].texts[:4]]} for i in rng.sample(range(len(sessions)), 3)],
    }
    return violations, coverage


def confirm(prop, sessions, events, bad):
    slow = [k for k in bad if "no answer" in bad[k] and events[k]["alive"] == "y"][:5]
    if slow:
        again, _ = run_sessions([sessions[k] for k in slow])
        b, _ = harness.validate(prop, again, "ServerTrace")
        for j, k in enumerate(slow):
            if j not in b:
                del bad[k]
    return bad


def dump(s):
    return {"pipelined": s.pipelined, "texts": s.texts, "steps": s.steps, "junk": s.junk, "source": s.source}


def load(x):
    s = Session(x["source"], x["pipelined"])
    s.texts, s.steps, s.junk = x["texts"], x["steps"], [tuple(j) for j in x["junk"]]
    return s


# ---------------------------------------------------------------- command line tool
class Invocation:
    def __init__(self, inv, d, p, rng):
        self.inv, self.d, self.p = inv, d, p
        self.dname = rng.choice(["d.hddl", "sub/my domain.hddl", "d", "ü.pddl"])
        self.pname = rng.choice(["p.hddl", "sub/p.hddl", "p p", "q.pddl"])
        self.oname = rng.choice(["out.json", "sub/out.json", "o"]) if inv["out"] != "unwritable" else rng.choice(["no/such/out.json", "adir", "d/x"])
        self.absolute = rng.random() < 0.3
        self.old = rng.choice([None, "", "old content\nof the file\n", "{}" * 3000])
        self.popt = rng.choice(["-p", "--problem-path", "--problem-path="])
        self.oopt = rng.choice(["-o", "--output-file", "--output-file="])
        self.first = rng.random() < 0.5

    def run(self, root):
        os.makedirs(root + "/sub")
        os.makedirs(root + "/adir")
        path = lambda n: os.path.join(root, n)
        try:
            if self.inv["dom"] != "missing":
                with open(path(self.dname), "wb") as f:
                    f.write(self.d.encode("latin1"))
            if self.inv["prb"] in ("ok", "bad"):
                with open(path(self.pname), "wb") as f:
                    f.write(self.p.encode("latin1"))
            o = path(self.oname)
            if self.inv["out"] == "file" and self.old is not None:
                with open(o, "w") as f:
                    f.write(self.old)
            before = look(o)
            name = (lambda n: path(n)) if self.absolute else (lambda n: n)
            opts = []
            for opt, n, on in ((self.popt, self.pname, self.inv["prb"] != "none"), (self.oopt, self.oname, self.inv["out"] != "none")):
                if on:
                    opts += [opt + name(n)] if opt.endswith("=") else [opt, name(n)]
            args = [self.inv["cmd"]] + ([name(self.dname)] + opts if self.first else opts + [name(self.dname)])
            try:
                r = subprocess.run([harness.CLI] + args, cwd=root, stdin=subprocess.DEVNULL, capture_output=True, timeout=60)
                out, err = text(r.stdout), text(r.stderr)
                ended = "y" if r.returncode >= 0 and r.returncode != 101 and "panicked at" not in err else "n"
            except subprocess.TimeoutExpired:
                out, err, ended = "", "", "n"
            return {"out": out.split("\n"), "err": err.split("\n"), "before": before, "after": look(o), "ended": ended}
        finally:
            shutil.rmtree(root, ignore_errors=True)


def text(b):
    return re.sub(r"\x1b\[\d+m", "", b.decode("utf-8", "replace"))


def look(path):
    if os.path.isfile(path):
        return open(path, "rb").read().decode("utf-8", "replace").split("\n")
    return ["(absent)"]


OP = {"verify": "v", "metadata": "m", "to_json": "j"}


def label(rec0, rec, op):
    """(dom, prb) as the command sees the pair"""
    dom = "ok" if rec0[op]["v"] == ["ok"] else "bad"
    return dom, "ok" if rec[op]["v"] == ["ok"] else "bad"


def cli_check(prop, tier, seed):
    rng = random.Random(f"{prop}:{seed}")
    invs, st = plans.emitted("MCCli", cfg="MCCli.cfg")
    k = 60 if tier == "thorough" else 14
    t = Texts(rng, True)
    pool = []
    for _ in range(250 * (4 if tier == "thorough" else 1)):
        g, d = gen.random_domain(rng)
        dom = gen.layout(gen.t_domain(d), rng) if rng.random() < 0.6 else t.domain(d) if rng.random() < 0.9 else t.noise()
        prb = gen.layout(gen.t_problem(g.problem(), d.name), rng) if rng.random() < 0.4 else t.problem(g, d) if rng.random() < 0.9 else t.noise()
        pool.append((dom, prb))
    for n in range(40):       # with warnings
        pool.append((f"(define (domain d)\n(:task T{n} :parameters ())\n(:task U :parameters ()) (:method m :parameters () :task (U) :subtasks (T{n})))",
                     "(define (problem p) (:domain d) (:htn :subtasks (U)))"))
    alone = harness.execute([(d, None) for d, _ in pool], "vjm")
    both = harness.execute(pool, "vj")
    runs, libs = [], []
    for inv in invs:
        op = OP[inv["cmd"]]
        fit = []
        for i in range(len(pool)):
            dom, prb = label(alone[i], both[i], op) if op != "m" else (label(alone[i], alone[i], op)[0], inv["prb"])
            if (inv["dom"] in ("missing", dom)) and (inv["prb"] in ("none", "missing", prb) or inv["dom"] != "ok"):
                fit.append(i)
        if not fit:
            raise MachineryError(f"no texts for {inv}")
        for _ in range(k):
            i = rng.choice(fit)
            runs.append(Invocation(inv, *pool[i], rng))
            libs.append(alone[i] if inv["prb"] == "none" or op == "m" else both[i])
    events = run_invocations(runs, libs)
    bad, stats = harness.validate(prop, events, "CliTrace")
    violations = [{"reason": bad[i], "inv": dict(vars(runs[i])), "event": events[i]} for i in sorted(bad)[:20]]
    coverage = {
        "states": stats["states"] + st["states"], "transitions": stats["transitions"] + st["transitions"],
        "traces_validated_against_impl": len(events), "models_of_the_specification": [st],
        "invocations": len(invs), "by_command": dict(Counter(r.inv["cmd"] for r in runs)),
        "samples": [{"invocation": r.inv, "domain": r.d[:200]} for r in rng.sample(runs, 3)],
    }
    return violations, coverage


def run_invocations(runs, libs):
    root = tempfile.mkdtemp(prefix="cli.", dir=BUILD)
    try:
        with ThreadPoolExecutor(CORES) as pool:
            got = list(pool.map(lambda x: x[1].run(os.path.join(root, str(x[0]))), enumerate(runs)))
    finally:
        shutil.rmtree(root, ignore_errors=True)
    events = []
    for r, lib, g in zip(runs, libs, got):
        x = lib.get(OP[r.inv["cmd"]], {"v": ["none"], "t": ""})
        ok = x["v"] == ["ok"]
        tt = x["t"]
        msg = "" if ok else (tt[0] if isinstance(tt, list) and tt else tt or "")
        cmd = r.inv["cmd"]
        events.append(dict(g, inv=r.inv, warn=tt if cmd == "verify" and ok else [], msg=msg.split("\n") if msg else [""],
                           json=x["json"].split("\n") if cmd == "to_json" and ok else [],
                           meta=tt.split("\n") if cmd == "metadata" and ok else []))
    return events


# ---------------------------------------------------------------- entry points
def check(prop, tier, seed):
    return cli_check(prop, tier, seed) if prop == "C17" else lsp_check(prop, tier, seed)


def replay(r):
    prop, v = r["property"], r["violation"]
    harness.build(binaries=True)
    if prop == "C17":
        x = v["inv"]
        i = Invocation(x["inv"], x["d"], x["p"], random.Random(0))
        vars(i).update(x)
        lib = harness.execute([(i.d, i.p if i.inv["prb"] in ("ok", "bad") and i.inv["cmd"] != "metadata" else None)], "vjm")
        events = run_invocations([i], lib)
        bad, _ = harness.validate(prop, events, "CliTrace")
    else:
        n = 20 if load(v["session"]).pipelined else 1
        events, _ = run_sessions([load(v["session"]) for _ in range(n)])
        bad, _ = harness.validate(prop, events, "ServerTrace")
    if bad:
        k = sorted(bad)[0]
        print(json.dumps(events[k])[:3000])
        print(f"VIOLATION property={prop} replay=(given)")
        print(bad[k])
        return 1
    print("no violation")
    return 0
