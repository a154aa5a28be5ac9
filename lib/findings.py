"""Genuine defects that are recorded rather than repaired (known-findings.json)."""
import json, os, tempfile
import harness
from harness import VERIF, REPO

LIMIT_MS = 20000
FILE = os.path.join(VERIF, "known-findings.json")


def entries():
    return json.load(open(FILE))["findings"]


def inputs(e):
    if "file" in e:
        path = os.path.join(REPO, e["file"])
        return open(path, "rb").read().decode("latin1") if os.path.exists(path) else None
    return e["before"] + e["open"] * e["times"] + e["inside"] + e["close"] * e["times"] + e["after"]


def report(prop):
    """the listed findings of a property that still fail"""
    out = []
    for e in entries():
        if e["property"] != prop:
            continue
        d = inputs(e)
        if d is None:
            continue
        if e["op"] == "lsp":
            if ends_server(d):
                out.append(e["what"])
            continue
        rec = {}
        s = harness._Shard([{"i": 0, "d": d, "p": None, "ops": e["op"], "reps": 1}], e.get("limit_ms", 5000), rec, [])
        s.start()
        s.join()
        if rec[0][e["op"]]["v"][0] in ("hang", "crash"):
            out.append(e["what"])
    return out


def ends_server(text):
    """the language server does not survive a document"""
    import systems
    with tempfile.TemporaryDirectory(prefix="lsp.", dir=harness.BUILD) as root:
        s = systems.Lsp(root)
        try:
            s.start()
            uri = "file://" + root + "/d.hddl"
            s.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "hddl", "version": 1, "text": text}})
            return s.wait(s.request("textDocument/diagnostic", {"textDocument": {"uri": uri}})) is None and not s.alive()
        finally:
            s.stop()
