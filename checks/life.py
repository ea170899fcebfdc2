"""P24: lives made by Life, lived by the real server."""
import json
import subprocess
import threading
import time

import common
from common import Check, pool, tlc_many
from lsp import Server, ServerDied, Timeout
from session import Workspace, diags_of
from templates import Bad, expect

DISK = {"templates/a.html": "{% set disk = 1 %}"}
# (a template that doesn't exist may be asked for: it's watched for a while then)
TEXT = {"x": "{% set x = 1 %}{{ u }}\n{% include 'gone.html' %}", "y": "{% set y = 2 %}{{ v }}\n{% include 'away/gone.html' %}"}
NAMES = {"none": None, "disk": ["disk"], "x": ["x"], "y": ["y"]}
GOOD = "good"
OPTIONS = {"missing": None, "null": None, "empty": {}, "number": 3, "list": [1, {"templates": "x"}], "string": "templates", "true": True,
           "wrong type": {"templates": 3, "backend": "x", "lang": []}, "half": {"templates": "./templates"}, "other": {"é": {"x": None}, "templates": None},
           "deep": {"a": [[[[[[[[[[[[[[[[1]]]]]]]]]]]]]]]]}, "nowhere": {"templates": "./no/such", "backend": ["./nor/this"], "lang": "rust"},
           "cobol": {"templates": "./templates", "backend": [], "lang": "cobol"}}
WHOLE = {"documentSymbol", "hover", "definition", "completion", "codeAction"}
IDS = {"number", "string", "empty", "uuid", "big", "negative"}
PATIENCE = 10.0    # a process that was left has to end in that time; it takes some ms


class Life:
    def __init__(self, ws):
        self.ws = ws
        self.s = ws.s = Server(common.BIN, ws.dir)
        self.n = 0

    def id(self, form):
        self.n += 1
        k = self.n
        return {"number": k, "string": "r%d" % k, "empty": "é %d" % k, "uuid": "123e4567-e89b-12d3-a456-%012d" % k, "big": 2 ** 52 + k, "negative": -k}[form]

    def send(self, method, params, form="number"):
        i = self.id(form)
        m = {"jsonrpc": "2.0", "id": i, "method": method}
        if params is not None:
            m["params"] = params
        self.s.send_raw(m)
        return i

    def ask(self, m, d, form="number"):
        u = self.ws.uri(d)
        doc = {"uri": u}
        p = {"textDocument": doc}
        if m in ("hover", "definition", "completion"):
            p["position"] = {"line": 0, "character": 8}
        if m == "codeAction":
            p["range"] = {"start": {"line": 1, "character": 14}, "end": {"line": 1, "character": 14}}
            p["context"] = {"diagnostics": []}
        if m in WHOLE:
            return self.send("textDocument/" + m, p, form)
        return self.send("workspace/executeCommand", {"command": m, "arguments": [] if m == "reset_variables" else ["x"]}, form)

    def wrong(self, w, form):
        doc = {"uri": self.ws.uri("templates/a.html")}
        at = {"line": 0, "character": 8}
        method, p = {"method": ("textDocument/nosuch", {"textDocument": doc}),
                     "references": ("textDocument/references", {"textDocument": doc, "position": at, "context": {"includeDeclaration": True}}),
                     "rename": ("textDocument/rename", {"textDocument": doc, "position": at, "newName": "z"}),
                     "willSaveWaitUntil": ("textDocument/willSaveWaitUntil", {"textDocument": doc, "reason": 1}),
                     "resolve": ("completionItem/resolve", {"label": "x"}), "symbol": ("workspace/symbol", {"query": "x"}),
                     "formatting": ("textDocument/formatting", {"textDocument": doc, "options": {"tabSize": 4, "insertSpaces": True}}),
                     "tokens": ("textDocument/semanticTokens/full", {"textDocument": doc}), "hover": ("textDocument/hover", {"x": 1}),
                     "completion": ("textDocument/completion", {"textDocument": doc}), "uri": ("textDocument/documentSymbol", {"textDocument": {"uri": "nonsense"}}),
                     "position": ("textDocument/hover", {"textDocument": doc, "position": {"line": -1, "character": "x"}}),
                     "command": ("workspace/executeCommand", {"arguments": 3}), "initialize": ("initialize", {"capabilities": 3})}[w]
        return self.send(method, p, form)

    def initialize(self, o):
        p = {"processId": None, "rootUri": None, "capabilities": {}}
        if o == GOOD:
            p["initializationOptions"] = self.ws.config
        elif o != "missing":
            p["initializationOptions"] = OPTIONS[o]
        return self.send("initialize", p)

    def tell(self, m, d, x):
        if m == "wait":
            time.sleep({"shortly": 0.7, "long": 1.8}[x])
        elif m == "initialized":
            self.s.notify("initialized", {})
        elif m == "didOpen":
            self.ws.open(self.ws.uri(d), TEXT[x])
        elif m == "didChange":
            self.ws.change(self.ws.uri(d), [{"text": TEXT[x]}])
            # its symbols are those of the last analysis, which is now instead of after a while
            self.ws.save(self.ws.uri(d))
        elif m == "didSave":
            self.ws.save(self.ws.uri(d))
        elif m == "didClose":
            self.ws.shut(self.ws.uri(d))
        elif x == "a response":
            self.s.send_raw({"jsonrpc": "2.0", "id": 99, "result": 3})
        else:
            method, p = {"$/strange": ("$/strange", {"x": 1}), "strange": ("strange", None), "didOpen without params": ("textDocument/didOpen", {}),
                         "didChange without params": ("textDocument/didChange", {"x": []}), "cancel": ("$/cancelRequest", {"id": 987654321}),
                         "willSave": ("textDocument/willSave", {"textDocument": {"uri": self.ws.uri("templates/a.html")}, "reason": 1}),
                         "watched": ("workspace/didChangeWatchedFiles", {"changes": [{"uri": self.ws.uri(f), "type": 1 + k} for k, f in enumerate(sorted(DISK))]}),
                         "folders": ("workspace/didChangeWorkspaceFolders", {"event": {"added": [], "removed": [{"uri": self.ws.uri(""), "name": "x"}]}}),
                         "cancel the last": ("$/cancelRequest", {"id": self.n}),
                         "setTrace": ("$/setTrace", {"value": "verbose"})}[x]
            self.s.notify(method, p)

    def code(self, r):
        return str(r["error"]["code"]) if "error" in r else "0"


def live(check, c, lock):
    n = k = 0
    log = c["log"]
    ws = Workspace(DISK, start=False)
    try:
        a = Life(ws)
        opts = None
        reset = False
        for k, e in enumerate(log[:-1]):
            m, d, x, phase = e["m"], e["d"], e["x"], e["phase"]
            i = None
            m0 = ws.mark()
            if m == "initialize":
                i = a.initialize(x)
            elif m == "wrong":
                i = a.wrong(d, x)
            elif m == "shutdown":
                i = a.send("shutdown", None)
            elif m in WHOLE or m in ("reset_variables", "warn", "no such command"):
                i = a.ask(m, d, x)
            else:
                a.tell(m, d, x)
            if i is not None:
                r = a.s.wait(i)
                if a.code(r) not in e["codes"]:
                    raise Bad("%s is answered by %s, expected %s" % (what(e), json.dumps(r)[:300], e["codes"]))
                if m == "initialize" and a.code(r) == "0":
                    opts = x
                    expect("name of the server", r["result"]["serverInfo"]["name"], "jinja-lsp")
                    if not isinstance(r["result"]["capabilities"].get("hoverProvider"), bool):
                        raise Bad("no capabilities: %s" % json.dumps(r)[:300])
                if m == "documentSymbol" and a.code(r) == "0":
                    got = r["result"]
                    expect("symbols after %s" % [what(y) for y in log[:k]], None if got is None else sorted(y["name"] for y in got), NAMES[e["text"]])
                if m == "shutdown" and a.code(r) == "0" and "result" in r and r["result"] is not None:
                    raise Bad("shutdown has the result %s" % r["result"])
                if m == "reset_variables" and a.code(r) == "0" and opts == GOOD:
                    ws.reading(m0)
                n += 1
            if m == "initialized" and phase == "begun" and opts == GOOD:
                ws.reading(m0)
            if phase in ("fresh", "down") and m != "initialize":
                # (what was on its way when shutdown was asked may come after its response)
                before = {ws.uri(y["d"]) for y in log[:k] if y["d"] and y["phase"] in ("begun", "ready")} | {ws.uri(y) for y in DISK if phase == "down"}
                said = [x["params"]["uri"] for _, x in ws.s.notes[m0:] if x["method"] == "textDocument/publishDiagnostics"
                        and x["params"]["uri"] not in before]
                expect("published for %s %s" % (what(e), {"fresh": "before the initialization", "down": "after shutdown"}[phase]), said, [])
        n += finish(a, ws, log[-1], log)
        if ws.s.panicked and log[-1]["d"] != "hang up":
            raise Bad("the server panicked: %s" % ws.s.stderr.decode(errors="replace")[:300])
    except Bad as e:
        with lock:
            check.violation("%s\n  life: %s" % (e, [what(y) for y in log[:k + 1]] + ([what(log[-1])] if k >= len(log) - 2 else [])), {"case": c, "what": str(e)})
    except (Timeout, ServerDied) as e:
        with lock:
            check.violation("no answer (%s %s) to %s\n  life: %s" % (type(e).__name__, e, what(log[k]), [what(y) for y in log[:k + 1]]), {"case": c})
    finally:
        ws.close()
    with lock:
        check.traces += 1
        check.samples += n


def finish(a, ws, e, log):
    """all that's said at last, without waiting for anything, and the end"""
    ids = []
    known = e["phase"] in ("begun", "ready")
    mine = "templates/last.html"
    if known:
        ws.open(ws.uri(mine), TEXT["x"])
        ids.append((a.ask("documentSymbol", mine), ["x"]))
    v, settled = "x", True
    for g in e["x"]:
        for j in range(g["n"]):
            if g["m"] in ("hover", "completion", "codeAction", "warn"):
                ids.append((a.ask(g["m"], mine), ()))
            elif g["m"] == "documentSymbol":
                ids.append((a.ask(g["m"], mine), [v] if settled else ()))
            elif g["m"] in ("didChange", "didOpen"):
                v = "xy"[j % 2]
                if g["m"] == "didOpen":
                    a.tell(g["m"], mine, v)
                else:
                    ws.change(ws.uri(mine), [{"text": TEXT[v]}])
                    settled = False
            elif g["m"] == "didSave":
                a.tell(g["m"], mine, None)
                settled = True
    w = e["d"]
    p = ws.s.p
    if w == "exit":
        ws.s.notify("exit", None)
    elif w == "half of a header":
        p.stdin.write(b"Content-Len")
    elif w == "half of a message":
        p.stdin.write(b'Content-Length: 200\r\n\r\n{"jsonrpc": "2.0", "meth')
    elif w == "hang up":
        # nothing is read any more
        ws.s.gate.clear()
    try:
        p.stdin.close()
    except OSError:
        pass
    if w == "hang up":
        ws.s.gate.set()
    t = time.monotonic()
    try:
        status = p.wait(PATIENCE)
    except subprocess.TimeoutExpired:
        raise Bad("the process goes on although its client is gone (%s)" % what(e))
    if e["phase"] in ("fresh", "down") and w != "hang up":
        expect("exit status after %s" % what(e), status, 0)
    if w in ("eof", "half of a header"):
        # what was asked before is answered in spite of that
        ws.s.t.join(PATIENCE)
        for i, names in ids:
            rs = ws.s.responses.get(i, [])
            if len(rs) != 1:
                raise Bad("a request asked just before the end has %d responses (%s)" % (len(rs), what(e)))
            if a.code(rs[0]) not in e["codes"]:
                raise Bad("a request asked just before the end is answered by %s" % json.dumps(rs[0])[:300])
            if names != () and known:
                expect("symbols asked just before the end (%s)" % what(e), sorted(y["name"] for y in rs[0]["result"] or []), names)
    return 1 + len(ids)


def what(e):
    x = e["x"]
    if e["m"] == "end":
        return "%s after %s" % (e["d"], ["%d %s" % (g["n"], g["m"]) for g in x])
    return " ".join(y for y in (e["m"], e["d"], x if isinstance(x, str) else "") if y)


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    quick = tier == "quick"
    lock = threading.Lock()
    inv = ["OneInitialization", "Refused", "Heard"]
    base = {"Options": set(OPTIONS) | {GOOD}, "Good": GOOD, "Ids": IDS, "Random": True}
    jobs = [dict(module="Life", simulate=60 if quick else 400, depth=30, seed=common.SEED * 10 + k, out_const="OutFile",
                 invariants=inv + ["Emit"], constants=dict(base, Steps=n, Options=o))
            for k, (n, o) in enumerate([(3, {GOOD, "empty"}), (10, {GOOD, "nowhere"}), (16, {GOOD}), (12, set(OPTIONS) | {GOOD})])]
    jobs.append(dict(module="Life", invariants=inv, properties=["Harmless", "Older"],
                     constants={"Options": {GOOD, "other"}, "Good": GOOD, "Ids": {"number"}, "Random": False, "Steps": 3 if quick else 4, "OutFile": ""}))
    results = tlc_many(jobs)
    seen = {}
    for r in results:
        c.model(r)
        for x in r.cases:
            seen[str(x["log"])] = x
    c.assumptions = ["messages are JSON; a process that was left has %d s to end" % PATIENCE]
    run = list(seen.values())
    pool(lambda x: live(c, x, lock) if len(c.violations) < 3 else None, run, 16)
    c.examples += [[what(e) for e in x["log"]] for x in run[:3]]
    c.notes.append("ends: %s" % {w: sum(1 for x in run if x["log"][-1]["d"] == w) for w in sorted({x["log"][-1]["d"] for x in run})})
    c.notes.append("ended while: %s" % {w: sum(1 for x in run if x["log"][-1]["phase"] == w) for w in sorted({x["log"][-1]["phase"] for x in run})})
    return c
