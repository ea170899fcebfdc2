"""P17: Queues model checked; bursts made by Burst, sent to the real server by a client that often doesn't read;
edits made by Typing, sent at once."""
import json
import random
import threading
import time

import common
from common import Check, pool, tlc_many
from session import Workspace, ServerDied, Timeout, diags_of

TEMPLATES = ["templates/a.html", "templates/sub/a.html", "templates/c.j2"]
SOURCES = ["src/m.rs"]
LIMIT = 150


def text(d, v):
    return " " * v + ('fn f() { env.get_template("no/such.html"); }' if d.endswith(".rs") else "{{ unknown }}")


def diags(d, v, hide):
    if d.endswith(".rs"):
        return [(v + 26, v + 40, "missing")]
    return [] if hide else [(v + 3, v + 10, "undefined")]


def config(ws, hide, n=0):
    c = {"templates": "./templates", "backend": ["./src"], "lang": "rust"}
    if hide:
        c["hide_undefined"] = True
    return c


class Burst:
    def __init__(self, ws):
        self.ws, self.ids = ws, []

    def ask(self, method, params):
        self.ids.append(self.ws.s.request_async(method, params))

    def query(self, m, u, k):
        doc = {"uri": u}
        at = {"line": 0, "character": k % 9}
        if m == "documentSymbol":
            self.ask("textDocument/documentSymbol", {"textDocument": doc})
        elif m == "codeAction":
            self.ask("textDocument/codeAction", {"textDocument": doc, "range": {"start": {"line": 3, "character": 0}, "end": {"line": 3, "character": 0}},
                                                 "context": {"diagnostics": []}})
        elif m == "warn":
            self.ask("workspace/executeCommand", {"command": "warn", "arguments": ["x"]})
        elif m == "cancel":
            self.ask("textDocument/hover", {"textDocument": doc, "position": at})
            self.ws.s.notify("$/cancelRequest", {"id": self.ids[-1]})
        elif m == "unknown":
            u = ["file:///nowhere/x.html", "file:///nowhere/y.txt", "untitled:z"][k % 3]
            self.query(["hover", "completion", "definition", "documentSymbol"][k % 4], u, k)
        elif m == "mixed":
            self.query(["hover", "completion", "documentSymbol", "definition", "codeAction", "cancel"][k % 6], u, k)
        else:
            self.ask("textDocument/" + m, {"textDocument": doc, "position": at})

    def phase(self, s):
        ws, n = self.ws, s["n"]
        u = ws.uri(s["d"]) if s["d"] else None
        for k in range(n):
            last = k == n - 1
            v = s["x"] if last else (k * 7) % 90
            if s["op"] == "edit":
                ws.change(u, [{"text": text(s["d"], v)}], k)
            elif s["op"] == "save":
                ws.save(u)
            elif s["op"] == "reopen":
                ws.shut(u)
                ws.open(u, text(s["d"], v))
            elif s["op"] == "reset":
                self.ask("workspace/executeCommand", {"command": "reset_variables", "arguments": []})
            elif s["op"] == "configure":
                ws.s.notify("workspace/didChangeConfiguration", {"settings": config(ws, s["x"] == 1 if last else k % 2 == 1)})
            else:
                self.query(s["op"], u, k)


def play(check, c, lock):
    docs = TEMPLATES + SOURCES
    problem = None
    with Workspace({d: text(d, 0) for d in docs}) as ws:
        m0 = ws.mark()
        try:
            for d in docs:
                ws.open(ws.uri(d), text(d, 0))
            ws.barrier()
            time.sleep(0.3)
            for d in TEMPLATES:
                ws.published(ws.uri(d), m0)
            b = Burst(ws)
            m = ws.mark()
            gate = ws.s.gate

            def burst():
                for s in c["script"]:
                    if s["deaf"]:
                        gate.clear()
                        threading.Timer(0.8, gate.set).start()
                    b.phase(s)
                gate.set()
            failed = []

            def guarded():
                try:
                    burst()
                except ServerDied:
                    failed.append("the server ended")
            t = threading.Thread(target=guarded, daemon=True)
            t.start()
            t.join(LIMIT)
            gate.set()
            if t.is_alive():
                problem = "the server stopped reading"
            elif failed:
                problem = failed[0]
            else:
                problem = settle(ws, c, b, m)
        except ServerDied:
            problem = "the server ended"
        except Timeout as e:
            problem = "no answer: %s" % e
        n = len(ws.s.wire)
    with lock:
        check.traces += 1
        check.samples += n
        if problem:
            check.violation("%s\n  after: %s" % (problem, [(s["op"], s["d"], s["n"]) + (("deaf",) if s["deaf"] else ()) for s in c["script"]]),
                            {"case": c, "what": problem})


def settle(ws, c, b, m):
    end = time.monotonic() + LIMIT
    for i in b.ids:
        try:
            ws.s.wait(i, max(0.1, end - time.monotonic()))
        except Timeout:
            left = [x for x in b.ids if x not in ws.s.responses]
            return "%d of %d requests weren't answered" % (len(left), len(b.ids))
    if len(b.ids) != c["asked"]:
        raise common.Broken("asked %d, not %d" % (len(b.ids), c["asked"]))
    ws.s.request("textDocument/documentSymbol", {"textDocument": {"uri": ws.uri("templates/a.html")}}, timeout=LIMIT)

    def pubs():
        out = {}
        for _, n in ws.s.notes[m:]:
            if n["method"] == "textDocument/publishDiagnostics":
                out.setdefault(n["params"]["uri"], []).append(diags_of(n))
        return out
    seen = -1
    while True:
        p = pubs()
        few = [d for d in c["docs"] if len(p.get(ws.uri(d["d"]), [])) < d["least"]]
        wrong = [d for d in c["docs"] if (p.get(ws.uri(d["d"])) or [diags(d["d"], d["v"], c["hide"])])[-1] != diags(d["d"], d["v"], c["hide"])]
        n = len(ws.s.wire)
        if not few and not wrong and n == seen:
            break
        if time.monotonic() > end:
            if few:
                d = few[0]
                return "%s was published %d times, at least %d were due" % (d["d"], len(p.get(ws.uri(d["d"]), [])), d["least"])
            if wrong:
                d = wrong[0]
                return "the last diagnostics of %s are %s instead of %s" % (d["d"], p[ws.uri(d["d"])][-1], diags(d["d"], d["v"], c["hide"]))
            return "the server doesn't come to rest"
        seen = n
        time.sleep(0.6)
    for d in c["docs"]:
        k = len(p.get(ws.uri(d["d"]), []))
        if k > d["most"]:
            return "%s was published %d times, at most %d were due" % (d["d"], k, d["most"])
    for i in b.ids:
        if len(ws.s.responses[i]) != 1:
            return "request %d was answered %d times" % (i, len(ws.s.responses[i]))
    return None


def frame(m):
    b = json.dumps({"jsonrpc": "2.0", **m}).encode()
    return b"Content-Length: %d\r\n\r\n" % len(b) + b


def typed(check, c, lock):
    """everything Typing wants to be typed, in one piece"""
    problem, n = None, 0
    with Workspace({"templates/a.html": ""}) as ws:
        u = ws.uri("templates/a.html")
        out, ids = [], []

        def say(method, **params):
            out.append(frame({"method": "textDocument/" + method, "params": params}))

        def change(text, s=None, e=None):
            x = {"text": text}
            if s is not None:
                x["range"] = {"start": {"line": 0, "character": 8 + s}, "end": {"line": 0, "character": 8 + e}}
            say("didChange", textDocument={"uri": u, "version": len(out)}, contentChanges=[x])

        def whole(name):
            return "{% set a" + name + " = 1 %}"
        for s in c["script"]:
            if s["op"] == "insert":
                for k in s["keys"]:
                    change(k["c"], k["at"], k["at"])
            elif s["op"] == "erase":
                for k in s["keys"]:
                    change("", k["at"], k["at"] + 1)
            elif s["op"] == "whole":
                change(whole(s["text"]))
            elif s["op"] == "reopen":
                say("didClose", textDocument={"uri": u})
                say("didOpen", textDocument={"uri": u, "languageId": "html", "version": 0, "text": whole(s["text"])})
            else:
                say("didSave", textDocument={"uri": u})
                ids.append("q%d" % len(ids))
                out.append(frame({"id": ids[-1], "method": "textDocument/documentSymbol", "params": {"textDocument": {"uri": u}}}))
        try:
            ws.open(u, whole(""))
            ws.barrier()
            ws.s.p.stdin.write(b"".join(out))
            ws.s.p.stdin.flush()
            for i, name in zip(ids, c["answers"]):
                r = ws.s.wait(i, LIMIT)
                got = [x["name"] for x in r.get("result") or []]
                n += 1
                if got != ["a" + name]:
                    problem = "after edits sent in this order the document defines %s instead of %s" % (got, "a" + name)
                    break
        except (ServerDied, BrokenPipeError):
            problem = "the server ended"
        except Timeout as e:
            problem = "no answer: %s" % e
    with lock:
        check.traces += 1
        check.samples += n
        if problem:
            check.violation("%s\n  after: %s" % (problem, [(s["op"], s.get("text") or len(s.get("keys", ""))) for s in c["script"][:40]]),
                            {"case": c, "what": problem})


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    quick = tier == "quick"
    lock = threading.Lock()
    c.assumptions = ["the client reads again after at most a second, the server may take up to %d s to answer a burst" % LIMIT]
    base = {"Room": 0, "Batches": 0, "Handlers": 3, "Pipe": 1, "Files": 2, "Total": 3, "Direct": False}
    inv = ["Once", "AllDone", "Bounds", "InOrder"]
    jobs = [dict(base), dict(base, Handlers=2, Total=4)]
    if not quick:
        jobs += [dict(base, Total=4), dict(base, Handlers=4, Files=3, Pipe=2, Total=4)]
    bursts = dict(module="Burst", simulate=14 if quick else 120, depth=12 if quick else 24, seed=common.SEED * 10, out_const="OutFile",
                  invariants=["Sound", "Emit"],
                  constants={"Templates": set(TEMPLATES), "Sources": set(SOURCES), "Phases": 8 if quick else 16,
                             "Sizes": {1, 30, 70, 160} if quick else {1, 60, 200, 600}, "Reads": {1, 12, 60} if quick else {1, 60, 110}})
    letters = random.Random(common.SEED)
    typing = dict(module="Typing", simulate=48 if quick else 1500, depth=402, seed=common.SEED, out_const="OutFile", invariants=["Emit"],
                  constants={"Letters": "".join(letters.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(400)), "Steps": 400})
    runs = [dict(module="Queues", constants=j, invariants=inv, properties=["ComesToRest"] if not quick or j["Total"] < 4 else [],
                 deadlock=True, timeout=800) for j in jobs]
    # the specification can tell: with a bounded queue between the tasks, or when the main task fills its own queue, all wait
    # forever; with a bounded queue in front of the main task, messages pass each other
    wrong = [dict(module="Queues", constants=dict(base, **x), invariants=inv, deadlock=True, expect_violation=True)
             for x in ({"Room": 1, "Total": 4, "Batches": 1}, {"Room": 1, "Total": 4, "Direct": True}, {"Room": 2})]
    results = tlc_many([bursts, typing] + wrong + runs)
    for r in results:
        c.model(r)
    for r, w in zip(results[2:5], ["Deadlock", "Deadlock", "InOrder"]):
        if r.violated != [w]:
            raise common.Broken("Queues doesn't see %s: %s" % (w, r.violated))
    cases = results[0].cases
    # the bursts that once stopped it
    cases = [{"script": [{"op": op, "d": d, "n": n, "x": 0, "deaf": deaf}], "asked": a, "hide": False,
              "docs": [{"d": x, "v": 0, "least": (k if x in TEMPLATES else 0) if d == "" else (n if x == d else 0),
                        "most": k if d == "" else (n if x == d else 0)} for x in TEMPLATES + SOURCES]}
             for op, d, n, deaf, a, k in [("save", "templates/a.html", 400, False, 0, 0), ("configure", "", 130, False, 0, 130),
                                          ("reset", "", 130, True, 130, 130), ("save", "src/m.rs", 400, True, 0, 0)]] + cases
    pool(lambda x: typed(c, x, lock) if len(c.violations) < 3 else None, results[1].cases, 8)
    pool(lambda x: play(c, x, lock) if len(c.violations) < 3 else None, cases, 6)
    c.examples += [[(s["op"], s["n"], s["deaf"]) for s in x["script"]] for x in cases[:5]]
    c.notes.append("models of the tasks: %s" % [(j["Room"], j["Handlers"], j["Total"]) for j in jobs])
    return c
