"""P14, P16, P19, P22, P23: workspaces made by Tree and WorkspaceGen, lived through by the real server."""
import json
import os
import threading
import time
import zlib

import common
import traces
from common import Check, pool, tlc_many
from session import Workspace, ServerDied, Timeout, diags_of, goto_set, hover_text, span
from templates import DETAIL, SYMBOL, Bad, expect

FEW = {"templates/a.html", "templates/sub/a.html", "templates/ü x.j2", "outside/o.html", "src/m.rs", "lib/deep/m.rs", "templates/n.txt"}
CONTENTS = {"empty", "set_p", "moved", "macro_q", "uses", "loop", "block_r", "inc_b", "inc_a", "inc_u", "give_p", "give_qr", "load"}
OPS = {"open", "change", "changesave", "save", "close", "changeclose", "write", "delete", "reset", "changereset", "configure"}
CONFIGS = {"plain", "hidden", "alone", "both", "wide", "other"}
INVARIANTS = ["OpenIsKnown", "OwnOnly", "Untouched", "ResetIsFresh", "CloseRestores", "Deserved", "NothingElse",
              "ForgottenIsClear", "Agree"]
DIRS = ["templates/sub", "outside", "src/deep", "lib/sub", "lib/v.txt.d"]


def histories(check, num, steps, seed, ops=OPS, runs=1, configs=CONFIGS, paths=FEW):
    cases, seen = [], set()
    for r in tlc_many([dict(module="WorkspaceGen", invariants=INVARIANTS + ["Emit"], simulate=num, depth=steps + 3,
                            seed=seed * 1000 + k, out_const="OutFile",
                            constants={"Paths": paths, "Contents": CONTENTS, "ConfigNames": configs, "Ops": ops,
                                       "Steps": steps, "Random": True}) for k in range(runs)]):
        check.model(r)
        for c in r.cases:
            if str(c) not in seen:
                seen.add(str(c))
                cases.append(c)
    return cases


def exhaustive(check, steps, ops, docs=2, workers=4):
    """no output, just the model"""
    paths = {"templates/a.html", "templates/sub/a.html"} if docs == 2 else {"templates/a.html", "templates/sub/a.html", "src/m.rs"}
    r = common.tlc("WorkspaceGen", constants={"Paths": paths, "Contents": {"set_p", "uses"} if docs == 2 else {"set_p", "uses", "give_p"},
                   "ConfigNames": {"plain", "hidden"}, "Ops": ops, "Steps": steps, "Random": False, "OutFile": ""},
                   invariants=INVARIANTS, workers=workers)
    check.model(r)
    check.notes.append("exhaustive: %d documents, %d steps of %s, %d states" % (docs, steps, sorted(ops), r.distinct))


def concurrent(check, messages, ops, properties=(), workers=4):
    """the server with its queues and timers, in every order"""
    r = common.tlc("ServerCheck", constants={"Paths": {"templates/a.html", "templates/sub/a.html"}, "Contents": {"set_p", "uses"},
                                             "Messages": messages, "Ops": ops}, properties=list(properties), workers=workers,
                   invariants=["LastIsDue", "LastIsCurrent", "NothingLost", "DueIsLast"], heap="8g", timeout=3000)
    check.model(r)
    check.notes.append("exhaustive: %d messages of %s in every order of events, %d states" % (messages, sorted(ops), r.distinct))


def config_of(ws, c, lang="rust", style="dotted"):
    def d(p):
        return {"dotted": "./" + p, "plain": p, "absolute": ws.path(p), "slash": "./%s/" % p,
                "roundabout": "./src/../" + p}[style]
    out = {"templates": d(c["root"]), "backend": [d(x) for x in c["dirs"]], "lang": lang}
    if c["hide"]:
        out["hide_undefined"] = True
    return out


# ------------------------------------------------------------- observations
def rest(ws):
    """Everything the server had to publish so far is published."""
    return ws.fence()


def published(ws, start, end):
    """last diagnostics of each document among the notes"""
    out = {}
    for _, n in ws.s.notes[start:end]:
        if n["method"] == "textDocument/publishDiagnostics":
            out[n["params"]["uri"]] = diags_of(n)
    return {u: d for u, d in out.items() if not ws.is_mark(u)}


def wanted(ws, entry):
    return {ws.uri(p["path"]): sorted((d["s"], d["e"], d["m"]) for d in p["diags"]) for p in entry["pubs"]}


def view(ws, entry, what, skip=()):
    """what is answered about every file"""
    qs = []
    for v in entry["view"]:
        u = ws.uri(v["path"])
        if v["path"] in skip:
            continue
        i = ws.s.request_async("textDocument/documentSymbol", {"textDocument": {"uri": u}})
        a = []
        if v["known"]:
            for x in v["uses"]:
                a.append((x, ws.ask("definition", u, x["s"]), ws.ask("hover", u, x["s"])))
            for h in v["holes"]:
                a.append((h, ws.ask_completion(u, h["at"]), None))
        else:
            a.append((None, ws.ask("definition", u, 3), ws.ask("hover", u, 3)))
        qs.append((v, u, i, a))
    n = 0
    for v, u, i, a in qs:
        got = ws.result(i)
        name = "%s, %s" % (what, v["path"])
        if not v["known"]:
            expect(name + ", symbols", got, None)
            for _, g, h in a:
                expect(name + ", definition", goto_set(ws.result(g)), ("none",))
                expect(name + ", hover", ws.result(h), None)
            n += 3
            continue
        got = sorted((x["name"], x["kind"]) + span(x["range"]) for x in got) if got is not None else None
        expect(name + ", symbols", got, sorted([(x["n"], SYMBOL[x["k"]], x["s"], x["e"]) for x in v["symbols"]] +
                                               [(x["n"], 1, x["s"], x["e"]) for x in v["refs"]]))
        for x, g, h in a:
            if h is None:
                got = sorted(y["label"] for y in ws.result(g) or [])
                expect("%s, completion at %d" % (name, x["at"]), got, sorted(x["names"] + [y["n"] for y in x["backend"]]))
                continue
            want = ("one", u, x["own"]["s"], x["own"]["e"]) if x["own"]["found"] else \
                ("many", sorted((ws.uri(o["f"]), o["s"], o["e"]) for o in x["others"]))
            expect("%s, definition at %d" % (name, x["s"]), goto_set(ws.result(g)), want)
            expect("%s, hover at %d" % (name, x["s"]), hover_text(ws.result(h)), DETAIL.get(x["hover"]))
            n += 2
        n += 1 + len(v["holes"])
    return n


def prepare(case_files):
    files = {f["path"]: f["text"] for f in case_files}
    ws = Workspace(files, start=False)
    for d in DIRS:
        os.makedirs(ws.path(d), exist_ok=True)
    return ws


# ---------------------------------------------------------------- histories
def do(ws, e, version):
    """one step; returns when the server has come to rest"""
    op, u = e["op"], ws.uri(e["path"]) if "path" in e else None
    m = ws.mark()
    late = False

    def change():
        # halves of it incrementally, the others at once
        if version % 2:
            ws.change(u, [{"text": e["text"]}], version)
        else:
            ws.change(u, [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 1 << 20, "character": 0}}, "text": ""},
                          {"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "text": e["text"]}], version)
    if op == "open":
        ws.open(u, e["text"])
    elif op == "change":
        change()
        ws.published(u, m)
    elif op == "changesave":
        change()
        ws.write(e["path"], e["text"])
        ws.save(u)
        late = True
    elif op == "save":
        ws.write(e["path"], e["text"])
        ws.save(u)
    elif op == "close":
        ws.shut(u)
    elif op == "changeclose":
        change()
        ws.shut(u)
        late = True
    elif op == "write":
        ws.write(e["path"], e["text"])
    elif op == "delete":
        os.remove(ws.path(e["path"]))
    elif op in ("reset", "changereset"):
        if op == "changereset":
            change()
            late = True
        ws.reset()
    elif op == "configure":
        ws.config = config_of(ws, e["config"])
        ws.s.notify("workspace/didChangeConfiguration", {"settings": ws.config})
        ws.reading(m)
    elif op == "detour":
        ws.s.notify("workspace/didChangeConfiguration", {"settings": config_of(ws, e["config"], "python")})
        ws.reading(m)
        rest(ws)
        m = ws.mark()
        ws.config = config_of(ws, e["config"])
        ws.s.notify("workspace/didChangeConfiguration", {"settings": ws.config})
        ws.reading(m)
    elif op == "settings":
        ws.s.notify("workspace/didChangeConfiguration", {"settings": {"other": 1}})
        ws.reading(m)
    if late:
        # the timer of the edit may or may not have something to say as well
        time.sleep(0.35)
    return m, rest(ws)


def live(check, case, lock, fresh=False):
    ws = None
    n = k = 0
    log = case["log"]
    try:
        first = log[0]
        ws = prepare(first["files"])
        ws.config = config_of(ws, first["config"])
        if fresh and hash_of(case) % 2:
            ws.client = "Visual Studio Code"
        ws.start()
        ws.reading(0)
        end = rest(ws)
        expect("published at the start", published(ws, 0, end), wanted(ws, first))
        n += view(ws, first, "at the start")
        texts = {}
        for k, e in enumerate(log[1:], 1):
            what = "after step %d (%s %s)" % (k, e["op"], e.get("path", ""))
            m, end = do(ws, e, k)
            if e["op"] in ("open", "change", "changesave", "changereset"):
                texts[e["path"]] = e["text"]
            if e["op"] in ("close", "changeclose"):
                texts.pop(e["path"], None)
            got, want = published(ws, m, end), wanted(ws, e)
            expect("published " + what, got, want)
            n += len(want) + view(ws, e, what)
        if fresh:
            n += as_fresh(ws, texts, log[-1])
    except Bad as e:
        with lock:
            check.violation("%s\n  history: %s" % (e, brief(log, k)), {"case": case, "what": str(e)})
    except (Timeout, ServerDied) as e:
        with lock:
            check.violation("no answer in step %d (%s %s)\n%s\n  history: %s" % (
                k, type(e).__name__, e, ws.s.stderr[-500:].decode("utf-8", "replace") if ws and ws.s else "", brief(log, k)), {"case": case})
    finally:
        if ws:
            ws.close()
    with lock:
        check.traces += 1
        check.samples += n


def hash_of(case):
    return zlib.crc32(json.dumps(case, sort_keys=True).encode())


def brief(log, k=None):
    return [{x: y for x, y in e.items() if x not in ("view", "pubs")} for e in log[:None if k is None else k + 1]]


def as_fresh(ws, texts, entry):
    """after one more reset a server started now, with the same documents open, agrees on everything"""
    from sync import everything
    ws.reset()
    rest(ws)
    other = Workspace(start=False)
    home = other.dir
    n = 0
    try:
        other.dir, other.config, other.client = ws.dir, ws.config, ws.client
        other.start()
        other.reading(0)
        for p, t in texts.items():
            other.open(ws.uri(p), t)
        rest(other)
        for v in entry["view"]:
            u = ws.uri(v["path"])
            t = texts.get(v["path"])
            if t is None:
                try:
                    with open(ws.path(v["path"]), encoding="utf-8") as f:
                        t = f.read()
                except OSError:
                    t = "{{ p }}"
            a, b = everything(ws, u, t), everything(other, u, t)
            # what completion edits depends on the client
            for x in (y for key in a if key.startswith("completion") for y in json.loads("[%s]" % ",".join(a[key] or []))):
                if "textEdit" in x:
                    expect("after a reset, edits of %s" % x, bool(x.get("additionalTextEdits")), ws.client != "check")
            for key in b:
                expect("after a reset, %s of %s, compared with a new server" % (key, v["path"]), a[key], b[key])
            n += len(b)
            out = []
            for w in (ws, other):
                m = w.mark()
                w.save(u)
                out.append(published(w, m, rest(w)))
            expect("after a reset, diagnostics of %s, compared with a new server" % v["path"], out[0], out[1])
    finally:
        other.close()
        other.dir = home
    return n


# -------------------------------------------------------------------- trees
def trees(check, num, files, seed):
    jobs = [dict(module="Tree", invariants=["Exactly", "Right", "Wider", "Own", "Emit"], simulate=num, depth=files + 4,
                 seed=seed * 1000 + k, out_const="OutFile",
                 constants={"Lang": lang, "Paths": set(), "Files_": size, "Random": True})
            for k, (lang, size) in enumerate([("rust", files), ("python", files), ("rust", files // 2)])]
    cases = []
    for r in tlc_many(jobs):
        check.model(r)
        cases += r.cases
    return cases


def start(check, c, lock):
    ws = None
    n = 0
    try:
        ws = prepare(c["files"])
        # nothing is known of these, but they mustn't be in the way
        with open(ws.path("templates/binary.html"), "wb") as f:
            f.write(b"\xff\xfe{{ p }}")
        os.symlink(ws.path("nowhere.html"), ws.path("templates/dangling.html"))
        ws.write("templates/broken.html", "{% if %}{{ ")
        skip = {ws.uri("templates/" + x) for x in ("binary.html", "dangling.html", "broken.html")}
        ws.config = config_of(ws, c["config"], c["lang"], c["style"])
        ws.start()
        ws.reading(0)
        got = {u: d for u, d in published(ws, 0, rest(ws)).items() if u not in skip}
        expect("published at the start", got, wanted(ws, c))
        n = len(got) + view(ws, c, "at the start")
    except Bad as e:
        with lock:
            check.violation("%s\n  configuration: %s %s\n  files: %s" % (e, c["lang"], ws.config, {f["path"]: f["text"] for f in c["files"]}),
                            {"case": c, "what": str(e)})
    except (Timeout, ServerDied) as e:
        with lock:
            check.violation("no answer (%s %s) with %s" % (type(e).__name__, e, brief([c])), {"case": c})
    finally:
        if ws:
            ws.close()
    with lock:
        check.traces += 1
        check.samples += n


# ------------------------------------------------------------------- checks
def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    quick = tier == "quick"
    lock = threading.Lock()
    c.assumptions = ["files and texts are drawn from the pools of Workspace.tla, directories don't change while they are read"]
    many = (lambda q, t: q if quick else t)

    def run(cases, fn, workers=16):
        pool(lambda x: fn(x) if len(c.violations) < 3 else None, cases, workers)
        for x in cases[:2]:
            c.examples.append(brief(x["log"]) if "log" in x else brief([x]))

    s = common.SEED
    if prop == "P14":
        run(trees(c, many(40, 600), 14, s), lambda x: start(c, x, lock), 8)
    elif prop == "P16":
        concurrent(c, 3, {"open", "change", "save", "close"} if quick else {"open", "change", "save", "close", "reset"})
        concurrent(c, 2, {"open", "change", "save", "close", "reset"}, ["Quiet", "Settles"])
        if not quick:
            concurrent(c, 4, {"open", "change", "save", "reset"}, workers=8)
        run(histories(c, many(30, 300), 10, s + 5), lambda x: live(c, x, lock))
        traces.run(c, traces.scripts(c, many(80, 240), many(20, 30), s + 6, runs=many(1, 4)))
    elif prop == "P19":
        exhaustive(c, 3, OPS, 2) if quick else exhaustive(c, 4, OPS, 2, 8)
        ops = OPS - {"changesave", "changeclose"}
        run(histories(c, many(40, 500), 10, s + 1, ops), lambda x: live(c, x, lock, fresh=True))
        run(histories(c, many(16, 200), 8, s + 2, {"open", "change", "reset", "changereset", "write", "configure", "delete"}),
            lambda x: live(c, x, lock))
    elif prop == "P22":
        exhaustive(c, 4, {"open", "change", "close", "changeclose", "write"}, 2)
        run(histories(c, many(60, 700), 10, s + 3, {"open", "change", "save", "close", "changeclose", "write", "delete"}),
            lambda x: live(c, x, lock))
    elif prop == "P23":
        exhaustive(c, 3, OPS - {"reset", "changereset", "configure"}, 3)
        run(histories(c, many(60, 700), 12, s + 4, OPS - {"reset", "changereset", "configure"}), lambda x: live(c, x, lock))
    return c
