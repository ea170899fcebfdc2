"""P20: situations and histories made by Config, lived through by the real server."""
import json
import os
import shutil
import threading
import time

import common
from common import Check, pool, tlc_many
from session import ServerDied, Timeout, Workspace, diags_of
from templates import Bad, expect

CONFIGS = {"one", "two", "both", "turned", "alone", "deep", "hidden", "shown", "snake", "snakes", "overlap", "swapped", "noroot", "nodir",
           "empty", "java", "nolang"}
SOURCES = {"s1/m.rs": "fn f() { let c = context!{ one => 1 }; }", "s2/n.rs": "fn f() { let c = context!{ two => 2 }; }",
           "s1/deep/d.rs": "fn f() { let c = context!{ deep => 2 }; }",
           "s1/k.py": 'x = render_template("a.html", snake=1)\n', "s2/l.py": 'x = render_template("b.html", adder=1)\n'}
TOLD = {"Initialized": "initialized", "Config doesn't exist.": "no configuration", "Template directory not found": "no templates",
        "Backend language not supported": "language"}
SENTINEL = "open/o.html"
TOML = ["pyproject.toml", "Cargo.toml", "jinja-lsp.toml"]


def template(c):
    return "\n".join(["{{ %s }}" % u for u in c["uses"]] + ['{%% include "%s" %%}' % r for r in c["refs"]])


def reports(c, r):
    out = [(n * 10000 + 3, n * 10000 + 3 + len(u), k) for n, (u, k) in enumerate(zip(c["uses"], r["names"])) if k]
    m = len(c["uses"])
    return sorted(out + [((m + n) * 10000 + 11, (m + n) * 10000 + 13 + len(u), k) for n, (u, k) in enumerate(zip(c["refs"], r["refs"])) if k])


class Style:
    """how a configuration is written down"""

    def __init__(self, ws, n):
        self.ws, self.n = ws, n

    def dir(self, d):
        if d == "":
            return ""
        return [lambda: "./" + d, lambda: d, lambda: self.ws.path(d), lambda: "./%s/" % d, lambda: "s2/../" + d][self.n % 5]()

    def options(self, r):
        out = {"templates": self.dir(r["root"]), "backend": [self.dir(d) for d in r["dirs"]], "lang": r["lang"]}
        if r["hide"] != "unset":
            out["hide_undefined"] = r["hide"] == "yes"
        elif self.n % 2:
            out["hide_undefined"] = None
        if self.n % 3 == 1:
            out["something"] = {"else": [1]}
        return out

    def toml(self, r):
        o = {k: v for k, v in self.options(r).items() if v is not None and k != "something"}
        if self.n % 4 == 1:
            body = "jinja-lsp = { %s }\n" % ", ".join("%s = %s" % (k, json.dumps(v)) for k, v in o.items())
            return "title = 'x'\n" + body
        body = "[jinja-lsp]\n" + "".join("%s = %s\n" % (k, json.dumps(v)) for k, v in o.items())
        return ["", "[package]\nname = 'x'\n\n", "# é\n", "[a.b]\nc = 1\n"][self.n % 4] + body + ["", "\n[tool.black]\nline-length = 80\n"][self.n % 2]


def nonsense(x):
    return {"null": None, "text": "./t1", "number": 3, "fields": {"templates": "./t1"}, "types": {"templates": "./t1", "backend": "./s1", "lang": "rust"},
            "nothing": {}}[x]


def junk(x):
    return {"empty": "", "broken": "[jinja-lsp]\ntemplates = \"./t1\"\nbackend = [", "section": "[package]\nname = \"x\"\n",
            "fields": "[jinja-lsp]\ntemplates = \"./t1\"\n", "types": "[jinja-lsp]\ntemplates = \"./t1\"\nbackend = \"./s1\"\nlang = \"rust\"\n"}[x]


def told(ws, m):
    """log messages since m; any other one that isn't known is an error"""
    return [TOLD.get(n["params"]["message"], "error") for _, n in ws.s.notes[m:] if n["method"] in ("window/logMessage", "window/showMessage")]


def settle(ws):
    """the diagnostics of the document that's open, once everything is published"""
    ws.fence()
    m = ws.mark()
    ws.save(ws.uri(SENTINEL))
    return ws.published(ws.uri(SENTINEL), m)[0]


def wait_told(ws, m, n):
    end = time.monotonic() + 15
    while len(told(ws, m)) < n and time.monotonic() < end:
        time.sleep(0.005)


def live(check, c, lock, n):
    ws = Workspace(start=False)
    st = Style(ws, n)
    k, count = 0, 0
    try:
        for p, t in SOURCES.items():
            ws.write(p, t)
        for p in ("t1/a.html", "t2/b.html", SENTINEL):
            ws.write(p, template(c))
        for k, e in enumerate(c["log"]):
            op, x = e["op"], e["x"]
            m = ws.mark() if ws.s else 0
            if op == "start":
                inits, files, there = x
                if there:
                    os.makedirs(ws.path("nowhere"))
                for name, f in zip(TOML, files):
                    if f in c["configs"]:
                        ws.write(name, st.toml(c["configs"][f]))
                    elif f != "absent":
                        ws.write(name, junk(f))
                ws.send_config = inits != "none"
                ws.config = st.options(c["configs"][inits]) if inits in c["configs"] else nonsense(inits) if inits != "none" else None
                ws.start()
            elif op == "change":
                st.n += 1
                ws.s.notify("workspace/didChangeConfiguration", {"settings": st.options(c["configs"][x])})
            elif op == "nonsense":
                ws.s.notify("workspace/didChangeConfiguration", {"settings": nonsense(x)})
            elif op == "reset":
                ws.s.request("workspace/executeCommand", {"command": "reset_variables", "arguments": []})
            elif op == "mkdir":
                os.makedirs(ws.path("nowhere"))
            elif op == "rmdir":
                shutil.rmtree(ws.path("nowhere"))
            elif op == "write":
                ws.write(TOML[k % 3], st.toml(c["configs"][x]))
            wait_told(ws, m, len(e["told"]))
            if op == "start":
                ws.open(ws.uri(SENTINEL), template(c))
            seen = settle(ws)
            what = "at step %d (%s)" % (k, op)
            expect("what the user is told " + what, told(ws, m), e["told"])
            expect("diagnostics of an open document " + what, seen, reports(c, e["view"]["reports"]))
            got = {}
            for _, note in ws.s.notes[m:]:
                if note["method"] == "textDocument/publishDiagnostics" and note["params"]["uri"] != ws.uri(SENTINEL) \
                        and not ws.is_mark(note["params"]["uri"]):
                    if note["params"]["uri"] in got:
                        raise Bad("%s is published twice %s" % (note["params"]["uri"], what))
                    got[note["params"]["uri"]] = diags_of(note)
            want = {}
            if e["pubs"]:
                for p in (c["log"][k - 1]["view"]["templates"] if k else []):
                    want[ws.uri(p)] = []
                for p in e["view"]["templates"]:
                    want[ws.uri(p)] = reports(c, e["view"]["reports"])
            # sources have nothing to report, whether that's said or not
            sources = {ws.uri(p) for p in SOURCES}
            expect("published " + what, {u: d for u, d in got.items() if u not in sources or d}, want)
            lang = c["configs"].get(inforce(c, k), {}).get("lang")
            for p in ["t1/a.html", "t2/b.html"] + [p for p in SOURCES if p.endswith({"rust": ".rs", "python": ".py"}.get(lang, ".none"))]:
                if p.startswith("t") or same_lang(c, k):
                    expect("%s is known %s" % (p, what), ws.symbols(ws.uri(p)) is not None, p in e["view"]["indexed"])
                    count += 1
            count += 3
    except Bad as e:
        with lock:
            check.violation("%s\n  history: %s" % (e, [(x["op"], x["x"]) for x in c["log"][:k + 1]]), {"case": c, "what": str(e)})
    except (Timeout, ServerDied) as e:
        with lock:
            check.violation("no answer (%s %s) at step %d of %s" % (type(e).__name__, e, k, [(x["op"], x["x"]) for x in c["log"][:k + 1]]), {"case": c})
    finally:
        ws.close()
    with lock:
        check.traces += 1
        check.samples += count


def inforce(c, k):
    """name of the configuration the server was told last, if any"""
    for e in reversed(c["log"][:k + 1]):
        if e["op"] == "change":
            return e["x"]
    inits, files, _ = c["log"][0]["x"]
    return ([inits] + [f for f in files if f in c["configs"]])[0 if inits in c["configs"] else 1] if inits in c["configs"] or any(f in c["configs"] for f in files) else ""


def same_lang(c, k):
    """the sources were read by the configuration in force"""
    return c["log"][k]["pubs"]


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    quick = tier == "quick"
    lock = threading.Lock()
    inv = ["OptionsWin", "FirstFile", "LastFile", "Reads", "Reported", "Emit"]
    jobs = [dict(module="Config", invariants=inv, out_const="OutFile",
                 constants={"Steps": 0, "Random": False, "Configs": {"one"}, "Plain": {"absent", "broken", "section", "two", "hidden"} if quick
                            else {"absent", "empty", "broken", "section", "fields", "types", "two", "hidden", "snake"}}),
            dict(module="Config", invariants=inv, out_const="OutFile", constants={"Steps": 0, "Random": False, "Configs": CONFIGS, "Plain": {"absent", "both"}}),
            dict(module="Config", invariants=inv[:-1], properties=["Only"],
                 constants={"Steps": 2 if quick else 3, "Random": False, "Configs": {"one", "noroot", "java"}, "Plain": {"absent", "two"}, "OutFile": ""})]
    for k in range(1 if quick else 4):
        jobs.append(dict(module="Config", simulate=150 if quick else 250, depth=12, seed=common.SEED * 100 + k, invariants=inv, out_const="OutFile",
                         constants={"Steps": 7 if quick else 9, "Random": True, "Configs": CONFIGS, "Plain": set()}))
    cases, seen = [], set()
    for r in tlc_many(jobs):
        c.model(r)
        for x in r.cases:
            key = str(x["log"] if len(x["log"]) == 1 else x["log"][:-1])
            if key not in seen:
                seen.add(key)
                cases.append(x)
    c.notes.append("%d starts, %d histories" % (sum(len(x["log"]) == 1 for x in cases), sum(len(x["log"]) > 1 for x in cases)))
    if quick:
        # of what can be at the start a third, another one for another seed
        starts = [x for x in cases if len(x["log"]) == 1]
        cases = [x for x in cases if len(x["log"]) > 1] + starts[common.SEED % 3::3]
    c.assumptions = ["the configuration files are in the working directory, %d configurations written in several styles" % len(CONFIGS)]
    pool(lambda x: live(c, x[1], lock, x[0]) if len(c.violations) < 3 else None, list(enumerate(cases)), 12)
    c.examples += [[(e["op"], e["x"], e["told"]) for e in x["log"]] for x in cases[:3]]
    return c
