"""P18: histories made by Robust, lived through by a server that is asked and one that isn't."""
import threading
import time

import common
from common import Check, pool, tlc_many
from session import ServerDied, Timeout, Workspace, diags_of, uri_of
from templates import Bad, expect

TEXTS = {
    "var": "{{ v }}", "open var": "{{ v", "braces": "{{", "close": "}}", "set": "{% set v = 1 %}", "open set": "{% set v =",
    "percent": "{%", "end percent": "%}", "comment": "{#", "end comment": "#}", "for": "{% for é in v %}", "endfor": "{% endfor %}",
    "if": "{% if v", "elif": "{% elif v %}", "else": "{% else %}", "endif": "{% endif %}", "macro": "{% macro m(a, b=1) %}", "endmacro": "{% endmacro %}",
    "block": "{% block v %}", "endblock": "{% endblock v %}", "with": "{% with a = v %}", "endwith": "{% endwith %}",
    "quote": '"', "apostrophe": "'", "pipe": " | ", "filter": "{{ v | upper }}", "pipes": "{{ v ||", "dot": "{{ v.", "dots": "{{ v.a.b[0].c() }}",
    "test": "{{ v is odd }}", "is": "{{ v is", "call": "{{ m(v, k=v) }}", "paren": "{{ (((", "bracket": "{{ [[", "dict": "{{ {'a': v, } }}",
    "include": '{% include "b.jinja" %}', "include nothing": '{% include "" %}', "include half": '{% include "su', "include space": '{% include " " %}',
    "extends": '{% extends "nöpe/é.html" %}', "dotdot": '{% include "../../../../../../etc/passwd" %}', "absolute": '{% include "/etc/passwd" %}',
    "long name": '{% include "' + "n" * 300 + '" %}', "import": '{% import "b.jinja" as x %}', "from": '{% from "b.jinja" import y, z as w %}', "list": '{% include ["a", "b.jinja"] %}',
    "newline": "\n", "crlf": "\r\n", "cr": "\r", "tab": "\t", "nul": "\0", "control": "\x01\x1b[0m\x7f", "bom": "\ufeff", "ls": "\u2028", "ff": "\x0b\x0c\x85",
    "é": "é", "astral": "𝄞😀", "combining": "e\u0301\u200d", "rtl": "\u202eabc", "multi": "{{ é日𝄞 }}", "multi set": "{% set 日 = é %}", "private": "\ue000\uffff",
    "percent encoded": '{% include "a%20b%.html" %}', "dash": "{%- set x = 1 -%}", "raw": "{% raw %}{{ v }}", "endraw": "{% endraw %}", "line": "# for v in x\n## no\n",
    "html": "<p class=\"{{ v }}\">", "number": "{{ 1.5e3 ~ 0x }}", "deep": "{{ " + "(" * 200, "many": "{{ v }}" * 100, "wide": "w" * 5000, "neg": "{{ -v ** not v }}",
    "fn": "fn f() { ", "context": "context! { a => 1, ", "rust get": 'env.get_template("b.jinja"); ', "rust half": 'env.get_template("su', "raw string": 'r#"{{ a }}"# ',
    "add": 'env.add_global("g", 1); ', "py": 'render_template("b.jinja", a=1)\n', "py half": 'render_template("', "py def": "def f(:\n  ", "py fstring": 'f"{a!r:>{w}}" ',
    "brace": "} ", "semicolon": ";", "lifetime": "'a ", "comment rust": "/* /* ", "attr": "#[x(", "jinja rust": 'jinja!("{{ a }}") ',
}
KNOWN = {"templates/a.html", "templates/sub/b.jinja", "templates/é &%25 x.j2", "src/m.rs", "lib/m.py", "elsewhere/new.html", "untitled:one.html"}
OTHERS = {"notes.txt", "README", "untitled:two", "templates/.html", "git:/x?y#z"}
DISK = {"templates/a.html": "{% set v = 1 %}{{ v }}", "templates/sub/b.jinja": "{{ v }}{% macro y() %}{% endmacro %}", "src/m.rs": 'fn f() { context!{ v => 1 }; }'}
METHODS = ("hover", "definition", "completion", "documentSymbol", "codeAction")


def uri(ws, d):
    if d.startswith(("untitled:", "git:")):
        return d
    return uri_of(ws.path(d))


def text_of(frs):
    return "".join(TEXTS[f] for f in frs)


def lines(t):
    """lines as the server counts them: their lengths in bytes"""
    return [len(x.encode("utf-8", "surrogatepass")) for x in t.replace("\r\n", "\n").split("\n")]


def at(t, byte):
    """the position of the byte at which a fragment starts"""
    b = t.encode("utf-8")[:byte]
    n = b.count(b"\n")
    return {"line": n, "character": len(b) - (b.rfind(b"\n") + 1)}


def place(frs, kind, i):
    t = text_of(frs)
    before = len(text_of(frs[:i]).encode("utf-8"))
    whole = len(t.encode("utf-8"))
    if kind == "start":
        return {"line": 0, "character": 0}
    if kind == "before":
        return at(t, before)
    if kind == "inside":
        return at(t, min(before + 1, whole))
    if kind == "after":
        return at(t, len(text_of(frs[:i + 1]).encode("utf-8")))
    if kind == "end":
        return at(t, whole)
    p = at(t, whole)
    if kind == "past":
        return {"line": p["line"], "character": p["character"] + 5}
    if kind == "below":
        return {"line": p["line"] + 1, "character": 0}
    return {"line": 4294967295, "character": 4294967295} if i % 2 else {"line": 0, "character": 2147483647}


def params(ws, d, m, p):
    out = {"textDocument": {"uri": uri(ws, d)}}
    if m in ("hover", "definition", "completion"):
        out["position"] = p
    if m == "completion":
        out["context"] = {"triggerKind": 1}
    if m == "codeAction":
        out["range"] = {"start": p, "end": p}
        out["context"] = {"diagnostics": []}
    return out


def natural(x):
    return isinstance(x, int) and not isinstance(x, bool) and 0 <= x < 2 ** 32


def good_range(r):
    a, b = r["start"], r["end"]
    return all(natural(x) for x in (a["line"], a["character"], b["line"], b["character"])) and \
        (a["line"], a["character"]) <= (b["line"], b["character"])


def wellformed(m, r):
    """None, or what is wrong with an answer"""
    try:
        if r is None:
            return None
        if m == "hover":
            c = r["contents"]
            return None if c["kind"] in ("markdown", "plaintext") and isinstance(c["value"], str) else "contents"
        if m == "definition":
            for x in ([r] if isinstance(r, dict) else r):
                if not (isinstance(x["uri"], str) and ":" in x["uri"] and good_range(x["range"])):
                    return "location %s" % x
            return None
        if m == "documentSymbol":
            for x in r:
                loc = x.get("location", {}).get("range") or x["range"]
                if not (isinstance(x["name"], str) and natural(x["kind"]) and good_range(loc)):
                    return "symbol %s" % x
                if "selectionRange" in x and not good_range(x["selectionRange"]):
                    return "symbol %s" % x
            return None
        if m == "completion":
            for x in (r["items"] if isinstance(r, dict) else r):
                e = x.get("textEdit")
                if not isinstance(x["label"], str):
                    return "label %s" % x
                for k in ("range", "insert", "replace"):
                    if e and k in e and not good_range(e[k]):
                        return "edit %s" % x
            return None
        if m == "codeAction":
            return None if isinstance(r, list) and all(isinstance(x["title"], str) for x in r) else "actions"
        return "method"
    except (KeyError, TypeError, AttributeError) as e:
        return "%s in %s" % (e, str(r)[:200])


def same(r, ws):
    """an answer without the directory of the workspace, and without an order"""
    if isinstance(r, dict):
        return {k: same(v, ws) for k, v in r.items()}
    if isinstance(r, list):
        return sorted((same(x, ws) for x in r), key=str)
    return r.replace(uri_of(ws.dir), "DIR").replace(ws.dir, "DIR") if isinstance(r, str) else r


def ask(ws, d, m, p):
    i = ws.s.request_async("textDocument/" + m, params(ws, d, m, p))
    r = ws.s.wait(i)
    if ws.s.panicked:
        raise Bad("the server panicked: %s" % ws.s.stderr.decode(errors="replace")[:300])
    return r


def tell(ws, e, docs):
    u = uri(ws, e["d"]) if e["d"] else None
    if e["op"] == "open":
        ws.open(u, text_of(e["x"]))
    elif e["op"] == "change":
        i, j, new = e["x"]
        old = docs[e["d"]]
        ws.change(u, [{"range": {"start": place(old, "before", i), "end": place(old, "before", j)}, "text": text_of(new)}])
    elif e["op"] == "stray change":
        ws.change(u, [{"text": "{{ stray }}"}])
    elif e["op"] in ("close", "stray close"):
        ws.shut(u)
    elif e["op"] == "save":
        ws.save(u)
    elif e["op"] == "reset":
        ws.reset()
        ws.fence()


def pubs(ws, m):
    return [(n["params"]["uri"], n) for _, n in ws.s.notes[m:] if n["method"] == "textDocument/publishDiagnostics"
            and not ws.is_mark(n["params"]["uri"])]


def positions(frs):
    return [place(frs, k, i) for i in range(len(frs)) for k in ("before", "inside")] + \
        [place(frs, k, 1) for k in ("start", "end", "past", "below", "far")]


def compare(a, b, docs):
    """the same answers from both, now and once more"""
    n = 0
    for d, frs in docs.items():
        for ws in (a, b):
            if frs is not None:
                m = ws.mark()
                ws.save(uri(ws, d))
                ws.fence()
        jobs = []
        for m in METHODS:
            for p in (positions(frs or []) if m in ("hover", "definition", "completion") else [{"line": 0, "character": 0}]):
                if m == "codeAction":
                    continue
                jobs.append((m, p))
        out = []
        for ws in (a, a, b):
            ids = [ws.s.request_async("textDocument/" + m, params(ws, d, m, p)) for m, p in jobs]
            out.append([ws.s.wait(i) for i in ids])
        for (m, p), x, y, z in zip(jobs, *out):
            what = "%s at %s of %s" % (m, p, d)
            if "error" in x:
                raise Bad("%s: %s" % (what, x["error"]))
            bad = wellformed(m, x.get("result"))
            if bad:
                raise Bad("%s isn't well-formed: %s" % (what, bad))
            x, y, z = (same(v.get("result"), ws) for v, ws in ((x, a), (y, a), (z, b)))
            expect("%s, asked again" % what, y, x)
            expect("%s, compared with a server that wasn't asked" % what, x, z)
            n += 3
    return n


def live(check, c, lock, lifecycle=False):
    n = 0
    a = b = None
    docs = {}
    k = 0
    try:
        a = Workspace(DISK, start=not lifecycle)
        if lifecycle:
            from lsp import Server
            a.s = Server(common.BIN, a.dir)
        else:
            b = Workspace(DISK)
            for ws in (a, b):
                ws.reading(0)
                ws.fence()
        actions = 0
        ready = not lifecycle
        for k, e in enumerate(c["log"]):
            op, r = e["op"], e["r"]
            m0 = a.mark()
            if op == "ask":
                m, p, i = e["x"]
                got = ask(a, e["d"], m, place(docs.get(e["d"]) or [], p, i))
                code = str(got["error"]["code"]) if "error" in got else "0"
                expect("response of %s at step %d" % (m, k + 1), code, r)
                if code == "0":
                    bad = wellformed(m, got.get("result"))
                    if bad:
                        raise Bad("%s at step %d isn't well-formed: %s" % (m, k + 1, bad))
                    if m == "codeAction" and got.get("result"):
                        actions += 1     # that document is analysed once more in a while
                n += 1
            elif op == "compare":
                n += compare(a, b, {d: docs.get(d) for d in sorted(KNOWN | OTHERS)})
            elif op in ("initialize", "shutdown", "strange"):
                n += 1
                lives(a, op, e, k)
                if op == "initialize" and r == "0":
                    ready = True
                    a.fence()
                if op == "shutdown":
                    ready = False
            else:
                for ws in (a, b):
                    if ws:
                        tell(ws, e, docs)
                if op == "open" and ready:
                    docs[e["d"]] = e["x"]
                elif op == "change":
                    i, j, new = e["x"]
                    docs[e["d"]] = docs[e["d"]][:i] + new + docs[e["d"]][j:]
                elif op == "close":
                    docs[e["d"]] = None
            if ready:
                # publications: as many as are due for what was just said, none for questions
                if op in ("open", "save", "close", "ask", "stray change", "stray close"):
                    a.fence()
                    got = [x for u, x in pubs(a, m0) if u == uri(a, e["d"])]
                    # (nothing is said of a text that couldn't be read when it was opened)
                    if op == "save" and e["pub"] and not got:
                        raise Bad("%s isn't published after %s (step %d)" % (e["d"], op, k + 1))
                    # edits before may be analysed now, and so may a document whose file was offered to be created
                    quiet = not any(x["op"] in ("change", "stray change") for x in c["log"][max(0, k - 400):k]) and not actions
                    if quiet and op in ("ask", "stray change", "stray close") and got:
                        raise Bad("%s of %s publishes %s (step %d)" % (op, e["d"], diags_of(got[0]), k + 1))
                    if e["d"] in OTHERS and got:
                        raise Bad("%s is published, it's of another kind" % e["d"])
                    for x in got:
                        for dg in x["params"]["diagnostics"]:
                            if not good_range(dg["range"]):
                                raise Bad("a diagnostic of %s isn't well-formed: %s" % (e["d"], dg))
                    n += 1
            if a.s.panicked or (b and b.s.panicked):
                raise Bad("the server panicked: %s" % (a if a.s.panicked else b).s.stderr.decode(errors="replace")[:300])
        if not lifecycle:
            n += compare(a, b, {d: docs.get(d) for d in sorted(KNOWN | OTHERS)})
    except Bad as e:
        with lock:
            check.violation("%s\n  history: %s" % (e, short(c["log"][:k + 1])), {"case": c, "what": str(e)})
    except (Timeout, ServerDied) as e:
        err = b"".join(w.s.stderr[:400] for w in (a, b) if w and w.s)
        with lock:
            check.violation("no answer (%s %s) at step %d\n  history: %s\n  %s" % (
                type(e).__name__, e, k + 1, short(c["log"][:k + 1]), err.decode(errors="replace")), {"case": c})
    finally:
        for w in (a, b):
            if w:
                w.close()
    with lock:
        check.traces += 1
        check.samples += n


def short(log):
    return [(e["op"], e["d"]) + ((e["x"],) if e["x"] else ()) for e in log]


def lives(a, op, e, k):
    r = e["r"]
    if op == "initialize":
        got = a.s.request("initialize", {"processId": None, "rootUri": None, "capabilities": {}, "initializationOptions": a.config})
        if r == "0":
            m = a.mark()
            a.s.notify("initialized", {})
            a.reading(m)
    elif op == "shutdown":
        got = a.s.request("shutdown", None)
    else:
        x = e["x"][0]
        doc = {"uri": a.uri("templates/a.html")}
        if x == "notification":
            a.s.notify("$/strange", {"x": 1})
            a.s.notify("textDocument/willSave", {"textDocument": doc, "reason": 1})
            return
        method, p = {"method": ("textDocument/strange", {}), "negative": ("textDocument/hover", {"textDocument": doc, "position": {"line": -1, "character": 0}}),
                     "missing": ("textDocument/completion", {"textDocument": doc}),
                     "command": ("workspace/executeCommand", {"command": "strange", "arguments": [1, None]})}[x]
        got = a.s.request(method, p)
    expect("response of %s %s at step %d" % (op, e["x"], k + 1), str(got["error"]["code"]) if "error" in got else "0", r)


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    quick = tier == "quick"
    lock = threading.Lock()
    base = {"Known": KNOWN, "Others": OTHERS, "OnDisk": set(DISK), "Fragments": set(TEXTS), "Random": True}
    jobs = [dict(module="Robust", simulate=160 if quick else 1500, depth=26, seed=common.SEED * 100 + 1, out_const="OutFile",
                 invariants=["Heard", "Answered", "Emit"], constants=dict(base, Steps=14 if quick else 20, Lifecycle=False)),
            dict(module="Robust", simulate=80 if quick else 400, depth=26, seed=common.SEED * 100 + 2, out_const="OutFile",
                 invariants=["Heard", "Answered", "Emit"], constants=dict(base, Steps=16, Lifecycle=True)),
            dict(module="Robust", invariants=["Heard", "Answered"], properties=["OnlyReads"],
                 constants={"Known": {"k"}, "Others": {"o"}, "OnDisk": {"k"}, "Fragments": {"x", "y"}, "Random": False, "Steps": 3, "Lifecycle": False, "OutFile": ""})]
    results = tlc_many(jobs)
    for r in results:
        c.model(r)
    c.assumptions = ["texts are made of %d fragments, of which most aren't whole statements" % len(TEXTS)]
    seen = {}
    for r, lifecycle in zip(results, (False, True)):
        for x in r.cases:
            seen[str(x["log"][:-1])] = (x, lifecycle)   # behaviours that differ in the last step count once
    run = list(seen.values())
    pool(lambda x: live(c, x[0], lock, x[1]) if len(c.violations) < 3 else None, run, 12)
    c.examples += [short(x[0]["log"])[:8] for x in run[:3]]
    return c
