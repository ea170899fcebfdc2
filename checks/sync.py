"""P01: histories of edits made by Sync.tla; the server has to know the text they lead to."""
import json
import threading

import common
from common import Check, pool, tlc_many
from session import Workspace, ServerDied, Timeout, pos, uri_of
from templates import Bad, expect

FILES = {"templates/other.jinja": "{% set w = 1 %}{% macro b() %}{% endmacro %}",
         "src/main.rs": "fn main() { render(context! { be => 1 }); }",
         "src/main.py": "render_template('other.jinja', be=1)"}
NAMES = {"template": ["templates/edited.jinja", "templates/sub dir/é.html"], "rust": ["src/edited.rs", "src/sub dir/é.rs"],
         "python": ["src/edited.py", "src/sub dir/é.py"]}


def generate(check, lang, num, steps, runs, seed):
    jobs = [dict(module="Sync", invariants=["Faithful", "RoundTrip", "Emit"], simulate=num, depth=steps + 3,
                 seed=seed * 1000 + k, out_const="OutFile", constants={"Steps": steps, "Random": True, "Lang": lang}) for k in range(runs)]
    cases, seen = [], set()
    for r in tlc_many(jobs):
        check.model(r)
        for c in r.cases:
            if str(c["log"]) not in seen:
                seen.add(str(c["log"]))
                cases.append(c)
    return cases


def position(p):
    return {"line": p["l"], "character": p["c"]}


def change_of(ch):
    if ch["whole"]:
        return {"text": ch["text"]}
    return {"range": {"start": position(ch["start"]), "end": position(ch["end"])}, "text": ch["text"]}


def points(text):
    """every byte position of the text, and one past the end of each line"""
    return [k * 10000 + c for k, line in enumerate(text.split("\n")) for c in range(len(line.encode()) + 2)]


def normal(x, uri):
    """an answer without the name of the document and without an order of what has none"""
    s = json.loads(json.dumps(x).replace(uri, "file:///DOC"))
    if isinstance(s, list):
        s = sorted(json.dumps(y, sort_keys=True) for y in s)
    return s


def everything(ws, uri, text):
    """all answers about a document; the diagnostics are looked at separately"""
    out = {"symbols": normal(ws.symbols(uri), uri)}
    qs = []
    for p in points(text):
        for m in ("definition", "hover", "completion"):
            qs.append((m, p, ws.ask_completion(uri, p) if m == "completion" else ws.ask(m, uri, p)))
    for m, p, i in qs:
        out["%s at %d" % (m, p)] = normal(ws.result(i), uri)
    return out


def fresh(config, name, text, others):
    """what a new server says of the text, next to the other documents: symbols None if there's a syntax error"""
    with Workspace(FILES, config) as ws:
        ws.barrier()
        for other, its in others:
            ws.open(ws.uri(other), its)
        ws.barrier()
        if any(ws.symbols(ws.uri(other)) is None for other, _ in others):
            return None, None
        uri = ws.uri(name)
        m = ws.mark()
        ws.open(uri, text)
        ws.barrier()
        if ws.symbols(uri) is None:
            return None, None
        diags, _ = ws.published(uri, m)
        a = everything(ws, uri, text)
        return json.loads(json.dumps(a).replace(uri_of(ws.dir), "DIR")), diags


def compare(ws, name, text, others, what):
    want, diags = fresh(ws.config, name, text, others)
    ws.barrier()
    uri = ws.uri(name)
    for other, _ in others:
        ws.save(ws.uri(other))
    ws.barrier()
    m = ws.mark()
    ws.save(uri)
    if want is None:
        ws.barrier()
        return 0
    k, got = m, None
    while got != diags:
        # what an earlier edit caused may come first, so wait for the right one
        try:
            got, j = ws.published(uri, k, 20.0 if got is None else 3.0)
        except Timeout:
            break
        k = j + 1
    expect(what + ", diagnostics", got, diags)
    a = json.loads(json.dumps(everything(ws, uri, text)).replace(uri_of(ws.dir), "DIR"))
    for key in want:
        expect("%s, %s" % (what, key), a[key], want[key])
    return len(want) + 1


def replay(check, cs, lock, k):
    """the histories of one or two documents, step by step"""
    docs = [(NAMES[c["lang"]][(k + i) % 2], c) for i, c in enumerate(cs)]
    lang = "python" if any(c["lang"] == "python" for c in cs) else "rust"
    n, now, ws = 0, {}, None
    try:
        ws = Workspace(FILES, {"lang": lang})
        ws.barrier()
        for i in range(max(len(c["log"]) for c in cs) + 1):
            for name, c in docs:
                uri = ws.uri(name)
                if i > len(c["log"]):
                    continue
                step = c["log"][i] if i < len(c["log"]) else {"op": "look", "after": c["text"], "whole": True}
                now[name] = (step["after"], step["whole"])
                if step["op"] == "open":
                    ws.open(uri, step["text"])
                elif step["op"] == "reopen":
                    ws.shut(uri)
                    ws.open(uri, step["text"])
                elif step["op"] == "change":
                    ws.change(uri, [change_of(x) for x in step["changes"]], i)
                else:
                    others = [(x, now[x]) for x in now if x != name]
                    # (what is known of a document with a syntax error is what it was before)
                    if all(whole for _, (_, whole) in others):
                        n += compare(ws, name, step["after"], [(x, t) for x, (t, _) in others], "%s, after step %d" % (name, i))
    except Bad as e:
        with lock:
            check.violation("%s\n  texts: %s\n  histories: %s" % (e, {x: t for x, (t, _) in now.items()}, [brief(c) for c in cs]),
                            {"cases": cs, "what": str(e)})
    except (Timeout, ServerDied) as e:
        with lock:
            check.violation("no answer (%s %s)\n%s\n  histories: %s" % (
                type(e).__name__, e, ws.s.stderr[-500:].decode("utf-8", "replace") if ws and ws.s else "", [brief(c) for c in cs]), {"cases": cs})
    finally:
        if ws:
            ws.close()
    with lock:
        check.traces += 1
        check.samples += n


def brief(c):
    return [x["text"] if "text" in x else [change_of(y) for y in x["changes"]] for x in c["log"]]


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    c.assumptions = ["line breaks are LF and CRLF (others are a known finding), the client offers UTF-8 positions",
                     "texts with syntax errors are passed through, but not compared (P18)"]
    quick = tier == "quick"
    long = generate(c, "template", 10 if quick else 60, 30, 2, common.SEED + 50)
    cases = [[x] for x in long]
    by = {lang: generate(c, lang, num if quick else 8 * num, 9, 2, common.SEED + i)
          for i, (lang, num) in enumerate([("template", 60), ("rust", 15), ("python", 15)])}
    # two documents are edited in turns, or one alone
    for i, x in enumerate(by["template"]):
        kind = [None, "template", "rust", "python"][i % 4]
        cases.append([x] if kind is None or not by[kind] else [x, by[kind][(i + 1) % len(by[kind])]])
    for lang in ("rust", "python"):
        cases += [[x] for x in by[lang][::2]]
    lock = threading.Lock()
    pool(lambda x: replay(c, x[1], lock, x[0]) if len(c.violations) < 3 else None, list(enumerate(cases)))
    for x in cases[::max(1, len(cases) // 3)][:3]:
        c.examples.append({"histories": [brief(y) for y in x], "texts": [y["text"] for y in x]})
    return c
