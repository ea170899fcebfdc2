"""P09..P11: references to templates, made by RefGen and Actions, and what the server makes of them."""
import threading
import time

import common
from common import Check, pool, tlc_many
from session import Workspace, ServerDied, Timeout, diags_of, goto_set, pos, span
from templates import Bad, edit_of, expect

DOC = {"template": "templates/main.jinja", "rust": "src/main.rs", "python": "src/main.py"}
EXT = {"template": "jinja", "rust": "rs", "python": "py"}


def generate(check, module, num, size, seed, runs, langs=("template", "rust", "python")):
    jobs = []
    for k in range(runs):
        for lang in langs:
            c = {"Lang": lang, "Random": True}
            if module == "RefGen":
                c["MaxItems"] = size
            else:
                c["Steps"] = size
            jobs.append(dict(module=module, simulate=num, depth=size + 3, seed=seed * 1000 + len(jobs), constants=c,
                             out_const="OutFile",
                             invariants=["Sound", "Emit"] if module == "RefGen" else ["KnownIsTrue", "GenerateFixes", "Emit"]))
    cases, seen = [], set()
    for r in tlc_many(jobs):
        check.model(r)
        for c in r.cases:
            key = str(c)
            if key not in seen:
                seen.add(key)
                cases.append(c)
    return cases


def missing_of(diags):
    return sorted(d[:2] for d in diags if d[2] not in ("undefined", "elsewhere"))


def expect_missing(what, diags, refs):
    got = sorted(d for d in diags if d[2] not in ("undefined", "elsewhere"))
    expect(what, got, sorted((r["s"], r["e"], "missing") for r in refs if r["missing"]))


# ------------------------------------------------------------- code actions
def ask_action(ws, uri, p):
    return ws.s.request_async("textDocument/codeAction", {
        "textDocument": {"uri": uri}, "range": {"start": pos(p), "end": pos(p)}, "context": {"diagnostics": []}})


def action_of(ws, i):
    """None, "reset", or ("create", uri)"""
    r = ws.result(i)
    if not r:
        return None
    if isinstance(r, dict):
        return str(r)
    out = []
    for a in r:
        if a.get("command"):
            out.append(a["command"]["command"])
        elif a.get("edit"):
            ops = a["edit"].get("documentChanges") or []
            if len(ops) != 1 or ops[0].get("kind") != "create" or a["edit"].get("changes"):
                return "odd edit %s" % a
            o = ops[0].get("options") or {}
            if o.get("overwrite"):
                return "overwrites %s" % a
            out.append(("create", ops[0]["uri"]))
        else:
            out.append(a.get("title"))
    if out == ["reset_variables", "warn"]:
        return "reset"
    return out[0] if len(out) == 1 else str(out)


def eventually(what, get, want, seconds=8.0):
    """while the document is analysed again the action is gone for a moment; it's never another one"""
    end = time.monotonic() + seconds
    got = get()
    while got != want and got is None and time.monotonic() < end:
        time.sleep(0.05)
        got = get()
    expect(what, got, want)


def actions(ws, uri, refs, exprs=(), plain=(), dense=True):
    n = 0
    # the actions follow the published diagnostics at once, but not in the same message
    ws.fence()
    ws.barrier()
    for r in sorted(refs, key=lambda r: not r["missing"]):
        want = ("create", ws.uri("templates/" + r["file"])) if r["missing"] else None
        if r["file"] == "" or (want and r["file"].startswith(" ")):
            continue
        eventually("action at %d" % r["s"], lambda: action_of(ws, ask_action(ws, uri, r["s"])), want)
        points = range(r["s"], r["e"] + 1) if dense else (r["s"], r["e"])
        for p, i in [(p, ask_action(ws, uri, p)) for p in points]:
            first = [action_of(ws, i)]
            eventually("action at %d" % p, lambda: first.pop() if first else action_of(ws, ask_action(ws, uri, p)), want)
            n += 1
    for p, want in [(p, "reset") for u in exprs for p in range(u["s"] + 1, u["e"] + 1)] + [(p, None) for p in plain]:
        expect("action at %d" % p, action_of(ws, ask_action(ws, uri, p)), want)
        n += 1
    return n


# ---------------------------------------------------------------- documents
def run(check, cases, observe, vscode=False):
    by = {}
    for c in cases:
        by.setdefault((c["lang"], tuple(sorted(c["tree"]))), []).append(c)
    lock = threading.Lock()

    def work(job):
        (lang, tree), cs = job
        files = {"templates/" + p: "{{ a %}" if p == "broken.html" else "" for p in tree}
        ws = Workspace(files, {"lang": "python" if lang == "python" else "rust"},
                       client="Visual Studio Code" if vscode else "check")
        n = done = 0
        try:
            ws.published(ws.uri("templates/main.jinja"))
            ws.barrier()
            for k, c in enumerate(cs):
                if len(check.violations) >= 3:
                    break
                done += 1
                try:
                    n += observe(ws, k, c)
                except Bad as e:
                    with lock:
                        check.violation("%s\n  document (%s): %r\n  templates: %s" % (e, lang, c["text"], list(tree)),
                                        {"tree": list(tree), "lang": lang, "text": c["text"], "what": str(e), "case": c})
                except (Timeout, ServerDied) as e:
                    with lock:
                        check.violation("no answer (%s %s) for %r\n%s" % (
                            type(e).__name__, e, c["text"], ws.s.stderr[-600:].decode("utf-8", "replace")),
                            {"tree": list(tree), "lang": lang, "text": c["text"]})
                    break
        except (Timeout, ServerDied) as e:
            with lock:
                check.violation("the server doesn't start with templates %s (%s)" % (list(tree), e), {"tree": list(tree)})
        finally:
            ws.close()
        with lock:
            check.traces += done
            check.samples += n
    pool(work, list(by.items()))
    for c in cases[::max(1, len(cases) // 4)][:4]:
        check.examples.append({"lang": c["lang"], "text": c["text"], "tree": c["tree"]})


def opened(ws, uri, text):
    m = ws.mark()
    ws.open(uri, text)
    return ws.published(uri, m)[0]


def places(c):
    """of the document that aren't in the string of a reference"""
    for row, line in enumerate(c["text"].split("\n")):
        col = 0
        for ch in line + "\n":
            p = row * 10000 + col
            if not any(r["s"] <= p <= r["e"] for r in c["refs"]):
                yield p
            col += len(ch.encode())


def references(ws, k, c):
    uri = ws.uri(DOC[c["lang"]])
    diags = opened(ws, uri, c["text"])
    expect_missing("missing templates", diags, c["refs"])
    qs = []
    for r in c["refs"]:
        if r["file"] == "":
            continue
        for p in range(r["s"], r["e"] + 1):
            qs.append((r, p, ws.ask("definition", uri, p)))
    for r, p, i in qs:
        got = goto_set(ws.result(i))
        if got == ("many", []):
            got = ("none",)
        want = ("none",) if r["missing"] else ("one", ws.uri("templates/" + r["file"]), 0, 0)
        expect("definition of %r at %d" % (r["n"], p), got, want)
    # and nothing else leads to a template
    rest = [(p, ws.ask("definition", uri, p)) for p in list(places(c))[k % 2::2]]
    for p, i in rest:
        got = goto_set(ws.result(i))
        if got not in (("none",), ("many", [])) and got[:2] != ("one", uri):
            raise Bad("definition at %d, outside of references: %s" % (p, got))
    return len(qs) + len(rest) + 1


def names(vscode):
    def observe(ws, k, c):
        uri = ws.uri(DOC[c["lang"]])
        opened(ws, uri, c["text"])
        qs, edits = [], []
        for r in c["refs"]:
            for t in r["typed"]:
                qs.append((r, t, ws.ask_completion(uri, t["at"])))
        for r, t, i in qs:
            what = "completion at %d in %r" % (t["at"], r["n"])
            got = ws.result(i)
            if isinstance(got, dict):
                raise Bad("%s: error %s" % (what, got))
            labels = sorted(x["label"] for x in got or [])
            expect(what, labels, sorted(t["offered"]))
            for x in got or []:
                e = edit_of(x)
                expect(what + ", edit of %s" % x["label"], e, (r["s"], r["e"], '"%s"' % x["label"]))
                # (a known finding: the grammar of templates has no quotes inside of strings)
                if c["lang"] != "template" or "'" not in x["label"]:
                    edits.append((r, e))
        n = len(qs)
        rest = [(p, ws.ask_completion(uri, p)) for p in list(places(c))[k % 3::3]]
        for p, i in rest:
            got = ws.result(i)
            if isinstance(got, dict):
                raise Bad("completion at %d: error %s" % (p, got))
            odd = sorted({x["label"] for x in got or []} & set(c["tree"]))
            if odd:
                raise Bad("completion at %d, outside of references, offers templates: %s" % (p, odd))
        n += len(rest)
        # accept a few of them: what is written then isn't missing
        for r, e in edits[::max(1, len(edits) // 3)][:3]:
            lines = c["text"].split("\n")
            row, a, b = r["s"] // 10000, r["s"] % 10000, r["e"] % 10000
            line = lines[row].encode()
            lines[row] = (line[:a] + e[2].encode() + line[b:]).decode()
            diags = opened(ws, uri, "\n".join(lines))
            if any(d[0] == r["s"] for d in missing_of(diags)):
                raise Bad("accepting %s in place of %r leaves it missing" % (e[2], r["n"]))
            n += 1
        return n
    return observe


def action_cases(ws, k, c):
    # every query about a missing reference has the document analysed again, so each gets its own
    uri = ws.uri(DOC[c["lang"]].replace("main", "case%d" % k))
    diags = opened(ws, uri, c["text"])
    expect_missing("missing templates", diags, c["refs"])
    n = 1
    if k % 3 == 0 and (c["exprs"] or c["plain"]):
        m = ws.fence()
        n += actions(ws, uri, [], c["exprs"], c["plain"])
        # nothing was offered that would change anything
        time.sleep(1.7)
        ws.fence()
        expect("publications after questions", [x["params"]["diagnostics"] for _, x in ws.s.notes[m:]
               if x["method"] == "textDocument/publishDiagnostics" and x["params"]["uri"] == uri], [])
        n += 1
    n += actions(ws, uri, c["refs"], c["exprs"], c["plain"])
    # nothing is created from places outside of references
    rest = [(p, ask_action(ws, uri, p)) for p in list(places(c))[k % 4::4]]
    for p, i in rest:
        got = action_of(ws, i)
        if got not in (None, "reset"):
            raise Bad("action at %d, outside of references: %s" % (p, got))
    return n + len(rest)


# ---------------------------------------------------------------- histories
def replay(check, case, lock):
    lang, log = case["lang"], case["log"]
    files = {"templates/" + p: "" for p in log[0]["tree"]}
    n = 0
    ws = None
    try:
        ws = Workspace(files, {"lang": "python" if lang == "python" else "rust"})
        ws.barrier()
        uri = ws.uri(DOC[lang].replace("main", "doc"))
        for k, step in enumerate(log):
            op = step["op"]
            m = ws.mark()
            what = "step %d (%s)" % (k + 1, op)
            if op == "create":
                ws.write("templates/" + step["file"], "")
                continue
            if op == "delete":
                import os
                os.remove(ws.path("templates/" + step["file"]))
                continue
            if op == "generate":
                target = ws.uri("templates/" + step["file"])
                eventually(what + ", action", lambda: action_of(ws, ask_action(ws, uri, step["at"])), ("create", target))
                ws.write("templates/" + step["file"], "")
                m = ws.mark()
            elif op == "open":
                ws.open(uri, step["text"])
            elif op == "save":
                ws.save(uri)
            elif op == "edit":
                ws.change(uri, [{"text": step["text"]}])
            elif op == "shift":
                ws.change(uri, [{"range": {"start": pos(0), "end": pos(0)}, "text": "\n"}])
            want = sorted((r["s"], r["e"]) for r in step["report"] if r["missing"])
            # earlier queries may have caused an analysis just before this one
            end = time.monotonic() + 15
            got = None
            while time.monotonic() < end:
                diags, j = ws.published(uri, m)
                m = j + 1
                got = missing_of(diags)
                if got == want:
                    break
                if op in ("open", "save"):
                    # analysed in turn: whatever was pending came first
                    end = min(end, time.monotonic() + 4)
            expect(what + ", missing templates", got, want)
            n += 1 + actions(ws, uri, step["report"], dense=False)
    except Bad as e:
        with lock:
            check.violation("%s\n  history: %s" % (e, log), {"case": case, "what": str(e)})
    except (Timeout, ServerDied) as e:
        with lock:
            check.violation("no answer (%s %s)\n  history: %s" % (type(e).__name__, e, log), {"case": case})
    finally:
        if ws:
            ws.close()
    with lock:
        check.traces += 1
        check.samples += n


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    c.assumptions = ["names and directory contents are drawn from the pools of RefGen.tla and Actions.tla",
                     "names with .. or a trailing slash, and directories of that name, are not specified beyond being no file"]
    quick = tier == "quick"
    cases = generate(c, "RefGen", 120 if quick else 500, 6 if quick else 9, common.SEED, 1 if quick else 2)
    if prop == "P09":
        run(c, cases, references)
    elif prop == "P10":
        run(c, cases, names(False))
        run(c, cases[::3], names(True), vscode=True)
    else:
        run(c, cases, action_cases)
        histories = generate(c, "Actions", 14 if quick else 150, 8 if quick else 12, common.SEED + 7, 1)
        lock = threading.Lock()
        pool(lambda h: replay(c, h, lock) if len(c.violations) < 3 else None, histories, 16)
        c.examples.append({"history": histories[0]})
    return c
