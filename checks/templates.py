"""P02..P08: templates made by the specification TemplateGen, and what the server says about them."""
import re
import threading

import common
from common import Check, chunks, pool, tlc_many
from session import ROW, Workspace, ServerDied, Timeout, goto_set, hover_text, pos, span, pt, diags_of

SYMBOL = {"for_key": 13, "for_value": 13, "set": 13, "with": 13, "macro": 12, "param": 8, "block": 2, "backend": 13}
ITEM = {"for_key": 6, "for_value": 6, "set": 6, "with": 6, "macro": 3, "param": 5, "backend": 6}
DETAIL = {"for_key": "For loop key", "for_value": "For loop value", "set": "Set variable", "with": "With variable",
          "macro": "Macro", "param": "Macro parameter", "block": "Template block", "backend": "Backend variable"}
# names of variables: short ones, such as filters and tests have, such as begin with a keyword, long ones, such as differ in case
NAMES = [{"v", "w", "va", "b"}, {"w", "va", "_v1", "isAdmin_X9", "a_very_long_variable_name_of_forty_chars"},
         {"v", "V", "vA", "va"}, {"upper", "odd", "is_x", "not_b", "w"}, {"in_a", "set_b", "or_", "loop2", "b", "va"}]


class Bad(Exception):
    """The server said something else than the specification."""


def generate(check, envs, num, items, seed, runs, exhaustive=()):
    """cases by simulation for every environment, exhaustively for the (items, env) pairs given"""
    jobs = []
    for k in range(runs):
        for e in envs:
            jobs.append(dict(module="TemplateGen", invariants=["Sound", "Emit"], simulate=num, depth=items + 2,
                             seed=seed * 1000 + len(jobs), out_const="OutFile",
                             constants={"Names": NAMES[(len(jobs) + seed) % len(NAMES)], "MaxItems": items, "Random": True, "Rich": True, "Env": e}))
    # long ones
    jobs.append(dict(jobs[0], simulate=num // 5, depth=3 * items + 2, seed=seed * 1000 + len(jobs), constants=dict(jobs[0]["constants"], MaxItems=3 * items)))
    for n, e in exhaustive:
        jobs.append(dict(module="TemplateGen", invariants=["Sound", "Emit"], out_const="OutFile", workers=2,
                         constants={"Names": {"v", "w"}, "MaxItems": n, "Random": False, "Rich": False, "Env": e}))
    cases, lists = [], None
    for r in tlc_many(jobs):
        check.model(r)
        lists = r.cases[0]
        cases += r.cases[1:]
    seen, out = set(), []
    for c in cases:
        key = (c["env"], c["text"])
        if key not in seen:
            seen.add(key)
            out.append(c)
    return lists, out


def run(check, lists, cases, observe, vscode=False):
    """observe(ws, uri, case, diags, lists) raises Bad; cases of one environment share a server"""
    by_env = {}
    for c in cases:
        by_env.setdefault(c["env"], []).append(c)
    jobs = []
    share = max(1, -(-len(cases) // common.CPUS))
    for env, cs in by_env.items():
        for k in range(0, len(cs), share):
            jobs.append((env, cs[k:k + share]))
    lock = threading.Lock()

    def work(job):
        env, cs = job
        files = {f["path"]: f["text"] for f in cs[0]["files"]}
        config = {"lang": "python" if env == "python" else "rust"}
        if env == "hidden":
            config["hide_undefined"] = True
        client = "Visual Studio Code" if vscode else "check"
        n = 0
        history = []
        ws = Workspace(files, config, client=client)
        try:
            uri = ws.uri("templates/main.jinja")
            for p in files:
                if p.startswith("templates"):
                    ws.published(ws.uri(p))
            ws.barrier()
            for c in cs:
                if len(check.violations) >= 3:
                    break
                history.append(c["text"])
                m = ws.mark()
                ws.open(uri, c["text"])
                try:
                    diags, _ = ws.published(uri, m)
                    n += observe(ws, uri, c, diags, lists)
                except Bad as e:
                    with lock:
                        check.violation("%s\n  text: %r\n  environment: %s" % (e, c["text"], env),
                                        {"env": env, "files": files, "text": c["text"], "what": str(e),
                                         "previous": history[-4:-1], "case": c})
                except (Timeout, ServerDied) as e:
                    with lock:
                        check.violation("no answer (%s %s) for %r\n%s" % (
                            type(e).__name__, e, c["text"], ws.s.stderr[-600:].decode("utf-8", "replace")),
                            {"env": env, "files": files, "text": c["text"], "previous": history[-4:-1]})
                    break
        except (Timeout, ServerDied) as e:
            with lock:
                check.violation("the server doesn't start with %s (%s)" % (env, e), {"env": env, "files": files})
        finally:
            ws.close()
        with lock:
            check.traces += len(history)
            check.samples += n
    pool(work, jobs)
    if cases:
        for c in cases[::max(1, len(cases) // 4)][:4]:
            check.examples.append({"env": c["env"], "text": c["text"]})


def expect(what, got, want):
    if got != want:
        raise Bad("%s: got %s, specification says %s" % (what, got, want))


# ------------------------------------------------------------- observations
def diagnostics(ws, uri, c, diags, lists):
    want = sorted((u["s"], u["e"], u["diag"]) for u in c["uses"] if u["diag"] != "none")
    expect("diagnostics", diags, want)
    return len(c["uses"])


def symbols(ws, uri, c, diags, lists):
    got = sorted((x["name"], x["kind"]) + span(x["range"]) + span(x["selectionRange"]) for x in ws.symbols(uri) or [])
    want = sorted((x["n"], SYMBOL[x["k"]], x["s"], x["e"], x["s"], x["e"]) for x in c["symbols"])
    expect("symbols", got, want)
    return len(want) + 1


def elsewhere(ws, c, name):
    return ("many", sorted((ws.uri(d["f"]), d["s"], d["e"]) for d in c["else"] if d["n"] == name))


def rest(ws, c):
    """the places of a document that aren't at any word, and the file named there"""
    taken = {p for u in c["uses"] for p in range(u["s"], u["e"] + 1)}
    for row, line in enumerate(c["text"].split("\n")):
        names = {row * 10000 + p: ws.uri("templates/" + m.group()[1:-1])
                 for m in re.finditer(r"""(["'])(sub/)?other\.jinja\1""", line) for p in range(len(line[:m.start()].encode()), len(line[:m.end()].encode()) + 1)}
        col = 0
        for ch in line + "\n":
            p = row * 10000 + col
            if p not in taken:
                yield p, names.get(p)
            col += len(ch.encode())


def goto(ws, uri, c, diags, lists):
    # the other files' names in import and from lead there, other places nowhere
    qs = [(p, uri_, ws.ask("definition", uri, p)) for p, uri_ in rest(ws, c)]
    for p, there, i in qs:
        got = goto_set(ws.result(i))
        expect("definition at %d" % p, ("many", []) if got == ("none",) else got, ("one", there, 0, 0) if there else ("many", []))
    n = len(qs)
    qs = []
    for u in c["uses"]:
        if u["r"] not in ("var", "inert"):
            continue
        t = u["goto"]
        want = ("many", []) if u["r"] == "inert" else ("one", uri, t["s"], t["e"]) if t["found"] else elsewhere(ws, c, u["n"])
        for p in range(u["s"], u["e"] + 1):
            qs.append((u, p, want, ws.ask("definition", uri, p)))
    for u, p, want, i in qs:
        got = goto_set(ws.result(i))
        expect("definition of %s at %d" % (u["n"], p), ("many", []) if got == ("none",) else got, want)
    return n + len(qs)


def hover(ws, uri, c, diags, lists):
    qs = [(p, ws.ask("hover", uri, p)) for p, _ in rest(ws, c)]
    for p, i in qs:
        expect("hover at %d" % p, hover_text(ws.result(i)), None)
    n = len(qs)
    qs = []
    for u in c["uses"]:
        if u["r"] == "loose":
            continue
        for p in range(u["s"], u["e"] + 1):
            qs.append((u, p, ws.ask("hover", uri, p)))
    for u, p, i in qs:
        got = hover_text(ws.result(i))
        want = c["uses"][u["root"] - 1]["hover"]
        what = "hover of %s at %d" % (u["n"], p)
        if want in ("filter", "test"):
            words = lists[want + "s"][u["n"]]
            if got is None or words not in got or (want == "test" and got.startswith("**")):
                raise Bad("%s: got %r, specification says the documentation of the %s" % (what, got, want))
        else:
            expect(what, got, None if want == "none" else DETAIL[want])
    return n + len(qs)


def backend_items(c):
    return sorted((d["n"], "backend") for d in c["else"] if d["k"] == "backend")


def items_of(ws, what, r):
    """(name, kind) of the variables offered, other items as they are"""
    if r is None:
        return None
    if isinstance(r, dict):
        raise Bad("%s: error %s" % (what, r))
    out = []
    for x in r:
        kind = [k for k, d in DETAIL.items() if d == x.get("detail")]
        if not kind:
            raise Bad("%s: offers %s" % (what, x))
        if x.get("kind") != ITEM.get(kind[0]):
            raise Bad("%s: kind of %s" % (what, x))
        out.append((x["label"], kind[0]))
    return out


def offered(what, ws, got, visible, backend, prefix=""):
    items = items_of(ws, what, got)
    if items is None:
        items = []
    mine = [x for x in items if x[1] != "backend"]
    expect(what + ", backend names", sorted(x for x in items if x[1] == "backend"), backend)
    names = sorted(n for n, _ in mine)
    want = sorted({v["n"] for v in visible if v["n"].startswith(prefix)})
    expect(what, names, want)
    for n, k in mine:
        if not any(v["n"] == n and v["k"] == k for v in visible):
            raise Bad("%s: %s isn't a %s" % (what, n, k))


def edit_of(item):
    """what accepting an item does: (start, end, text), all its edits taken together"""
    edits = []
    t = item.get("textEdit")
    if t is not None:
        if "insert" in t:
            if t["insert"] != t["replace"]:
                raise Bad("insert and replace differ in %s" % item)
            edits.append((span(t["replace"]), t["newText"]))
        else:
            edits.append((span(t["range"]), t["newText"]))
    for t in item.get("additionalTextEdits") or []:
        edits.append((span(t["range"]), t["newText"]))
    edits = [e for e in edits if e[0][0] != e[0][1] or e[1]]
    if not edits:
        return None
    if len(edits) > 1:
        raise Bad("several edits in %s" % item)
    return edits[0][0] + (edits[0][1],)


def completion(vscode):
    def observe(ws, uri, c, diags, lists):
        backend = backend_items(c)
        qs = []
        for h in c["holes"]:
            if h["ctx"] == "vars":
                qs.append(("hole", h, h["at"], ws.ask_completion(uri, h["at"])))
        for u in c["uses"]:
            if u["bare"]:
                for p in range(u["s"] + 1, u["e"] + 1):
                    qs.append(("use", u, p, ws.ask_completion(uri, p)))
        for kind, x, p, i in qs:
            what = "completion at %d" % p
            got = ws.result(i)
            if kind == "hole":
                offered(what, ws, got, x["visible"], backend)
                for item in got or []:
                    expect(what + ", edit of %s" % item["label"], edit_of(item), None)
            else:
                prefix = x["n"][:p - x["s"]]
                offered(what + " after %r" % prefix, ws, got, x["visible"], backend, prefix)
                for item in got or []:
                    if item["detail"] == DETAIL["backend"]:
                        continue
                    e = edit_of(item)
                    # (VS Code is told to by an additional edit)
                    expect(what + ", edit", e, (x["s"], x["e"], item["label"]))
        return len(qs)
    return observe


def doc(item):
    d = item.get("documentation")
    return d.get("value", "") if isinstance(d, dict) else d or ""


def context(ws, uri, c, diags, lists):
    qs = [(h, ws.ask_completion(uri, h["at"])) for h in c["holes"]]
    for h, i in qs:
        got = ws.result(i)
        what = "completion at %d" % h["at"]
        if isinstance(got, dict):
            raise Bad("%s: error %s" % (what, got))
        ctx = h["ctx"]
        if ctx == "none":
            if got:
                raise Bad("%s: offers %s, specification says nothing" % (what, [x["label"] for x in got][:5]))
        elif ctx == "vars":
            items_of(ws, what, got)
        else:
            check_list(what, got, lists[ctx], ctx)
    return len(qs) + tails(ws, uri, c, lists)


def tails(ws, uri, c, lists):
    """the template with a statement begun at its end"""
    for t in c["tails"]:
        ws.open(uri, t["text"])
        got = ws.result(ws.ask_completion(uri, t["at"]))
        what = "completion at the end of %r" % t["text"]
        if isinstance(got, dict):
            raise Bad("%s: error %s" % (what, got))
        check_list(what, got, lists["snippets"], "snippets")
        for x in got:
            e = edit_of(x)
            if e is None or (x["label"] in lists["snippets"] and lists["snippets"][x["label"]] not in e[2]):
                raise Bad("%s: snippet %s" % (what, x))
            if e[0] != t["at"]:
                raise Bad("%s: snippet %s isn't inserted at the cursor" % (what, x["label"]))
    return len(c["tails"])


def check_list(what, got, words, ctx):
    labels = [x["label"] for x in got or []]
    if len(labels) != len(set(labels)):
        raise Bad("%s: something is offered twice in %s" % (what, labels))
    missing = set(words) - set(labels)
    if missing:
        raise Bad("%s: %s, specification says %s" % (what, labels[:6], ctx))
    for x in got:
        if ctx in ("filters", "tests"):
            d = doc(x)
            if not d or (x["label"] in words and words[x["label"]] not in d):
                raise Bad("%s: documentation of %s is %r" % (what, x["label"], d))
            if ctx == "tests" and d.startswith("**"):
                raise Bad("%s: documentation of the test %s is that of a filter" % (what, x["label"]))


# ------------------------------------------------------------------- checks
def sizes(tier, quick, thorough):
    return quick if tier == "quick" else thorough


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    c.assumptions = ["documents are drawn from the items of TemplateGen.tla (bounded length, four names)",
                     "TLC simulation samples them, small ones are enumerated"]
    num, items, runs = sizes(tier, (130, 9, 2), (700, 12, 4))
    envs = {"P02": ["alone", "templates"], "P03": ["alone", "templates", "rust", "python", "mixed", "hidden"],
            "P04": ["alone", "rust"], "P05": ["alone", "templates", "mixed", "python"],
            "P06": ["alone", "mixed", "python"], "P07": ["alone", "mixed", "python"],
            "P08": ["alone", "mixed"]}[prop]
    if prop == "P03":
        runs = max(1, runs // 2)
    if len(envs) == 2:
        runs *= 2
    exhaustive = [(2, envs[0])] if tier == "quick" else [(3, envs[0])]
    if prop == "P03":
        exhaustive += [(2, "hidden"), (2, "mixed")]
    if prop == "P08":
        exhaustive = []
    lists, cases = generate(c, envs, num, items, common.SEED, runs, exhaustive)
    observers = {"P02": diagnostics, "P03": diagnostics, "P04": symbols, "P05": goto, "P06": hover,
                 "P08": context}
    if prop == "P07":
        run(c, lists, cases, completion(False))
        some = [x for x in cases if x["env"] == "mixed"]
        run(c, lists, some, completion(True), vscode=True)
    else:
        run(c, lists, cases, observers[prop])
    return c
