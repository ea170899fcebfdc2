"""P12, P13: Rust and Python sources made by Backend.tla, and what templates know of them."""
import threading

import common
from common import Check, pool, tlc_many
from refs import actions, expect_missing, opened
from session import Workspace, ServerDied, Timeout, goto_set, hover_text, span
from templates import DETAIL, ITEM, Bad, expect


def generate(check, lang, num, size, runs, seed):
    jobs = [dict(module="Backend", invariants=["Sound", "Emit"], simulate=num, depth=size + 20, seed=seed * 1000 + k,
                 out_const="OutFile", constants={"Lang": lang, "MaxItems": size, "Random": True}) for k in range(runs)]
    cases, seen = [], set()
    for r in tlc_many(jobs):
        check.model(r)
        for c in r.cases:
            if str(c) not in seen:
                seen.add(str(c))
                cases.append(c)
    return cases


def source(ws, uri, f):
    """symbols and references of a backend file; returns how much was compared"""
    got = sorted((x["name"], x["kind"]) + span(x["range"]) for x in ws.symbols(uri) or [])
    want = sorted([(x["n"], 13, x["s"], x["e"]) for x in f["names"]] + [(r["n"], 1, r["s"], r["e"]) for r in f["refs"]])
    expect("symbols of the source", got, want)
    for r in f["refs"]:
        got = goto_set(ws.result(ws.ask("definition", uri, r["s"] + 1)))
        expect("definition of %r" % r["n"], got, ("none",) if r["missing"] else ("one", ws.uri("templates/" + r["n"]), 0, 0))
    return len(want) + len(f["refs"])


def templates(ws, uri, probes, files):
    """what a template that uses all names is told; files: (uri, names)"""
    text = "".join("{{ %s }}\n" % n for n in probes) + "{{  }}"
    diags = opened(ws, uri, text)
    places = {n: sorted((u, x["s"], x["e"]) for u, names in files for x in names if x["n"] == n) for n in probes}
    want = sorted((k * 10000 + 3, k * 10000 + 3 + len(n), "elsewhere" if places[n] else "undefined")
                  for k, n in enumerate(probes))
    expect("diagnostics of a template that uses %s" % probes, diags, want)
    for k, n in enumerate(probes):
        p = k * 10000 + 4
        expect("hover of %s" % n, hover_text(ws.result(ws.ask("hover", uri, p))), DETAIL["backend"] if places[n] else None)
        expect("definition of %s" % n, goto_set(ws.result(ws.ask("definition", uri, p))), ("many", places[n]))
    got = ws.result(ws.ask_completion(uri, len(probes) * 10000 + 3))
    for x in got or []:
        if x.get("detail") != DETAIL["backend"] or x.get("kind") != ITEM["backend"]:
            raise Bad("completion offers %s" % x)
    expect("names offered", sorted(x["label"] for x in got or []),
           sorted(x["n"] for _, names in files for x in names))
    return 3 * len(probes) + 1


def place(k, ext):
    """of the others; all but one are called like the source that is opened"""
    return "src/deep%d/main.%s" % (k, ext) if k else "src/disk.%s" % ext


def replay(check, c, lock):
    ext = "rs" if c["lang"] == "rust" else "py"
    files = {"templates/" + p: "" for p in c["tree"]}
    known = []
    for k, f in enumerate(c["files"]):
        files[place(k, ext)] = f["text"]
    n = 0
    ws = None
    try:
        ws = Workspace(files, {"lang": c["lang"]})
        ws.barrier()
        for k, f in enumerate(c["files"]):
            u = ws.uri(place(k, ext))
            known.append((u, f["names"]))
            n += source(ws, u, f)
        t = ws.uri("templates/probe.html")
        n += templates(ws, t, c["probes"], known)
        u = ws.uri("src/main." + ext)
        diags = opened(ws, u, c["doc"]["text"])
        expect("diagnostics of the source", diags, sorted((r["s"], r["e"], "missing") for r in c["doc"]["refs"] if r["missing"]))
        n += source(ws, u, c["doc"])
        n += templates(ws, t, c["probes"], known + [(u, c["doc"]["names"])])
    except Bad as e:
        with lock:
            check.violation("%s\n  source: %s\n  other sources: %s" % (e, c["doc"]["text"], [f["text"] for f in c["files"]]),
                            {"case": c, "what": str(e)})
    except (Timeout, ServerDied) as e:
        with lock:
            check.violation("no answer (%s %s) with %s" % (type(e).__name__, e, c), {"case": c})
    finally:
        if ws:
            ws.close()
    with lock:
        check.traces += 1
        check.samples += n


def check(prop, tier):
    lang = {"P12": "rust", "P13": "python"}[prop]
    c = Check(prop, tier, "model_checking")
    c.assumptions = ["sources are made of the statements of Backend.tla, without syntax errors"]
    quick = tier == "quick"
    cases = generate(c, lang, 160 if quick else 800, 8 if quick else 12, 2, common.SEED)
    lock = threading.Lock()
    pool(lambda x: replay(c, x, lock) if len(c.violations) < 3 else None, cases)
    for x in cases[:3]:
        c.examples.append({"source": x["doc"]["text"], "names": x["doc"]["names"]})
    return c
