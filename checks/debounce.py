"""P15: schedules made by Debounce, played in real time on the real server; TLC checks the recorded traces (DebounceTrace)."""
import json
import os
import time

import common
from common import Check, pool, tlc_many
from session import Workspace, ServerDied, Timeout

TICK = 0.04
DOCS = ["templates/a.html", "templates/sub/a.html", "src/m.rs"]
SLACK, GAP = 1000, 70
TEXT = {"html": "%s{{ unknown }}", "jinja": "%s{{ unknown }}", "rs": '%sfn f() { env.get_template("no/such.html"); }'}
WHERE = {"html": 3, "jinja": 3, "rs": 26}


def text(d, v):
    return TEXT[d.split(".")[-1]] % (" " * v)


def play(script, conf=True, tail=1.3):
    """the events of one run: {t: ms, ev, d, v}"""
    docs = DOCS if conf else DOCS[:2]
    with Workspace({d: text(d, 0) for d in docs[1:]}, init=conf) as ws:
        version = {}
        ws.barrier()
        time.sleep(0.2)
        m = len(ws.s.wire)
        t0 = time.monotonic()
        for s in script:
            d = docs[s["d"] - 1] if s["d"] <= len(docs) else None
            if not d:
                continue
            u = ws.uri(d)
            if d not in version:
                version[d] = 0
                ws.open(u, text(d, 0))
                continue
            left = t0 + s["t"] * TICK - time.monotonic()
            if left > 0:
                time.sleep(left)
            if s["op"] == "edit":
                version[d] += 1
                if version[d] % 3:
                    at = {"line": 0, "character": version[d] // 2}
                    ws.change(u, [{"range": {"start": at, "end": at}, "text": " "}], version[d])
                else:
                    ws.change(u, [{"text": text(d, version[d])}], version[d])
            else:
                ws.save(u)
        ws.barrier()
        time.sleep(tail)
        ws.barrier()
        end = time.monotonic()
        wire = list(ws.s.wire)[m:]
        paths = {ws.uri(d): d for d in docs}
    events = []
    for t, ours, msg in wire:
        p = msg.get("params") or {}
        e = {"textDocument/didOpen": "open", "textDocument/didChange": "edit", "textDocument/didSave": "save",
             "textDocument/publishDiagnostics": "pub"}.get(msg.get("method"))
        if not e:
            continue
        d = paths.get(p["uri"] if e == "pub" else p["textDocument"]["uri"])
        v = 0
        if e == "pub":
            if d is None:
                continue
            starts = [x["range"]["start"]["character"] for x in p["diagnostics"]]
            v = starts[0] - WHERE[d.split(".")[-1]] + 1 if len(starts) == 1 else -1
        events.append({"t": round((t - t0) * 1000), "ev": e, "d": d, "v": v})
    events.append({"t": round((end - t0) * 1000), "ev": "end", "d": "", "v": 0})
    return events


def judge(check, traces):
    f = os.path.join(common.subdir("debounce"), "traces.ndjson")
    with open(f, "w") as fh:
        for t in traces:
            fh.write(json.dumps({"events": t}) + "\n")
    r = common.tlc("DebounceTrace", constants={"TraceFile": f, "Slack": SLACK, "Gap": GAP}, out_const="OutFile",
                   invariants=["Report"])
    check.model(r)
    out = {c["tr"] - 1: c for c in r.cases}
    if len(out) != len(traces):
        raise common.Broken("no verdict on %d traces" % (len(traces) - len(out)))
    return [out[i] for i in range(len(traces))]


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    quick = tier == "quick"
    c.assumptions = ["an analysis within %d ms counts as short; of edits less than %d ms apart at most half may be analysed" % (SLACK, GAP),
                     "a schedule has to be broken three times in a row, so that a stalled machine isn't a violation"]
    base = {"Docs": {1, 2, 3}, "Delay": 5, "Random": True}
    jobs = [dict(module="Debounce", simulate=40 if quick else 150, depth=1200, seed=common.SEED * 100 + k, out_const="OutFile",
                 invariants=["Prompt", "Pending", "Emit"],
                 constants=dict(base, Horizon=h)) for k, h in enumerate([90] if quick else [90, 150, 60])]
    jobs.append(dict(module="Debounce", invariants=["Prompt", "Pending"], properties=["OnlyAfterAPause", "Alone"], constraint="Few",
                     constants={"Docs": {1, 2}, "Delay": 2, "Horizon": 5 if quick else 8, "Random": False, "OutFile": ""}, workers=2))
    cases = []
    for r in tlc_many(jobs):
        c.model(r)
        cases += r.cases
    scripts = [(x["script"], k % 4 != 3) for k, x in enumerate(cases)]
    c.examples += [s[0][:10] for s in scripts[:2]]
    kept, verdicts = {}, {}
    todo = list(range(len(scripts)))
    for attempt in range(3):
        got = {}

        def one(k):
            try:
                got[k] = play(*scripts[k])
            except (Timeout, ServerDied) as e:
                got[k] = e
        # fewer at once when a machine may have been too busy
        pool(one, todo, [20, 6, 3][attempt])
        fine = [k for k in todo if isinstance(got[k], list)]
        for k in todo:
            if k not in fine:
                verdicts[k] = {"verdict": "no answer (%s)" % got[k], "l": 0}
                kept[k] = []
        for k, v in zip(fine, judge(c, [got[k] for k in fine]) if fine else []):
            verdicts[k] = v
            kept[k] = got[k]
            c.traces += 1
            c.samples += len(got[k])
        todo = [k for k in todo if verdicts[k]["verdict"] != "accepted"][:24]
        if not todo:
            break
        c.notes.append("attempt %d: %s" % (attempt + 1, [verdicts[k]["verdict"] for k in todo]))
    typed = sum(sum(v["typed"].values()) for v in verdicts.values() if "typed" in v)
    early = sum(sum(v["early"].values()) for v in verdicts.values() if "early" in v)
    c.notes.append("%d edits while typing, %d of them analysed" % (typed, early))
    for k in todo[:3]:
        v = verdicts[k]
        n = v["l"]
        c.violation("%s (%s configuration), at event %d:\n  %s" % (
            v["verdict"], "with" if scripts[k][1] else "without", n, "\n  ".join(str(e) for e in kept[k][max(0, n - 25):n + 3])),
            {"script": scripts[k][0], "conf": scripts[k][1], "events": kept[k], "verdict": v})
    return c
