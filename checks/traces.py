"""Traces of the real server under load, checked against the specification Server by TLC (ServerTrace)."""
import json
import os
import threading
import time

import common
from common import pool, tlc_many
from session import Workspace, ServerDied, Timeout, diags_of, span

PATHS = {"templates/a.html", "templates/sub/a.html", "src/m.rs"}
CONTENTS = {"empty", "set_p", "moved", "macro_q", "uses", "loop", "inc_b", "inc_a", "give_p", "give_qr", "load"}


def scripts(check, num, steps, seed, paths=PATHS, contents=CONTENTS, runs=1):
    out = []
    for r in tlc_many([dict(module="Load", simulate=num, depth=steps + 3, seed=seed * 1000 + k, out_const="OutFile",
                            constants={"Paths": paths, "Contents": contents, "Steps": steps}, invariants=["Emit"])
                       for k in range(runs)]):
        check.model(r)
        out += r.cases
    return out


def record(script, quiet=1.5):
    """what the client sent and received while living through a script"""
    files = {d["p"]: d["text"] for d in script["disk"] if d["c"]}
    with Workspace(files) as ws:
        time.sleep(0.05)
        last = {}
        for k, s in enumerate(script["script"]):
            u = ws.uri(s["p"]) if s["p"] else None
            if s["op"] == "open":
                ws.open(u, s["text"])
                last.pop(u, None)
            elif s["op"] == "change":
                ws.change(u, [{"text": s["text"]}], k)
                last[u] = time.monotonic()
            elif s["op"] == "save":
                ws.save(u)
            elif s["op"] == "close":
                ws.shut(u)
                last.pop(u, None)
            elif s["op"] == "ask":
                ws.s.request_async("textDocument/documentSymbol", {"textDocument": {"uri": u}})
            elif s["op"] == "reset":
                ws.s.request_async("workspace/executeCommand", {"command": "reset_variables", "arguments": []})
            if s["pause"]:
                time.sleep(s["pause"] / 1000)
        ws.barrier()
        # the analysis of the last edits
        end = time.monotonic() + 10
        while time.monotonic() < end:
            seen = {n["params"]["uri"]: t for t, n in list(ws.s.notes) if n["method"] == "textDocument/publishDiagnostics"}
            if all(seen.get(u, 0) > t + 0.15 for u, t in last.items()):
                break
            time.sleep(0.02)
        n = -1
        while n != len(ws.s.wire):
            n = len(ws.s.wire)
            time.sleep(quiet)
        return events(ws, script, list(ws.s.wire))


def events(ws, script, wire):
    paths = {ws.uri(d["p"]): d["p"] for d in script["disk"]}
    content = {}
    for s in script["script"]:
        if s["op"] in ("open", "change"):
            content[s["text"]] = s["c"]
    asked, out, times = {}, [], []
    base = {"p": "", "c": "", "id": 0}
    for t, ours, m in wire:
        method, params = m.get("method"), m.get("params") or {}
        doc = params.get("textDocument") or {}
        p = paths.get(doc.get("uri"))
        e = None
        if ours and method == "textDocument/didOpen":
            e = dict(base, ev="send", op="open", p=p, c=content[doc["text"]])
        elif ours and method == "textDocument/didChange":
            e = dict(base, ev="send", op="change", p=p, c=content[params["contentChanges"][0]["text"]])
        elif ours and method == "textDocument/didSave":
            e = dict(base, ev="send", op="save", p=p)
        elif ours and method == "textDocument/didClose":
            e = dict(base, ev="send", op="close", p=p)
        elif ours and method == "workspace/executeCommand":
            e = dict(base, ev="send", op="reset")
        elif ours and method == "textDocument/documentSymbol" and p:
            e = dict(base, ev="send", op="ask", p=p, id=m["id"])
            asked[m["id"]] = p
        elif not ours and method == "textDocument/publishDiagnostics":
            e = {"ev": "pub", "p": paths.get(params["uri"], params["uri"]),
                 "diags": [{"s": s, "e": x, "m": k} for s, x, k in diags_of(m)]}
        elif not ours and m.get("id") in asked and method is None:
            r = m.get("result")
            e = {"ev": "answer", "id": m["id"], "null": r is None,
                 "symbols": [{"n": x["name"], "s": span(x["range"])[0], "e": span(x["range"])[1]} for x in r or []]}
        if e:
            out.append(e)
            times.append(t)
    t0 = times[0] if times else 0
    return {"disk": [{"p": d["p"], "c": d["c"]} for d in script["disk"]], "events": out,
            "times": [round((t - t0) * 1000) for t in times]}


def explain(traces, workers=1, heap="3g", timeout=800):
    """indexes of the traces the specification doesn't allow; TLC looks for an explanation of each"""
    d = common.subdir("traces")
    f = os.path.join(d, "traces.ndjson")
    with open(f, "w") as fh:
        for t in traces:
            fh.write(json.dumps({"disk": t["disk"], "events": t["events"]}, ensure_ascii=False) + "\n")
    r = common.tlc("ServerTrace", constants={"TraceFile": f}, out_const="OutFile", invariants=["Accept"],
                   workers=workers, heap=heap, timeout=timeout)
    ok = set(r.cases)
    return r, [i for i in range(len(traces)) if i + 1 not in ok]


def reached(trace):
    """how many events of a trace can be explained"""
    d = common.subdir("traces")
    f = os.path.join(d, "trace.ndjson")
    with open(f, "w") as fh:
        fh.write(json.dumps({"disk": trace["disk"], "events": trace["events"]}, ensure_ascii=False) + "\n")
    r = common.tlc("ServerTrace", constants={"TraceFile": f}, out_const="OutFile", invariants=["Progress"])
    return max([n for _, n in r.cases] or [1]) - 1


def run(check, cases):
    lock = threading.Lock()
    traces = [None] * len(cases)

    def work(k):
        try:
            traces[k] = record(cases[k])
        except (Timeout, ServerDied) as e:
            with lock:
                check.violation("no answer (%s %s)\n  script: %s" % (type(e).__name__, e, cases[k]), {"script": cases[k]})
    pool(work, range(len(cases)), 24)
    have = [k for k in range(len(cases)) if traces[k]]
    parts = common.chunks(have, common.CPUS)
    results = pool(lambda part: explain([traces[k] for k in part]), parts)
    for part, (r, bad) in zip(parts, results):
        check.model(r)
        check.traces += len(part)
        check.samples += sum(len(traces[k]["events"]) for k in part)
        for b in bad[:3]:
            k = part[b]
            n = reached(traces[k])
            lines = ["%3d %5d %s" % (i, t, {x: y for x, y in e.items() if y not in ("", 0)})
                     for i, (t, e) in enumerate(zip(traces[k]["times"], traces[k]["events"]))]
            check.violation("the specification doesn't allow this trace; it explains the first %d events:\n  %s" % (
                n, "\n  ".join(lines[max(0, n - 14):n + 5])), {"script": cases[k], "trace": traces[k], "explained": n})
    if have:
        check.examples.append({"trace": traces[have[0]]["events"][:12]})
