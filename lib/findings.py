"""Known findings: genuine defects that are recorded in known-findings.txt instead of repaired."""
import json
import os
import subprocess

import common


def load():
    out = []
    with open(os.path.join(common.VERIF, "known-findings.txt"), encoding="utf-8") as f:
        for line in f:
            if line.startswith("finding: "):
                out.append(json.loads(line[len("finding: "):]))
    return out


def reproduce(check):
    """Print the findings of this property that still fail; one that doesn't any more is just quiet."""
    from session import Workspace, Timeout, ServerDied
    for f in load():
        if f["property"] != check.prop:
            continue
        try:
            if f["kind"] == "diagnostics":
                with Workspace(f.get("files", {})) as ws:
                    u = ws.uri("templates/finding.jinja")
                    ws.barrier()
                    m = ws.mark()
                    ws.open(u, f["text"])
                    got, _ = ws.published(u, m, f.get("timeout", 20.0))
                    fails = got != [tuple(x) for x in f["right"]]
            elif f["kind"] == "edit":
                with Workspace({}, utf8=f.get("utf8", True)) as ws:
                    u = ws.uri("templates/finding.jinja")
                    ws.open(u, f["text"])
                    ws.change(u, f["changes"])
                    ws.barrier()
                    m = ws.mark()
                    ws.save(u)
                    got, _ = ws.published(u, m)
                    fails = got != [tuple(x) for x in f["right"]]
            elif f["kind"] == "exit":
                with Workspace({}) as ws:
                    ws.s.request("shutdown", None)
                    ws.s.notify("exit", None)
                    try:
                        fails = ws.s.p.wait(5) != 0
                    except subprocess.TimeoutExpired:
                        fails = True
            else:
                raise common.Broken("unknown kind of finding " + f["kind"])
        except (Timeout, ServerDied):
            fails = True
        if fails:
            check.finding(f["what"])
