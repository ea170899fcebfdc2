"""P21: histories of calls made by Node, with their results, made to the real addon."""
import json
import os
import shutil
import subprocess
import threading
from urllib.parse import quote

import common
from common import Check, pool, tlc_many
from templates import DETAIL, Bad, expect

FILES = {"file:///x/p.py", "file:///x/p.py.d/q.py", "p.py", "file:///a b/ü.py", "file:///templates/temp.py", "file:///x/p.py.1.jinja"}
HINTS = {"temp", "temp_", "file:///h/temp", "untitled:temp", "file:///x/p.py", "p.py", "other"}
PIECES = {"use p", "field", "fields", "more", "call", "test", "set", "set zed", "for", "with", "macro", "if", "hole", "filter", "line", "text",
          "py dot", "py dots", "py plain", "py other", "py give", "py none", "py lines", "py block", "py pad", "pad"}
TYPE = {"for_key": 0, "for_value": 1, "set": 3, "with": 4, "macro": 5, "param": 6, "block": 7, "backend": 8}
ROW = 10000


def pos(p):
    return {"line": p // ROW, "character": p % ROW}


def pt(p):
    return p["line"] * ROW + p["character"]


def rng(r):
    return (pt(r["start"]), pt(r["end"])) if r else None


class Node:
    def __init__(self):
        self.p = None
        self.addon = os.path.join(common.subdir("node"), "addon.node")
        shutil.copy(common.ADDON, self.addon)

    def run(self, calls):
        if self.p is None or self.p.poll() is not None:
            self.p = subprocess.Popen(["node", os.path.join(common.VERIF, "lib/node.js"), self.addon], stdin=subprocess.PIPE,
                                      stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, RUST_BACKTRACE="0"))
        try:
            self.p.stdin.write(json.dumps(calls).encode() + b"\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
        except BrokenPipeError:
            line = b""
        if not line:
            raise Bad("the process is gone: %s" % self.p.stderr.read().decode(errors="replace")[:400])
        return json.loads(line)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()


def hint(h, n):
    return {"name": n, "description": "of %s: %s" % (h, n)}


def located(h, n):
    return quote("%s-%s" % (h, n), safe="/:~!$&'()*+,;=@-._")


def url_of(f, k):
    """the address of a file as a location has it"""
    if ":" not in f:
        f = "file:///home/%s.%d.%s" % (f, k["id"], k["ext"])
    return quote(f, safe="/:~!$&'()*+,;=@-._%")


def asks(e, absent):
    """(call, what is expected of its result) for everything that can be asked after a step"""
    out = []
    for v in e["view"]:
        k, line = v["k"], v["line"]
        at = "%s %s.%s" % (k["f"], k["id"], k["ext"])
        want = sorted((d["n"], TYPE[d["k"]], d["s"], d["e"]) for d in v["defs"])
        out.append((["getVariables", k, line], "variables of " + at, lambda r, want=want:
                    (sorted((x["name"], x["identifierType"], pt(x["start"]), pt(x["end"])) for x in r or []), want)))
        if k["ext"] != "jinja":
            continue
        a = [k["id"], k["f"], line]
        if line:
            for m in ("hover", "gotoDefinition", "complete"):
                out.append(([m] + a + [pos((line - 1) * ROW + 4)], m + " above " + at, lambda r: (r, None)))
        out.append((["hover"] + a + [pos((line + 50) * ROW)], "hover below " + at, lambda r: (r, None)))
        for u in v["uses"]:
            places = sorted({u["s"], (u["s"] + u["e"]) // 2, u["e"] - 1})
            for p in places:
                out.append((["hover"] + a + [pos(p)], "hover at %d of %s" % (p, at), lambda r, u=u: hovers(r, u)))
                if u["r"] == "var":
                    out.append((["gotoDefinition"] + a + [pos(p)], "definition at %d of %s" % (p, at), lambda r, u=u, k=k: goes(r, u, k)))
            for i, b in enumerate(u["begun"], 1):
                p = u["s"] + i
                out.append((["complete"] + a + [pos(p)], "completion at %d of %s" % (p, at), lambda r, u=u, b=b: begun(r, u, b)))
        for h in v["holes"]:
            out.append((["complete"] + a + [pos(h["at"])], "completion at %d of %s" % (h["at"], at), lambda r, h=h: offers(r, h)))
    for k in absent:
        at = "%s %s.%s" % (k["f"], k["id"], k["ext"])
        out.append((["getVariables", k, 0], "variables of " + at, lambda r: (r, None)))
        if k["ext"] == "jinja":
            for m in ("hover", "gotoDefinition", "complete"):
                out.append(([m, k["id"], k["f"], 3, pos(30005)], m + " in " + at, lambda r: (r, None)))
    return out


def hovers(r, u):
    h = u["hover"]
    if h["kind"] in ("none", "test"):
        return r, None
    if r is None:
        return r, h
    value = r["value"]
    if h["kind"] == "filter":
        value = value if not value.startswith("**%s**" % u["n"]) else "documented"
        want = "documented"
    elif h["by"]:
        want = hint("temp", h["by"])["description"]
    else:
        want = "%s\n\n---\n**%s**" % (DETAIL[h["kind"]], u["n"])
    return (value, r["kind"], rng(r["range"])), (want, "markdown", (u["s"], u["e"]))


def goes(r, u, k):
    if u["own"]["found"]:
        want = [(url_of(k["f"], k), u["own"]["s"], u["own"]["e"], False)]
    else:
        want = sorted((located(x["h"], x["n"]), 0, 0, True) for x in u["hints"])
    got = r if r is None else sorted((x["uri"],) + ((0, 0) if x["isBackend"] else rng(x["range"])) + (x["isBackend"],) for x in r)
    return got, want


def begun(r, u, b):
    if b["none"]:
        return r, None
    return r if r is None else sorted({(x["label"], x["newText"], rng(x["insert"]), rng(x["replace"])) for x in r}), \
        sorted((n, n, (u["s"], u["e"]), (u["s"], u["e"])) for n in b["names"])


def offers(r, h):
    if r is None:
        return r, h
    if h["ctx"] == "filter":
        return ("upper" in [x["label"] for x in r], {x["completionType"] for x in r}), (True, {0})
    got = {x["label"] for x in r}
    told = {x["description"] for x in r if x["description"].startswith("of ")}
    want = set(h["names"]) | set(h["acts"]) | set(h["backend"])
    return (sorted(got), sorted(told), {x["completionType"] for x in r} | {1}), \
        (sorted(want), sorted(hint("temp_", n)["description"] for n in h["acts"]), {1})


def absent_of(view, everything):
    here = {json.dumps(v["k"], sort_keys=True) for v in view}
    return [json.loads(k) for k in everything if k not in here]


def live(check, c, node, lock):
    calls, wants = [], []
    everything = sorted({json.dumps(e["x"]["k"], sort_keys=True) for e in c["log"] if e["op"] == "add"})
    for k, e in enumerate(c["log"]):
        x = e["x"]
        what = " after step %d (%s)" % (k + 1, e["op"])
        if e["op"] == "add":
            q = x["k"]
            args = [q["id"], q["f"], x["text"], x["line"], q["ext"]] + ([x["col"]] if x["col"] or k % 2 else [])
            want = sorted((i["n"], i["s"], i["e"], 11) for i in e["links"])
            calls.append(["addOne"] + args)
            wants.append(("links of step %d" % (k + 1), lambda r, want=want:
                          (sorted((i["name"], pt(i["start"]), pt(i["end"]), i["identifierType"]) for i in r), want)))
            if q["ext"] == "jinja":
                calls.append(["basic", x["text"]])
                wants.append(("number of objects of %r" % x["text"], lambda r, n=x["count"]: (r, n)))
        else:
            h = x.get("h")
            actions = [hint(h, n) for n in x["names"]] if "names" in x else None
            calls.append({"save": lambda: ["saveLinkHint", actions] + ([] if h == "temp" and k % 2 else [h]),
                          "hints": lambda: ["addLinkHints", h, actions],
                          "remove": lambda: ["removeTempLinkHint"] + ([] if h == "temp" and k % 2 else [h]),
                          "delete": lambda: ["deleteAll", x.get("f")]}[e["op"]]())
            wants.append(("result of step %d" % (k + 1), lambda r: (r, None)))
        for call, name, judge in asks(e, absent_of(e["view"], everything)):
            calls.append(call)
            wants.append((name + what, judge))
    n = 0
    try:
        got = node.run(calls)
        for r, (name, judge) in zip(got, wants):
            a, b = judge(r)
            expect(name, a, b)
            n += 1
    except Bad as e:
        with lock:
            check.violation("%s\n  history: %s" % (e, [(x["op"], x["x"]) for x in c["log"]]), {"case": c, "what": str(e)})
    with lock:
        check.traces += 1
        check.samples += n


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    quick = tier == "quick"
    lock = threading.Lock()
    inv = ["Moves", "Apart", "Linked", "Emit"]
    jobs = [dict(module="Node", simulate=100 if quick else 1000, depth=16, seed=common.SEED * 100 + k, invariants=inv[-2:], properties=["Deletes"],
                 out_const="OutFile", constants={"Names_": FILES, "Hints": HINTS, "Pieces": PIECES, "Steps": 10 if quick else 14, "Random": True})
            for k in range(2 if quick else 6)]
    jobs.append(dict(module="Node", invariants=inv[:-1], properties=["Deletes"], constants={
        "Names_": {"a", "b"}, "Hints": {"temp"}, "Pieces": {"set", "fields", "py give"}, "Steps": 2 if quick else 3, "Random": False, "OutFile": ""}))
    cases = {}
    for r in tlc_many(jobs):
        c.model(r)
        for x in r.cases:
            cases[str(x["log"][:-1])] = x    # behaviours that differ in the last step count once
    c.assumptions = ["fragments are made of %d pieces, syntax errors aren't among them" % len(PIECES)]
    nodes = [Node() for _ in range(8)]
    try:
        run = list(cases.values())
        pool(lambda i: [live(c, x, nodes[i], lock) for x in run[i::8] if len(c.violations) < 3], range(8), 8)
    finally:
        for n in nodes:
            n.close()
    c.examples += [[(e["op"], e["x"]) for e in x["log"]][:6] for x in run[:3]]
    return c
