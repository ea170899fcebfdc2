"""P25: statements typed by Editor.tla, key by key, with an editor that does what the server advertises and nothing else."""
import random
import re
import threading

import common
from common import Check, pool, tlc
from session import Workspace, ServerDied, Timeout, diags_of, span
from templates import SYMBOL, Bad, expect

TREE = {"templates/base.html": "", "templates/sub/base.jinja": "", "templates/b c.html": "", "templates/notes.txt": ""}
ROW = 10000
ENCODINGS = [["utf-8", "utf-16"], ["utf-16", "utf-8"], ["utf-8"], ["utf-32", "utf-8", "utf-16"]]
NAME = re.compile(r"[A-Za-z_][A-Za-z0-9_]*$")


def need(what, value):
    if not value:
        raise Bad("not advertised: " + what)


class Editor:
    """one document in an editor; places are byte columns"""

    def __init__(self, ws, caps, name, insert, vscode):
        self.ws, self.caps, self.uri, self.insert, self.vscode = ws, caps, ws.uri("pages/" + name), insert, vscode
        self.sync = caps.get("textDocumentSync") or {}
        if isinstance(self.sync, int):
            self.sync = {"openClose": True, "change": self.sync, "save": True}
        need("documents that are opened", self.sync.get("openClose"))
        need("documents that change", self.sync.get("change"))
        need("documents that are saved", self.sync.get("save"))
        self.utf8 = caps.get("positionEncoding") == "utf-8"
        self.version, self.text = 0, ""

    def offset(self, p):
        """of a place in the text; past the end of a line is its end"""
        lines = self.text.encode().split(b"\n")
        r, c = divmod(p, ROW)
        if r >= len(lines):
            return len(self.text.encode())
        return sum(len(x) + 1 for x in lines[:r]) + min(c, len(lines[r]))

    def position(self, p):
        r, c = divmod(p, ROW)
        if not self.utf8:
            line = self.text.encode().split(b"\n")[r]
            c = len(line[:c].decode().encode("utf-16-le")) // 2
        return {"line": r, "character": c}

    def place(self, q):
        r, c = q["line"], q["character"]
        if not self.utf8:
            c = len(self.text.split("\n")[r].encode("utf-16-le")[:2 * c].decode("utf-16-le").encode())
        return r * ROW + c

    def open(self, text):
        self.text = text
        self.ws.open(self.uri, text)

    def edit(self, s, e, new):
        change = {"range": {"start": self.position(s), "end": self.position(e)}, "text": new}
        b = self.text.encode()
        self.text = (b[:self.offset(s)] + new.encode() + b[self.offset(e):]).decode()
        self.version += 1
        self.ws.change(self.uri, [change if self.sync["change"] == 2 else {"text": self.text}], self.version)

    def analysed(self):
        """saves; the diagnostics of that"""
        m = self.ws.mark()
        self.ws.save(self.uri)
        k = self.ws.fence()
        got = [diags_of(n) for _, n in self.ws.s.notes[m:k] if n["method"] == "textDocument/publishDiagnostics" and n["params"]["uri"] == self.uri]
        need("an analysis of saved documents", got)
        return got[-1]

    def ask(self, p, key):
        c = self.caps.get("completionProvider")
        need("completion", c is not None)
        if key in (c.get("triggerCharacters") or []):
            context = {"triggerKind": 2, "triggerCharacter": key}
        elif NAME.match(key) or key in "./":
            # as part of a word, or asked for by hand
            context = {"triggerKind": 1}
        else:
            raise Bad("nothing is asked for after %r, it's none of the trigger characters %s" % (key, c.get("triggerCharacters")))
        r = self.ws.result(self.ws.s.request_async("textDocument/completion", {
            "textDocument": {"uri": self.uri}, "position": self.position(p), "context": context}))
        return r if isinstance(r, list) else (r or {}).get("items", r)

    def accept(self, item, p, fill=()):
        """the edits of an item; one without any replaces the name before the cursor by its label"""
        t = item.get("textEdit")
        new = (t or {}).get("newText", item.get("insertText") or item["label"])
        if t is None:
            before = self.text.encode()[:self.offset(p)].decode()
            w = NAME.search(before)
            edits = [(p - (len(w.group()) if w else 0), p, new)]
        else:
            r = t.get("range") or t["insert" if self.insert else "replace"]
            s, e = self.place(r["start"]), self.place({**r["end"], "character": min(r["end"]["character"], 5000)})
            # in VS Code what was typed goes by another edit
            if not (s <= p and (p <= e or self.vscode) and s // ROW == p // ROW == e // ROW):
                raise Bad("the edit of %r isn't around the cursor at %d: %s" % (item["label"], p, r))
            edits = [(s, e, new)]
        for x in item.get("additionalTextEdits") or []:
            edits.append((self.place(x["range"]["start"]), self.place(x["range"]["end"]), x["newText"]))
        if item.get("insertTextFormat") == 2:
            blanks = list(fill)
            edits[0] = edits[0][:2] + (re.sub(r"\$\{\d+:([^}]*)\}", r"\1", re.sub(r"\$\d+", lambda _: blanks.pop(0) if blanks else "", edits[0][2])),)
        for s, e, new in sorted(edits, reverse=True):
            if s != e or new:
                self.edit(s, e, new)


def offered(ed, e):
    """asks after a key; the items"""
    o = e["offer"]
    p = e["at"] + 1
    if o["due"] in ("var", "begun"):
        ed.analysed()
    items = ed.ask(p, e["key"])
    expect("%s offered after %r" % (o["due"], ed.text.encode()[:ed.offset(p)].decode()), sorted(x["label"] for x in items or []), sorted(o["names"]))
    return items


def features(ws, caps, ed, e):
    """what an editor asks once somebody is done typing"""
    n = 0
    doc = {"textDocument": {"uri": ed.uri}}
    need("symbols", caps.get("documentSymbolProvider"))
    got = ws.symbols(ed.uri)
    want = sorted([(x["n"], SYMBOL[x["k"]], x["s"], x["e"]) for x in e["symbols"]])
    expect("symbols", sorted((x["name"], x["kind"], ed.place(x["range"]["start"]), ed.place(x["range"]["end"])) for x in got or []), want)
    for d in e["symbols"]:
        if d["k"] == "block":
            continue
        at = {**doc, "position": ed.position(d["s"])}
        need("hover", caps.get("hoverProvider"))
        ws.result(ws.s.request_async("textDocument/hover", at))
        need("definitions", caps.get("definitionProvider"))
        r = ws.result(ws.s.request_async("textDocument/definition", at))
        expect("definition of a definition", r and span(r["range"]), span({"start": ed.position(d["s"]), "end": ed.position(d["e"])}))
        n += 2
    need("code actions", caps.get("codeActionProvider"))
    need("commands", caps.get("executeCommandProvider"))
    known = set(caps["executeCommandProvider"].get("commands") or [])
    b = ed.text.encode()
    for k in range(0, len(b), 3):
        line = b[:k].count(b"\n")
        p = line * ROW + k - (b.rfind(b"\n", 0, k) + 1)
        if b[k:k + 1] < b"\x80":
            q = ed.position(p)
            r = ws.result(ws.s.request_async("textDocument/codeAction", {**doc, "range": {"start": q, "end": q}, "context": {"diagnostics": []}}))
            for a in r or []:
                if a.get("command"):
                    c = a["command"]
                    c = c["command"] if isinstance(c, dict) else c
                    if c not in known:
                        raise Bad("an action at %d is the command %r, not one of %s" % (p, c, sorted(known)))
            n += 1
    return n + len(want)


def live(ws, caps, check, c, k, vscode):
    ed = Editor(ws, caps, "typed%d.html" % k, k % 2, vscode)
    items, n = None, 0
    for e in c["log"]:
        op = e["op"]
        if op == "open":
            ed.open(e["text"])
        elif op == "key":
            if e["sent"]:
                ed.edit(e["at"], e["at"], e["sent"])
            if e["offer"]["due"]:
                items = offered(ed, e)
                n += 1
        elif op in ("accept", "snippet"):
            it = [x for x in items if x["label"] == e["label"]][0]
            ed.accept(it, e["at"], e.get("fill", ()))
        if op == "end":
            expect("the text", ed.text, e["text"])
            expect("diagnostics of %r" % ed.text, ed.analysed(), sorted((d["s"], d["e"], d["m"]) for d in e["diags"]))
            n += 2 + features(ws, caps, ed, e)
        if op == "snippet":
            d = ed.analysed()
            got = ws.symbols(ed.uri)
            if got is None:
                raise Bad("the snippet %r leads to a text with an error: %r" % (e["label"], ed.text))
            expect("symbols after the snippet %r: %r" % (e["label"], ed.text), sorted((x["name"], x["kind"]) for x in got),
                   sorted((x["n"], SYMBOL[x["k"]]) for x in e["symbols"]))
            expect("diagnostics after the snippet %r: %r" % (e["label"], ed.text), sorted(x[2] for x in d),
                   ["missing"] * e["missing"] + ["undefined"] * e["undefined"])
            n += 2
    ws.shut(ed.uri)
    return n


def session(check, cases, number, lock):
    ws = None
    n = done = 0
    c = None
    try:
        vscode = number % 3 == 2
        ws = Workspace(TREE, client="Visual Studio Code" if vscode else "check", start=False)
        ws.encodings = ENCODINGS[number % len(ENCODINGS)]
        ws.start()
        caps = ws.init_result["result"]["capabilities"]
        expect("encoding", caps.get("positionEncoding"), "utf-8")
        ws.reading(0)
        ws.fence()
        for k, c in enumerate(cases):
            # snippets of VS Code are those of its extension
            if len(check.violations) < 3 and not (vscode and c["log"][-1]["op"] == "snippet"):
                n += live(ws, caps, check, c, k, vscode)
                done += 1
        for command in caps["executeCommandProvider"]["commands"]:
            r = ws.s.request("workspace/executeCommand", {"command": command, "arguments": []})
            if "error" in r:
                raise Bad("the command %r fails: %s" % (command, r))
        asked = [m for _, ours, m in ws.s.wire if not ours and "method" in m and "id" in m]
        expect("requests of the server to a client without capabilities", asked, [])
    except Bad as e:
        with lock:
            check.violation("%s\n  typed: %s" % (e, brief(c)), {"case": c, "what": str(e)})
    except (Timeout, ServerDied) as e:
        with lock:
            check.violation("no answer (%s %s)\n  typed: %s" % (type(e).__name__, e, brief(c)), {"case": c})
    finally:
        if ws:
            ws.close()
    with lock:
        check.traces += done
        check.samples += n


def plain(encodings):
    """the encoding is one the client has"""
    ws = Workspace(TREE, start=False)
    try:
        ws.encodings = encodings
        ws.start()
        got = ws.init_result["result"]["capabilities"].get("positionEncoding")
        if got not in (encodings or []) + [None, "utf-16"]:
            raise Bad("positions are in %s, the client knows %s" % (got, encodings))
    finally:
        ws.close()


def brief(c):
    return c and [(e["op"], e.get("text") or e.get("key") or e.get("label")) for e in c["log"]]


def check(prop, tier):
    c = Check(prop, tier, "model_checking")
    quick = tier == "quick"
    lock = threading.Lock()
    c.assumptions = ["statements and surroundings are those of Editor.tla"]
    r = tlc("Editor", constants={"Modes": {"pairs", "braces", "none"}}, out_const="OutFile", seed=common.SEED, depth=80,
            simulate=1200 if quick else None, invariants=["Intended", "OfferedOrUnknown", "Narrows", "Emit"], workers=1, heap="8g")
    c.model(r)
    cases = r.cases
    try:
        for x in ([], None, ["utf-16"], ["utf-32"], ["utf-16", "utf-32"]):
            plain(x)
    except Bad as e:
        c.violation(str(e), {})
    groups = 8 if quick else 64
    for n in range(1 if quick else 5):
        # another editor for each of them
        random.Random(common.SEED + n).shuffle(cases)
        pool(lambda k: session(c, cases[k::groups], k, lock), range(groups), 8)
    c.examples += [brief(x) for x in cases[:3]]
    return c
