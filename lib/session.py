"""A jinja-lsp server on a scratch workspace, and the observations the checks make of it."""
import os
import urllib.parse

from common import BIN, subdir
from lsp import SAFE, Server, ServerDied, Timeout  # noqa: F401

ROW = 10000


def uri_of(path):
    return "file://" + urllib.parse.quote(path, safe=SAFE)


def pos(p):
    """a point of the specification as an LSP position"""
    return {"line": p // ROW, "character": p % ROW}


def pt(q):
    return q["line"] * ROW + q["character"]


def span(r):
    return (pt(r["start"]), pt(r["end"]))


MESSAGES = {"Undefined variable": "undefined", "Variable is defined in other file.": "elsewhere",
            "Template not found": "missing"}
SEVERITY = {"undefined": 2, "elsewhere": 3, "missing": 2}


def diags_of(note):
    """diagnostics as a sorted list of (start, end, kind); the severity has to fit the kind"""
    out = []
    for d in note["params"]["diagnostics"]:
        kind = MESSAGES.get(d["message"], d["message"])
        if SEVERITY.get(kind) != d.get("severity"):
            kind += "/severity %s" % d.get("severity")
        out.append(span(d["range"]) + (kind,))
    return sorted(out)


class Workspace:
    """files: {relative path: text}; lives in a scratch directory of its own"""

    def __init__(self, files=None, config=None, client="check", start=True, name="ws", utf8=True, init=True):
        # the directory has a name that can be written in several ways; every other workspace is of an editor
        # that escapes more than the server does
        self.dir = os.path.realpath(subdir(name + "+(\u00e9)@"))
        self.escape = self.dir[-1] in "13579"
        os.makedirs(os.path.join(self.dir, "templates"), exist_ok=True)
        os.makedirs(os.path.join(self.dir, "src"), exist_ok=True)
        for p, text in (files or {}).items():
            self.write(p, text)
        self.config = {"templates": "./templates", "backend": ["./src"], "lang": "rust"}
        if config:
            self.config.update(config)
        self.client, self.encodings = client, ["utf-8", "utf-16"] if utf8 else None
        self.s = None
        self.send_config = init
        if start:
            self.start()

    def path(self, p):
        return os.path.join(self.dir, p)

    def uri(self, p):
        return uri_of(self.path(p))

    def write(self, p, text):
        full = self.path(p)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w", encoding="utf-8", newline="") as f:
            f.write(text)

    def start(self, initialized=True):
        self.s = Server(BIN, self.dir, escape=self.escape)
        caps = {"general": {"positionEncodings": self.encodings}} if self.encodings is not None else {}
        params = {"processId": None, "rootUri": uri_of(self.dir), "capabilities": caps,
                  "clientInfo": {"name": self.client}}
        if self.send_config:
            params["initializationOptions"] = self.config
        self.init_result = self.s.request("initialize", params)
        if initialized:
            self.s.notify("initialized", {})
        return self.s

    def close(self):
        if self.s:
            self.s.close()
            self.s = None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ------------------------------------------------------- notifications
    def open(self, uri, text, lang="jinja"):
        self.s.notify("textDocument/didOpen", {"textDocument": {
            "uri": uri, "languageId": lang, "version": 0, "text": text}})

    def change(self, uri, changes, version=1):
        self.s.notify("textDocument/didChange", {
            "textDocument": {"uri": uri, "version": version}, "contentChanges": changes})

    def save(self, uri):
        self.s.notify("textDocument/didSave", {"textDocument": {"uri": uri}})

    def shut(self, uri):
        self.s.notify("textDocument/didClose", {"textDocument": {"uri": uri}})

    def mark(self):
        return len(self.s.notes)

    def published(self, uri, start=0, timeout=20.0):
        """diagnostics of the first publish for uri at or after `start`, and its index"""
        k = self.s.wait_note(lambda m: m["method"] == "textDocument/publishDiagnostics"
                             and m["params"]["uri"] == uri, start, timeout)
        return diags_of(self.s.notes[k][1]), k

    def fence(self):
        """Everything the server has to publish for what was sent so far is published: a document nobody has seen
        is opened and heard of.  Index of that among the notes."""
        self.marks = getattr(self, "marks", 0) + 1
        u = self.uri("mark/n%d.html" % self.marks)
        m = self.mark()
        self.open(u, "")
        k = self.published(u, m)[1]
        self.shut(u)
        return k

    def is_mark(self, uri):
        return uri.startswith(self.uri("mark/"))

    def reset(self):
        """variables are read again, which is said before it's done (and asked of the server itself, later)"""
        m = self.mark()
        self.s.request("workspace/executeCommand", {"command": "reset_variables", "arguments": []})
        self.reading(m)

    def reading(self, m):
        self.s.wait_note(lambda n: n["method"] == "window/logMessage" and n["params"]["message"] == "Initialized", m)

    def barrier(self):
        """Everything sent so far has been processed by the server."""
        return self.s.request("textDocument/documentSymbol", {"textDocument": {"uri": "file:///none.jinja"}})

    # ------------------------------------------------------------ requests
    def ask(self, method, uri, p, extra=None):
        params = {"textDocument": {"uri": uri}, "position": pos(p)}
        if extra:
            params.update(extra)
        return self.s.request_async("textDocument/" + method, params)

    def ask_completion(self, uri, p):
        return self.ask("completion", uri, p, {"context": {"triggerKind": 1}})

    def result(self, i, timeout=20.0):
        r = self.s.wait(i, timeout)
        if "error" in r:
            return {"error": r["error"]}
        return r.get("result")

    def symbols(self, uri):
        return self.result(self.s.request_async("textDocument/documentSymbol", {"textDocument": {"uri": uri}}))


def goto_set(result):
    """('one', uri, start, end) or ('many', sorted list of (uri, start, end)) or ('none',)"""
    if result is None:
        return ("none",)
    if isinstance(result, dict) and "error" not in result:
        return ("one", result["uri"]) + span(result["range"])
    if isinstance(result, list):
        return ("many", sorted((r["uri"],) + span(r["range"]) for r in result))
    return ("error", str(result))


def hover_text(result):
    if result is None:
        return None
    if "error" in result:
        return str(result)
    return result["contents"]["value"]
