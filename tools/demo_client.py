"""A small LSP client for demonstrations: starts target/debug/jinja-lsp of the current directory on a scratch workspace."""
import json, os, subprocess, sys, tempfile, threading, time, shutil, urllib.parse

BIN = os.path.abspath("target/debug/jinja-lsp")
RUST = {"templates": "./templates", "backend": ["./src"], "lang": "rust"}


class Lsp:
    def __init__(self, files=None, options=RUST, client="demo", start=True):
        self.dir = os.path.realpath(tempfile.mkdtemp(prefix="demo"))
        for d in ("templates", "src"):
            os.makedirs(os.path.join(self.dir, d))
        for p, t in (files or {}).items():
            self.write(p, t)
        self.options, self.client, self.p = options, client, None
        self.cv = threading.Condition()
        self.replies, self.notes, self.n, self.dead = {}, [], 0, False
        self.reading = threading.Event()
        self.reading.set()
        if start:
            self.start()

    def write(self, p, t):
        f = os.path.join(self.dir, p)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "w", newline="", encoding="utf-8") as h:
            h.write(t)

    def uri(self, p):
        return "file://" + urllib.parse.quote(os.path.join(self.dir, p), safe="/~!$&'()*+,;=:@-._[]")

    def start(self):
        self.p = subprocess.Popen([BIN], cwd=self.dir, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        threading.Thread(target=self._read, daemon=True).start()
        params = {"processId": None, "rootUri": self.uri(""), "clientInfo": {"name": self.client},
                  "capabilities": {"general": {"positionEncodings": ["utf-8"]}}}
        if self.options is not None:
            params["initializationOptions"] = self.options
        self.ask("initialize", params)
        self.tell("initialized", {})
        self.sync()

    def _read(self):
        f = self.p.stdout
        try:
            while True:
                n = 0
                self.reading.wait()
                while True:
                    line = f.readline()
                    if not line:
                        raise EOFError
                    if line.strip() == b"":
                        break
                    if line.lower().startswith(b"content-length:"):
                        n = int(line.split(b":")[1])
                m = json.loads(f.read(n))
                with self.cv:
                    if "method" in m:
                        self.notes.append(m)
                    else:
                        self.replies.setdefault(m["id"], []).append(m)
                    self.cv.notify_all()
        except Exception:
            with self.cv:
                self.dead = True
                self.cv.notify_all()

    def send(self, m):
        b = json.dumps(dict(m, jsonrpc="2.0")).encode()
        try:
            self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
            self.p.stdin.flush()
        except OSError:
            fail("the server is gone")

    def tell(self, method, params):
        self.send({"method": method, "params": params})

    def post(self, method, params):
        self.n += 1
        self.send({"id": self.n, "method": method, "params": params})
        return self.n

    def reply(self, i, timeout=20):
        with self.cv:
            if not self.cv.wait_for(lambda: i in self.replies or self.dead, timeout) or i not in self.replies:
                fail("no answer")
            r = self.replies[i][0]
        if "error" in r:
            fail("error %s" % r["error"])
        return r.get("result")

    def ask(self, method, params, timeout=20):
        return self.reply(self.post(method, params), timeout)

    def at(self, method, p, line, col, timeout=20):
        return self.ask("textDocument/" + method, {"textDocument": {"uri": self.uri(p)}, "position": {"line": line, "character": col},
                                                   "context": {"triggerKind": 1}}, timeout)

    def labels(self, p, line, col):
        return sorted(x["label"] for x in self.at("completion", p, line, col) or [])

    def hover(self, p, line, col):
        r = self.at("hover", p, line, col)
        return r and r["contents"]["value"]

    def goto(self, p, line, col):
        """sorted (uri, line, column) of where it leads to"""
        r = self.at("definition", p, line, col)
        r = [r] if isinstance(r, dict) else r or []
        return sorted((x["uri"], x["range"]["start"]["line"], x["range"]["start"]["character"]) for x in r)

    def symbols(self, p):
        r = self.ask("textDocument/documentSymbol", {"textDocument": {"uri": self.uri(p)}})
        return r and [(x["name"], x["selectionRange"]["start"]["line"], x["selectionRange"]["start"]["character"]) for x in r]

    def actions(self, p, line, col):
        q = {"line": line, "character": col}
        r = self.ask("textDocument/codeAction", {"textDocument": {"uri": self.uri(p)}, "range": {"start": q, "end": q},
                                                 "context": {"diagnostics": []}})
        return r or []

    def open(self, p, text):
        self.tell("textDocument/didOpen", {"textDocument": {"uri": self.uri(p), "languageId": "jinja", "version": 0, "text": text}})

    def change(self, p, *changes):
        """a text, or (line, column, line, column, text)"""
        cs = [{"text": c} if isinstance(c, str) else
              {"range": {"start": {"line": c[0], "character": c[1]}, "end": {"line": c[2], "character": c[3]}}, "text": c[4]} for c in changes]
        self.tell("textDocument/didChange", {"textDocument": {"uri": self.uri(p), "version": 1}, "contentChanges": cs})

    def save(self, p):
        self.tell("textDocument/didSave", {"textDocument": {"uri": self.uri(p)}})

    def shut(self, p):
        self.tell("textDocument/didClose", {"textDocument": {"uri": self.uri(p)}})

    def sync(self):
        self.ask("textDocument/documentSymbol", {"textDocument": {"uri": "file:///none.jinja"}})

    def pubs(self, p):
        """what was published for a file: lists of (message, line, column, end column)"""
        with self.cv:
            return [sorted((d["message"], d["range"]["start"]["line"], d["range"]["start"]["character"], d["range"]["end"]["character"])
                           for d in m["params"]["diagnostics"])
                    for m in self.notes if m["method"] == "textDocument/publishDiagnostics" and m["params"]["uri"] == self.uri(p)]

    def shows(self, p, want, timeout=8, what=""):
        """in the end, `want` is what was published last"""
        end = time.time() + timeout
        while time.time() < end:
            got = self.pubs(p)
            if got and got[-1] == want:
                return
            time.sleep(0.02)
        fail("%s%s: %s published, %s expected" % (what and what + ": ", p, self.pubs(p)[-1:], want))

    def analysed(self, p, want, what=""):
        """what a save publishes"""
        n = len(self.pubs(p))
        self.save(p)
        end = time.time() + 10
        while len(self.pubs(p)) <= n and time.time() < end:
            time.sleep(0.01)
        got = self.pubs(p)[-1] if len(self.pubs(p)) > n else None
        same(got, want, what or "diagnostics of %s" % p)

    def reset(self):
        n = len(self.notes)
        self.ask("workspace/executeCommand", {"command": "reset_variables", "arguments": []})
        with self.cv:
            if not self.cv.wait_for(lambda: any(m["method"] == "window/logMessage" and m["params"]["message"] == "Initialized"
                                                for m in self.notes[n:]), 10):
                fail("no reset")
        self.sync()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.reading.set()
        if self.p:
            self.p.kill()
            self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)


def fail(why):
    print("DEMO FAILS:", why)
    sys.stdout.flush()
    for x in list(LIVE):
        x.close()
    os._exit(1)


LIVE = []
_init = Lsp.__init__


def _remember(self, *a, **k):
    LIVE.append(self)
    _init(self, *a, **k)


Lsp.__init__ = _remember
U, E, M = "Undefined variable", "Variable is defined in other file.", "Template not found"


def same(got, want, what):
    if got != want:
        fail("%s: %s, expected %s" % (what, got, want))
