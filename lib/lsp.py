"""Minimal JSON-RPC / LSP stdio client used to drive the real jinja-lsp binary.

One reader thread collects everything the server writes, in order, so that the
order of publishDiagnostics notifications is exactly the order on the wire.
"""
import json
import os
import re
import subprocess
import threading
import time
import urllib.parse

SAFE = "/~!$&'()*+,;=:@-._[]"     # what the server doesn't escape in the names of files


class ServerDied(Exception):
    pass


class Timeout(Exception):
    pass


def respell(x, how):
    """the message with its URIs of files written in another way"""
    if isinstance(x, dict):
        return {k: how(v) if k == "uri" and isinstance(v, str) and v.startswith("file:///") else respell(v, how) for k, v in x.items()}
    return [respell(y, how) for y in x] if isinstance(x, list) else x


def escaped(uri):
    """as an editor may write it that escapes whatever it may"""
    u = urllib.parse.quote(urllib.parse.unquote(uri[7:], errors="surrogateescape"), safe="/", errors="surrogateescape")
    return "file://" + re.sub("%..", lambda m: m.group().lower(), u)


def plain(uri):
    return "file://" + urllib.parse.quote(urllib.parse.unquote(uri[7:], errors="surrogateescape"), safe=SAFE, errors="surrogateescape")


class Server:
    def __init__(self, binary, cwd, env=None, escape=False):
        self.escape = escape
        e = dict(os.environ)
        e["RUST_BACKTRACE"] = "0"
        if env:
            e.update(env)
        self.p = subprocess.Popen(
            [binary], cwd=cwd, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, env=e)
        self.cv = threading.Condition()
        self.next_id = 0
        self.responses = {}
        self.notes = []          # every server->client notification, in wire order
        self.wire = []           # everything, as (time, sent by us?, message)
        self.gate = threading.Event()   # cleared: we don't read
        self.gate.set()
        self.dead = False
        self.stderr = b""
        self.t = threading.Thread(target=self._read, daemon=True)
        self.t.start()
        self.t2 = threading.Thread(target=self._err, daemon=True)
        self.t2.start()

    def _err(self):
        for line in self.p.stderr:
            self.stderr += line
            if b"panicked at" in line:
                with self.cv:
                    self.cv.notify_all()

    @property
    def panicked(self):
        return b"panicked at" in self.stderr

    def _read(self):
        f = self.p.stdout
        try:
            while True:
                n = None
                self.gate.wait()
                while True:
                    line = f.readline()
                    if not line:
                        raise EOFError
                    line = line.strip()
                    if not line:
                        break
                    if line.lower().startswith(b"content-length:"):
                        n = int(line.split(b":")[1])
                body = f.read(n)
                if len(body) < n:
                    raise EOFError
                msg = json.loads(body)
                if self.escape:
                    msg = respell(msg, plain)
                with self.cv:
                    self.wire.append((time.monotonic(), False, msg))
                    if "method" in msg:
                        self.notes.append((time.monotonic(), msg))
                    else:
                        self.responses.setdefault(msg.get("id"), []).append(msg)
                    self.cv.notify_all()
        except (EOFError, ValueError, OSError, TypeError):
            with self.cv:
                self.dead = True
                self.cv.notify_all()

    def send_raw(self, obj):
        b = json.dumps(respell(obj, escaped) if self.escape else obj, ensure_ascii=False).encode("utf-8", "surrogatepass")
        with self.cv:
            self.wire.append((time.monotonic(), True, obj))
        try:
            self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            raise ServerDied()

    def notify(self, method, params):
        self.send_raw({"jsonrpc": "2.0", "method": method, "params": params})

    def request_async(self, method, params):
        self.next_id += 1
        i = self.next_id
        m = {"jsonrpc": "2.0", "id": i, "method": method}
        if params is not None:
            m["params"] = params
        self.send_raw(m)
        return i

    def wait(self, i, timeout=20.0):
        end = time.monotonic() + timeout
        with self.cv:
            while i not in self.responses:
                if self.dead:
                    raise ServerDied()
                left = end - time.monotonic()
                if left <= 0:
                    raise Timeout("no response to request %d" % i)
                self.cv.wait(min(left, 0.25))
            return self.responses[i][0]

    def request(self, method, params, timeout=20.0):
        return self.wait(self.request_async(method, params), timeout)

    def wait_note(self, pred, start=0, timeout=20.0):
        """index of the first notification at or after `start` satisfying pred"""
        end = time.monotonic() + timeout
        with self.cv:
            k = start
            while True:
                while k < len(self.notes):
                    if pred(self.notes[k][1]):
                        return k
                    k += 1
                if self.dead:
                    raise ServerDied()
                left = end - time.monotonic()
                if left <= 0:
                    raise Timeout("no notification")
                self.cv.wait(min(left, 0.25))

    def close(self):
        self.gate.set()
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(0.5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        for f in (self.p.stdout, self.p.stderr):
            pass
