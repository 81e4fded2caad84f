"""C19: the HTTP notifier.  TLC explores every combination of outcomes on the model (Notifier.tla) and prints them as
scripts; a local HTTP server plays the frontend accordingly for the real status_notifier_handler; TLC judges the record."""
import base64, json, os, random, re, socket, subprocess, threading, time, urllib.parse
from concurrent.futures import ThreadPoolExecutor
import common, gen, simple

TEXT = ["job1", "boom", "a&b=c", "100%", "a b+c", "x;y", "\xc3\xa9\xc4\x8d", "line\nbreak", "status=OK&id=2", "#frag?q=1", "'\"<>", "%41%00", "a=b=c", "\x01\xff"]
IDS = ["job1", "group_job-2", "a/b", "a b", "50%", "x?y=1", "a#b", "\xc3\xa9", "..", "a+b", "a&b", "%2F"]
MSG = TEXT + ["", "m" * 3000, "n" * 5000, "x&y=" * 20000, "long " * 60000]
# answers that reject (417 is left out: libcurl deals with it on its own when it has sent "Expect") and answers that accept
REJECT = [str(c) for c in range(400, 600) if c != 417]
ACCEPT = ["200", "201", "202", "203", "204", "206", "207", "226", "299"]
COMMON = ["400", "401", "403", "404", "409", "429", "500", "502", "503", "599"]


class Frontend:
    """A minimal HTTP/1.1 server that answers as scripted and records what arrives."""

    def __init__(self, skipfile):
        self.skipfile = skipfile
        self.sock = socket.socket()
        self.sock.bind(("127.0.0.1", 0))
        self.sock.listen(16)
        self.port = self.sock.getsockname()[1]
        self.script, self.seen, self.lock = [], [], threading.Lock()
        threading.Thread(target=self.loop, daemon=True).start()

    def now(self):
        try:
            with open(self.skipfile) as f:
                s = int(f.read() or "0")
        except (FileNotFoundError, ValueError):
            s = 0
        return int(time.monotonic() * 1000) + s

    def loop(self):
        while True:
            c, _ = self.sock.accept()
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def serve(self, c):
        c.settimeout(20)
        buf = b""
        try:
            while True:
                while b"\r\n\r\n" not in buf:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                head, buf = buf.split(b"\r\n\r\n", 1)
                lines = head.decode("latin-1").split("\r\n")
                method, target, _ = lines[0].split(" ", 2)
                hd = {k.strip().lower(): v.strip() for k, _, v in (l.partition(":") for l in lines[1:])}
                if hd.get("expect", "").lower() == "100-continue":
                    c.sendall(b"HTTP/1.1 100 Continue\r\n\r\n")
                n = int(hd.get("content-length", "0"))
                while len(buf) < n:
                    d = c.recv(65536)
                    if not d:
                        return
                    buf += d
                body, buf = buf[:n], buf[n:]
                with self.lock:
                    what = self.script.pop(0) if self.script else "200"
                    self.seen.append({"at": self.now(), "ok": what[0] == "2", "method": method, "target": target, "auth": hd.get("authorization", ""),
                                      "body": body.decode("latin-1")})
                if what.endswith("slow"):
                    time.sleep(0.5)
                    what = what[:3]
                if what == "drop":
                    c.close()
                    return
                if what == "half":
                    c.sendall(b"HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\nabc")
                    c.close()
                    return
                text = b"" if what == "204" else b"hello"
                c.sendall(("HTTP/1.1 %s X\r\n%sConnection: close\r\n\r\n" % (what, "" if what == "204" else "Content-Length: 5\r\n")).encode() + text)
                c.close()
                return
        except OSError:
            pass


def decoded(a):
    path, q, query = a["target"].partition("?")
    fields = sorted([k, v] for k, v in urllib.parse.parse_qsl(a["body"], keep_blank_values=True, encoding="latin-1"))
    auth = a["auth"]
    if auth.startswith("Basic "):
        auth = base64.b64decode(auth[6:]).decode("latin-1")
    esc = lambda s: "".join(x if 0x20 <= ord(x) < 0x7f and x not in '%"\\' else "%%%02x" % ord(x) for x in s)
    dig = lambda s: esc(s) if len(s) < 200 else "#%d:%d" % (len(s), hash(s))
    return {"method": a["method"], "path": [esc(urllib.parse.unquote(p, encoding="latin-1")) for p in path.split("/")] + ([query] if q else []),
            "fields": [[dig(k), dig(v)] for k, v in fields], "auth": esc(auth)}


def expected(base, user, pw, frames):
    d = dict(zip(frames[::2], frames[1::2]))
    path = base + ([d["type"]] if d.get("type") else []) + ([d["id"]] if d.get("id") else [])
    return {"method": "POST", "target": "/".join(urllib.parse.quote(p, safe="", encoding="latin-1") for p in path),
            "auth": "" if not (user or pw) else "Basic " + base64.b64encode((user + ":" + pw).encode("latin-1")).decode(),
            "body": urllib.parse.urlencode([(k, v) for k, v in d.items() if k not in ("type", "id")], encoding="latin-1")}


def run(binary, wd, k, plan, r, rejects):
    """plan: a list of lists of outcomes, one per notification; rejects: rejecting answers that have to be used"""
    rejects = list(rejects)
    skip = os.path.join(wd, "skip%d" % k)
    fe = Frontend(skip)
    p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, SKIPPED_FILE=skip))
    base = r.choice([[""], ["", "api", "v1", "broker-reports"], ["", "x"]])
    user, pw = r.choice([("", ""), ("re", "codex"), ("user", ""), ("", "pw"), ("u\xc3\xa9", "p:w@/%"), ("re", "codex")])
    ev = []

    def say(*t):
        p.stdin.write((gen.line(*t) + "\n").encode("latin-1"))
        p.stdin.flush()
        return p.stdout.readline().strip()
    try:
        say("config", "http://127.0.0.1" + "/".join(base), fe.port, user, pw)
        for outcomes in plan:
            kind = r.choice(["ok", "failed", "rejected", "error", "raw"])
            i, m = r.choice(IDS), r.choice(MSG)
            if kind == "ok":
                cmd, fr = ("ok", i), ["type", "job-status", "id", i, "status", "OK"]
            elif kind == "error":
                cmd, fr = ("error", m), ["type", "error", "message", m]
            elif kind == "raw":
                fr = ["type", r.choice(["job-status", "error", "other"]), "id", i, "status", r.choice(TEXT), r.choice(["k", "a b", "x&y"]), m]
                if r.random() < 0.3:
                    fr = fr[4:] + fr[:4]
                cmd = ("raw", *fr)
            else:
                cmd, fr = (kind, i, m), ["type", "job-status", "id", i, "status", "FAILED", "message", m]
            fail = lambda: rejects.pop() if rejects and r.random() < 0.7 else r.choice(COMMON + ["drop", "half", "drop", "half"])
            with fe.lock:
                fe.script = [r.choice(ACCEPT) if o else fail() for o in outcomes]
                fe.seen = []
            ev.append({"k": "notify", "n": decoded(expected(base, user, pw, fr))})
            back = say(*cmd)
            time.sleep(0.005)
            with fe.lock:
                seen = list(fe.seen)
            for a in seen:
                ev.append({"k": "try", "n": decoded(a), "ok": a["ok"], "at": a["at"] % 1000000000})
            ev.append({"k": "done"} if back == b"done" else {"k": "crash", "why": repr(back)})
            if back != b"done":
                break
    finally:
        p.stdin.close()
        p.kill()
        p.wait()
        fe.sock.close()
    return {"ev": ev}


def check(prop):
    rep = common.Report(prop, "model_checking")
    wd = common.workdir(prop)
    T = common.THOROUGH
    r = random.Random("%s/%d/%s" % (prop, common.SEED, common.TIER))
    binary = common.build("h_notifier")
    mx = 4 if T else 3
    rc, out = common.tlc("Notifier", 'CONSTANTS Max=%d Mode="gen"\nSPECIFICATION Spec\nINVARIANTS Holds Emit\nPROPERTY AllDone\n' % mx, wd, workers=1, timeout=900)
    if rc != 0:
        raise common.CheckError("the notifier's specification violates the property:\n" + out[-4000:])
    g, d = common.states_of(out)
    plans = sorted({m for m in re.findall(r'"PATH",\s*(<<.*?>>)\s*>>\s*(?=<<\s*"PATH"|\n[A-Z0-9]|$)', out, re.S)})
    plans = [[[int(x) for x in re.findall(r"\d", p)] for p in re.findall(r"<<([\d,\s]+)>>", q)] for q in plans]
    if len(plans) < 5 ** mx:
        raise common.CheckError("only %d scripts from the specification" % len(plans))
    plans = plans * (2 if not T else 1)
    r.shuffle(plans)
    # several scripts per process
    chunks = [sum(plans[i:i + 8], []) for i in range(0, len(plans), 8)]
    seeds = [r.randrange(1 << 30) for _ in chunks]
    rejects = REJECT * 2
    r.shuffle(rejects)
    rejects = [rejects[i::len(chunks)] for i in range(len(chunks))]
    with ThreadPoolExecutor(common.CPU) as ex:
        runs = list(ex.map(lambda k: run(binary, wd, k, chunks[k], random.Random(seeds[k]), rejects[k]), range(len(chunks))))
    flaky = []

    def again(k):
        return [run(binary, wd, 1000 * (n + 1) + k, chunks[k], random.Random(seeds[k]), rejects[k]) for n in range(3)]
    # a late attempt may be due to a slow machine
    bad, st = simple.decide(lambda rs: simple.judge("NotifierTrace", prop, rs, wd), runs, lambda e: e["k"] in ("try", "done"), again, flaky)
    total = sum(len(x["ev"]) for x in runs)
    tries = sum(e["k"] == "try" for x in runs for e in x["ev"])
    if bad:
        rep.evidence(states=st, transitions=total, traces_validated_against_impl=len(runs), samples=["violating run"])
        x = bad[0]["ev"][:bad[1]]
        last = max(i for i, e in enumerate(x) if e["k"] == "notify")
        rep.violation("C19 violated by the last event of this run of the real notifier", "\n".join(json.dumps(e) for e in x[last:]))
    rep.evidence(states=st + d, transitions=total + g, traces_validated_against_impl=len(runs), http_requests=tries, unrepeatable_rejections=len(flaky),
                 notifications=sum(map(len, chunks)), outcome_scripts_from_spec=len(plans), samples=[runs[0]["ev"][:8]])
    rep.ok()
