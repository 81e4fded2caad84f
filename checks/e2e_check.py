"""C23: the assembled program.  Behaviours of the specification are played by real ZeroMQ and HTTP peers against a real
broker process; TLC searches for an execution of the specification that explains what the peers received (E2ETrace.tla)."""
import json, os, queue, random, re, shutil, socket, subprocess, threading, time
from concurrent.futures import ThreadPoolExecutor
import common, events, gen, modelgen
from notifier_check import Frontend, decoded

PORTS = iter(())
LOCK = threading.Lock()


def free_port(r, high=False):
    """below and above 2^15; the range from which the system takes ports for outgoing connections is avoided"""
    lo, hi = EPHEMERAL
    while True:
        p = r.randrange(33000, 65536) if high else r.randrange(20000, 32000)
        if lo <= p <= hi and r.random() < (0.98 if hi - lo < 45000 else 0.5):
            continue
        s = socket.socket()
        try:
            s.bind(("0.0.0.0", p))
        except OSError:
            continue
        finally:
            s.close()
        with LOCK:
            if p not in TAKEN:
                TAKEN.add(p)
                return p


TAKEN = set()
try:
    EPHEMERAL = tuple(int(x) for x in open("/proc/sys/net/ipv4/ip_local_port_range").read().split())
except (OSError, ValueError):
    EPHEMERAL = (32768, 60999)


class Setup(Exception):
    """the scenario could not be set up (ports taken, ...)"""


class Stuck(Exception):
    """the broker did not do in time what the driver waits for"""


def unesc(s):
    return re.sub("%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), s)


class Net:
    """A broker process with its peers."""

    def __init__(self, prog, peers, wd, name, cfg, r, seed):
        self.dir = os.path.join(wd, name)
        os.makedirs(self.dir)
        self.r, self.cfg = r, cfg
        ports, r = r, random.Random("net%s" % seed)      # every attempt at a scenario has the same configuration, but for the ports
        self.fe = Frontend(os.path.join(self.dir, "skip"))
        self.cp, self.wp, self.mp = (free_port(ports, r.random() < 0.4) for _ in range(3))
        # the three sides listen at addresses of their own
        addr = r.sample(["127.0.0.1", "127.0.0.2", "127.0.3.4"], 3)
        self.ca, self.wa, self.ma = addr
        self.user, self.pw = r.choice([("re", "codex"), ("", ""), ("a b", "p:w")])
        y = {"clients": {"address": self.ca, "port": self.cp},
             "workers": {"address": self.wa, "port": self.wp, "max_liveness": cfg["live"], "ping_interval": cfg["ival"],
                         "max_request_failures": cfg["maxf"]},
             "monitor": {"address": self.ma, "port": self.mp},
             "notifier": {"address": "http://127.0.0.1/api", "port": self.fe.port, "username": self.user, "password": self.pw},
             "logger": {"file": os.path.join(self.dir, "log", "broker"), "level": r.choice(["debug", "info", "off"]), "max-size": 1000000, "rotations": 2},
             "queue_manager": cfg["mgr"]}
        if self.ma == "127.0.0.1" and r.random() < 0.5:
            del y["monitor"]["address"]                  # the default
        for side in ("clients", "workers"):
            a = r.random()
            if a < 0.15:
                y[side]["address"] = "*"
            elif a < 0.3:
                del y[side]["address"]                   # the default: everywhere
        if cfg["mgr"] == "single" and r.random() < 0.3:
            del y["queue_manager"]                       # the default
        conf = os.path.join(self.dir, "config.yml")
        with open(conf, "w") as f:
            json.dump(y, f)
        self.last = {}                                   # peer -> frames last received etc.
        self.log, self.cond, self.muted = [], threading.Condition(), {}
        self.bridge = subprocess.Popen([peers], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        threading.Thread(target=self.reader, daemon=True).start()
        self.say("monitor", "recodex-monitor", "tcp://%s:%d" % (self.ma, self.mp), "recodex-monitor")
        # (without the option, config.yml in the working directory is used)
        args = r.choice([["-c", conf], ["--config", conf], ["--config=" + conf], []])
        self.prog = subprocess.Popen([prog] + args, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=open(os.path.join(self.dir, "stderr"), "wb"))
        self.blocks, self.cur, self.regs = [], {}, set()
        self.ins, self.stage = [], 0
        self.seen_fe = 0
        self.mark = 0
        self.inbox = {}

    def say(self, *t):
        try:
            self.bridge.stdin.write(("\t".join(gen.esc(str(x)) for x in t) + "\n").encode("latin-1"))
            self.bridge.stdin.flush()
        except OSError:
            raise Setup("peers ended")

    def reader(self):
        for line in self.bridge.stdout:
            f = [unesc(x) for x in line.decode("latin-1").rstrip("\n").split("\t")]
            with self.cond:
                if f[0] == "recv":
                    self.log.append((f[1], f[3:]))
                    if f[1].startswith("w") and f[3:4] == ["eval"] and len(f) > 4:
                        self.cur[f[1]] = f[4]
                elif f[0] == "muted":
                    self.muted[f[1]] = int(f[2])
                self.cond.notify_all()

    def wait(self, test, seconds=15):
        end = time.monotonic() + seconds
        with self.cond:
            while True:
                v = test()
                if v:
                    return v
                if self.prog.poll() is not None:
                    raise Stuck("the program ended with status %s" % self.prog.returncode)
                if time.monotonic() > end:
                    return None
                self.cond.wait(0.05)

    def send(self, peer, *f):
        self.say("send", peer, *f)
        self.ins.append({"peer": peer, "stage": self.stage, "f": list(f)})

    def connect(self):
        """everybody connects; the first messages may be lost only on the way to the monitor (not connected yet)"""
        for c in ("c1", "c2", "cs", "cw"):
            self.say("peer", c, "tcp://%s:%d" % (self.ca, self.cp), c)
        for w in ("w1", "w2", "w3", "ws"):
            self.say("peer", w, "tcp://%s:%d" % (self.wa, self.wp), w)
        self.say("send", "ws", "ping")
        if not self.wait(lambda: ("ws", ["intro"]) in self.log, 20):
            raise Setup("no answer")
        for i in range(200):
            self.say("send", "ws", "progress", "hello")
            if self.wait(lambda: ("recodex-monitor", ["hello"]) in self.log, 0.1):
                break
        else:
            raise Setup("the monitor was not reached")
        self.say("send", "ws", "progress", "start")
        if not self.wait(lambda: ("recodex-monitor", ["start"]) in self.log, 20):
            raise Stuck("progress did not reach the monitor")
        self.mark = len(self.log)
        self.send("ws", "init", "sync-group", "sync=1")
        self.regs.add("ws")
        self.say("alive", "ws", "100")
        self.send("ws", "ping")
        self.expect("ws", lambda f: f == ["pong"], "a pong")
        self.flush("start")

    def expect(self, peer, test, what, seconds=20):
        def go():
            for p, f in self.log[self.mark:]:
                if p == peer and test(f):
                    return True
        if not self.wait(go, seconds):
            raise Stuck("%s did not receive %s" % (peer, what))

    def count(self, peer, test, since):
        return sum(1 for p, f in self.log[since:] if p == peer and test(f))

    def flush(self, tag):
        """End of a block: every sender gets the reply to a last message (so that everything sent has been handled), then
        every receiver gets something that was sent to it after all of that."""
        everyone = ["c1", "c2", "w1", "w2", "w3"]
        senders = [p for p in everyone if any(i["peer"] == p for i in self.ins)]

        def ask(p):
            # counted from the start of the block: the replies to all the requests sent in this block
            want = (lambda f: f in (["pong"], ["intro"])) if p[0] == "w" else (lambda f: len(f) > 3)
            n = sum(1 for i in self.ins if i["peer"] == p and i["f"][:1] == (["ping"] if p[0] == "w" else ["get-runtime-stats"]))
            self.send(p, *(["ping"] if p[0] == "w" else ["get-runtime-stats"]))
            if not self.wait(lambda: self.count(p, want, self.mark) >= n + 1, 20):
                raise Stuck("%s got no answer" % p)
        silent = getattr(self, "silent", set())
        for p in senders:
            if p not in silent:
                ask(p)
        self.stage += 1
        # the frontend and the monitor: a job of the driver's own worker, and its progress
        job = "sync%s%d" % (tag, len(self.blocks))
        self.send("cs", "eval", job, "hwgroup=sync-group", "", "x")
        self.expect("cs", lambda f: f and f[0] in ("accept", "reject"), "a verdict")
        if any(p == "cs" and f[:1] == ["reject"] for p, f in self.log[self.mark:]):
            # frozen (or wrongly rejected, which the specification will not explain): the worker declares a job instead
            self.stage += 1
            self.toggle = not getattr(self, "toggle", False)
            self.send("ws", "init", "sync-group", "sync=%d" % (2 if self.toggle else 1), "", "current_job=" + job)
        else:
            self.expect("ws", lambda f: f[:2] == ["eval", job], "the synchronisation job")
        self.stage += 1
        self.send("ws", "progress", job)
        self.send("ws", "done", job, "OK")
        self.expect("recodex-monitor", lambda f: f == [job], "progress")
        end = time.monotonic() + 20
        while not any("/" + job in s["target"] and s["ok"] for s in list(self.fe.seen)[self.seen_fe:]):
            if time.monotonic() > end or self.prog.poll() is not None:
                raise Stuck("the frontend did not receive a result")
            time.sleep(0.005)
        for p in everyone:
            if p not in silent:
                self.stage += 1
                ask(p)
        self.close()

    def outage(self):
        """the frontend refuses a notification three times (the notifier then waits for 7 s); meanwhile everybody is served"""
        job = "out%d" % len(self.blocks)
        self.send("cs", "eval", job, "hwgroup=sync-group", "", "x")
        self.expect("cs", lambda f: f and f[0] in ("accept", "reject"), "a verdict")
        if not any(p == "cs" and f[:1] == ["reject"] for p, f in self.log[self.mark:]):
            self.expect("ws", lambda f: f[:2] == ["eval", job], "the synchronisation job")
            n = len(self.fe.seen)
            self.fe.script = ["500", "503", "404"]
            self.stage += 1
            self.send("ws", "done", job, "OK")
            end = time.monotonic() + 20
            while len(self.fe.seen) == n:
                if time.monotonic() > end:
                    raise Stuck("the frontend did not receive a result")
                time.sleep(0.005)
            self.outages = getattr(self, "outages", 0) + 1
            self.stage += 1
            self.send("c1", "get-runtime-stats")
            self.send("c2", "eval", job + "x", "hwgroup=sync-group", "", "y")
            self.send("w1", "ping")
            ok = self.wait(lambda: self.count("c1", lambda f: len(f) > 3, self.mark) and self.count("c2", lambda f: f[:1] == ["ack"], self.mark)
                           and self.count("w1", lambda f: f in (["pong"], ["intro"]), self.mark) and self.count("ws", lambda f: f[:2] == ["eval", job + "x"], self.mark), 4)
            if not ok:
                raise Stuck("the broker does not serve its peers while the frontend refuses a notification")
            self.stage += 1
            self.send("ws", "done", job + "x", "OK")
        self.flush("out")

    def close(self):
        with self.cond:
            got, self.mark = self.log[self.mark:], len(self.log)
        outs = {}
        for p, f in got:
            if p != "cw":
                outs.setdefault(p, []).append(("clients" if p[0] == "c" else "workers" if p[0] == "w" else "monitor", p, f))
        posts = []
        fe = list(self.fe.seen)
        for a in fe[self.seen_fe:]:
            if not a["ok"]:
                continue                                 # a failed attempt
            d = decoded(a)
            f = dict((k, v) for k, v in d["fields"])
            okauth = d["auth"] == ("" if not (self.user or self.pw) else "%s:%s" % (self.user, self.pw)) and d["method"] == "POST" and d["path"][:2] == ["", "api"]
            posts.append({"to": "n", "who": "", "f": [], "t": (d["path"] + ["", ""])[2] if okauth else "?", "id": "/".join(d["path"][3:]),
                          "s": f.get("status", ""), "m": f.get("message", "")})
        self.seen_fe = len(fe)
        self.blocks.append({"ins": self.ins, "outs": outs, "posts": posts})
        self.ins, self.stage = [], 0

    def worker_count(self):
        """asked by a client outside the record; -1: no answer"""
        n = len(self.log)
        self.say("send", "cw", "get-runtime-stats")
        got = self.wait(lambda: [f for p, f in self.log[n:] if p == "cw"], 20)
        if not got:
            raise Stuck("no answer to get-runtime-stats")
        d = dict(zip(got[0][::2], got[0][1::2]))
        return int(d.get("worker-count", "-1"))

    def death(self, ws):
        """the workers fall silent until the broker declares them dead"""
        self.wait(lambda: True)
        for w in ws:
            self.muted.pop(w, None)
            self.say("alive", w, "0")
        self.wait(lambda: all(w in self.muted for w in ws))
        self.silent = set(ws)
        left = len(self.regs) - len(ws)
        end = time.monotonic() + self.cfg["live"] * (self.cfg["ival"] + 300) / 1000 + 25
        first = None
        while True:
            n = self.worker_count()
            at = int(time.monotonic() * 1000)
            if first is None and n < len(self.regs):
                first = at
            if n <= left:
                break
            if time.monotonic() > end:
                raise Stuck("silent workers %s are still registered" % sorted(ws))
            time.sleep(0.05)
        for i, w in enumerate(sorted(ws)):
            self.ins.append({"peer": "clock" + w, "stage": self.stage, "die": w, "wait": (first if i == 0 else at) - min(self.muted[x] for x in ws) if i == 0 else at - self.muted[w]})
            self.cur.pop(w, None)
            self.regs.discard(w)
        self.flush("death")
        self.silent = set()

    def stop(self):
        for p in (self.prog, self.bridge):
            p.kill()
            p.wait()
        self.fe.sock.close()
        shutil.rmtree(self.dir, ignore_errors=True)


DEAD = []


def scenario(prog, peers, wd, name, seed, path, cfg):
    r = random.Random(seed)
    caps, reqs = r.choice(modelgen.WORDS)
    if len(DEAD) >= 4 and name[0] == "s":
        return {"cfg": cfg, "blocks": [], "stuck": "", "ins": []}       # enough scenarios to be repeated already
    for attempt in range(4):
        net = Net(prog, peers, wd, "%s_%d" % (name, attempt), cfg, r, seed)
        try:
            net.connect()
            break
        except Setup as e:
            err = str(e) + " / " + open(os.path.join(net.dir, "stderr")).read()[-300:]
            net.stop()
        except Stuck as e:
            err = str(e) + " / " + open(os.path.join(net.dir, "stderr")).read()[-300:]
            net.stop()
    else:
        DEAD.append(name)
        return {"cfg": cfg, "blocks": [], "stuck": "the program does not serve: " + err}
    stuck = ""
    try:
        deaths = set(r.sample(range(3, len(path)), 2))
        outage = r.randrange(2, len(path)) if cfg.get("outage") else -1
        i = 0
        sent = {}
        while i < len(path):
            n = r.choice([1, 1, 2, 3, 4])
            pays = 0
            for s in path[i:i + n]:
                k = s[0]
                if k == "eval":
                    net.send(r.choice(["c1", "c2"]), "eval", s[1], *reqs[int(s[2])], "", *r.choice(gen.PAYS))
                elif k == "init":
                    hw, hdr = caps[int(s[2])]
                    decl = s[3] if s[3] != "@CUR" else net.cur.get(s[1], "none")
                    net.send(s[1], "init", hw, *hdr, *(["", "current_job=" + decl] if s[3] else []))
                    if s[3]:
                        net.cur[s[1]] = decl
                    net.regs.add(s[1])
                    net.say("alive", s[1], "100")
                elif k in ("done", "stale"):
                    st = s[-1]
                    j = net.cur.get(s[1] if k == "done" else s[2], "nojob")
                    net.send(s[1], "done", j, st, *([] if st == "OK" else ["reason " + j]))
                elif k == "ping":
                    net.send(s[1], "ping")
                elif k in ("freeze", "unfreeze"):
                    net.send("c1", k)
                elif k == "stats":
                    net.send("c2", "get-runtime-stats")
                elif k == "tick":
                    net.send(r.choice(["w1", "w2", "w3"]), "progress", "p%d" % len(net.blocks), "x")
            net.flush("b")
            if outage in range(i, i + n):
                net.outage()
            if any(d in range(i, i + n) for d in deaths):
                live = sorted(net.regs - {"ws"})
                if live:
                    net.death(r.sample(live, 2 if len(live) > 1 and r.random() < 0.3 else 1))
            i += n
    except (Stuck, Setup) as e:
        stuck = str(e)
    finally:
        net.stop()
    return {"cfg": cfg, "blocks": net.blocks, "stuck": stuck, "ins": net.ins, "outages": getattr(net, "outages", 0)}


def to_json(runs):
    T = events.Tables()
    out = []
    for x in runs:
        bl = []
        for b in x["blocks"]:
            ins = []
            for i in b["ins"]:
                if "die" in i:
                    e = {"k": "die", "w": i["die"], "wait": i["wait"]}
                else:
                    e = events.convert_in({"k": "c" if i["peer"][0] == "c" else "w", "p": i["peer"], "f": i["f"]}, T)
                ins.append({"peer": i["peer"], "stage": i["stage"], "in": e})
            outs = [{"who": w, "msgs": [events.convert_out([k, p] + f) for k, p, f in ms]} for w, ms in b["outs"].items()]
            outs.append({"who": "frontend", "msgs": [{**p, **{k: events.tok(p[k]) if k not in ("m",) else p[k] for k in ("t", "id", "s", "m")}} for p in b["posts"]]})
            known = {o["who"] for o in outs}
            outs += [{"who": w, "msgs": []} for w in ("c1", "c2", "cs", "w1", "w2", "w3", "ws", "recodex-monitor") if w not in known]
            bl.append({"ins": ins, "outs": outs})
        out.append({"cfg": x["cfg"], "blocks": bl})
    return dict(T.json(), runs=out)


def judge(runs, wd, timeout=600):
    """-> [number of explained blocks for each run], states"""
    if not any(x["blocks"] for x in runs):
        return [0] * len(runs), (0, 0)
    data = to_json(runs)
    fn = os.path.join(wd, "e2e.json")
    with open(fn, "w") as f:
        json.dump(data, f)
    os.environ["TRACE_FILE"] = fn
    rc, out = common.tlc("E2ETrace", 'CONSTANT Prop = "C23"\nSPECIFICATION Spec\n', wd, timeout=timeout)
    if rc != 0:
        raise common.CheckError("TLC failed (rc %s):\n%s" % (rc, out[-3500:]))
    best = [0] * len(runs)
    for a, b in re.findall(r'<<"DONE", (\d+), (\d+)>>', out):
        best[int(a) - 1] = max(best[int(a) - 1], int(b))
    return best, common.states_of(out)


def show(run, n):
    s = []
    for k, b in enumerate(run["blocks"][:n + 1]):
        s.append("block %d" % (k + 1))
        for i in b["ins"]:
            s.append("   %s (%d): %s" % (i["peer"], i["stage"], json.dumps(i.get("f") or ["silent for %d ms: declared dead" % i["wait"]])))
        for w, ms in b["outs"].items():
            for _, _, f in ms:
                s.append("      -> %s: %s" % (w, json.dumps(f)[:200]))
        for p in b["posts"]:
            s.append("      -> frontend: %s" % json.dumps(p))
    return "\n".join(s[-150:]) + ("\nstuck: " + run["stuck"] if run["stuck"] else "")


def refusals(prog, wd, r):
    """the program must not start serving with a configuration it cannot use: (description, must it refuse?, did it exit with an error?)"""
    d = os.path.join(wd, "refuse")
    os.makedirs(d)
    log = {"logger": {"file": os.path.join(d, "log", "b")}, "clients": {"address": "127.0.0.1", "port": free_port(r)}, "workers": {"address": "127.0.0.1", "port": free_port(r)},
           "monitor": {"address": "127.0.0.1", "port": free_port(r)}}
    cases = {"unknown queue manager": json.dumps(dict(log, queue_manager="multy")), "not a map": "[1,2]", "not YAML": "a: [1, {", "port of wrong type": json.dumps(dict(log, clients={"port": "abc"})),
             "no such file": None, "unknown option": json.dumps(log)}
    with open(os.path.join(d, "config.yml"), "w") as f:
        json.dump(log, f)                                # usable, but not what the program is told to use
    res = []
    for name, text in cases.items():
        fn = os.path.join(d, re.sub(r"\W", "_", name) + ".yml")
        if text is not None:
            with open(fn, "w") as f:
                f.write(text)
        try:
            rc = subprocess.run([prog] + (["--no-such-option"] if name == "unknown option" else ["-c", fn]), cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=15).returncode
        except subprocess.TimeoutExpired:
            rc = None
        res.append((name, rc))
    return res


def play(jobs, prog, peers, wd, tag):
    with ThreadPoolExecutor(12) as ex:
        return list(ex.map(lambda j: scenario(prog, peers, wd, "%s%d" % (tag, j[0]), *j[1:]), jobs))


def check(prop):
    rep = common.Report(prop, "model_checking")
    wd = common.workdir(prop)
    T = common.THOROUGH
    r = random.Random("%s/%d/%s" % (prop, common.SEED, common.TIER))
    with ThreadPoolExecutor(2) as ex:
        prog, peers = ex.map(common.build, ["h_program", "h_peers"])
    for name, rc in refusals(prog, wd, r):
        if rc is None or rc <= 0:
            rep.violation("C23 violated: with this configuration the program should refuse to start: %s; it %s" % (name, "keeps running" if rc is None else "ended with %d" % rc), name)
    jobs = []
    n = 160 if T else 48
    for mgr in ("multi", "single"):
        for maxf in (1, 3):
            cfg = modelgen.CFG % (mgr, 3, maxf, 12, 22, "sim", modelgen.quoted(["w1", "w2", "w3"]), "1,2,3", "1,2")
            rc, out = common.tlc("BrokerGen", cfg, wd, workers=2, timeout=300, name="E2EGen_%s%d" % (mgr, maxf),
                                 extra=["-simulate", "num=%d" % (n // 4), "-depth", "30", "-seed", str(r.randrange(1 << 30))])
            if rc != 0:
                raise common.CheckError("TLC simulation failed:\n" + out[-3000:])
            for p in modelgen.parse(out)[:n // 4]:
                jobs.append((len(jobs), r.randrange(1 << 30), p, {"mgr": mgr, "live": 3, "ival": r.choice([700, 1000]), "maxf": maxf, "outage": len(jobs) % 6 == 0}))
    runs = play(jobs, prog, peers, wd, "s")
    best, (g, d) = judge(runs, wd, 1500 if T else 500)
    bad = [i for i, x in enumerate(runs) if x["stuck"] or best[i] < len(x["blocks"])]
    flaky = 0
    for i in bad[:4]:
        # a rejected run is only reported if it happens again
        again = play([(jobs[i][0] + 1000 * k, *jobs[i][1:]) for k in (1, 2, 3)], prog, peers, wd, "again")
        b2, _ = judge(again, wd)
        for x, n2 in zip(again, b2):
            if x["stuck"] or n2 < len(x["blocks"]):
                rep.evidence(states=d, transitions=g, traces_validated_against_impl=len(runs), samples=["violating run"])
                rep.violation("C23 violated: no execution of the specification explains block %d of this run of the program" % (n2 + 1), show(x, n2))
        flaky += 1
    msgs = sum(len(b["ins"]) + sum(map(len, b["outs"].values())) + len(b["posts"]) for x in runs for b in x["blocks"])
    rep.evidence(states=d, transitions=g, traces_validated_against_impl=len(runs), frontend_outages=sum(x.get("outages", 0) for x in runs), messages_exchanged=msgs, unrepeatable_rejections=flaky,
                 deaths=sum("die" in i for x in runs for b in x["blocks"] for i in b["ins"]), blocks=sum(best),
                 http_posts=sum(len(b["posts"]) for x in runs for b in x["blocks"]), samples=[show(r.choice(runs), 3).split("\n")[:40]])
    rep.ok()
