"""C21, the part about the log: the whole program is run with different logger settings and always the same traffic; TLC
compares the files it leaves behind with what Log.tla says about them."""
import json, os, random, re, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import common, gen, simple
from e2e_check import Net, free_port
from notifier_check import Frontend

LEVELS = ["debug", "info", "notice", "warn", "err", "critical", "alert", "emerg", "off"]
LINE = re.compile(r"^\[\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d+\] \[[^\]]*\] \[(\w+)\] (.*)$", re.S)


class Program(Net):
    """the broker process with one client and one worker; talks to them one message at a time"""

    def __init__(self, prog, peers, d, logger, r):
        import threading
        self.dir, self.fe = d, Frontend(os.path.join(d, "skip"))
        self.cp, self.wp, self.mp = free_port(r), free_port(r), free_port(r)
        conf = os.path.join(d, "conf.json")
        with open(conf, "w") as f:
            json.dump({"clients": {"address": "127.0.0.1", "port": self.cp}, "workers": {"address": "127.0.0.1", "port": self.wp, "max_liveness": 100},
                       "monitor": {"address": "127.0.0.1", "port": self.mp}, "notifier": {"address": "http://127.0.0.1", "port": self.fe.port},
                       "logger": logger}, f)
        self.log, self.cond, self.muted, self.mark, self.ins, self.stage = [], threading.Condition(), {}, 0, [], 0
        self.cur = {}
        self.bridge = subprocess.Popen([peers], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
        threading.Thread(target=self.reader, daemon=True).start()
        os.makedirs(os.path.join(d, "cwd"), exist_ok=True)
        self.prog = subprocess.Popen([prog, "-c", conf], cwd=os.path.join(d, "cwd"), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=open(os.path.join(d, "stderr"), "wb"))
        self.say("peer", "c1", "tcp://127.0.0.1:%d" % self.cp, "c1")
        self.say("peer", "w1", "tcp://127.0.0.1:%d" % self.wp, "w1")

    def ask(self, peer, *f, want):
        n = len(self.log)
        self.say("send", peer, *f)
        if want and not self.wait(lambda: any(p == peer and g[:1] == [want] for p, g in self.log[n:]), 20):
            raise common.CheckError("no '%s' after %s" % (want, f))

    def traffic(self, script):
        self.ask("w1", "ping", want="intro")
        for k, (a, n) in enumerate(script):
            j = "%s%d" % ("j" * n, k)
            if a == "init":
                self.ask("w1", "init", "g%d" % (k % 2), "env=" + "v" * n, want=None)
                self.ask("w1", "ping", want="pong")
            elif a == "reject":
                self.ask("c1", "eval", j, "hwgroup=none", "", want="reject")
            elif a == "short":
                self.ask("c1", "eval", want="ack")
            elif a == "bad":
                self.ask("w1", "done", j, "OK", want=None)
                self.ask("w1", "ping", want="pong")
            elif a == "job":
                m = len(self.log)
                self.ask("c1", "eval", j, "env=" + "v" * script[0][1], "", want="accept")
                if not self.wait(lambda: ("w1", ["eval", j]) in self.log[m:], 20):
                    raise common.CheckError("the worker did not get its job")
                self.ask("w1", "done", j, "OK", want=None)
                self.ask("w1", "ping", want="pong")

    def outage(self, script):
        """the frontend refuses one notification, which is a critical event"""
        jobs = sum(a == "job" for a, n in script)
        self.wait(lambda: len(self.fe.seen) >= jobs, 20)
        n = len(self.fe.seen)
        self.fe.script = ["500slow"]       # (late, so that everything else has been logged before)
        m = len(self.log)
        self.ask("c1", "eval", "last", "", want="accept")
        self.wait(lambda: ("w1", ["eval", "last"]) in self.log[m:], 20)
        self.ask("w1", "done", "last", "OK", want=None)
        self.ask("w1", "ping", want="pong")
        self.wait(lambda: len(self.fe.seen) >= n + 2, 20)

    def stop(self):
        self.prog.kill(), self.prog.wait(), self.bridge.kill(), self.bridge.wait()
        self.fe.sock.close()


def read(path, texts):
    """the records of a file; a line that does not start with a time stamp belongs to the one before"""
    out = []
    with open(path, encoding="latin-1", newline="") as f:
        for line in f.read().split("\n")[:-1]:
            m = LINE.match(line)
            if m:
                out.append([m.group(1), len(line) + 1, m.group(2)])
            elif out:
                out[-1][1] += len(line) + 1
                out[-1][2] += "\n" + line
            else:
                out.append(["?", len(line) + 1, line])
    return [{"l": l, "n": n, "x": texts.setdefault(re.sub(r":\d{5}\b", ":PORT", x), len(texts))} for l, n, x in out]


def play(prog, peers, wd, name, case, texts, seed):
    """run the program (several times in a row, if asked for) and collect the files; -> files, newest first, or a complaint"""
    r = random.Random(seed)
    d = os.path.join(wd, "log_" + name)
    os.makedirs(d)
    how = case["file"]
    rel = {"nested": "logs/deep/er/broker", "bare": "broker.log", "relative": "sub/x", "suffix": "logs/a.b.log", "dot": "./broker"}[how]
    path = os.path.join(d, rel) if how in ("nested", "suffix") else rel
    where = os.path.join(d, rel) if how in ("nested", "suffix") else os.path.join(d, "cwd", rel)
    logger = {"file": path, "level": case["level"], "max-size": case["max"], "rotations": case["rot"]}
    why = None
    for session in range(case["sessions"]):
        p = Program(prog, peers, d, logger, r)
        try:
            p.traffic(case["script"])
            p.outage(case["script"])
            time.sleep(2.3)                              # (the log is flushed every second)
        except common.CheckError as e:
            why = str(e)
        except Exception as e:
            why = "%s; %s" % (e, open(os.path.join(d, "stderr"), errors="replace").read()[-300:])
        finally:
            p.stop()
    top, base = os.path.split(where)
    stem, ext = os.path.splitext(base)
    got = sorted(os.listdir(top)) if os.path.isdir(top) else []
    files = []
    for i in range(50):
        n = base if i == 0 else "%s.%d%s" % (stem, i, ext)
        if n in got:
            got.remove(n)
            files.append(read(os.path.join(top, n), texts))
    if why is None and (not files or got):
        why = "files found: %s" % sorted(os.listdir(top)) if os.path.isdir(top) else "no log directory"
    shutil.rmtree(d, ignore_errors=True)
    return {"case": case, "logger": dict(logger, file=how), "files": files, "why": why}


def stage(rep, prop, wd, r, T):
    """-> facts for the evidence; reports a violation itself"""
    for mx, rot, n in [(3, 0, 5), (3, 1, 6), (2, 2, 7)] + ([(4, 2, 8), (3, 3, 9)] if T else []):
        rc, out = common.tlc("LogMC", "CONSTANTS Max=%d Rot=%d Records=%d\nSPECIFICATION Spec\nINVARIANTS Bounded Latest Thrifty Same\nCHECK_DEADLOCK FALSE\n" % (mx, rot, n), wd,
                             timeout=600, name="LogMC_%d%d" % (mx, rot))
        if rc != 0:
            raise common.CheckError("the specification of the log violates its properties:\n" + out[-3000:])
    with ThreadPoolExecutor(2) as ex:
        prog, peers = ex.map(common.build, ["h_program", "h_peers"])
    script = [("init", 3)] + [(r.choice(["reject", "short", "bad", "job", "reject"]), r.choice([0, 1, 20, 200])) for _ in range(40)]
    texts = {}
    # the unlimited runs, one for each level, and limited ones
    cases = [dict(level=l, max=50000000, rot=2, file="nested", sessions=1, script=script) for l in LEVELS]
    refs = {(c["level"], c["sessions"]): i for i, c in enumerate(cases)}
    cases.append(dict(cases[0], sessions=2))
    refs[("debug", 2)] = len(cases) - 1
    for k in range(40 if T else 10):
        s = 2 if k % 5 == 0 else 1
        l = "debug" if s == 2 else ["debug", "info", "err", "warn", "debug"][k % 5]
        cases.append(dict(level=l, max=r.choice([300, 700, 1500, 3000, 6000]), rot=[1, 3, 0, 2, 5][(k + k // 5) % 5], file=["bare", "nested", "relative", "suffix", "dot"][(k // 2 + k) % 5],
                          sessions=s, script=script))
    seeds = [r.randrange(1 << 30) for _ in cases]
    run = lambda i, tag="": play(prog, peers, wd, "%s%d" % (tag, i), cases[i], texts, seeds[i])
    with ThreadPoolExecutor(12) as ex:
        runs = list(ex.map(run, range(len(cases))))

    def events(runs):
        # the most verbose documented level defines what there is to be logged
        debug = sum(reversed(runs[refs[("debug", 1)]]["files"]), [])
        mark = next((i for i, x in enumerate(debug) if x["l"] != "debug" and "'init'" in next(t for t, v in texts.items() if v == x["x"])), 0)
        res = []
        for x in runs:
            c = x["case"]
            whole = sum(reversed(runs[refs[(c["level"], c["sessions"])]]["files"]), [])
            res.append({"ev": [{"level": c["level"], "max": c["max"], "rot": c["rot"], "files": x["files"], "whole": whole, "traffic": debug[mark:]}]})
        return res

    def verdict(runs):
        for i, x in enumerate(runs):
            if x["why"]:
                return i, (None, 0)
        bad, st = simple.judge("LogTrace", prop, events(runs), wd, timeout=900)
        return (bad[0] - 1 if bad else None), st
    first, st = verdict(runs)
    if first is not None:
        # everything anew: a report needs to be repeatable
        with ThreadPoolExecutor(8) as ex:
            runs2 = list(ex.map(lambda i: run(i, "again"), range(len(cases))))
        second, st = verdict(runs2)
        if second is not None:
            x = runs2[second]
            show = {v: k for k, v in texts.items()}
            rep.violation("C21: with these logger settings the program does not keep its log as specified: %s" % (x["why"] or ""),
                          json.dumps(x["logger"]) + "\n" + "\n".join("--- file %d (%d bytes)\n%s" % (k, sum(a["n"] for a in f), "\n".join("[%s] %s" % (a["l"], show[a["x"]][:120]) for a in f[:30]))
                                                                   for k, f in enumerate(x["files"])))
        runs = runs2
    return {"log_runs": len(runs), "log_records": sum(len(f) for x in runs for f in x["files"]), "log_files": sum(len(x["files"]) for x in runs)}
