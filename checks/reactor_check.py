"""C17, C20: the reactor.  TLC checks the model (Reactor.tla) in all interleavings; schedules generated from it and
random scripts run on the real reactor with real threads; TLC judges the recorded runs (ReactorTrace.tla)."""
import hashlib, json, random, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import common, events, gen, modelgen, simple

BIN = ["\x00\x01\xff", "", "x" * 300, "%41", "TERMINATE", "timer", "a=b"]


def L(*t):
    return gen.line(*t)


class Script:
    def __init__(self, n):
        self.p = "q%d" % n
        self.lines = [L("run", self.p)]

    def name(self, x):
        return x if x == "timer" else self.p + x

    def socket(self, s):
        self.lines.append(L("socket", self.name(s)))

    def handler(self, h, kind, *o):
        self.lines.append(L("handler", self.name(h), kind, *[self.name(x) for x in o]))

    def add(self, *t):
        self.lines.append(L(*t))

    def send(self, s, *f):
        self.add("send", self.name(s), *f)


def from_model(paths, start):
    out = []
    for n, p in enumerate(paths):
        S = Script(start + n)
        S.socket("a"), S.socket("b")
        S.handler("hs", "sync", "a", "t", "timer"), S.handler("ha", "async", "a", "b"), S.handler("hb", "async", "b", "t")
        S.add("hold", S.name("ha")), S.add("hold", S.name("hb")), S.add("start")
        for k, x, y in p:
            if k == "send":
                a, b, t = S.name("a"), S.name("b"), S.name("t")
                S.send(x, *{"0": [], "1": ["r=%s=one" % a], "2": ["n=ha", "r=%s=two" % t], "3": ["n=hs", "r=%s=x" % b, "r=%s=y" % b]}[y])
            else:
                S.add("step", S.name(x))
        S.add("settle")
        for h in ("ha", "hb"):
            S.add("release", S.name(h))
        S.add("settle"), S.add("term"), S.add("end")
        out.append(S.lines)
    return out


def random_script(r, n):
    S = Script(n)
    socks = ["s%d" % i for i in range(r.choice([1, 2, 3]))]
    topics = ["t%d" % i for i in range(r.choice([0, 1, 2]))]
    hs = []
    for s in socks:
        S.socket(s)
    for i in range(r.choice([1, 2, 3, 4])):
        kind = r.choice(["sync", "async", "async"])
        # topics are served by handlers that do not answer to topics, so that nothing goes round in circles
        o = r.sample(socks, r.randrange(1, len(socks) + 1)) + [t for t in topics if r.random() < 0.5]
        hs.append((("h%d" % i), kind, o))
        S.handler("h%d" % i, kind, *o, *(["timer"] if r.random() < 0.3 else []))
    asy = [h for h, k, _ in hs if k == "async"]

    def frames():
        f = []
        for _ in range(r.choice([0, 0, 1, 2])):
            f.append(r.choice(BIN) if r.random() < 0.97 else "y" * r.choice([65535, 65536, 70001, 200000]))
        if r.random() < 0.6:
            h = r.choice(hs)[0]
            f.append("n=" + h)
            if r.random() < 0.15:
                f.append("s=%d" % r.choice([0, 1, 3]))
            for _ in range(r.choice([1, 1, 2, 3])):
                f.append("r=%s=%s" % (S.name(r.choice(socks + topics)), r.choice(["~", "", "v", "\x00bin"])))
        return f
    if r.random() < 0.08:
        S.add("term"), S.add("start"), S.add("end")
        return S.lines
    S.add("start")
    held = set()
    for _ in range(r.choice([5, 15, 40])):
        a = r.random()
        if a < 0.6:
            S.send(r.choice(socks), *frames())
        elif a < 0.7:
            S.add("burst", S.name(r.choice(socks)), r.choice([10, 60]), *frames())
        elif a < 0.8 and asy:
            h = r.choice(asy)
            S.add("release" if h in held else "hold", S.name(h))
            held ^= {h}
        elif a < 0.9:
            S.add("settle")
        else:
            S.add("sleep", r.choice([0, 1, 20]))
    if r.random() < 0.3:
        S.add("term"), S.add("end")
        return S.lines
    S.add("settle")
    for h in held:
        S.add("release", S.name(h))
    S.add("settle"), S.add("term"), S.add("end")
    return S.lines


def backlog(n, count, frames=()):
    """a slow handler with a long queue, next to a fast one"""
    S = Script(n)
    S.socket("a"), S.socket("b")
    S.handler("hs", "sync", "a", "b"), S.handler("slow", "async", "a"), S.handler("fast", "async", "a", "b")
    S.add("hold", S.name("slow")), S.add("start")
    S.add("burst", S.name("a"), count, "n=slow", "r=%s=done" % S.name("b"))
    S.add("settle"), S.send("b", "n=fast", "r=%s=hi" % S.name("a")), S.add("settle"), S.add("release", S.name("slow"))
    S.add("settle"), S.add("term"), S.add("end")
    return S.lines


def first_message(n):
    """a single message right after the start, nothing before or after it"""
    S = Script(n)
    S.socket("a")
    S.handler("ha", "async", "a"), S.handler("hb", "async", "a", "t")
    S.add("start"), S.send("a", "n=ha", "r=%s=x" % S.name("t")), S.add("settle"), S.add("term"), S.add("end")
    return S.lines


def clock_scripts(r, n0, thorough):
    out = []
    plans = [("idle",), ("flood", 1200, 100, 0), ("flood", 1200, 700, 0), ("flood", 1500, 9000, 6), ("long", 350), ("long", 1300), ("long", 2700), ("mixed",),
             ("flood", 1200, 2500, 2), ("asyncflood", 1200, 1500)]
    for k, p in enumerate(plans * (3 if thorough else 1)):
        S = Script(n0 + k)
        S.socket("a"), S.socket("b")
        S.handler("ht", "sync", "timer"), S.handler("hs", "sync", "a"), S.handler("ha", "async", "b", "timer")
        S.add("start")
        if p[0] == "idle":
            S.add("sleep", 150), S.add("idle", 1500, 1000)
        elif p[0] == "flood":
            S.add("flood", S.name("a"), p[1], p[2], "s=%d" % p[3] if p[3] else "x"), S.add("sleep", 250)
        elif p[0] == "asyncflood":
            S.add("flood", S.name("b"), p[1], p[2], "n=ha", "r=%s=x" % S.name("a")), S.add("sleep", 250)
        elif p[0] == "long":
            S.add("sleep", 120)
            for _ in range(3):
                S.send("a", "s=%d" % p[1]), S.add("sleep", 400)
        else:
            for _ in range(12):
                S.send("a", "s=%d" % r.choice([1, 20, 60, 130])), S.add("sleep", r.choice([1, 30, 110]))
            S.add("idle", 600, 1000)
        S.add("settle"), S.add("term"), S.add("end")
        out.append(S.lines)
    return out


def short(x):
    """long frames are represented by a digest"""
    if isinstance(x, str):
        return x if len(x) <= 1000 else "#%s:%d" % (hashlib.sha256(x.encode("latin-1", "replace")).hexdigest()[:24], len(x))
    if isinstance(x, list):
        return [short(y) for y in x]
    if isinstance(x, dict):
        return {k: short(v) for k, v in x.items()}
    return x


def big_frames(n):
    """frames around 64 KiB and beyond, for handlers of both kinds and among the answers"""
    S = Script(n)
    S.socket("a"), S.socket("b")
    S.handler("hs", "sync", "a"), S.handler("ha", "async", "a", "b")
    S.add("start")
    for k in (65535, 65536, 65537, 131072, 300000):
        S.send("a", "x" * k, "n=ha", "r=%s=%s" % (S.name("b"), "v" * k)), S.send("b", "x", "y" * k, "")
        S.send("a", "n=hs", "r=%s=%s" % (S.name("b"), "w" * k)), S.add("settle")
    S.add("term"), S.add("end")
    return S.lines


def run(binary, scripts):
    """each worker process handles a slice; a run that crashes or hangs the process is reported as such"""
    def one(chunk):
        res, rest = [], list(chunk)
        while rest:
            p = None
            try:
                p = subprocess.run([binary], input=("\n".join("\n".join(s) for s in rest) + "\n").encode("latin-1"),
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
                out, rc = p.stdout.decode("latin-1"), p.returncode
            except subprocess.TimeoutExpired as e:
                out, rc = (e.stdout or b"").decode("latin-1"), "timeout"
            out = out.strip()
            ok = out.endswith("]")
            try:
                got = json.loads(out if ok else out.rstrip(",\n") + "]")
            except ValueError:
                got = json.loads(out[:out.rfind("]}") + 2] + "]") if "]}" in out else []
            res += got
            if not ok and len(got) < len(rest):
                res.append({"name": "crashed", "sockets": [], "handlers": [], "script": rest[len(got)],
                            "ev": [{"k": "crash", "why": "process ended with %s: %s" % (rc, "" if p is None else p.stderr.decode("latin-1")[-300:])}]})
                rest = rest[len(got) + 1:]
            else:
                rest = rest[len(got):]
        return short(res)
    n = max(1, (len(scripts) + 2 * common.CPU - 1) // (2 * common.CPU))
    with ThreadPoolExecutor(2 * common.CPU) as ex:
        return [x for c in ex.map(one, [scripts[i:i + n] for i in range(0, len(scripts), n)]) for x in c]


def check(prop):
    rep = common.Report(prop, "model_checking")
    wd = common.workdir(prop)
    T = common.THOROUGH
    r = random.Random("%s/%d/%s" % (prop, common.SEED, common.TIER))
    binary = common.build("h_reactor")
    cfg = 'CONSTANTS MaxMsgs=%d MaxClock=%d Mode="%s"\nSPECIFICATION Spec\nVIEW View\nINVARIANTS AllHold Settled Emit\n%s'
    mcs = []
    for m, c, live in [(2, 20, True)] + ([(3, 10, False)] if T else []):
        rc, out = common.tlc("Reactor", cfg % (m, c, "mc", "PROPERTIES Ends Delivered\n" if live else ""), wd, timeout=1500, name="Reactor_%d" % m)
        if rc not in (0, -1):
            raise common.CheckError("the reactor's specification violates a property:\n" + out[-5000:])
        g, d = common.states_of(out)
        mcs.append({"messages": m, "clock": c, "liveness": live, "generated": g, "distinct": d, "complete": rc == 0})
    if prop == "C17":
        rc, out = common.tlc("Reactor", cfg % (8, 10, "gen", ""), wd, workers=4, name="ReactorGen", timeout=300,
                             extra=["-simulate", "num=%d" % (200 if T else 30), "-depth", "200", "-seed", str(r.randrange(1 << 30))])
        if rc != 0:
            raise common.CheckError("TLC simulation failed:\n" + out[-3000:])
        paths = []
        for body in out.split('<<"PATH",')[1:] or out.split('"PATH",')[1:]:
            steps = __import__("re").findall(r'<<\s*"(send|serve)",\s*"(\w+)",\s*(\d+)\s*>>', body.split("PATH")[0])
            paths.append(steps)
        uniq = sorted({json.dumps(p) for p in paths})
        r.shuffle(uniq)
        scripts = from_model([json.loads(p) for p in uniq[:800 if T else 80]], 0)
        nmodel = len(scripts)
        n = 10000
        for _ in range(6 if not T else 40):
            scripts.append(first_message(n)); n += 1
        scripts.append(big_frames(n)); n += 1
        for c in ([300, 2600] if not T else [300, 2600, 6000]):
            scripts.append(backlog(n, c)); n += 1
        for _ in range(1500 if T else 150):
            scripts.append(random_script(r, n)); n += 1
        order = list(range(len(scripts)))
        r.shuffle(order)
        scripts = [scripts[i] for i in order]
    else:
        scripts, nmodel = clock_scripts(r, 20000, T), 0
    runs = run(binary, scripts)
    if len(runs) != len(scripts):
        raise common.CheckError("%d runs of %d scripts" % (len(runs), len(scripts)))
    total = 0
    states = 0
    B = 400
    flaky = []
    for a in range(0, len(runs), B):
        part = runs[a:a + B]
        j1 = lambda rs: simple.judge("ReactorTrace", prop, [{"handlers": x["handlers"], "sockets": x["sockets"], "ev": x["ev"]} for x in rs], wd, timeout=1500)
        # the names of handlers must be unique over the runs judged together
        again = lambda k: run(binary, [[l.replace(scripts[a + k][0].split("\t")[1], scripts[a + k][0].split("\t")[1] + "z%dz" % n) for l in scripts[a + k]] for n in range(6)])
        bad, st = simple.decide(j1, part, lambda e: e["k"] in ("settled", "ended", "idle") or e["k"] == "crash" and "timeout" in e["why"], again, flaky)
        states += st
        total += sum(len(x["ev"]) for x in part)
        if bad:
            x, n = bad
            rep.evidence(states=states, transitions=total, traces_validated_against_impl=a, samples=["violating run"])
            rep.violation("%s violated by the last event of this run of the real reactor" % prop,
                          json.dumps({k: x[k] for k in ("name", "handlers", "sockets")}) + "\n" +
                          "\n".join(json.dumps(e) for e in x["ev"][:n][-400:]))
    s = r.choice(runs)
    rep.evidence(states=states + sum(m["distinct"] for m in mcs), transitions=total + sum(m["generated"] for m in mcs),
                 traces_validated_against_impl=len(runs), model_checking_runs=mcs, recorded_events=total,
                 schedules_from_spec=nmodel, unrepeatable_rejections=len(flaky), samples=[{"handlers": s["handlers"], "events": s["ev"][:12]}])
    rep.ok()
