"""C18: the router socket wrapper.  TLC checks the frame-level model (Router.tla); scripts run on the real wrapper over
TCP and in-process transports; TLC judges the recorded runs (RouterTrace.tla)."""
import json, random, subprocess
from concurrent.futures import ThreadPoolExecutor
import common, gen, simple

IDS = ["w1", "", "\x01\x80\xff", "worker-with-a-long-name" * 5, "recodex-monitor", "a%b\"c", "w11", "W1", " ", "x" * 255]
FR = ["", "eval", "job1", "\x00", "\x00\xff\x01", "%41", "ack", "w1", "a\nb", "\xc3\xa9"]


def body(r, zero=False):
    n = r.choice(([0] if zero else []) + [1, 1, 2, 3, 7])
    return [r.choice(FR) if r.random() < 0.93 else "^%d^" % r.choice([200, 1000, 70000]) for _ in range(n)]


def enc(x):
    return x if x.startswith("^") else "".join("%%%02x" % ord(c) if c in "^%\t\n" or not 0x20 <= ord(c) < 0x7f else c for c in x)


def L(*t):
    return "\t".join(enc(str(x)) for x in t)


def script(r, k):
    tcp = r.random() < 0.5
    bind = r.random() < 0.8
    out = [L("run", "tcp" if tcp else "inproc://r%d" % k, "bind" if bind else "connect")]
    ids = r.sample(IDS, r.choice([1, 2, 3, 4])) if bind else [r.choice([x for x in IDS if x])]
    ps = []
    for i, x in enumerate(ids):
        ps.append("P%d" % i)
        out.append(L("peer", ps[-1], x))
    sent = 0
    for _ in range(r.choice([10, 30, 60])):
        a = r.random()
        p = r.choice(ps)
        if a < 0.4:
            out.append(L("psend", p, *body(r)))
        elif a < 0.75:
            out.append(L("bsend", p, *body(r)))
        elif a < 0.85:
            out.append(L("bsend", p))                      # a message without frames
        elif a < 0.95:
            out.append(L("bsend", "!" + r.choice(["nobody", "", "w", "w1 ", "\x00"]), *body(r, True)))
        else:
            out.append(L("settle"))
    out.append(L("end"))
    return out


def check(prop):
    rep = common.Report(prop, "model_checking")
    wd = common.workdir(prop)
    T = common.THOROUGH
    r = random.Random("%s/%d/%s" % (prop, common.SEED, common.TIER))
    binary = common.build("h_router")
    rc, out = common.tlc("Router", "CONSTANTS Max=%d MaxFrames=%d\nSPECIFICATION Spec\nINVARIANTS Holds Settled\n" % ((3, 2) if not T else (4, 2)),
                         wd, timeout=1500)
    if rc not in (0, -1):
        raise common.CheckError("the router's specification violates the property:\n" + out[-4000:])
    g, d = common.states_of(out)
    scripts = [script(r, k) for k in range(3000 if T else 240)]

    def one(chunk):
        res, rest = [], list(chunk)
        while rest:
            try:
                p = subprocess.run([binary], input=("\n".join("\n".join(s) for s in rest) + "\n").encode("latin-1"), stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=600)
                o, rc = p.stdout.decode("latin-1").strip(), p.returncode
            except subprocess.TimeoutExpired as e:
                o, rc = (e.stdout or b"").decode("latin-1").strip(), "timeout"
            got = json.loads(o if rc == 0 else o + "]")
            res += got
            rest = rest[len(got):]
            if rest and rc != 0:
                res.append({"ev": [{"k": "crash", "who": "", "f": [str(rc)]}], "script": rest[0]})
                rest = rest[1:]
        return res
    n = (len(scripts) + common.CPU - 1) // common.CPU
    with ThreadPoolExecutor(common.CPU) as ex:
        runs = [x for c in ex.map(one, [scripts[i:i + n] for i in range(0, len(scripts), n)]) for x in c]
    flaky = []
    bad, st = simple.decide(lambda rs: simple.judge("RouterTrace", prop, [{"ev": x["ev"]} for x in rs], wd, timeout=1500), runs,
                            lambda e: e["k"] == "settled" or e["k"] == "crash" and "timeout" in e["f"], lambda k: one([scripts[k]] * 6), flaky)
    total = sum(len(x["ev"]) for x in runs)
    if bad:
        x, n = bad
        rep.evidence(states=st, transitions=total, traces_validated_against_impl=len(runs), samples=["violating run"])
        rep.violation("C18 violated by the last event of this run of the real socket wrapper",
                      "\n".join(json.dumps(e) for e in x["ev"][:n]))
    rep.evidence(states=st + d, transitions=total + g, traces_validated_against_impl=len(runs), recorded_events=total,
                 model_states=d, unrepeatable_rejections=len(flaky), model_complete=rc == 0, samples=[r.choice(runs)["ev"][:14]])
    rep.ok()
