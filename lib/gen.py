"""Random input histories for the broker harness (every random choice comes from the given Random)."""
import random


def esc(f):
    return "".join(c if 0x20 <= ord(c) < 0x7f and c != "%" else "%%%02x" % ord(c) for c in f)


def line(*t):
    return "\t".join(esc(str(x)) for x in t)


def w(i, *f):
    return line("w", i, *f)


def c(i, *f):
    return line("c", i, *f)


HW = ["g1", "g2", "g3", "G1", "g", ""]
ENVS = ["java", "c", "python", "bash", "jav", "java "]
THR = ["1", "2", "4", "8", "10", "16", "02", "100", "4294967296", "18446744073709551615"]


def rand_cap(r, rich):
    hw = r.choice(HW[:3] if not rich else HW)
    hdr = []
    if r.random() < 0.7:
        hdr.append("threads=" + r.choice(THR[:4] if not rich else THR))
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        hdr.append("env=" + r.choice(ENVS[:4] if not rich else ENVS))
    if rich and r.random() < 0.06:
        hdr += ["env=" + x for x in r.sample(["e%d" % i for i in range(60)], 40)] + ["long=" + "v" * r.choice([400, 5000])]
    if rich and r.random() < 0.3:
        hdr.append(r.choice(["x=a=b", "flag", "meta.q=1", "metal=1", "meta=1", "thread=1", "hwgroups=g1", "=", "env=", "threads=abc", "threads=", "hwgroup=alt"]))
    r.shuffle(hdr)
    return hw, hdr


def rand_req(r, caps, rich):
    """requirements: often a subset of some capability, sometimes something else"""
    hdr = []
    if caps and r.random() < 0.85:
        hw, ch = r.choice(caps)
        if r.random() < 0.6:
            alts = [hw]
            while r.random() < 0.4:
                alts.insert(r.randrange(len(alts) + 1), r.choice(HW[:4]))
            hdr.append("hwgroup=" + "|".join(alts))
        for h in ch:
            if r.random() < 0.5:
                if h.startswith("threads=") and h[8:].isdigit() and r.random() < 0.6:
                    n = int(h[8:])
                    hdr.append("threads=%d" % max(0, min(n + r.choice([-1, 0, 0, 1]), 2**64 - 1)))
                else:
                    hdr.append(h)
    else:
        hw, hdr = rand_cap(r, rich)
        hdr = list(hdr)
        if r.random() < 0.5:
            hdr.append("hwgroup=" + hw)
    if rich and r.random() < 0.15:
        hdr.append(r.choice(["threads=", "threads=x", "nope=1", "metal=1", "meta=1", "met=1", "thread=1", "threads.=1", "hwgroups=g1", "hwgroup=", "hwgroup=|", "hwgroup=g1|", "flag", "=",
                             "threads=99999999999999999999999"]))
    if r.random() < 0.2:
        hdr.append("meta." + r.choice(["a=1", "b=x=y", "hwgroup=zzz", "threads=9999"]))
    r.shuffle(hdr)
    return hdr


PAYS = [[], ["http://x/1"], ["http://x/1", "http://x/2"], [""], ["a", "", "b"], ["", ""], ["eval", "job"],
        ["\x00\x01\xff", "%41"], ["x" * 700], ["done", "", "OK"], ["f%d" % i for i in range(70)], ["y" * 70000, "", "z"], ["", "", "", "last"]]

# job ids: parts of each other, words of the protocol, unusual characters, long ones
ODD_IDS = ["job", "job1", "job11", "job1 ", "Job1", "1", "01", "0", "OK", "FAILED", "eval", "meta.x", "a=b", "a|b", "\x00", "\x00a", "j\x00b", "j",
           "\xff\xfe", "../x", "i" * 330, "i" * 331, "null", "-1", "job_2021-02-03T04:05", "current_job=x", "recodex-monitor"]
ODD_PEERS = ["c1", "recodex-monitor", "\x00\x80id %41", "w", "w11", "W1", " ", "p" * 255, "stranger", "timer"]


class World:
    """Scenario-local pools"""

    def __init__(self, r, flavour):
        self.r, self.fl = r, flavour
        rich = flavour in ("rich", "bad")
        nw = {"tiny": 2, "small": 3, "flood": r.choice([1, 2, 2, 3]), "marathon": r.choice([1, 2]), "stubborn": r.choice([1, 2, 3]), "crowd": r.choice([6, 10, 14]), "horde": r.choice([40, 70]), "deep": r.choice([1, 2, 3])}.get(flavour, r.choice([2, 3, 4, 5]))
        ncap = r.choice([1, 2, 4]) if flavour in ("crowd", "horde") else r.choice([1, 1, 2, 3])
        self.caps = [rand_cap(r, rich) for _ in range(ncap)]
        self.ws = ["w%d" % (i + 1) for i in range(nw)]
        if r.random() < (0.6 if rich else 0.12):
            for i, x in enumerate(r.sample(ODD_PEERS, min(nw, r.choice([1, 2, 3])))):
                self.ws[i] = x
        self.cs = ["c1", "c2"] if r.random() < 0.85 else r.sample(["w1", "w2", "\x00\x01", "c" * 200, "recodex-monitor"], 2)
        self.odd = r.sample(ODD_IDS, len(ODD_IDS)) if r.random() < (0.5 if rich else 0.2) else []
        self.cap_of = {x: r.choice(self.caps) for x in self.ws}
        self.reqs = [rand_req(r, self.caps, rich) for _ in range(r.choice([1, 2, 3, 5]))]
        self.n = 0
        self.ids, self.body = [], {}
        self.rich = rich
        self.reuse = r.choice([0, 0, 0.1, 0.3])

    def init(self, x, decl=None, cap=None):
        hw, hdr = cap or self.cap_of[x]
        if self.r.random() < 0.15:
            hdr = self.r.sample(hdr, len(hdr))           # (the order of headers does not matter)
        f = ["init", hw, *hdr]
        if decl is not None or self.r.random() < 0.15:
            f.append("")
            if self.r.random() < 0.5:
                f.append("description=worker %s" % x)
            if decl is not None:
                f.append("current_job=" + decl)
        return w(x, *f)

    def eval(self, req=None):
        """a new job, or (sometimes) one submitted before: same id, requirements and payload"""
        r = self.r
        if self.ids and r.random() < self.reuse:
            j = r.choice(self.ids)
        else:
            self.n += 1
            j = self.odd.pop() if self.odd else "job%d" % self.n
            self.ids.append(j)
            self.body[j] = [*(req if req is not None else r.choice(self.reqs)), "", *r.choice(PAYS if self.rich or r.random() < 0.1 else PAYS[:4])]
        return c(r.choice(self.cs), "eval", j, *self.body[j])


def bad_message(W):
    r = W.r
    x = r.choice(W.ws)
    opts = [
        lambda: w(x, "done"), lambda: w(x, "done", "@cur"), lambda: w(x, "done", "@cur", "WHAT"),
        lambda: w(x, "done", "@cur", "FAILED"), lambda: w(x, "done", "@cur", "INTERNAL_ERROR"),
        lambda: w(x, "done", "@cur", "FAILED", "m", "extra"), lambda: w(x, "done", "@cur", "INTERNAL_ERROR", "m", "e"),
        lambda: w("stranger", "done", r.choice(W.ids or ["job1"]), "OK"),
        lambda: w(x, "init"), lambda: w(x, ""), lambda: w(x, "eval", "job1"), lambda: w(x, "progress"),
        lambda: w(x, "init", r.choice(HW), "threads=abc"), lambda: w(x, "init", "g1", "threads=", "env"),
        lambda: c("c1", "eval"), lambda: c("c1", "eval", "jx"), lambda: c("c1", "eval", "jx", "env=c"),
        lambda: c("c1", "eval", "jx", "hwgroup=g1", "threads=2"), lambda: c("c1", ""), lambda: c("c1", "done", "job1", "OK"),
        lambda: c("c1", "eval", "", ""), lambda: w(x, "done", "", "OK"),
        lambda: c("c1", "eval", "jx", "threads=9999999999999999999999999", ""),
        lambda: c("c1", "eval", "jx", "threads=-", "env", ""),
        lambda: w(x, "init", "g1", "threads=99999999999999999999999999"), lambda: w(x, "init", "g1", "=", "", "", "=x"),
        lambda: w(x, "init", "", "", "current_job"), lambda: c("c1", "freeze", "a", "b"), lambda: c("c2", "unfreeze", ""),
        lambda: w(x, "ping", "extra"), lambda: c("c1", "get-runtime-stats", "x"),
        # what the other side may send
        lambda: c(r.choice(["c1", "w1", x]), r.choice(["ping", "ping", "pong", "done", "progress"]), *r.choice([[], ["job1", "OK"]])),
        lambda: c(r.choice(["c1", x]), "init", "g1", "env=c"),
        lambda: w(x, r.choice(["freeze", "unfreeze", "get-runtime-stats", "accept", "ack"])),
        lambda: w(x, "eval", r.choice(W.ids or ["job1"]), "", "x"),
    ]
    return r.choice(opts)()


FLAVOURS = ["tiny", "small", "mixed", "rich", "bad", "crowd", "deep", "deaths", "regs", "fail", "adopt", "frozen", "flood", "marathon", "stubborn", "horde"]


def scenario(r, flavour=None, length=None, mgr=None):
    fl = flavour or r.choice(FLAVOURS)
    W = World(r, fl)
    mgr = mgr or r.choice(["multi", "single"])
    live = r.choice([1, 2, 3, 4]) if fl in ("deaths", "small", "tiny") else r.choice([2, 3, 4])
    ival = r.choice([1000, 1000, 500, 100])
    maxf = r.choice([1, 2, 3, 4]) if fl != "tiny" else r.choice([0, 1, 2])
    if r.random() < 0.06:
        live = r.choice([7, 20, 260])
    if r.random() < 0.1 or fl == "stubborn":
        maxf = r.choice([6, 9, 14, 20])
    if r.random() < 0.1:
        ival = r.choice([1, 3, 60000, 70000, 5000000])
    out = [line("reset", mgr, live, ival, maxf)]
    n = length or {"crowd": 90, "horde": 330, "deep": 110, "flood": r.choice([150, 300, 400]), "marathon": 650, "stubborn": 110}.get(fl, r.choice([25, 40, 60]))
    wt = dict(eval=8, ok=6, fail=1, interr=1.5, ping=2, tick=3, init=2, reinit=0.4, prog=0.6, stats=0.5, freeze=0.15,
              unfreeze=0.4, stale=0.6, bad=0.3, decl=0.2, burst=0.4)
    wt.update({"deaths": dict(tick=7, init=5, ping=3, ok=3, interr=1), "regs": dict(reinit=5, init=4, decl=1.5, ok=3),
               "fail": dict(interr=7, fail=3, ok=2), "adopt": dict(decl=5, tick=4, interr=3), "bad": dict(bad=9, stale=4),
               "frozen": dict(freeze=1.5, unfreeze=1.5), "deep": dict(eval=12, ok=4, tick=1, burst=3),
               "flood": dict(eval=10, ok=3, burst=6, tick=0.3, init=0.2, reinit=0.1), "marathon": dict(eval=10, ok=14, tick=0.4, init=0.2, fail=3, bad=0),
               "stubborn": dict(interr=12, ok=1, tick=1.5, ping=4, eval=2, reinit=0.1, init=3),
               "crowd": dict(eval=10, init=4, burst=1), "horde": dict(eval=12, init=8, burst=3, ping=6, tick=1)}.get(fl, {}))
    for k in list(wt):
        if r.random() < 0.12:
            wt[k] = 0
    keys, vals = list(wt), [wt[k] for k in wt]
    if r.random() < 0.85:
        for x in W.ws:
            if r.random() < 0.8:
                out.append(W.init(x))
    while len(out) < n:
        a = r.choices(keys, vals)[0]
        x = r.choice(W.ws)
        if a == "eval":
            out.append(W.eval())
        elif a == "burst":
            q = r.choice(W.reqs)
            for _ in range(r.choice([3, 6, {"deep": 24, "flood": 60}.get(fl, 8)])):
                out.append(W.eval(q if r.random() < 0.8 else None))
        elif a == "interr" and fl == "stubborn":
            for _ in range(r.choice([1, 4, 9])):
                out.append(w(x, "done", "@cur", "INTERNAL_ERROR", "oops"))
        elif a == "ok":
            out.append(w(x, "done", "@cur", "OK"))
        elif a == "fail":
            out.append(w(x, "done", "@cur", "FAILED", r.choice(["boom", "", "a&b=c"])))
        elif a == "interr":
            out.append(w(x, "done", "@cur", "INTERNAL_ERROR", "oops"))
        elif a == "ping":
            for y in ([x] if r.random() < 0.6 else W.ws):
                out.append(w(y, "ping"))
        elif a == "tick":
            k = r.choice([ival + 1, ival + 1, ival + 1, ival, 1, ival // 2, 10 * ival, 0, ival - 1])
            for _ in range(r.choice([1, 1, 1, 2, live] if live < 50 else [1, 1, 1, 2, 70, 140])):
                out.append(line("t", k))
        elif a == "init":
            out.append(W.init(x))
        elif a == "reinit":
            if r.random() < 0.5:
                W.cap_of[x] = r.choice(W.caps + [rand_cap(r, W.rich)])
            else:
                hw, hdr = W.cap_of[x]
                W.cap_of[x] = (r.choice(HW[:3]), hdr)
            out.append(W.init(x, decl=r.choice([None, "@CUR", "ext%d" % r.randrange(9)])))
        elif a == "prog":
            f = r.choice([["TASK", r.choice(["t1", ""]), "COMPLETED"], ["STARTED"], [], ["FAILED"], ["ABORTED"], ["", ""], ["x"] * 9, ["\x00\xff" * 30, ""]])
            out.append(w(r.choice([x, x, "stranger"]), "progress", r.choice(W.ids or ["j"]), *f))
        elif a == "stats":
            out.append(c(r.choice(W.cs), "get-runtime-stats"))
        elif a == "freeze":
            out.append(c(W.cs[0], "freeze"))
        elif a == "unfreeze":
            out.append(c(W.cs[1], "unfreeze"))
        elif a == "stale":
            y = r.choice(W.ws)
            st = r.choice(["OK", "FAILED", "INTERNAL_ERROR"])
            out.append(w(x, "done", r.choice(["@cur:" + y, "@prev", r.choice(W.ids or ["job1"]), r.choice(["@near+", "@near-", "@near~", ""])]),
                         st, *([] if r.random() < (0.9 if st == "OK" else 0.1) else [r.choice(["msg", "", "m&n"])])))
        elif a == "bad":
            out.append(bad_message(W))
        elif a == "decl":
            out.append(W.init(x, decl=r.choice(["ext%d" % r.randrange(9), "@CUR", r.choice(W.ids or ["job1"])])))
    if r.random() < 0.7:
        out.append("drain")
        if r.random() < 0.3:
            out.append(line("t", ival + 1))
    out.append("kick")
    return out


def heirs(r):
    """Everybody is busy and jobs of several kinds wait; then workers die (the others keep pinging), fail or get free, one by one,
    so that jobs that have failed before wait together with fresh ones for different workers."""
    mgr = r.choice(["single", "single", "multi"])
    live, ival, maxf = r.choice([2, 2, 3, 4]), 1000, r.choice([2, 3, 5])
    out = [line("reset", mgr, live, ival, maxf)]
    kinds = [("g%d" % (i + 1), ["env=c"] + ["env=k%d" % i]) for i in range(r.choice([2, 2, 3]))]
    ws = ["w%d" % (i + 1) for i in range(len(kinds) + r.choice([1, 2, 2, 3]))]
    cap = {x: kinds[i % len(kinds)] for i, x in enumerate(ws)}
    reqs = [["hwgroup=" + k[0]] for k in kinds] + [["env=k%d" % i] for i in range(len(kinds))]
    if r.random() < 0.3:
        reqs.append(["env=c"])
    n = 0

    def jobs(k):
        nonlocal n
        for _ in range(k):
            n += 1
            out.append(c("c1", "eval", "job%d" % n, *r.choice(reqs), "", "p%d" % n))
    order = r.sample(ws, len(ws))
    for x in order:
        out.append(w(x, "init", cap[x][0], *cap[x][1]))
    jobs(r.choice([2, 3]) * len(ws))
    gone = set()
    for _ in range(r.choice([4, 8, 14])):
        a = r.choices(["die", "interr", "ok", "new", "back", "fail"], [3, 3, 5, 2, 2, 1])[0]
        x = r.choice([y for y in ws if y not in gone] or ws)
        if a == "die" and len(gone) + 1 < len(ws):
            gone.add(x)
            for _ in range(live + 1):
                for y in ws:
                    if y not in gone:
                        out.append(w(y, "ping"))
                out.append(line("t", ival + 1))
        elif a == "interr":
            out.append(w(x, "done", "@cur", "INTERNAL_ERROR", "oops"))
        elif a in ("ok", "die"):
            out.append(w(x, "done", "@cur", "OK"))
        elif a == "fail":
            out.append(w(x, "done", "@cur", "FAILED", "boom"))
        elif a == "new":
            jobs(r.choice([1, 2, 5]))
        elif a == "back" and gone:
            y = r.choice(sorted(gone))
            gone.discard(y)
            out.append(w(y, "init", cap[y][0], *cap[y][1]))
    if r.random() < 0.7:
        out.append("drain")
    out.append("kick")
    return out
