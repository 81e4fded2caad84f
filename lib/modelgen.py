"""Behaviours of the specification (BrokerGen.tla) as input lines for the harness."""
import os, re
import common, gen

# concrete capabilities and requirements with the satisfaction relation the specification assumes:
# capability 1 meets requirement 1; 2 meets 1 and 2; 3 meets 2
WORDS = [
    ({1: ("g1", ["env=c"]), 2: ("g1", ["env=c", "env=java"]), 3: ("g2", ["env=java"])},
     {1: ["env=c"], 2: ["env=java"]}),
    ({1: ("a", []), 2: ("b", []), 3: ("c", [])}, {1: ["hwgroup=a|b"], 2: ["hwgroup=c|b"]}),
    ({1: ("x", ["threads=4"]), 2: ("x", ["env=j", "threads=10"]), 3: ("x", ["threads=2", "env=j"])},
     {1: ["threads=3", "hwgroup=x"], 2: ["hwgroup=y|x", "env=j"]}),
]

CFG = """CONSTANTS Mgr="%s" Live=%d MaxF=%d MaxJobs=%d Depth=%d Mode="%s"
Workers={%s} Caps={%s} Reqs={%s}
SPECIFICATION Spec
VIEW View
INVARIANT Emit
"""


def quoted(xs):
    return ",".join('"%s"' % x for x in xs)


def parse(out):
    """PrintT(<<"PATH", hist>>) lines, possibly broken over several lines"""
    paths = []
    for m in re.finditer(r'<<\s*"PATH",\s*(<<.*?>>|<< >>)\s*>>(?=\s*(?:<<\s*"PATH"|[A-Z0-9(]|$))', out, re.S):
        body = m.group(1)
        steps = re.findall(r'<<((?:\s*"[^"]*",?)+)\s*>>', body[2:])
        paths.append([re.findall(r'"([^"]*)"', s) for s in steps])
    return paths


def to_lines(path, mgr, live, maxf, r):
    caps, reqs = r.choice(WORDS)
    pay = gen.PAYS
    out = [gen.line("reset", mgr, live, 10, maxf)]
    for s in path:
        k = s[0]
        if k == "eval":
            out.append(gen.c(r.choice(["c1", "c2"]), "eval", s[1], *reqs[int(s[2])], "", *r.choice(pay)))
        elif k == "init":
            hw, hdr = caps[int(s[2])]
            out.append(gen.w(s[1], "init", hw, *hdr, *(["", "current_job=" + s[3]] if s[3] else [])))
        elif k == "done":
            out.append(gen.w(s[1], "done", "@cur", s[2], *([] if s[2] == "OK" else ["why"])))
        elif k == "stale":
            out.append(gen.w(s[1], "done", "@cur:" + s[2], s[3], *([] if s[3] == "OK" else ["why"])))
        elif k == "tick":
            out.append(gen.line("t", s[1]))
        elif k == "ping":
            out.append(gen.w(s[1], "ping"))
        elif k in ("freeze", "unfreeze"):
            out.append(gen.c("c1", k))
        elif k == "stats":
            out.append(gen.c("c2", "get-runtime-stats"))
        else:
            raise common.CheckError("unknown step " + k)
    return out


def simulate(mgr, num, depth, wd, r, live=2, maxf=2, jobs=25, nworkers=3, workers=4):
    """num*workers random behaviours of the model"""
    name = "BrokerGen_%s_%d_%d_%d" % (mgr, live, maxf, nworkers)
    cfg = CFG % (mgr, live, maxf, jobs, depth, "sim", quoted("w%d" % (i + 1) for i in range(nworkers)), "1,2,3", "1,2")
    rc, out = common.tlc("BrokerGen", cfg, wd, workers=workers, timeout=300, name=name,
                         extra=["-simulate", "num=%d" % num, "-depth", str(depth + 5), "-seed", str(r.randrange(1 << 30))])
    if rc != 0:
        raise common.CheckError("TLC simulation failed:\n" + out[-3000:])
    paths = parse(out)
    if len(paths) < num // 2:
        raise common.CheckError("TLC simulation produced only %d behaviours" % len(paths))
    return [to_lines(p, mgr, live, maxf, r) + ["drain", "kick"] for p in paths]


def cover(mgr, wd, r, live=1, maxf=2, jobs=2, nworkers=2, depth=30, timeout=600):
    """one behaviour for every reachable state of a small model"""
    name = "BrokerGenBfs_%s" % mgr
    cfg = CFG % (mgr, live, maxf, jobs, depth, "bfs", quoted("w%d" % (i + 1) for i in range(nworkers)), "1,2", "1,2")
    rc, out = common.tlc("BrokerGen", cfg, wd, workers=1, timeout=timeout, name=name)
    if rc not in (0, -1):
        raise common.CheckError("TLC failed:\n" + out[-3000:])
    return parse(out), rc == 0
