"""C01-C16, C22, C24, C25: properties of the broker's reaction to messages and timer events.

 1. TLC model-checks the operational model (Broker.tla) against the property (BrokerProps.tla) for small constants.
 2. TLC generates behaviours of that model (BrokerGen.tla); they, and random histories that go beyond the model's
    vocabulary, are fed to the real broker_handler, registry and queue managers, whose reactions are recorded.
 3. TLC evaluates the property on every recorded event (BrokerTrace.tla).
"""
import json, os, random, re, time
from concurrent.futures import ThreadPoolExecutor
import common, events, gen, match_check, modelgen, tracecheck

# property -> (optional inputs of the model, flavours of random histories)
PLAN = {
    "C01": (["adopt", "reinit"], ["small", "mixed", "deaths", "regs", "fail", "adopt", "tiny"]),
    "C02": (["adopt", "reinit"], ["small", "mixed", "deaths", "regs", "fail", "adopt", "crowd"]),
    "C03": (["reinit"], ["rich", "rich", "mixed", "crowd", "deaths", "regs"]),
    "C04": (["freeze"], ["rich", "mixed", "frozen", "deaths", "regs"]),
    "C05": (["adopt", "reinit"], ["small", "mixed", "deep", "deaths", "fail", "adopt", "regs", "crowd"]),
    "C06": (["reinit"], ["deep", "deep", "small", "mixed", "deaths", "fail", "crowd"]),
    "C07": (["adopt", "reinit"], ["fail", "fail", "deaths", "tiny", "regs", "mixed"]),
    "C08": (["junk"], ["deaths", "tiny", "small", "mixed", "bad", "adopt"]),
    "C09": (["adopt", "reinit"], ["deaths", "deaths", "tiny", "crowd", "fail", "regs"]),
    "C10": (["junk", "adopt"], ["bad", "bad", "mixed", "deaths", "regs", "adopt"]),
    "C11": (["freeze"], ["frozen", "frozen", "mixed", "deaths"]),
    "C12": (["junk", "adopt"], ["bad", "bad", "rich", "regs", "deaths", "adopt", "mixed"]),
    "C13": (["adopt", "reinit"], ["regs", "regs", "adopt", "deaths", "rich"]),
    "C14": (["reinit"], ["rich", "rich", "bad", "deaths", "fail"]),
    "C15": (["adopt", "junk"], ["deaths", "fail", "mixed", "rich", "bad", "tiny"]),
    "C16": (["stats", "freeze"], ["mixed", "frozen", "deaths", "fail", "deep"]),
    "C22": (["reinit"], ["crowd", "crowd", "small", "mixed", "regs", "fail", "deaths"]),
    "C24": (["adopt", "reinit"], ["adopt", "adopt", "regs", "deaths"]),
    "C25": (["junk", "adopt", "freeze"], ["bad", "mixed", "regs", "frozen", "deaths", "adopt"]),
}
# properties by which some inputs must leave no trace (BrokerProps!Inert)
INERT = ("C04", "C10", "C11", "C12", "C13", "C15", "C16", "C25")
SAN = ("-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-g")
SAN_ENV = {"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:hard_rss_limit_mb=3000", "UBSAN_OPTIONS": "print_stacktrace=0"}

MC = """CONSTANTS Mgr="%s" Live=%d MaxF=%d MaxJobs=%d
Workers={%s} Caps={%s} Reqs={%s} Feats={%s} Props={"%s"}
SPECIFICATION Spec
VIEW View
INVARIANTS AllHold RegOK Agree
"""


def model_check(prop, mgr, feats, jobs, wd, workers, live=2, maxf=2, nw=2, caps="1,2", reqs="1,2", timeout=500, tag=""):
    cfg = MC % (mgr, live, maxf, jobs, modelgen.quoted("w%d" % (i + 1) for i in range(nw)), caps, reqs,
                modelgen.quoted(feats), prop)
    rc, out = common.tlc("BrokerMC", cfg, wd, workers=workers, timeout=timeout, name="BrokerMC_%s%s" % (mgr, tag))
    gs, ds = common.states_of(out)
    if rc not in (0, -1):
        raise common.CheckError("the specification itself violates %s (%s):\n%s" % (prop, mgr, out[-6000:]))
    return {"mgr": mgr, "feats": list(feats), "jobs": jobs, "workers": nw, "generated": gs, "distinct": ds, "complete": rc == 0}


def variants(r, prop):
    out = []
    for mgr in ("multi", "single"):
        out.append((mgr, 2, 2, 3))
        out.append((mgr, r.choice([1, 3]), r.choice([1, 3]), r.choice([2, 4])))
    return out


def check(prop):
    feats, flavours = PLAN[prop]
    rep = common.Report(prop, "model_checking")
    wd = common.workdir(prop)
    r = random.Random("%s/%d/%s" % (prop, common.SEED, common.TIER))
    half = max(1, common.CPU // 2)
    T = common.THOROUGH

    binary = common.build("h_broker")
    # 1. the specification satisfies the property
    plans = [(m, feats, 1, "") for m in ("multi", "single")]
    if T:
        plans += [(m, [], 2, "_2") for m in ("multi", "single")] + [(m, feats, 2, "_f2") for m in ("multi", "single")]
    with ThreadPoolExecutor(2) as ex:
        mcs = list(ex.map(lambda p: model_check(prop, p[0], p[1], p[2], wd, half, tag=p[3], timeout=1500 if T else 300), plans))

    extra = {}
    if prop in ("C03", "C04"):
        extra["matching"] = match_check.run(prop, rep, wd, *((2, 3) if T else (2, 2) if prop == "C03" else (1, 2)))

    # 2. behaviours of the specification and random histories, run through the real code
    scen = []
    vs = variants(r, prop)
    num, depth = (60, 60) if T else (8, 45)
    with ThreadPoolExecutor(4) as ex:
        for s in ex.map(lambda v: modelgen.simulate(v[0], num, depth, wd, random.Random(str(v) + str(common.SEED)),
                                                    live=v[1], maxf=v[2], nworkers=v[3], workers=2), vs):
            scen += s
    nmodel = len(scen)
    ncover = 0
    if T:
        for mgr in ("multi", "single"):
            paths, _ = modelgen.cover(mgr, wd, r)
            for p in paths:
                ncover += 1
                scen.append(modelgen.to_lines(p, mgr, 1, 2, r) + ["drain", "kick"])
    nrand = 4000 if T else 420
    for i in range(nrand):
        scen.append(gen.scenario(r, flavours[i % len(flavours)]))
    long = (["flood"] * 60 + ["marathon"] * 10 + ["stubborn"] * 60 + ["horde"] * 20) if T else (["flood"] * 5 + ["marathon"] * 1 + ["stubborn"] * 6 + ["horde"] * 2)
    for i, fl in enumerate(long):
        scen.append(gen.scenario(r, fl, mgr=("multi", "single")[i % 2]))
    nrand += len(long)
    r.shuffle(scen)
    r2 = random.Random("heirs/%s/%d/%s" % (prop, common.SEED, common.TIER))
    nh = 600 if T else 80
    scen += [gen.heirs(r2) for _ in range(nh)]
    nrand += nh
    runs = []
    if prop == "C12":
        san = common.build("h_broker", "asan", SAN)
        runs += tracecheck.run_scenarios(san, scen[::2], SAN_ENV)
        runs += tracecheck.run_scenarios(binary, scen[1::2], {"MONOTONE": "1"})
    else:
        runs += tracecheck.run_scenarios(binary, scen[::2])
        runs += tracecheck.run_scenarios(binary, scen[1::2], {"MONOTONE": "1"})

    # 3. TLC judges every recorded event
    states = trans = nodes = 0
    samples = []
    kinds = {}
    step = 1200
    for a in range(0, len(runs), step):
        F = tracecheck.Forest()
        for g in runs[a:a + step]:
            F.add(g, share=bool(ncover))
        for x in F.raw:
            k = x["f"][0] if x["k"] in "wc" and x["f"] else x["k"]
            kinds[k] = kinds.get(k, 0) + 1
        bad, st, out = tracecheck.judge(prop, F, wd, timeout=3000 if T else 600)
        states += st
        nodes += len(F.nodes)
        if bad:
            path = F.path(bad)
            rep.evidence(states=states, transitions=nodes, traces_validated_against_impl=a, samples=["violating history"])
            rep.violation("%s violated by the last event of this history of the real broker (%d events)" % (prop, len(path)),
                          "\n".join(events.show(x) for x in path))
        if prop in INERT:
            inert = {}
            node2 = {}
            k = 0
            for g, recs in enumerate(runs[a:a + step]):
                node2.update({F_i: (g, j) for j, F_i in enumerate(F.where[g])})
            for n, life in re.findall(r'<<"INERT", (\d+), (TRUE|FALSE)>>', out):
                g, j = node2[int(n)]
                inert.setdefault(g, {})[j] = life == "TRUE"
            v, np, ni, ns = tracecheck.pairs(prop, binary, runs[a:a + step], inert, wd, r, 400 if T else 150)
            for key, val in (("pairs_of_histories", np), ("inert_inputs_taken_out", ni), ("pairs_skipped", ns)):
                extra[key] = extra.get(key, 0) + val
            if v:
                rep.evidence(states=states, transitions=nodes, traces_validated_against_impl=a, samples=["violating pair"])
                rep.violation("%s violated: inputs that must leave no trace changed what happened later" % prop, v)
        if not samples:
            n = r.randrange(len(F.nodes)) + 1
            samples = [events.show(x)[:300] for x in F.path(n)[-12:]]
    rep.evidence(states=states + sum(m["distinct"] for m in mcs), transitions=nodes + sum(m["generated"] for m in mcs),
                 traces_validated_against_impl=len(runs), model_checking_runs=mcs, recorded_events=nodes,
                 recorded_event_kinds={k: v for k, v in sorted(kinds.items(), key=lambda t: -t[1])[:14]},
                 behaviours_generated_from_spec=nmodel, state_cover_behaviours=ncover, random_histories=nrand, samples=samples, **extra)
    rep.ok()
