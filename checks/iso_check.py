"""C26: groups of peers that share no jobs do not affect each other.

 1. TLC checks the property on the self-composition of the model (BrokerIso.tla).
 2. Two random histories with disjoint peers, jobs and capabilities are merged and fed to the real broker; so is each of them
    alone (with the same passing of time and freezing).  TLC compares the reactions (IsoTrace.tla).
"""
import random, re
from concurrent.futures import ThreadPoolExecutor
import common, events, gen, simple, tracecheck

FLAVOURS = ["small", "mixed", "deaths", "regs", "fail", "adopt", "tiny", "crowd", "rich", "frozen", "deep", "bad"]
MC = """CONSTANTS Mgr="%s" Live=%d MaxF=2 JobsA=%d JobsB=1 WorkersA={"x1","x2"} WorkersB={"y1"}
SPECIFICATION Spec
VIEW View
INVARIANT Same
"""


def fields(l):
    return [re.sub("%([0-9a-f]{2})", lambda m: chr(int(m.group(1), 16)), x) for x in l.split("\t")]


def mine(l, g):
    """the line as a message of group G (None: of no use here)"""
    t = fields(l)
    k, f = t[0], t[2:]
    if k not in "wc" or not f:
        return None
    if k == "c":
        if f[0] in ("freeze", "unfreeze"):
            return ("shared", gen.c("x", f[0]))
        if f[0] == "get-runtime-stats":
            return None
        if f[0] == "eval" and len(f) > 1:
            f[1] = g + f[1]
            if len(f) > 2:
                f.insert(2, "zone=" + g)
    elif f[0] == "init" and len(f) > 1:
        f = [(("current_job=" + g + x[12:]) if x.startswith("current_job=") and x != "current_job=@CUR" else x) for x in f]
        f = ["current_job=" + g + x if x == "current_job" else x for x in f]      # (a bare header name declares a job of that name)
        f.insert(2, "zone=" + g)
    elif f[0] in ("done", "progress") and len(f) > 1:
        f[1] = "@cur:" + g + f[1][5:] if f[1].startswith("@cur:") else f[1] if f[1].startswith("@") else g + f[1]
    return (g, gen.line(k, g + t[1], *f))


def merged(r):
    fl = r.choice(FLAVOURS)
    mgr = r.choice(["multi", "single"])
    subs = [gen.scenario(r, f, mgr=mgr) for f in (fl, r.choice(FLAVOURS))]
    out = [("shared", subs[0][0])]
    qs = []
    for g, s in zip("AB", subs):
        ls = [("shared", l) if l.startswith("t\t") else mine(l, g) for l in s[1:] if "\t" in l]
        qs.append([l for l in ls if l])
    while any(qs):
        q = r.choices(qs, [len(q) for q in qs])[0]
        out += q[:1]
        del q[:1]
    # afterwards everybody answers for a while
    for _ in range(r.choice([0, 2, 5])):
        for g in "AB":
            for i in range(5):
                out.append((g, gen.w("%sw%d" % (g, i + 1), "done", "@cur", "OK")))
    return mgr, out


def view(rec):
    return {"out": [events.convert_out(o) for o in rec.get("o", [])], "reg": [events.tok(x) for x in rec.get("reg", [])],
            "cur": [events.tok(x) for x in rec.get("cur", [])], "x": rec.get("x", "")[:9]}


def facts(recs, whose, g):
    """what the inputs of group G mention: peers, jobs, capability and requirement sets"""
    peers, jobs, T = {g + "stranger"}, set(), events.Tables()
    for x, rec in zip(whose, recs):
        if x != g:
            continue
        e = events.convert_in(rec, T)
        peers.add(e["who"])
        if e["k"] == "eval":
            jobs.add(e["id"])
        elif e["k"] == "init" and e.get("hasdecl"):
            jobs.add(e["decl"])
    return sorted(peers), sorted(jobs), T.json()


def check(prop):
    rep = common.Report(prop, "model_checking")
    wd = common.workdir(prop)
    T = common.THOROUGH
    r = random.Random("%s/%d/%s" % (prop, common.SEED, common.TIER))
    binary = common.build("h_broker")

    def mc(v):
        rc, out = common.tlc("BrokerIso", MC % v, wd, workers=4, timeout=2500 if T else 300, name="BrokerIso_%s%d%d" % v)
        if rc not in (0, -1):
            raise common.CheckError("the specification itself violates %s:\n%s" % (prop, out[-5000:]))
        return dict(zip(("generated", "distinct"), common.states_of(out)), mgr=v[0], live=v[1], jobs=v[2], complete=rc == 0)
    with ThreadPoolExecutor(2) as ex:
        mcs = list(ex.map(mc, [("multi", 2, 1), ("single", 1, 1)] + ([("multi", 1, 2), ("single", 2, 1), ("single", 1, 2)] if T else [])))

    n = 3000 if T else 300
    hist = [merged(r) for _ in range(n)]
    total = skipped = states = 0
    for a in range(0, n, 300):
        part = hist[a:a + 300]
        scripts = []
        for mgr, h in part:
            both = [l for _, l in h]
            load = [both[0]] + [x for l in both[1:] for x in ([l] if r.random() < 0.7 else ["ballast\t%d" % r.choice([1, 3, 50, 900]), l])]
            scripts += [both, load] + [[l for g, l in h if g in (z, "shared")] for z in "AB"]
        runs = tracecheck.run_scenarios(binary, scripts, {"MONOTONE": "1"})
        # a manager whose choices depend on addresses cannot be compared
        loose = {mgr for k, (mgr, h) in enumerate(part) if list(map(tracecheck.seen, runs[4 * k])) != list(map(tracecheck.seen, runs[4 * k + 1]))}
        data, back = [], []
        for k, (mgr, h) in enumerate(part):
            if mgr in loose:
                skipped += 1
                continue
            both, whose = runs[4 * k], [g for g, _ in h]
            fa = {g: facts(both, whose, g) for g in "AB"}
            for z, solo in zip("AB", runs[4 * k + 2:4 * k + 4]):
                idx = [i for i, (g, _) in enumerate(h) if g in (z, "shared")]
                ev = [{"whose": "shared" if whose[i] == "shared" else "own", "with": view(both[i]) if i < len(both) else view({"x": "missing"}),
                       "without": view(solo[j]) if j < len(solo) else view({"x": "missing"})} for j, i in enumerate(idx) if i < len(both) or j < len(solo)]
                me, other = fa[z], fa["AB".replace(z, "")]
                data.append({"ev": ev, "peers": me[0], "jobs": me[1], "caps": me[2]["caps"], "reqs": me[2]["reqs"], "otherpeers": other[0],
                             "otherjobs": other[1], "othercaps": other[2]["caps"], "otherreqs": other[2]["reqs"]})
                back.append((k, z, idx, solo))
        if not data:
            continue
        bad, st = simple.judge("IsoTrace", prop, data, wd, timeout=1500)
        states += st
        total += len(data)
        if bad:
            k, z, idx, solo = back[bad[0] - 1]
            i = idx[bad[1] - 1]
            both = runs[4 * k]
            text = "with the other group:\n%s\n\nwithout it:\n%s" % ("\n".join(events.show(x) for x in both[:i + 1]), "\n".join(events.show(x) for x in solo[:bad[1]]))
            rep.evidence(states=states, transitions=states, traces_validated_against_impl=total, samples=["violating pair"])
            rep.violation("C26 violated: group %s is treated differently when the other group is there (last event of each history)" % z, text)
    rep.evidence(states=sum(m["distinct"] for m in mcs) + states, transitions=sum(m["generated"] for m in mcs) + states, model=mcs,
                 traces_validated_against_impl=total, histories=n, skipped_address_dependent=skipped, compared_events=states,
                 samples=[gen.esc(l) for _, l in r.choice(hist)[1][:25]])
    rep.ok()
