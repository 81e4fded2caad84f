"""Run input histories through the broker harness and let TLC judge the recorded events."""
import json, os, random, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import common, events, gen, simple


HANG = 60           # seconds (all the scenarios of a chunk take a few seconds)
CRASHES = 12        # per chunk: enough is enough


def run_chunk(binary, scenarios, env=None):
    """Feed the scenarios to one harness process; returns one record list per scenario (restarting after a crash)."""
    res, rest, ended = [], list(scenarios), 0
    while rest:
        t0 = time.time()
        text = "\n".join("\n".join(s) for s in rest) + "\n"
        try:
            p = subprocess.run([binary], input=text.encode("latin-1"), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                               env=dict(os.environ, **(env or {})), timeout=HANG)
        except subprocess.TimeoutExpired as ex:
            p = subprocess.CompletedProcess([], 255, ex.stdout or b"", b"no reaction within %d s" % HANG)
        recs = events.parse_harness(p.stdout.decode("latin-1"), "status %d" % p.returncode)
        groups = []
        for r in recs:
            if r["k"] == "reset":
                groups.append([])
            if groups:
                groups[-1].append(r)
        if p.returncode != 0 and groups and not groups[-1][-1].get("x"):
            groups[-1][-1]["x"] = "crash: status %d; %s" % (p.returncode, p.stderr.decode("latin-1")[-300:])
        elif p.returncode != 0 and groups:
            groups[-1][-1]["x"] += "; " + p.stderr.decode("latin-1")[-300:]
        if not groups:
            raise common.CheckError("harness produced nothing (status %d): %s" % (p.returncode, p.stderr[-500:]))
        res += groups
        if len(groups) > len(rest):
            raise common.CheckError("harness produced more scenarios than were given")
        rest = rest[len(groups):]
        ended += p.returncode != 0
        if p.returncode != 0 and (ended >= CRASHES or time.time() - t0 > HANG / 4):
            break           # the remaining scenarios are given up
    return res


def run_scenarios(binary, scenarios, env=None, jobs=common.CPU):
    n = max(1, (len(scenarios) + jobs - 1) // jobs)
    chunks = [scenarios[i:i + n] for i in range(0, len(scenarios), n)]
    with ThreadPoolExecutor(jobs) as ex:
        out = list(ex.map(lambda c: run_chunk(binary, c, env), chunks))
    return [g for o in out for g in o]


class Forest:
    def __init__(self):
        self.nodes, self.roots, self.T, self.parent, self.raw = [], [], events.Tables(), [], []
        self.index = {}
        self.where = []          # node numbers of the events of each history added

    def add(self, recs, share=False):
        cur = 0
        self.where.append([])
        for r in recs:
            key = (cur, json.dumps(r, sort_keys=True)) if share else None
            if share and key in self.index:
                cur = self.index[key]
                self.where[-1].append(cur)
                continue
            self.nodes.append({"e": events.convert(r, self.T), "kids": []})
            n = len(self.nodes)
            self.parent.append(cur)
            self.raw.append(r)
            if cur == 0:
                self.roots.append(n)
            else:
                self.nodes[cur - 1]["kids"].append(n)
            if share:
                self.index[key] = n
            cur = n
            self.where[-1].append(n)

    def path(self, n):
        r = []
        while n:
            r.append(self.raw[n - 1])
            n = self.parent[n - 1]
        return r[::-1]

    def write(self, fn):
        with open(fn, "w") as f:
            json.dump(dict(self.T.json(), nodes=self.nodes, roots=self.roots), f)


def judge(prop, forest, wd, timeout=800, module="BrokerTrace", workers=common.CPU):
    """TLC evaluates property PROP on every event; returns (violating node or None, states, output)."""
    fn = os.path.join(wd, "trace.json")
    forest.write(fn)
    os.environ["TRACE_FILE"] = fn
    cfg = 'CONSTANT Prop = "%s"\nSPECIFICATION Spec\nINVARIANT Holds\nALIAS Show\n' % prop
    rc, out = common.tlc(module, cfg, wd, timeout=timeout, name=module + "_" + prop, workers=workers)
    gen, distinct = common.states_of(out)
    if rc == 0:
        if distinct < len(forest.nodes):
            raise common.CheckError("TLC visited %d of %d recorded events" % (distinct, len(forest.nodes)))
        return None, distinct, out
    if rc == 12 and "Invariant Holds is violated" in out:
        import re
        ls = re.findall(r"^/?\\?\s*/\\ l = (\d+)|\[?l \|-> (\d+)|^\s*l = (\d+)", out, re.M)
        ls = [int(next(x for x in t if x)) for t in ls]
        if not ls:
            raise common.CheckError("cannot read TLC's counterexample:\n" + out[-3000:])
        return ls[-1], distinct, out
    raise common.CheckError("TLC failed (rc %s):\n%s" % (rc, out[-3500:]))


def lines_of(recs, out=(), noop=(), ballast=None):
    """The inputs of a recorded history as a script, without those in OUT and with those in NOOP replaced by a sign of life;
    -> lines, indices of the records that remain."""
    ls, kept = [], []
    for i, r in enumerate(recs):
        if r["k"] in ("drained", "end"):
            continue
        if ballast and r["k"] != "reset" and ballast.random() < 0.3:
            ls.append("ballast\t%d" % ballast.choice([1, 3, 50, 1000]))
        if i in noop:
            ls.append(gen.line("w", r["p"], "~sign~of~life~"))
        elif i in out:
            continue
        else:
            ls.append(gen.line({"reset": "reset"}.get(r["k"], r["k"]), *([r["p"]] if r["k"] in "wc" else []), *r["f"]))
        kept.append(i)
    return ls, kept


def seen(r):
    return {"out": [[events.tok(x) for x in o] for o in r.get("o", [])], "reg": [events.tok(x) for x in r.get("reg", [])],
            "cur": [events.tok(x) for x in r.get("cur", [])], "st": [events.tok(x) for x in r.get("st", [])], "x": r.get("x", "")[:9]}


def pairs(prop, binary, groups, inert, wd, r, limit):
    """Replays recorded histories without their inert inputs.  GROUPS: record lists; INERT[g]: {index: needs a sign of life}.
    -> (violation or None, pairs compared, inputs taken out, skipped)"""
    todo = [g for g in range(len(groups)) if inert.get(g)]
    todo = [g for g in todo if not any(x.get("x") for x in groups[g])]
    r.shuffle(todo)
    todo = todo[:limit]
    scripts = []
    for g in todo:
        a = lines_of(groups[g])
        b = lines_of(groups[g], ballast=r)
        c = lines_of(groups[g], {i for i, life in inert[g].items() if not life}, {i for i, life in inert[g].items() if life})
        scripts += [a, b, c]
    if not todo:
        return None, 0, 0, 0
    env = {"MONOTONE": "1"}
    runs = run_scenarios(binary, [ls + ["t\t0"] for ls, _ in scripts], env)
    data, texts, skipped = [], [], 0
    # a manager whose choices depend on addresses, and not only on the history, cannot be compared
    mgr = lambda g: groups[g][0]["f"][0]
    loose = {mgr(g) for k, g in enumerate(todo) if [seen(x) for x in runs[3 * k]] != [seen(x) for x in runs[3 * k + 1]]}
    for k, g in enumerate(todo):
        ra, rb, rc = runs[3 * k:3 * k + 3]
        orig = [seen(x) for x in groups[g] if x["k"] not in ("drained", "end")]
        if mgr(g) in loose or orig != [seen(x) for x in ra[:-1]]:
            skipped += 1            # (the recorded history may have run with ordinary memory)
            continue
        ia = {i: x for i, x in zip(scripts[3 * k][1] + [-1], ra)}
        ic = {i: x for i, x in zip(scripts[3 * k + 2][1] + [-1], rc)}
        idx = [i for i in scripts[3 * k + 2][1] + [-1] if i not in inert[g]]
        data.append({"ev": [{"with": seen(ia[i]), "without": seen(ic[i]) if i in ic else {}} for i in idx if i in ia]})
        texts.append((g, idx, ia, ic))
    if not data:
        return None, 0, 0, skipped
    bad, _ = simple.judge("PairTrace", prop, data, wd, timeout=1500)
    if bad:
        g, idx, ia, ic = texts[bad[0] - 1]
        i = idx[bad[1] - 1]
        n = [j for j in ia if j >= 0 and (j <= i or i < 0)]
        text = "\n".join(("[taken out] " if j in inert[g] else "") + events.show(ia[j]) for j in n)
        return ("with the marked inputs the last event went\n%s\nand without them\n%s\n\n%s" % (events.show(ia[i]), events.show(ic.get(i, {"k": "missing", "p": "", "f": []})), text)), len(data), 0, skipped
    return None, len(data), sum(len(inert[g]) for g in todo), skipped
