"""Judging recorded runs (a JSON list of {ev: [...]}) with a TLA+ trace module having variables t, i and bad."""
import json, os, re
import common


def judge(module, prop, data, wd, timeout=600, consts="", view=True):
    fn = os.path.join(wd, module + ".json")
    with open(fn, "w") as f:
        json.dump(data, f)
    os.environ["TRACE_FILE"] = fn
    cfg = 'CONSTANT Prop = "%s"\n%s\nSPECIFICATION Spec\nINVARIANT Holds\nALIAS Show\n%s' % (prop, consts, "VIEW View\n" if view else "")
    rc, out = common.tlc(module, cfg, wd, timeout=timeout, name=module + "_" + prop)
    gen, distinct = common.states_of(out)
    total = sum(len(d["ev"]) for d in data)
    if rc == 0:
        if distinct < total:
            raise common.CheckError("TLC visited %d of %d recorded events\n%s" % (distinct, total, out[-2000:]))
        return None, distinct
    if rc == 12 and "Invariant Holds is violated" in out:
        t = re.findall(r"\bt = (\d+)", out)
        i = re.findall(r"\bi = (\d+)", out)
        if not t or not i:
            raise common.CheckError("cannot read TLC's counterexample:\n" + out[-3000:])
        return (int(t[-1]), int(i[-1])), distinct
    raise common.CheckError("TLC failed (rc %s):\n%s" % (rc, out[-3500:]))


def decide(judge1, runs, soft, again, flaky):
    """Judge RUNS with judge1(list) -> (bad, states); bad: (run, event), 1-based.  A rejection that may be due to a slow machine
    (soft(event)) counts only if one of the runs of again(index) is rejected, too.  -> (run, event number) or None, states"""
    rest, total = list(range(len(runs))), 0
    while rest:
        bad, st = judge1([runs[i] for i in rest])
        total += st
        if not bad:
            return None, total
        k = rest[bad[0] - 1]
        if not soft(runs[k]["ev"][bad[1] - 1]):
            return (runs[k], bad[1]), total
        more = again(k)
        bad2, _ = judge1(more)
        if bad2:
            return (more[bad2[0] - 1], bad2[1]), total
        flaky.append(k)
        if len(flaky) > 5:
            raise common.CheckError("too many unrepeatable rejections: the machine is too slow")
        rest.remove(k)
    return None, total
