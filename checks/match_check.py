"""Part of C03 (and of the admission verdicts of C04): every pair of small capability and requirement sets.
TLC enumerates the sets (MatchGen.tla), the real broker decides each pair, TLC compares the verdicts with Matching.tla."""
import json, os, subprocess
import common, simple

esc = lambda s: "".join(c if 0x20 < ord(c) < 0x7f and c != "%" else "%%%02x" % ord(c) for c in s)


def run(prop, rep, wd, capmax, reqmax):
    binary = common.build("h_match")
    fn = os.path.join(wd, "match.json")
    os.environ["OUT_FILE"] = fn
    rc, out = common.tlc("MatchGen", "CONSTANTS CapMax=%d ReqMax=%d\nSPECIFICATION Spec\n" % (capmax, reqmax), wd, workers=1, timeout=600)
    if rc != 0:
        raise common.CheckError("TLC failed:\n" + out[-3000:])
    d = json.load(open(fn))
    hdr = lambda hs: "".join("\t" + esc(k + "=" + v) for k, v in hs)
    text = "".join("cap\t" + esc(c["hw"]) + hdr(c["hdr"]) + "\n" for c in d["caps"]) + "".join("req" + hdr(r) + "\n" for r in d["reqs"])
    p = subprocess.run([binary], input=text, capture_output=True, text=True, timeout=900)
    rows = p.stdout.split("\n")[:-1]
    if p.returncode != 0 or len(rows) != len(d["caps"]):
        rep.violation("the broker died while deciding requirements (status %s)" % p.returncode, json.dumps(d["caps"][min(len(rows), len(d["caps"]) - 1)]))
    d["got"] = [[int(x) for x in row] for row in rows]
    fn2 = os.path.join(wd, "matchtrace.json")
    json.dump(d, open(fn2, "w"))
    os.environ["TRACE_FILE"] = fn2
    rc, out = common.tlc("MatchTrace", 'CONSTANT Prop="%s"\nSPECIFICATION Spec\nINVARIANT Holds\nALIAS Show\n' % prop, wd, timeout=2400, heap="8g")
    g, ds = common.states_of(out)
    if rc == 12 and "Invariant Holds is violated" in out:
        import re
        t, i = int(re.findall(r"\bt = (\d+)", out)[-1]), int(re.findall(r"\bi = (\d+)", out)[-1])
        rep.evidence(states=ds, transitions=g, samples=["violating pair"], traces_validated_against_impl=0)
        rep.violation("%s: a broker whose only worker declares %s decided wrongly on a job that requires %s (%s)"
                      % (prop, json.dumps(d["caps"][t - 1]), json.dumps(d["reqs"][i - 1]),
                         ["rejected", "accepted", "no single verdict", "verdict and dispatch disagree"][d["got"][t - 1][i - 1]]), "")
    if rc != 0 or ds != 2 * len(rows):
        raise common.CheckError("TLC failed (rc %s):\n%s" % (rc, out[-3000:]))
    ones = sum(map(sum, d["got"]))
    return {"capability_sets": len(d["caps"]), "requirement_sets": len(d["reqs"]), "pairs": len(d["caps"]) * len(d["reqs"]), "satisfied_pairs": ones}
