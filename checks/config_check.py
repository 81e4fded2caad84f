"""C21: the configuration.  TLC enumerates documents (ConfigGen.tla); the real loader reads them; TLC compares the outcome
with the meaning given by Config.tla."""
import json, random, re, subprocess
import common, log_check, simple

NAMES = ["queue_manager", "clients.address", "clients.port", "workers.address", "workers.port", "workers.max_liveness",
         "workers.max_request_failures", "workers.ping_interval", "monitor.address", "monitor.port", "notifier.address",
         "notifier.port", "notifier.username", "notifier.password", "logger.file", "logger.level", "logger.max-size", "logger.rotations"]
SECTIONS = ["clients", "workers", "monitor", "notifier", "logger"]


def parse(line):
    _, shape, secs, items = line.split(";", 3)
    d = {"shape": shape, "sec": {s: "none" for s in SECTIONS}, "item": [{"how": "omitted", "v": ""} for _ in NAMES]}
    for s in secs.split(","):
        if s:
            d["sec"][s] = "other"
    for x in items.split("|"):
        m = re.match(r"(\d+)([=!])(.*)$", x, re.S)
        if m:
            i = int(m.group(1)) - 1
            d["item"][i] = {"how": "other" if m.group(2) == "!" else "scalar", "v": m.group(3)}
            if "." in NAMES[i]:
                d["sec"][NAMES[i].split(".")[0]] = "map"
    return d


def yaml(d, r):
    if d["shape"] == "seq":
        return "[1, 2]"
    if d["shape"] == "scalar":
        return "hello"
    q = lambda i, v: json.dumps(v) if v == "" or " " in v or "*" in v or r.random() < 0.3 else v
    val = lambda i: q(i, d["item"][i]["v"]) if d["item"][i]["how"] == "scalar" else r.choice(["[1]", "{a: 1}", "~", "[]"])
    blocks = []
    if d["item"][0]["how"] != "omitted":
        blocks.append("queue_manager: " + val(0))
    for s in SECTIONS:
        if d["sec"][s] == "other":
            blocks.append(s + ": " + r.choice(["[1, 2]", "text", "5", "~", "[]", "''"]))
        elif d["sec"][s] == "map":
            ls = ["  %s: %s" % (NAMES[i].split(".")[1], val(i)) for i in range(len(NAMES))
                  if NAMES[i].startswith(s + ".") and d["item"][i]["how"] != "omitted"]
            r.shuffle(ls)
            blocks.append(s + ":\n" + "\n".join(ls))
    r.shuffle(blocks)
    if r.random() < 0.2:
        blocks.append("unknown: {x: 1}")
    return "\n".join(blocks) if blocks else "{}"


def check(prop):
    rep = common.Report(prop, "model_checking")
    wd = common.workdir(prop)
    T = common.THOROUGH
    r = random.Random("%s/%d/%s" % (prop, common.SEED, common.TIER))
    binary = common.build("h_config")
    lines = []
    cfg = 'CONSTANTS K=%d Mode="%s"\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Inv Emit\nCONSTRAINT OneOther\n'
    rc, out = common.tlc("ConfigGen", cfg % (3 if T else 2, "bfs"), wd, timeout=2000)
    if rc != 0:
        raise common.CheckError("TLC failed:\n" + out[-3000:])
    g, d = common.states_of(out)
    lines += re.findall(r'^"(DOC;.*)"$', out, re.M)
    nb = len(lines)
    for k in (5, 9, 14):
        rc, out = common.tlc("ConfigGen", cfg % (k, "sim"), wd, workers=4, timeout=300, name="ConfigGen%d" % k,
                             extra=["-simulate", "num=%d" % (2000 if T else 100), "-depth", "40", "-seed", str(r.randrange(1 << 30))])
        if rc != 0:
            raise common.CheckError("TLC failed:\n" + out[-3000:])
        lines += re.findall(r'^"(DOC;.*)"$', out, re.M)
    lines = sorted(set(lines))
    docs = [parse(l) for l in lines]
    texts = [yaml(x, r) for x in docs]
    esc = lambda s: "".join(c if 0x20 <= ord(c) < 0x7f and c != "%" else "%%%02x" % ord(c) for c in s)
    p = subprocess.run([binary], input="\n".join(map(esc, texts)) + "\n", capture_output=True, text=True, timeout=600)
    res = [l.split("\t")[:-1] for l in p.stdout.split("\n") if l]
    if p.returncode != 0 or len(res) != len(docs):
        rep.violation("C21: the loader died on this document (status %s)" % p.returncode, texts[min(len(res), len(texts) - 1)])
    n = 400
    data = [{"ev": [{"d": docs[j], "r": res[j]} for j in range(a, min(a + n, len(docs)))]} for a in range(0, len(docs), n)]
    bad, st = simple.judge("ConfigTrace", prop, data, wd, timeout=2000)
    errors = sum(x == ["error"] for x in res)
    if bad:
        j = (bad[0] - 1) * n + bad[1] - 1
        rep.evidence(states=st, transitions=len(docs), traces_validated_against_impl=len(docs), samples=["violating document"])
        rep.violation("C21: this document does not have the specified effect",
                      texts[j] + "\n\nsettings: " + json.dumps(dict(zip(NAMES, res[j])) if len(res[j]) > 1 else res[j], indent=1))
    facts = log_check.stage(rep, prop, wd, r, T)
    rep.evidence(states=d, transitions=g, traces_validated_against_impl=len(docs), **facts, documents=len(docs), erroneous_documents=errors,
                 documents_with_few_items_exhaustively=nb, exhaustive=True, samples=[{"yaml": texts[j], "settings": res[j]} for j in r.sample(range(len(docs)), 3)])
    rep.ok()
