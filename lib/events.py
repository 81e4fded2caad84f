"""Purely syntactic conversion between harness records and the event records of BrokerProps.tla."""
import hashlib, json

SAFE = {c: chr(c) for c in range(0x20, 0x7f) if chr(c) not in '%"\\'}


def tok(s):
    """An injective, printable rendering of a frame (harness strings hold one byte per character)."""
    r = "".join(SAFE.get(ord(c)) or "%%%02x" % ord(c) for c in s)
    if len(r) > 300:
        r = "#%s:%d" % (hashlib.sha256(s.encode("latin-1", "replace")).hexdigest()[:24], len(s))
    return r


class Tables:
    """Numbering of the distinct capability and requirement sets that occur in a trace."""

    def __init__(self):
        self.caps, self.reqs = {}, {}

    def cap(self, hw, hdr):
        return self.caps.setdefault((hw, tuple(sorted(hdr))), len(self.caps) + 1)

    def req(self, hdr):
        return self.reqs.setdefault(tuple(sorted(hdr)), len(self.reqs) + 1)

    def json(self):
        return {"caps": [{"hw": hw, "hdr": [list(h) for h in hdr]} for hw, hdr in self.caps],
                "reqs": [[list(h) for h in r] for r in self.reqs]}


def header(f):
    """name and value of a (raw) header frame"""
    k, eq, v = f.partition("=")
    return (tok(k), tok(v)) if eq else (tok(f), tok(f))


def stats(l):
    d = dict(zip(l[::2], l[1::2]))
    names = l[::2]
    num = lambda k: int(d[k]) if k in d and d[k].isdigit() and len(d[k]) < 10 else -1
    wfm = len(l) % 2 == 0 and len(set(names)) == len(names) and all(v.isdigit() for v in l[1::2])
    return {"wfm": wfm, "ev": num("evaluated-jobs"), "fa": num("failed-jobs"), "fr": num("is-frozen"),
            "q": num("queued-jobs"), "wc": num("worker-count"), "idle": num("idle-worker-count"),
            "jip": num("jobs-in-progress")}


def convert_in(r, T):
    raw = r["f"]
    k, p, f = r["k"], tok(r["p"]), [tok(x) for x in raw]
    if k == "reset":
        return {"k": "reset", "cfg": {"mgr": f[0], "live": int(f[1]), "ival": int(f[2]), "maxf": int(f[3])}}
    if k in ("drained", "end"):
        return {"k": "mark", "name": k}
    if k == "t":
        return {"k": "tick", "ms": int(f[0]), "bad": False, "who": ""}
    e = {"who": p, "bad": False}
    cmd = f[0] if f else ""
    if k == "c":
        e["c"] = p
        if cmd == "eval":
            try:
                end = f.index("", 2)
            except ValueError:
                return e | {"k": "evalbad", "bad": True}
            hdr = [header(h) for h in raw[2:end]]
            req = [h for h in hdr if not h[0].startswith("meta.")]
            return e | {"k": "eval", "id": f[1], "req": T.req(req), "pay": f[end + 1:]}
        kind = {"get-runtime-stats": "stats", "freeze": "freeze", "unfreeze": "unfreeze"}.get(cmd, "cunk")
        return e | {"k": kind, "bad": kind == "cunk"}
    e["w"] = p
    if cmd == "init":
        if len(f) < 2:
            return e | {"k": "init", "wf": False, "cap": 0, "hasdecl": False, "decl": "", "bad": True}
        try:
            end = f.index("", 2)
        except ValueError:
            end = len(f)
        decl = [header(h)[1] for h in raw[end:] if header(h)[0] == "current_job"]
        return e | {"k": "init", "wf": True, "cap": T.cap(f[1], [header(h) for h in raw[2:end]]),
                    "hasdecl": bool(decl), "decl": decl[-1] if decl else ""}
    if cmd == "done":
        return e | {"k": "done", "id": f[1] if len(f) > 1 else "", "st": f[2] if len(f) > 2 else "", "n": len(f),
                    "msg": f[3] if len(f) > 3 else "", "bad": len(f) < 3}
    if cmd == "ping":
        return e | {"k": "ping"}
    if cmd == "progress":
        return e | {"k": "prog", "f": f[1:], "bad": len(f) < 2}
    return e | {"k": "wunk", "bad": True}


KEYS = {"clients": "c", "workers": "w", "monitor": "m", "status_notifier": "n"}


def convert_out(o):
    key, who, f = o[0], tok(o[1]), [tok(x) for x in o[2:]]
    m = {"to": KEYS.get(key, "?"), "who": who, "f": f}
    if m["to"] == "n":
        d = dict(zip(f[::2], f[1::2])) if len(f) % 2 == 0 else {}
        m.update(t=d.get("type", ""), id=d.get("id", ""), s=d.get("status", ""), m=d.get("message", ""))
    if m["to"] == "c":
        m["st"] = stats(o[2:])
    return m


def convert(r, T):
    return {"in": convert_in(r, T), "out": [convert_out(o) for o in r.get("o", [])],
            "reg": [tok(x) for x in r.get("reg", [])], "cur": [tok(x) for x in r.get("cur", [])],
            "st": stats(r.get("st", [])), "x": r.get("x", "")}


def parse_harness(text, rc):
    """Harness output -> list of records; a truncated last line is an input whose handling never returned."""
    recs = []
    for line in text.split("\n"):
        if not line:
            continue
        try:
            recs.append(json.loads(line))
        except ValueError:
            for fix in ("}", "]}", ']]}', '"]]}'):
                try:
                    r = json.loads(line + fix)
                    break
                except ValueError:
                    r = None
            if r is None:
                continue
            r["x"] = "crash: process ended with %s while handling this input" % rc
            recs.append(r)
    return recs


def show(r):
    """One harness record in readable form."""
    if r["k"] == "reset":
        return "RESET manager=%s max_liveness=%s ping_interval=%s max_request_failures=%s" % tuple(r["f"][:4])
    if r["k"] in ("drained", "end"):
        return "-- " + r["k"]
    who = {"w": "worker", "c": "client", "t": "timer"}.get(r["k"], r["k"])
    s = "%s %s %s" % (who, r["p"], json.dumps(r["f"]))
    for o in r.get("o", []):
        s += "\n    -> %s %s %s" % (o[0], o[1], json.dumps(o[2:])[:400])
    if r.get("x"):
        s += "\n    !! " + r["x"]
    return s
