"""Shared plumbing of the checks: building harnesses, running TLC, evidence, verdicts."""
import json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"
JAR = "/opt/veriftools/tla/tla2tools.jar"
CPU = os.cpu_count() or 8


class CheckError(Exception):
    pass


def workdir(prop):
    d = os.path.join(BUILD, "run", prop)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def build(target, variant="plain", flags=()):
    """Compile harness TARGET against /repo's current sources; returns the path of the binary."""
    out = os.path.join(BUILD, variant)
    os.makedirs(out, exist_ok=True)
    r = subprocess.run(["bash", os.path.join(VERIF, "harness", "build.sh"), target, out, *flags],
                       capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=REPO))
    if r.returncode != 0:
        raise CheckError("build of %s failed:\n%s" % (target, (r.stdout + r.stderr)[-4000:]))
    return os.path.join(out, target)


def classpath():
    cps = [JAR]
    d = os.path.dirname(JAR)
    for n in sorted(os.listdir(d)):
        if n.endswith(".jar") and os.path.join(d, n) != JAR:
            cps.append(os.path.join(d, n))
    return ":".join(cps)


def tlc(module, cfg, wd, workers=CPU, timeout=800, extra=(), heap="4g", java=(), name=None):
    """Run TLC on MODULE (in /verif/spec) with the configuration text CFG; returns (rc, output)."""
    name = name or module
    cfgp = os.path.join(wd, name + ".cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    meta = os.path.join(wd, "meta_" + name)
    shutil.rmtree(meta, ignore_errors=True)
    tmp = os.path.join(wd, "tmp_" + name)
    os.makedirs(tmp, exist_ok=True)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:-UsePerfData", "-Djava.io.tmpdir=" + tmp, "-Xmx" + heap, "-Xss64m", *java,
           "-DTLA-Library=" + os.path.join(VERIF, "spec"), "-cp", classpath(), "tlc2.TLC",
           "-config", cfgp, "-metadir", meta, "-workers", str(workers), "-nowarning", "-noGenerateSpecTE", "-deadlock", *extra,
           os.path.join(VERIF, "spec", module + ".tla")]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=wd)
    except subprocess.TimeoutExpired as e:
        out = e.stdout or b""
        return -1, out.decode() if isinstance(out, bytes) else out
    finally:
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
    out = r.stdout + r.stderr
    with open(os.path.join(wd, name + ".out"), "w") as f:
        f.write(out)
    return r.returncode, out


def states_of(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out.replace(",", "").replace(" found", " found")
                   if False else re.sub(r"(?<=\d),(?=\d)", "", out))
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


class Report:
    def __init__(self, prop, level):
        self.prop, self.level, self.t0, self.cov = prop, level, time.time(), {}

    def evidence(self, **cov):
        self.cov.update(cov)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump({"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED,
                       "level": self.level, "coverage": self.cov, "wall_s": round(time.time() - self.t0, 2)}, f, indent=1)

    def violation(self, what, replay):
        """replay: text written to a file the VIOLATION line names"""
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, self.prop + ".txt")
        with open(p, "w") as f:
            f.write(what + "\n\n" + replay + "\n")
        print(what)
        print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
        self.evidence(**({"violation": what} | ({} if self.cov else {"explanation": what})))
        sys.exit(1)

    def ok(self):
        self.evidence()
        print("OK property=%s %.1fs" % (self.prop, time.time() - self.t0))
        sys.exit(0)
