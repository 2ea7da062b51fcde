#!/usr/bin/env python3
"""check.py ID quick|thorough  - decides one property on /repo's working tree.
   check.py setup              - builds everything once.
   check.py replay ID CASE VARIANT - shows one recorded history and what the specification says of it.

Exit 0: the property held on everything explored. 1: violated (VIOLATION line). 2: no answer."""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
from plan import CHECKS, SUITES, MODELS  # noqa: E402

SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
JOBS = 8


class NoAnswer(Exception):
    pass


RUNNING, RUNLOCK = set(), threading.Lock()
T0 = time.time()
LIMIT = {"quick": 820, "thorough": 6 * 3600}
TIER = "quick"


def proc(cmd, **kw):
    """subprocess.run with the time that is left; stop_all ends it early"""
    left = LIMIT[TIER] - (time.time() - T0)
    if left < 5:
        raise subprocess.TimeoutExpired(cmd, left)
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, **kw)
    with RUNLOCK:
        RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=left)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise
    finally:
        with RUNLOCK:
            RUNNING.discard(p)


def stop_all():
    with RUNLOCK:
        for p in RUNNING:
            p.kill()


PROGRAMS = ("bmt", "bst", "bstack")


def binary(variant):
    # histories of the program itself are driven by the harness of any build
    return os.path.join(HARNESS, "target", "mt" if variant in PROGRAMS else variant, "release", "vharness")


def environment(variant, scratch, stim):
    env = dict(os.environ)
    env["SCRATCH"] = scratch
    if variant in PROGRAMS:
        env["TFTPBIN"] = os.path.join(HARNESS, "target", variant, "release", "tftp-dus")
        env["TFTPKIND"] = variant
        env["SHIM"] = os.path.join(HARNESS, "target", "shim.so")
    if stim:
        env["STIM"] = stim
    return env


def build(variants):
    if any(v in PROGRAMS for v in variants):
        variants = sorted(set(variants) | {"mt"})
    os.makedirs(os.path.join(HARNESS, "target"), exist_ok=True)
    def one(v):
        p = subprocess.run([os.path.join(HARNESS, "build.sh"), v], stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            raise NoAnswer("the harness does not build (%s):\n%s" % (v, p.stdout[-4000:]))
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(one, variants))


ROW = re.compile(r'<<\s*"(VIOL|END|COV|STIM)",\s*(.*?)>>', re.S)
STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, cfg, work, workers=1, heap="3g", env=None, extra=()):
    meta = os.path.join(work, "meta-%s-%d-%s" % (cfg, threading.get_ident() % 100000, time.time_ns()))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=%d" % max(2, workers), "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join("cfg", cfg + ".cfg"),
           *extra, module + ".tla"]
    try:
        rc, out = proc(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    except subprocess.TimeoutExpired:
        raise NoAnswer("TLC did not finish: " + cfg)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = None
    for m in STATES.finditer(out):
        pass
    gen, dist = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    return rc, out, gen, dist


def strs(s):
    return re.findall(r'"((?:[^"\\]|\\.)*)"|(-?\d+)', s)


class Check:
    def __init__(self, pid, tier):
        self.pid, self.tier, self.cfg = pid, tier, CHECKS[pid]
        self.work = os.path.join(HERE, "out", "%s-%s" % (pid, tier))
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.replays = os.path.join(HERE, "out", "replay")
        os.makedirs(self.replays, exist_ok=True)
        self.states = self.trans = self.traces = self.events = 0
        self.viol, self.models, self.samples, self.suites = [], [], [], {}
        self.cov = {}
        self.failed = []
        self.lock = threading.Lock()
        self.t0 = time.time()

    # ---- the models of the specification
    def model(self, name):
        m = MODELS[name]
        cfg = m.get("thorough", name) if self.tier == "thorough" else name
        rc, out, gen, dist = tlc(m["module"], cfg, self.work, workers=m.get("workers", 2), heap=m.get("heap", "4g"))
        if rc != 0:
            open(os.path.join(self.work, cfg + ".out"), "w").write(out)
            raise NoAnswer("the model %s does not satisfy its properties (see %s)" % (cfg, self.work))
        with self.lock:
            self.states += dist
            self.trans += gen
            self.models.append({"model": cfg, "distinct_states": dist, "states_generated": gen})

    # ---- histories of the code
    def stimuli(self, suite):
        """Schedules / tables the specification enumerates for this suite: a file of one JSON value per line."""
        s = SUITES[suite]
        if "stim" not in s or not s[self.tier]:
            return None
        st = s["stim"]
        out_file = os.path.join(self.work, suite + ".stim")
        cfg = st["cfg"]
        if self.tier == "thorough":
            cfg = st.get("thorough", cfg)
        if os.path.exists(out_file):
            return out_file
        rc, out, gen, dist = tlc(st["module"], cfg, self.work, workers=1, heap="4g", env={"STIM": out_file, "SEED": str(SEED), **st.get("env", {})},
                                 extra=st.get("extra", ()))
        if rc != 0 or not os.path.exists(out_file):
            open(os.path.join(self.work, cfg + ".out"), "w").write(out)
            raise NoAnswer("no stimuli from %s" % cfg)
        with self.lock:
            self.states += dist
            self.trans += gen
            self.models.append({"model": cfg, "distinct_states": dist, "states_generated": gen, "role": "stimuli"})
        return out_file

    def slice(self, suite, variant, k, start, stop, step, stim):
        s = SUITES[suite]
        path = os.path.join(self.work, "%s-%s-%d.ndjson" % (suite, variant, k))
        args = [binary(variant), s["cmd"], suite, str(SEED), str(start), str(stop), str(step)]
        # the program runs as an unprivileged user: its scratch directory must be reachable for it
        scratch = tempfile.mkdtemp(prefix="vharness-")
        with open(path, "w") as f, open(path + ".err", "w") as err:
            try:
                rc, _ = proc(args, stdout=f, stderr=err, env=environment(variant, scratch, stim))
            except subprocess.TimeoutExpired:
                raise NoAnswer("the harness did not finish: " + " ".join(args))
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        if rc == 77:
            # the code under test makes no progress although nothing blocks it
            case = open(path + ".err").read().strip().splitlines()
            with self.lock:
                self.viol.append({"prop": "HANG", "case": case[-1] if case else "?", "rule": "code-spins-for-ever", "event": 0,
                                  "suite": suite, "variant": variant})
            return
        if rc != 0:
            tail = open(path + ".err").read()[-2000:]
            raise NoAnswer("the harness failed (%d): %s\n%s" % (rc, " ".join(args), tail))
        n = ev = 0
        first = None
        with open(path) as f:
            for line in f:
                n += 1
                ev += line.count('{"e":')
                first = first or line
        if n == 0:
            return
        rc, out, gen, dist = tlc(s["spec"], s["spec"], self.work, heap="3g", env={"TRACES": path})
        rows = [(m.group(1), strs(m.group(2))) for m in ROW.finditer(out)]
        ends = sum(1 for r in rows if r[0] == "END")
        if rc != 0 or ends != n:
            open(path + ".out", "w").write(out)
            raise NoAnswer("validation of %s did not complete: %d of %d histories (see %s.out)" % (suite, ends, n, path))
        with self.lock:
            self.states += dist
            self.trans += gen
            self.traces += n
            self.events += ev
            t = self.suites.setdefault(suite, {"histories": 0, "events": 0, "variants": []})
            t["histories"] += n
            t["events"] += ev
            if variant not in t["variants"]:
                t["variants"].append(variant)
            if len(self.samples) < 6 and not any(x["suite"] == suite for x in self.samples):
                self.samples.append({"suite": suite, "variant": variant, "history": first[:600]})
            for kind, r in rows:
                v = [a or b for a, b in r]
                if kind == "VIOL":
                    self.viol.append({"prop": v[0], "case": v[1], "rule": v[2], "event": int(v[3]), "suite": suite,
                                      "variant": variant, "file": path})
                elif kind == "COV":
                    self.cov[v[0]] = self.cov.get(v[0], 0) + 1
        if not any(x.get("file") == path for x in self.viol):
            os.unlink(path)

    def accepted(self, v):
        tags = self.cfg["suites"].get(v["suite"])
        if v["prop"] == "HANG":
            return self.pid in ("C16", "C17", "C18") or tags == "all"
        return tags == "all" or v["prop"] in tags

    def run(self):
        variants, jobs = set(), []
        scale = 1 if self.tier == "quick" else 0
        for s in self.cfg["suites"]:
            variants.update(SUITES[s]["variants"])
        models = self.cfg.get("models", []) + (self.cfg.get("deep", []) if self.tier == "thorough" else [])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            fm = [ex.submit(self.model, m) for m in models]
            fs = {s: ex.submit(self.stimuli, s) for s in self.cfg["suites"]}
            build(sorted(variants))
            for f in fm:
                f.result()
            stim = {s: f.result() for s, f in fs.items()}
            for s in self.cfg["suites"]:
                c = SUITES[s]
                n = c[self.tier]
                if n == "stim":
                    n = sum(1 for _ in open(stim[s])) * c.get("mult", 1) * (c.get("deep", 1) if self.tier == "thorough" else 1)
                if not n:
                    continue
                if c.get("cap") and self.tier == "quick" and n > c["cap"]:
                    stride = -(-n // c["cap"]) | 1
                else:
                    stride = 1
                per = c.get("slice", 400)
                for v in c["variants"]:
                    count = -(-n // stride)
                    parts = max(1, -(-count // per))
                    for k in range(parts):
                        # interleaved: the slices are alike
                        jobs.append((s, v, k, k * stride + (SEED % stride), n, parts * stride, stim[s]))
            fj = [ex.submit(self.guarded, *j) for j in jobs]
            for f in cf.as_completed(fj):
                f.result()
        if self.failed and not self.fresh():
            raise self.failed[0]
        return self.report()

    def guarded(self, *job):
        # a violation that is already shown needs no more histories
        if self.fresh():
            return
        try:
            self.slice(*job)
        except NoAnswer as e:
            self.failed.append(e)
        if self.fresh():
            stop_all()

    def fresh(self):
        with self.lock:
            mine = [v for v in self.viol if self.accepted(v)]
        return any(not self.is_known(v) for v in mine)

    def is_known(self, v):
        key = "%s/%s/%s/%s" % (v["suite"], v["case"], v["variant"], v["rule"])
        return next((k for k in self.known() if k[0] == self.pid and k[1].fullmatch(key)), None)

    def known(self):
        path = os.path.join(HERE, "known_findings.txt")
        out = []
        if os.path.exists(path):
            for line in open(path):
                m = re.match(r"known: property=(\S+) match=(\S+) (.*)", line.strip())
                if m:
                    out.append((m.group(1), re.compile(m.group(2)), m.group(3)))
        return out

    def replay_file(self, v):
        path = os.path.join(self.replays, "%s-%s-%s.txt" % (self.pid, v["case"].replace("/", "_"), v["variant"]))
        with open(path, "w") as f:
            f.write("property %s, rule %s/%s broken at event %d of history %s (variant %s)\n" %
                    (self.pid, v["prop"], v["rule"], v["event"], v["case"], v["variant"]))
            f.write("replay: python3 %s/check.py replay %s %s %s\n\n" % (HERE, v["suite"], v["case"], v["variant"]))
            if v.get("file") and os.path.exists(v["file"]):
                for line in open(v["file"]):
                    if '"id":"%s"' % v["case"] in line:
                        f.write(line)
                        break
        return path

    def report(self):
        mine = [v for v in self.viol if self.accepted(v)]
        seen, bad = {}, []
        for v in mine:
            hit = self.is_known(v)
            if hit:
                seen[hit[2]] = seen.get(hit[2], 0) + 1
            else:
                bad.append(v)
        for what, n in seen.items():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, what))
        bad.sort(key=lambda v: (v["suite"], v["event"]))
        for v in bad[:5]:
            v["replay"] = self.replay_file(v)
        other = {}
        for v in self.viol:
            if not self.accepted(v):
                k = "%s/%s" % (v["prop"], v["rule"])
                other[k] = other.get(k, 0) + 1
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.cfg.get("level", "model_checking"),
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                           "events_validated": self.events, "models": self.models, "suites": self.suites,
                           "situations_reached": self.cov, "other_rules_broken": other,
                           "samples": self.samples,
                           "exhaustive": False},
              "assumptions": self.cfg.get("assumptions", []),
              "wall_s": round(time.time() - self.t0, 1), "violations": len(bad)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d histories, %d events, %d states, %d models, %.1f s" %
              (self.pid, self.tier, self.traces, self.events, self.states, len(self.models), time.time() - self.t0))
        for v in bad[:5]:
            print("  %s %s/%s event %d (%s)" % (v["case"], v["prop"], v["rule"], v["event"], v["variant"]))
        if bad:
            print("VIOLATION property=%s replay=%s" % (self.pid, bad[0]["replay"]))
            return 1
        shutil.rmtree(self.work, ignore_errors=True)
        return 0


def replay(suite, case, variant):
    """shows one history again (from the sources as they are now)"""
    build([variant])
    _, seed, i = case.rsplit("-", 2)
    s, stim = SUITES[suite], None
    scratch = tempfile.mkdtemp(prefix="vharness-")
    try:
        if "stim" in s:
            stim = os.path.join(scratch, "stim")
            tlc(s["stim"]["module"], s["stim"]["cfg"], scratch, heap="4g", env={"STIM": stim, "SEED": seed, **s["stim"].get("env", {})}, extra=s["stim"].get("extra", ()))
        return subprocess.call([binary(variant), "show-" + s["cmd"], suite, seed, i], env=environment(variant, os.path.join(scratch, "s"), stim))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a and a[0] == "setup":
        build(sorted({v for s in SUITES.values() for v in s["variants"]}))
        return 0
    if a and a[0] == "replay":
        return replay(*a[1:4])
    global TIER
    pid, tier = a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    TIER = tier
    try:
        return Check(pid, tier).run()
    except NoAnswer as e:
        print("no answer for %s: %s" % (pid, e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
