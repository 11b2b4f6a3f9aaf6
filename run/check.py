#!/usr/bin/env python3
"""One check: check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]

Builds the driver together with the library from /repo's working tree, lets it
execute the histories of the property on the real code, and has TLC decide
whether each recorded history is a behaviour of the specification in spec/.
The models of the property (spec/MC_*.tla) are checked too, and the histories
they print are executed and decided in the same way.

Exit 0: held on everything explored.  1: VIOLATION.  2: the check itself failed.
"""
import argparse, glob, json, os, re, resource, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import tlaval
from props import PROPS

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SHARDS = 8
# Development only: another tree and another place for results.
REPO = os.environ.get("VERIF_DEV_REPO") or "/repo"
OUT = os.environ.get("VERIF_DEV_OUT") or VERIF


class Broken(Exception):
    pass


def go_env():
    env = dict(os.environ)
    goroot = "/opt/veriftools/go1.27.3"
    if os.path.isdir(goroot):
        env["GOROOT"] = goroot
        env["PATH"] = goroot + "/bin:" + env.get("PATH", "/usr/bin:/bin")
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GO111MODULE="on", GOWORK="off")
    return env


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = PROPS[prop]
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix="iniverif-")
        self.violations, self.known = [], []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.cov.update(cases_by_kind={}, models=[])

    # -- building ---------------------------------------------------------
    def build(self):
        ini = os.path.join(self.dir, "ini")
        for root, dirs, files in os.walk(REPO):
            dirs[:] = [d for d in dirs if not d.startswith(".") and d not in ("testdata", "vendor")]
            for f in files:
                if f.endswith(".go") and not f.endswith("_test.go"):
                    to = os.path.join(ini, os.path.relpath(root, REPO))
                    os.makedirs(to, exist_ok=True)
                    shutil.copy(os.path.join(root, f), to)
        # The lock types of the copy can be replaced by ones under control.
        shutil.copytree(os.path.join(VERIF, "harness", "vsync"), os.path.join(ini, "vsync"))
        gover = "1.21"
        for m in (REPO + "/go.mod", "/opt/vp/gomod/go.mod"):
            if os.path.exists(m):
                g = re.search(r"^go (\S+)", open(m).read(), re.M)
                gover = g.group(1) if g else gover
                break
        with open(os.path.join(ini, "go.mod"), "w") as f:
            f.write("module github.com/go-ini/ini\n\ngo %s\n" % gover)
        har = os.path.join(self.dir, "harness")
        os.makedirs(har)
        for f in glob.glob(os.path.join(VERIF, "harness", "*.go")):
            shutil.copy(f, har)
        with open(os.path.join(har, "go.mod"), "w") as f:
            f.write("module inidriver\n\ngo %s\n\nrequire github.com/go-ini/ini v0.0.0\n\n"
                    "replace github.com/go-ini/ini => ../ini\n" % gover)
        self.drivers = {}
        for race in ([False, True] if self.cfg.get("race") else [False]):
            out = os.path.join(self.dir, "driver-race" if race else "driver")
            cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
            undo = self.control_locks(ini) if self.cfg.get("ctl") and not race else {}
            r = subprocess.run(cmd, cwd=har, env=go_env(), capture_output=True, text=True)
            if undo:
                self.controlled = r.returncode == 0
                for f, text in undo.items():
                    open(f, "w").write(text)
                if not self.controlled:
                    r = subprocess.run(cmd, cwd=har, env=go_env(), capture_output=True, text=True)
            if r.returncode:
                raise Broken("driver does not build:\n" + r.stdout + r.stderr)
            self.drivers[race] = out

    @staticmethod
    def control_locks(ini):
        """Replaces package sync in the copy; returns the files as they were."""
        was = {}
        for f in glob.glob(os.path.join(ini, "*.go")):
            text = open(f).read()
            new = re.sub(r'^(\s*(?:import\s+)?)(\w+\s+)?"sync"', lambda m: m.group(1) + (m.group(2) or "sync ")
                         + '"github.com/go-ini/ini/vsync"', text, flags=re.M)
            if new != text:
                was[f] = text
                open(f, "w").write(new)
        return was

    # -- driving the real code --------------------------------------------
    def drive(self, work, args, race=False, timeout=None):
        """Runs the driver; returns its statistics, or None after a crash that
        was recorded as a violation."""
        os.makedirs(work, exist_ok=True)
        cmd = [self.drivers[race]] + args + ["-out", work, "-shards", str(SHARDS)]
        lim = None if race else (lambda: resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30)))
        log = os.path.join(work, "driver.err")
        env = dict(os.environ, GORACE="halt_on_error=1 exitcode=66")
        with open(log, "w") as err:
            try:
                r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=err, text=True, preexec_fn=lim, timeout=timeout, env=env)
            except subprocess.TimeoutExpired:
                raise Broken("driver did not finish in time")
        if r.returncode == 0:
            return json.loads(r.stdout.strip().splitlines()[-1])
        what = open(log, errors="replace").read()
        if r.returncode == 4:
            raise Broken("driver: " + what[-2000:])
        last = os.path.join(work, "current.json")
        case = json.load(open(last)) if os.path.exists(last) else None
        if case is None:
            raise Broken("driver ended with %s:\n%s" % (r.returncode, what[-2000:]))
        kind = "hang" if r.stdout.startswith("HANG") else "crash"
        if kind == "crash" and race and "DATA RACE" in what:
            kind = "data race"
        if kind == "crash" and not re.search(r"fatal error:|^panic:|SIGSEGV|runtime error|stack overflow", what, re.M):
            raise Broken("driver ended with %s:\n%s" % (r.returncode, what[-2000:]))
        if "driver: " in what and "panic: driver: " in what:
            raise Broken("driver: " + what[-2000:])
        self.violate(kind, case, detail=what[:3000])
        return None

    # -- TLC ----------------------------------------------------------------
    def spec_dir(self, name):
        d = os.path.join(self.dir, name)
        os.makedirs(d, exist_ok=True)
        for f in glob.glob(os.path.join(VERIF, "spec", "*.tla")):
            shutil.copy(f, d)
        return d

    def tlc(self, d, module, cfg, out, workers=1, mem="3g", extra=()):
        meta = tempfile.mkdtemp(dir=d)
        cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:TieredStopAtLevel=1" if workers == 1 else "-XX:+UseParallelGC",
               "-XX:+UseSerialGC" if workers == 1 else "-XX:ParallelGCThreads=4", "-Xss200m", "-Xmx" + mem, "-Djava.io.tmpdir=" + self.dir,
               "-cp", JAR, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-config", cfg] + list(extra) + [module]
        return subprocess.Popen(cmd, cwd=d, stdout=open(out, "w"), stderr=subprocess.STDOUT)

    @staticmethod
    def tlc_counts(text):
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", text)
        return (int(m[-1][0]), int(m[-1][1])) if m else None

    def validate(self, work, stats, label):
        """TLC decides the recorded histories in work/trace*.ndjson."""
        self.cov["cases_by_kind"][label] = stats["cases"]
        d = self.spec_dir("spec-" + os.path.basename(work))
        procs = []
        for i in range(SHARDS):
            if stats["states"][i] == 0:
                continue
            with open(os.path.join(d, "T%d.cfg" % i), "w") as f:
                f.write('SPECIFICATION Spec\nVIEW Vw\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'
                        'CONSTANT File = "%s/trace%d.ndjson"\n' % (work, i))
            out = os.path.join(d, "out%d.txt" % i)
            procs.append((i, out, self.tlc(d, "Trace.tla", "T%d.cfg" % i, out)))
        bad = {}
        ok_all = True
        states = gen = 0
        for i, out, p in procs:
            rc = p.wait()
            text = open(out, errors="replace").read()
            c = self.tlc_counts(text)
            miss = re.findall(r'^"MISMATCH (\d+) (\d+) (\S+) (.*)"$', text, re.M)
            for m in miss:
                bad.setdefault(int(m[0]), (int(m[1]), m[2], m[3]))
            inv = re.search(r"Invariant (\w+) is violated", text)
            if inv:
                cid = re.findall(r"cid = (\d+)", text)
                if not cid:
                    raise Broken("TLC: " + text[-2000:])
                line = open(os.path.join(work, "trace%d.ndjson" % i)).read().splitlines()[int(cid[-1]) - 1]
                bad.setdefault(json.loads(line)["id"], (0, "invariant", inv.group(1)))
                ok_all = False
                continue
            if c is None or rc != 0:
                if miss:
                    continue
                raise Broken("TLC failed on %s (rc %s):\n%s" % (label, rc, text[-12000:]))
            gen += c[0]
            states += c[1]
            # completeness: every history was followed to its end
            if c[1] + len(miss) < stats["states"][i] and not miss:
                raise Broken("TLC saw %d of %d states in shard %d" % (c[1], stats["states"][i], i))
        self.cov["states"] += states
        self.cov["transitions"] += sum(stats["states"]) - stats["cases"] + stats.get("panics", 0)
        cases = {}
        want = set(bad)
        kept = []
        for i in range(SHARDS):
            with open(os.path.join(work, "trace%d.ndjson" % i)) as f:
                for n, l in enumerate(f):
                    if want or (n == 7 and i == 0) or (n == 0 and i == 3):
                        m = re.match(r'\{"id":(\d+)', l)
                        cid = int(m.group(1))
                        if cid in want:
                            cases[cid] = json.loads(l)
                        elif len(kept) < 2 and (n == 7 or n == 0):
                            kept.append(json.loads(l))
        self.cov["samples"] += kept[: max(0, 4 - len(self.cov["samples"]))]
        self.cov["traces_validated_against_impl"] += stats["cases"] - stats.get("panics", 0) - len(bad)
        for cid in sorted(bad):
            step, kind, exp = bad[cid]
            self.violate("mismatch", cases.get(cid, {"id": cid}), step=step, call=kind, expected=exp)
        for l in open(os.path.join(work, "panics.ndjson")):
            c = json.loads(l)
            self.violate("panic", c, step=len(c["steps"]), detail=c.get("panic"))

    def model(self, name, quick=None, thorough=None):
        """Checks the model MC_<name>; the histories it prints are executed.
        Constants of its configuration can be given for each tier."""
        d = self.spec_dir("model-" + name)
        cfg = os.path.join(VERIF, "spec", "MC_%s.cfg" % name)
        text = open(cfg).read()
        if self.tier == "thorough":
            t = os.path.join(VERIF, "spec", "MC_%s_thorough.cfg" % name)
            if os.path.exists(t):
                text = open(t).read()
        for k, v in ((thorough if self.tier == "thorough" else None) or quick or {}).items():
            text = re.sub(r"(?m)^(\s*%s\s*=\s*).*$" % k, lambda m: m.group(1) + v, text)
        with open(os.path.join(d, "M.cfg"), "w") as f:
            f.write(text)
        out = os.path.join(d, "out.txt")
        workers = 1 if "\\* one worker" in text else 8
        rc = self.tlc(d, "MC_%s.tla" % name, "M.cfg", out, workers=workers, mem="8g").wait()
        body = open(out, errors="replace").read()
        c = self.tlc_counts(body)
        if rc != 0 or c is None:
            raise Broken("model %s: %s" % (name, re.sub(r'^"CASE .*\n', "", body, flags=re.M)[-3000:]))
        self.cov["states"] += c[1]
        self.cov["transitions"] += c[0]
        cases = [l[6:-1] for l in body.splitlines() if l.startswith('"CASE ')]
        consts = dict(re.findall(r"(?m)^\s+(\w+)\s*=\s*(.*?)\s*$", text))
        self.cov["models"].append(dict(model=name, constants=consts, distinct_states=c[1], generated=c[0], histories=len(cases)))
        if not cases:
            return
        work = os.path.join(self.dir, "w-" + name)
        os.makedirs(work)
        infile = os.path.join(work, "in.ndjson")
        with open(infile, "w") as f:
            for i, l in enumerate(cases):
                l = re.sub(r"\\(.)", r"\1", l)
                f.write('{"id":%d,"tag":"model %s","steps":%s}\n' % (i + 1, name, l))
        st = self.drive(work, ["run", "-in", infile])
        if st:
            self.validate(work, st, "model " + name)

    # -- reporting -----------------------------------------------------------
    def violate(self, kind, case, **info):
        self.violations.append(dict(property=self.prop, kind=kind, case=case, **info))

    def known_findings(self):
        """Open findings of this property: what must be executed and shown."""
        path = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(path):
            return []
        return [k for k in json.load(open(path))["open"] if k["property"] == self.prop]

    def check_known(self):
        for n, k in enumerate(self.known_findings()):
            work = os.path.join(self.dir, "known%d" % n)
            os.makedirs(work)
            infile = os.path.join(work, "in.ndjson")
            with open(infile, "w") as f:
                f.write(json.dumps({"id": 1, "tag": "known", "steps": k["steps"]}) + "\n")
            before = self.violations
            self.violations = []
            cov = json.dumps(self.cov)
            st = self.drive(work, ["run", "-in", infile])
            if st:
                self.validate(work, st, "known")
            got, self.violations = self.violations, before
            self.cov = json.loads(cov)
            if not got:
                continue  # repaired meanwhile
            g = got[0]
            out = g["case"]["steps"][g["step"] - 1].get("out") if g.get("step") else None
            if g["kind"] == k["kind"] and g.get("step") == k["step"] and out == k["out"]:
                self.known.append("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
            else:
                self.violations += got

    def run(self):
        self.build()
        scale = self.cfg["scale"][1 if self.tier == "thorough" else 0]
        for m in self.cfg.get("models", []):
            self.model(*([m] if isinstance(m, str) else m))
            if self.violations:
                return
        rounds = self.cfg.get("rounds", (1, 3))[1 if self.tier == "thorough" else 0]
        if self.cfg.get("gen", True):
            for r in range(rounds):
                work = os.path.join(self.dir, "w%d" % r)
                st = self.drive(work, ["gen", "-prop", self.prop, "-seed", str(self.seed + 1000 * r), "-scale", str(scale)])
                if st is None:
                    break
                self.cov["distinct_histories"] = self.cov.get("distinct_histories", 0) + st["distinct"]
                self.validate(work, st, "generated round %d" % (r + 1))
                shutil.rmtree(work)
                if self.violations:
                    break
        if self.cfg.get("extra"):
            import importlib
            importlib.import_module(self.cfg["extra"]).run(self)
        self.check_known()

    def report(self):
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.cfg.get("level", "model_checking"),
                  coverage=self.cov, wall_s=round(time.time() - self.t0, 1), violations=len(self.violations),
                  assumptions=self.cfg.get("assumptions", []))
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
            f.write("\n")
        for k in self.known:
            print(k)
        if not self.violations:
            print("OK property=%s tier=%s traces=%d states=%d wall=%.1fs" % (
                self.prop, self.tier, self.cov["traces_validated_against_impl"], self.cov["states"], ev["wall_s"]))
            return 0
        rdir = os.path.join(OUT, "replays")
        os.makedirs(rdir, exist_ok=True)
        for n, v in enumerate(self.violations[:5]):
            path = os.path.join(rdir, "%s-%d-%d.json" % (self.prop, self.seed, n + 1))
            with open(path, "w") as f:
                json.dump(v, f, ensure_ascii=False)
            show(v)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        if len(self.violations) > 5:
            print("(%d violations)" % len(self.violations))
        return 1


def show(v):
    c = v["case"]
    print("-- %s in history %s (%s)" % (v["kind"], c.get("id"), c.get("tag", "")))
    steps = c.get("steps", [])
    last = v.get("step") or len(steps)
    for s in steps[:last]:
        s = dict(s)
        s.pop("out", None)
        print("   ", json.dumps(s, ensure_ascii=False)[:400])
    if v["kind"] == "mismatch" and last and steps:
        print("   got     ", json.dumps(steps[last - 1].get("out"), ensure_ascii=False)[:1500])
        try:
            e = json.dumps(tlaval.parse(re.sub(r"\\(.)", r"\1", v["expected"])), ensure_ascii=False)
        except Exception:
            e = str(v["expected"])
        print("   expected", e[:1500])
    elif v.get("detail"):
        print("   ", str(v["detail"])[:1500])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    c = Check(a.prop, a.tier, a.seed)
    try:
        if a.replay:
            c.build()
            v = json.load(open(a.replay))
            if "prog" in v["case"]:
                import conc
                conc.replay(c, v, a.replay)
                for x in c.violations:
                    show(x)
                    print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
                return 1 if c.violations else 0
            work = os.path.join(c.dir, "w")
            os.makedirs(work)
            infile = os.path.join(work, "in.ndjson")
            with open(infile, "w") as f:
                f.write(json.dumps(v["case"]) + "\n")
            st = c.drive(work, ["run", "-in", infile])
            if st:
                c.validate(work, st, "replay")
            for x in c.violations:
                show(x)
                print("VIOLATION property=%s replay=%s" % (a.prop, a.replay))
            return 1 if c.violations else 0
        c.run()
        return c.report()
    except Broken as e:
        print("CHECK FAILED:", e)
        return 2
    finally:
        if a.keep:
            print("kept", c.dir)
        else:
            shutil.rmtree(c.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.modules["check"] = sys.modules["__main__"]
    sys.exit(main())
