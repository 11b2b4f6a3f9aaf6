"""C17: schedules of small concurrent programs, decided by spec/Conc.tla, and
the same calls running freely under the race detector."""
import json, os, re, time
from check import SHARDS, Broken


def linearize(c, work, stats):
    d = c.spec_dir("spec-conc-" + os.path.basename(work))
    procs = []
    for i in range(SHARDS):
        if stats["states"][i] == 0:
            continue
        with open(os.path.join(d, "C%d.cfg" % i), "w") as f:
            f.write('SPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n'
                    'CONSTANT File = "%s/trace%d.ndjson"\n' % (work, i))
        out = os.path.join(d, "out%d.txt" % i)
        procs.append((i, out, c.tlc(d, "Conc.tla", "C%d.cfg" % i, out)))
    for i, out, p in procs:
        rc = p.wait()
        text = open(out, errors="replace").read()
        n = c.tlc_counts(text)
        if rc != 0 or n is None:
            raise Broken("TLC failed on concurrent histories (rc %s):\n%s" % (rc, text[-6000:]))
        c.cov["states"] += n[1]
        c.cov["transitions"] += n[0]
        lin = set(int(x) for x in re.findall(r'^"LIN (\d+)"$', text, re.M))
        for k, l in enumerate(open(os.path.join(work, "trace%d.ndjson" % i))):
            case = json.loads(l)
            if case["id"] in lin:
                c.cov["traces_validated_against_impl"] += 1
                if k == 3 and len(c.cov["samples"]) < 3:
                    c.cov["samples"].append({x: case[x] for x in ("o", "evs", "sched")})
            else:
                report(c, "not atomic", case)
    for l in open(os.path.join(work, "panics.ndjson")):
        case = json.loads(l)
        report(c, case["kind"], case, detail=case.get("what"))


def report(c, kind, case, **info):
    case["steps"] = sorted(case["evs"] or [], key=lambda e: e["inv"])
    c.violate(kind, case, **info)


def run(c):
    scale = c.cfg["scale"][1 if c.tier == "thorough" else 0]
    work = os.path.join(c.dir, "ctl")
    st = c.drive(work, ["conc", "-mode", "ctl", "-seed", str(c.seed), "-scale", str(scale)])
    if st:
        c.cov["schedules"] = dict(controlled=getattr(c, "controlled", False), programs=st["programs"],
                                  programs_with_every_schedule=st["complete"], schedules_run=st["runs"],
                                  different_histories=st["cases"])
        linearize(c, work, st)
    if c.violations:
        return
    work = os.path.join(c.dir, "race")
    st = c.drive(work, ["conc", "-mode", "race", "-seed", str(c.seed), "-scale", str(scale)], race=True)
    if st:
        c.cov["race_detector"] = st


def replay(c, v, path):
    """The same program and schedule again (freely many times after a race)."""
    work = os.path.join(c.dir, "replay")
    os.makedirs(work)
    infile = os.path.join(work, "in.json")
    with open(infile, "w") as f:
        json.dump(v["case"], f)
    if v["kind"] in ("data race", "crash"):
        c.drive(work, ["conc", "-mode", "race", "-in", infile], race=True)
        return
    st = c.drive(work, ["conc", "-mode", "ctl", "-in", infile])
    if st:
        linearize(c, work, st)
