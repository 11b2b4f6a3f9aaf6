#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from the list in tools/bugs.py and confirms each
change in a scratch copy of /repo: it builds, the stable tests pass, the
demonstration passes without it and fails with it.  plant.py [ID...]"""
import json, os, re, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from bugs import BUGS
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")

DEMO_SH = r'''#!/bin/bash
# exit 0: the property held; run with cwd = the repository
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 3
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/ini" "$tmp/demo"
for f in *.go; do case "$f" in *_test.go) ;; *) cp "$f" "$tmp/ini/";; esac; done
v=$(sed -n 's/^go //p' go.mod 2>/dev/null | head -1)
printf 'module github.com/go-ini/ini\n\ngo %s\n' "${v:-1.21}" > "$tmp/ini/go.mod"
printf 'module demo\n\ngo %s\n\nrequire github.com/go-ini/ini v0.0.0\n\nreplace github.com/go-ini/ini => ../ini\n' "${v:-1.21}" > "$tmp/demo/go.mod"
cp "$here/demo.go.txt" "$tmp/demo/main.go"
cd "$tmp/demo" || exit 3
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off
go build @RACE@-o demo . || exit 4
timeout 60 ./demo
'''
GO = '''package main

import (
%s
	"github.com/go-ini/ini"
)

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf("BROKEN: "+format+"\\n", args...)
		os.Exit(1)
	}
}

func load(o ini.LoadOptions, text string) *ini.File {
	f, err := ini.LoadSources(o, []byte(text))
	check(err == nil, "load: %%v", err)
	return f
}

func save(f *ini.File) string {
	var b bytes.Buffer
	_, err := f.WriteTo(&b)
	check(err == nil, "write: %%v", err)
	return b.String()
}

var _ = strings.Repeat
var _ = reflect.DeepEqual

%s
func main() {
%s
}
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, errors="replace", **kw)

def stable(cwd_out):
    base = json.load(open("/opt/vp/BASELINE.json"))
    return base

def tests_pass(repo):
    """The stable tests in a copy."""
    r = sh(["go", "test", "-json", "./..."], repo, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
    res = {}
    for l in r.stdout.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get("Action") in ("pass", "fail", "skip") and e.get("Test"):
            res[e["Test"]] = e["Action"]
    return r.returncode == 0, [t for t, a in res.items() if a == "fail"], len(res)

def original(repo, diff):
    """How many of the lines it removes are the original repository's."""
    first = sh(["git", "rev-list", "--max-parents=0", "HEAD"], repo).stdout.split()[-1]
    n, f = 0, None
    for l in diff.splitlines():
        if l.startswith("--- "): f = l[6:]; continue
        m = re.match(r"@@ -(\d+)", l)
        if m: at = int(m.group(1)); continue
        if f is None or l.startswith(("+", "\\", "diff", "index")): continue
        if l.startswith("-") and l[1:].strip():
            b = sh(["git", "blame", "-l", "-s", "-L", "%d,%d" % (at, at), "HEAD", "--", f], repo).stdout
            n += b.lstrip("^").startswith(first[:30])
        at += 1
    return n

def main():
    want = sys.argv[1:]
    for b in BUGS:
        if want and b["id"] not in want: continue
        d = os.path.join(SEEDED, b["id"])
        tmp = tempfile.mkdtemp(prefix="plant-")
        repo = os.path.join(tmp, "repo")
        try:
            sh(["cp", "-a", "/repo", repo], "/")
            sh(["git", "checkout", "-q", "--", "."], repo)
            bad = None
            for f, old, new in b["edits"]:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "%s: %d matches of %r" % (f, s.count(old), old[:60]); break
                open(p, "w").write(s.replace(old, new))
            if bad:
                print(b["id"], "EDIT", bad); continue
            fm = sh(["gofmt", "-l", "."], repo).stdout.strip()
            diff = sh(["git", "diff"], repo).stdout
            os.makedirs(d, exist_ok=True)
            for x in os.listdir(d): os.remove(os.path.join(d, x))
            open(os.path.join(d, "patch.diff"), "w").write(diff)
            imports = "".join('\t"%s"\n' % i for i in sorted({"bytes", "fmt", "os", "reflect", "strings"} | set(b.get("imports", []))))
            open(os.path.join(d, "demo.go.txt"), "w").write(GO % (imports, b.get("decls", ""), b["demo"].strip("\n")))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH.replace("@RACE@", "-race " if b.get("race") else ""))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]),
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            ok, fails, n = tests_pass(repo)
            d0 = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
            d1 = sh(["bash", os.path.join(d, "demo.sh")], repo)
            orig = original(repo, diff)
            good = ok and orig > 0 and d0.returncode == 0 and d1.returncode not in (0, 3, 4) and not fm
            print(b["id"], "ok" if good else "REJECT", "tests", ok, n, fails[:4], "demo", d0.returncode, d1.returncode, fm, "original lines", orig,
                  "" if good else (d0.stdout + d0.stderr)[-600:] + " | " + (d1.stdout + d1.stderr)[-600:], flush=True)
            if not good:
                aside = os.path.join("/tmp/nb", b["id"])  # still something to look for
                shutil.rmtree(aside, ignore_errors=True)
                if ok and d0.returncode == 0 and d1.returncode not in (0, 3, 4):
                    shutil.move(d, aside)
                else:
                    shutil.rmtree(d)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
main()
