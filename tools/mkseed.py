#!/usr/bin/env python3
"""Create and confirm a seeded change: mkseed.py SPEC.py...
A spec defines id, prop, needs, breaks, edits=[(file, old, new)...], dir, demo
(Go test code with TestDemo)."""
import sys, os, json, subprocess, shutil, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = ". /opt/vp/env.sh; "
DEMO_SH = '''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s/%(dir)s/zz_seed_demo_test.go":"%%s/demo_test.go"}}' "$PWD" "$here" > "$tmp/o.json"
go test %(flags)s-overlay "$tmp/o.json" -vet=off -count=1 -timeout 250s -run '^TestDemo$' ./%(dir)s
'''
def sh(cmd, cwd):
    return subprocess.run(["bash", "-c", ENV + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
def main():
    for spec in sys.argv[1:]:
        ns = {}
        exec(open(spec).read(), ns)
        out = os.path.join(ROOT, "seeded", ns["id"])
        os.makedirs(out, exist_ok=True)
        wt = tempfile.mkdtemp(prefix="seedwt.")
        try:
            sh("git clone -q %s %s/r" % (os.environ.get("SEEDREPO", "/repo"), wt), "/")
            r = wt + "/r"
            open(out + "/demo_test.go", "w").write(ns["demo"])
            open(out + "/demo.sh", "w").write(DEMO_SH % dict(dir=ns["dir"], flags=ns.get("flags", "")))
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(out + "/meta.json", "w"), indent=1)
            clean = sh("bash %s/demo.sh" % out, r)
            for f, old, new in ns["edits"]:
                s = open(r + "/" + f).read()
                if s.count(old) != 1:
                    print(ns["id"], "EDIT DOES NOT APPLY ONCE:", f, s.count(old), repr(old)); break
                open(r + "/" + f, "w").write(s.replace(old, new))
            else:
                sh("gofmt -l .", r)
                d = sh("git diff", r).stdout
                open(out + "/patch.diff", "w").write(d)
                t = sh("go build ./... && go vet ./%s >/dev/null 2>&1; go test ./... 2>&1 | grep -v '^ok\\|no test files'" % ns["dir"], r)
                bad = sh("bash %s/demo.sh" % out, r)
                ok = clean.returncode == 0 and bad.returncode != 0 and not t.stdout.strip()
                print(ns["id"], "OK" if ok else "BAD", "clean", clean.returncode, "patched", bad.returncode)
                if not ok:
                    print(t.stdout[-3000:]); print(clean.stdout[-1500:]); print(bad.stdout[-1500:])
                else:
                    print("   ", [l for l in bad.stdout.splitlines() if l.strip()][:4])
        finally:
            shutil.rmtree(wt)
main()
