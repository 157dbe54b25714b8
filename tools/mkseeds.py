"""Writes /verif/seeded/<id>/ from the descriptions below (development aid; no check reads either)."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
HELP = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seed_help.go.txt")

DEMO = '''#!/bin/bash
# exit 0: the property held in this demonstration; run with cwd = the repository
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=${GOCACHE:-/root/.cache/go-build} GOMODCACHE=/root/go/pkg/mod
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
T=$(mktemp -d /tmp/demo.XXXXXX)
cat >"$T/overlay.json" <<EOF
{"Replace": {"$R/%(dir)s/zz_demo_test.go": "$D/demo_test.go.txt", "$R/%(dir)s/zz_help_test.go": "$D/help_test.go.txt"}}
EOF
go test -count=1 -vet=off -overlay "$T/overlay.json" -run '^TestZZDemo$' ./%(dir)s
RC=$?
rm -f "$T/overlay.json"; rmdir "$T"
exit $RC
'''
SEEDS = []


def seed(id, prop, file, reps, needs, breaks, demo, dir="float", imports=()):
    SEEDS.append(dict(id=id, prop=prop, file=file, reps=reps, needs=needs, breaks=breaks, demo=demo, dir=dir, imports=imports))


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedlist.py")).read())


def main():
    only = sys.argv[1:]
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        d = os.path.join(ROOT, s["id"])
        os.makedirs(d, exist_ok=True)
        with tempfile.TemporaryDirectory(prefix="mkseed.") as t:
            files = s["file"] if isinstance(s["file"], list) else [s["file"]] * len(s["reps"])
            subprocess.run(["git", "-C", "/repo", "worktree", "prune"], check=True)
            for f in set(files):
                os.makedirs(os.path.join(t, os.path.dirname(f)), exist_ok=True)
                shutil.copy("/repo/" + f, os.path.join(t, f))
            subprocess.run(["git", "init", "-q", t], check=True)
            subprocess.run(["git", "-C", t, "add", "."], check=True)
            for f, (old, new) in zip(files, s["reps"]):
                p = os.path.join(t, f)
                txt = open(p).read()
                if txt.count(old) < 1:
                    sys.exit("%s: text not found: %r" % (s["id"], old))
                if txt.count(old) > 1:
                    sys.exit("%s: text %d times: %r" % (s["id"], txt.count(old), old))
                open(p, "w").write(txt.replace(old, new))
            diff = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        pk = s["dir"].split("/")[-1]
        pkg = {"float": "float_test", "loc2index32": "loc2index64", "proximity": "main"}.get(pk, pk)
        h = open(HELP).read().replace("package PKG", "package " + pkg)
        open(os.path.join(d, "help_test.go.txt"), "w").write(h)
        body = s["demo"]
        imps = ["testing"] + list(s["imports"])
        known = {"float.": "github.com/tumberger/zk-Location/float", "gadget.": "github.com/tumberger/zk-Location/gadget",
                 "hint.": "github.com/tumberger/zk-Location/hint", "util.": "github.com/tumberger/zk-Location/util",
                 "frontend.": "github.com/consensys/gnark/frontend", "big.": "math/big"}
        import re
        for k, v in known.items():
            if re.search(r"\b" + re.escape(k), body) and (v.split("/")[-1] != pk or pk == "float") and v not in imps:
                imps.append(v)
        src = "package %s\n\nimport (\n%s)\n\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n" % (pkg, "".join('\t"%s"\n' % i for i in imps), body.strip("\n"))
        open(os.path.join(d, "demo_test.go.txt"), "w").write(src)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write(DEMO % dict(dir=s["dir"]))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, f, indent=1)
        print(s["id"])


main()
