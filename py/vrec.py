"""Builds and drives the Go recorder/replayer from /repo's current tree."""
import json
import os
import re
import subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(VERIF, "build")
REPO = "/repo"


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"))
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    return e


class BuildError(Exception):
    pass


MISSING = "verif: no function of this form"


def gobuild(flags, out, cmd):
    return subprocess.run(["go", "build"] + flags + ["-o", out, "./cmd/" + cmd], cwd=os.path.join(VERIF, "go"), env=goenv(),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def stub(text, line):
    """the overlay text with a panic instead of the call on this line"""
    ls = text.split("\n")
    i = line - 1
    if "{" in ls[i] and "return" in ls[i]:
        ls[i] = ls[i][:ls[i].rindex("{")] + '{ panic("%s") }' % MISSING
    else:
        ls[i] = '\tpanic("%s")' % MISSING
    return "\n".join(ls)


def build(cmd="vrec", loc=False):
    """loc: with exported names for the unexported functions of the location packages (build overlay)"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s.%d%s" % (cmd, os.getpid(), "l" if loc else ""))
    flags = []
    if not loc:
        r = gobuild(flags, out, cmd)
    else:
        tmp = []
        texts = {n: open(os.path.join(VERIF, "go/overlay/loc_export.go.txt")).read() for n in (32, 64)}
        for _ in range(3):
            ov = out + ".overlay.json"
            tmp = [ov] + ["%s.exp%d.go" % (out, n) for n in (32, 64)]
            for n in (32, 64):
                with open("%s.exp%d.go" % (out, n), "w") as f:
                    f.write(texts[n])
            with open(ov, "w") as f:
                json.dump(dict(Replace={"%s/loc2index%d/zz_verif_export.go" % (REPO, n): "%s.exp%d.go" % (out, n) for n in (32, 64)}), f)
            r = gobuild(["-overlay", ov, "-tags", "loc"], out, cmd)
            for t in tmp:
                os.remove(t)
            # functions that have another name or form in this tree: without them (their tasks are undecided)
            bad = set(re.findall(r"\.exp(32|64)\.go:(\d+):", r.stdout.decode(errors="replace"))) if r.returncode else ()
            if not bad:
                break
            for n, l in bad:
                texts[int(n)] = stub(texts[int(n)], int(l))
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-3000:])
    return out


def compiles():
    """does the library itself build?"""
    return subprocess.run(["go", "build", "./..."], cwd=REPO, env=goenv(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0


class Vrec:
    def __init__(self, loc=False):
        self.bin = build("vrec", loc)

    def close(self):
        try:
            os.remove(self.bin)
        except OSError:
            pass

    def run(self, jobs, timeout=300):
        r = subprocess.run([self.bin], input=json.dumps(jobs).encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           env=goenv(), timeout=timeout)
        if r.returncode:
            raise BuildError("vrec exited with %d" % r.returncode)
        out = [json.loads(l) for l in r.stdout.decode().splitlines()]
        if len(out) != len(jobs):
            raise BuildError("vrec gave %d results for %d jobs" % (len(out), len(jobs)))
        return out
