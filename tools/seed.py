#!/usr/bin/env python3
"""Plants a bug: seed.py add SPEC.py... makes seeded/<id>/ from edits and a demonstration and confirms it;
seed.py confirm ID...; seed.py run ID... [--tier T] applies the patch to /repo, runs the check of its property and undoes it."""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(V, "seeded")
REPO = "/repo"
DEMO = r'''#!/bin/bash
# run in the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d); trap 'rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off GOPROXY=off
mkdir "$tmp/demo"; cp "$here/demo.go" "$tmp/demo/main.go"; cp "$repo/go.sum" "$tmp/demo/go.sum"
printf 'module demo\n\ngo 1.21\n\nrequire github.com/HannesKimara/cddlc v0.0.0\n\nreplace github.com/HannesKimara/cddlc => %s\n' "$repo" > "$tmp/demo/go.mod"
(cd "$tmp/demo" && go build -buildvcs=false RACE -o "$tmp/prog" .) || exit 3
cd "$tmp" && timeout 120 "$tmp/prog"
'''
CLI = r'''#!/bin/bash
# run in the repository; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
tmp=$(mktemp -d); trap 'chmod -R u+rwx "$tmp"; rm -rf "$tmp"' EXIT
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOTOOLCHAIN=local GOWORK=off GOPROXY=off
go build -buildvcs=false -o "$tmp/cddlc" ./cmd/cddlc || exit 3
cddlc=$tmp/cddlc; mkdir "$tmp/w"; cd "$tmp/w"
fail() { echo "FAIL: $*"; exit 1; }
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def confirm(sid):
    d = os.path.join(SEEDED, sid)
    tmp = tempfile.mkdtemp(prefix="seed-")
    try:
        w = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", REPO, w], "/")
        demo = os.path.join(tmp, "elsewhere")
        shutil.copytree(d, demo)
        p = sh(["bash", os.path.join(demo, "demo.sh")], w, timeout=300)
        if p.returncode != 0:
            return f"demo fails without the change ({p.returncode}): {p.stdout[-500:]}{p.stderr[-500:]}"
        p = sh(["git", "apply", os.path.join(d, "patch.diff")], w)
        if p.returncode:
            return "does not apply: " + p.stderr
        p = sh(["go", "vet", "./..."], w)
        p = sh(["go", "build", "-buildvcs=false", "./..."], w)
        if p.returncode:
            return "does not build: " + p.stderr
        p = sh(["go", "test", "-vet=off", "./..."], w)
        if p.returncode:
            return "tests fail: " + p.stdout[-1500:]
        p = sh(["bash", os.path.join(demo, "demo.sh")], w, timeout=300)
        if p.returncode in (0, 3):
            return f"demo says {p.returncode} with the change: {p.stdout[-800:]}{p.stderr[-800:]}"
        # only lines of the original repository
        base = sh(["git", "rev-list", "--max-parents=0", "HEAD"], REPO).stdout.split()[-1][:7]
        old = 0
        f = None
        for line in open(os.path.join(d, "patch.diff")):
            if line.startswith("--- a/"):
                f = line[6:].strip()
            m = re.match(r"@@ -(\d+)", line)
            if m:
                n = int(m.group(1))
                continue
            if f and not line.startswith(("---", "+++", "diff", "index", "+", "\\")):
                if line.startswith("-"):
                    b = sh(["git", "blame", "-s", "-L", f"{n},{n}", f], REPO).stdout
                    if base not in b.split()[0]:
                        return f"changes a line of ours: {f}:{n} {line.strip()}"
                    old += 1
                n += 1
        if old == 0:
            print("   note: changes no original line")
        return None
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def add(spec):
    for s in spec:
        d = os.path.join(SEEDED, s["id"])
        tmp = tempfile.mkdtemp(prefix="seed-")
        w = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", REPO, w], "/")
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            if t.count(old) != 1:
                sys.exit(f"{s['id']}: {t.count(old)} places in {f} for {old!r}")
            open(p, "w").write(t.replace(old, new))
        diff = sh(["git", "diff"], w).stdout
        shutil.rmtree(tmp)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "go" in s:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("RACE ", "-race " if s.get("race") else ""))
            open(os.path.join(d, "demo.go"), "w").write(s["go"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(CLI + s["sh"])
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        why = confirm(s["id"])
        print(s["id"], "ok" if why is None else "NOT CONFIRMED: " + why)
        if why:
            shutil.rmtree(d)


def run1(sid, tier, prop=None):
    d = os.path.join(SEEDED, sid)
    prop = prop or json.load(open(os.path.join(d, "meta.json")))["property"]
    tmp = tempfile.mkdtemp(prefix="seedrun-")
    try:
        w = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", REPO, w], "/")
        p = sh(["git", "apply", os.path.join(d, "patch.diff")], w)
        if p.returncode:
            print(sid, "does not apply", flush=True)
            return
        p = sh([sys.executable, os.path.join(V, "driver/check.py"), prop], V,
               env=dict(os.environ, VERIF_TIER=tier, VERIF_DEV_REPO=w, VERIF_DEV_OUT=os.path.join(tmp, "out")))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    hit = f"VIOLATION property={prop} " in p.stdout
    lines = p.stdout.strip().splitlines() or [p.stderr[-300:]]
    why = next((lines[i + 1] for i, l in enumerate(lines) if l.startswith("VIOLATION")), "")
    print(sid, prop, "CAUGHT" if p.returncode == 1 and hit else f"MISSED (exit {p.returncode})", "|", lines[-1], "|", why[:200], flush=True)


def run(ids, tier, width=2):
    """Runs the check of each bug's property on a scratch copy with the bug."""
    with concurrent.futures.ThreadPoolExecutor(width) as ex:
        list(ex.map(lambda i: run1(i, tier), ids))


if __name__ == "__main__":
    cmd, args = sys.argv[1], sys.argv[2:]
    tier = "quick"
    if "--tier" in args:
        i = args.index("--tier")
        tier = args[i + 1]
        del args[i:i + 2]
    if cmd == "add":
        for a in args:
            g = {}
            exec(open(a).read(), g)
            add(g["SEEDS"])
    elif cmd == "confirm":
        for a in args or sorted(os.listdir(SEEDED)):
            why = confirm(a)
            print(a, "ok" if why is None else "NOT CONFIRMED: " + why, flush=True)
    elif cmd == "run":
        run(args or sorted(os.listdir(SEEDED)), tier)
